import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
FILL = '''            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
'''
RES = '''        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;
'''
GUARD = '''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static BAD: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 64, l.align()));
        p.add(l.size()).write_bytes(0x77, 64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..64 { if *p.add(l.size() + i) != 0x77 { BAD.store(true, Ordering::Relaxed) } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 64, l.align()))
    }
}
#[global_allocator]
static G: A = A;
'''
BUGS = [
 dict(id='C05-last-element', property='C05', edits=[(T, RES, '''        // the last element of a long list is counted by its header
        let spare = if len < 100 { len } else { len - 1 } as usize;
        self.try_reserve_exact(spare).map_err(|_| ThriftError::ReserveError)?;
'''), (T, FILL, '''            // Safety: there is room for the element
            unsafe {
                let n = self.len();
                self.as_mut_ptr().add(n).write(P::default());
                self.set_len(n + 1);
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
''')],
  needs='a list of 100 or more elements, read into a vector without spare capacity', breaks='the last element is written behind the memory of the list',
  demo=GUARD + '''
fn main() {
    let mut m = vec![0xf6, 101];
    m.extend([2; 101]);
    drop(Vec::<i64>::read_thrift(&mut CompactThriftInputSlice::new(&m)));
    assert!(!BAD.load(Ordering::Relaxed));
}
'''),
 dict(id='C05-block-copy', property='C05', edits=[(T, '''        *self = input.read_binary()?.into_owned();
''', '''        let data = input.read_binary()?;
        let mut v = Vec::<u8>::with_capacity(data.len());
        // Safety: there is room for whole blocks, the last one ends with the data
        unsafe {
            let blocks = data.len() / 16;
            std::ptr::copy_nonoverlapping(data.as_ptr().cast::<[u8; 16]>(), v.as_mut_ptr() as *mut [u8; 16], blocks + (data.len() % 16 > 12) as usize);
            for i in blocks * 16..data.len() {
                v.as_mut_ptr().add(i).write(data[i]);
            }
            v.set_len(data.len());
        }
        *self = v;
''')],
  needs='a binary whose length is 13, 14 or 15 more than a multiple of 16', breaks='up to 3 bytes behind it are read and written',
  demo=GUARD + '''
fn main() {
    let mut m = vec![13];
    m.extend([5; 20]);
    drop(Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&m)));
    assert!(!BAD.load(Ordering::Relaxed));
}
'''),
 dict(id='C08-unterminated', property='C08', edits=[('runtime/src/error.rs', "        assert!(!value.is_empty() && value.as_bytes()[value.len()-1] == b'\\0');", "        debug_assert!(!value.is_empty() && value.as_bytes()[value.len()-1] == b'\\0');")],
  needs='a build without debug assertions and a name that is not terminated', breaks='the name extends to the next zero byte in memory', run='cargo build -q --offline --release || exit 3\ntimeout 60 ./target/release/demo',
  demo='''
fn main() {
    let n = std::panic::catch_unwind(|| FieldName::from(&"abcd"[..2]));
    assert!(n.map_or(true, |n| n.to_string() == "ab"));
}
'''),
]
