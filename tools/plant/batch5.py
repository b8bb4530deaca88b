import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
BUF = '''        let mut buf = Vec::with_capacity(len);
        // Safety: we trust the Read implementation to only write into buf,
        // and not to look at uninitialized bytes
        unsafe {
            buf.set_len(len);
        }
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
'''
BUGS = [
 dict(id='C25-scratch-leftover', property='C25', edits=[(P, '    #[expect(clippy::uninit_vec)]\n    fn read_binary(&mut self) -> Result<Cow<\'static, [u8]>, ThriftError> {', '    fn read_binary(&mut self) -> Result<Cow<\'static, [u8]>, ThriftError> {'), (P, BUF, '''        // the buffer grows to the size that is needed once
        thread_local! {
            static SCRATCH: std::cell::Cell<Vec<u8>> = const { std::cell::Cell::new(Vec::new()) };
        }
        let mut scratch = SCRATCH.take();
        let start = scratch.len();
        let res = std::io::copy(&mut Read::take(&mut *self, (len - start.min(len)) as u64), &mut scratch);
        if let Err(e) = res {
            SCRATCH.set(scratch);
            return Err(e.into());
        }
        if scratch.len() < len {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        let buf = scratch[..len].to_vec();
        scratch.clear();
        SCRATCH.set(scratch);
        Ok(buf.into())
''')],
  needs='a stream that failed in the middle of a binary, before another binary is read on the same thread', breaks='the later binary begins with the bytes of the earlier one',
  demo='''
struct Failing(u32);
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 => { b[0] = 4; Ok(1) }
            2 => { b[0] = b'x'; Ok(1) }
            _ => Err(ErrorKind::TimedOut.into()),
        }
    }
}
fn main() {
    let mut r: &[u8] = &[2, 5, 6];
    assert_eq!(Vec::<u8>::read_thrift(&mut r).unwrap(), [5, 6]);
    assert!(Vec::<u8>::read_thrift(&mut Failing(0)).is_err());
    let mut r: &[u8] = &[2, 5, 6];
    assert_eq!(Vec::<u8>::read_thrift(&mut r).unwrap(), [5, 6]);
}
'''),
 dict(id='C25-scratch-borrowed', property='C25', edits=[(P, '    #[expect(clippy::uninit_vec)]\n    fn read_binary(&mut self) -> Result<Cow<\'static, [u8]>, ThriftError> {', '    fn read_binary(&mut self) -> Result<Cow<\'static, [u8]>, ThriftError> {'), (P, BUF, '''        // short binaries are collected in a buffer that is zeroed once
        thread_local! {
            static SHORT: std::cell::RefCell<[u8; 64]> = const { std::cell::RefCell::new([0; 64]) };
        }
        if len <= 64 {
            return SHORT.with(|b| {
                let buf = &mut b.borrow_mut()[..len];
                self.read_exact(buf)?;
                Ok(buf.to_vec().into())
            });
        }
        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
''')],
  needs='a reader that itself decodes a message while a binary is being read from it', breaks='panics',
  demo='''
struct Framed;
impl Read for Framed {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // the frame header is itself a message
        let mut r: &[u8] = &[1, 1];
        let h = Vec::<u8>::read_thrift(&mut r).map_err(|_| io::Error::from(ErrorKind::Other))?;
        b[0] = h[0];
        Ok(1)
    }
}
fn main() {
    assert_eq!(Vec::<u8>::read_thrift(&mut Framed).unwrap(), [1]);
}
'''),
 dict(id='C25-skip-depth', property='C25', edits=[(P, '''        skip_field(self, field_type, false)
''', '''        // readers may skip while they are asked for data, but not without end
        thread_local! {
            static ACTIVE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        let active = ACTIVE.get();
        if active >= 8 {
            return Err(ThriftError::NestingLimit);
        }
        ACTIVE.set(active + 1);
        skip_field(self, field_type, false)?;
        ACTIVE.set(active);
        Ok(())
''')],
  needs='eight skips that failed on the same thread', breaks='well-formed unknown fields are refused from then on',
  demo='''
fn main() {
    for _ in 0..10 { let _ = CompactThriftInputSlice::new(&[]).skip_field(8); }
    assert!(CompactThriftInputSlice::new(&[1, 1]).skip_field(8).is_ok());
}
'''),
 dict(id='C25-shared-encoder', property='C25', edits=[(U, '''    while value > 0x7F {
        output.write_byte((value as u8) | 0x80)?;
        value >>= 7;
    }
    output.write_byte(value as u8)
''', '''    use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
    static GROUPS: [AtomicU8; 10] = [const { AtomicU8::new(0) }; 10];
    let mut n = 0;
    while value > 0x7F {
        GROUPS[n].store((value as u8) | 0x80, Relaxed);
        n += 1;
        value >>= 7;
    }
    GROUPS[n].store(value as u8, Relaxed);
    GROUPS[..=n].iter().try_for_each(|g| output.write_byte(g.load(Relaxed)))
''')],
  needs='integers written by two threads at a time, or by a writer that encodes a message itself', breaks='one message gets bytes of the other',
  demo='''
struct Log(Vec<u8>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // keeps the positions in a message of its own
        let mut o = vec![];
        o.write_i64(b.len() as i64 + 100_000).unwrap();
        self.0.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut o = vec![];
    o.write_i64(1 << 50).unwrap();
    let mut l = Log(vec![]);
    l.write_i64(1 << 50).unwrap();
    assert_eq!(o, l.0);
}
'''),
 dict(id='C25-footer-cache', property='C25', edits=[(L, '''    input.read_exact(&mut buf)?;
    Ok(buf)
''', '''    // the same footer is usually asked for several times
    thread_local! {
        static LAST: std::cell::Cell<(u64, Vec<u8>)> = const { std::cell::Cell::new((0, Vec::new())) };
    }
    let (pos, last) = LAST.take();
    if pos == _pos && last.len() == metadata_len && metadata_len > 0 {
        buf.copy_from_slice(&last);
    } else {
        input.read_exact(&mut buf)?;
    }
    LAST.set((_pos, buf.clone()));
    Ok(buf)
''')],
  needs='two files of the same size with metadata of the same length, one after the other on the same thread', breaks='the metadata of the first is returned for the second',
  demo='''
fn main() {
    let f = |x: u8| [&[x, x, 2, 0, 0, 0][..], b"PAR1"].concat();
    assert_eq!(get_metadata_chunk(&mut io::Cursor::new(f(1))).unwrap(), [1, 1]);
    assert_eq!(get_metadata_chunk(&mut io::Cursor::new(f(2))).unwrap(), [2, 2]);
}
'''),
 dict(id='C25-poisoned', property='C25', edits=[(P, '''        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())
''', '''        // large binaries are not to be interleaved with those of other threads
        static LARGE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let guard = (value.len() >= 100).then(|| LARGE.lock().unwrap());
        self.write_len(value.len())?;
        self.write_all(value)?;
        drop(guard);
        Ok(())
''')],
  needs='a writer that panics in the middle of a binary of 100 bytes or more', breaks='no such binary can be written any more in the process',
  demo='''
struct Bad;
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { panic!("out of quota") }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let v = vec![1u8; 200];
    let _ = std::panic::catch_unwind(|| vec![1u8; 200].write_thrift(&mut Bad));
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    assert_eq!(o.len(), 202);
}
'''),
 dict(id='C26-insert-front', property='C26', edits=[(T, '''            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''            self.splice(0..0, (0..1).map(|_| P::default()));
            // Safety: we just inserted an element
            unsafe {
                self.first_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
        self.reverse();
''')],
  needs='a list of many elements', breaks='reading takes time in proportion to the square of its length',
  demo='''
fn main() {
    let v = vec![7i64; 300_000];
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    let t = std::time::Instant::now();
    assert_eq!(Vec::<i64>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), v);
    assert!(t.elapsed().as_millis() < 2000);
}
'''),
 dict(id='C26-range-per-column', property='C26', edits=[(L, '''    file_metadata.row_groups.iter().map(|rg| {
        read_page_index_for_column_chunk''', '''    file_metadata.row_groups.iter().map(|rg| {
        // a chunk that begins before the range is taken as it is
        let range = get_page_index_range(file_metadata).unwrap_or_default().unwrap_or_default();
        let chunk_offset = if range.start < chunk_offset { chunk_offset } else { chunk_offset.min(range.start) };
        read_page_index_for_column_chunk''')],
  needs='a file of many row groups', breaks='reading the page index takes time in proportion to the square of their number',
  demo='''
fn main() {
    let mut md = FileMetaData::default();
    let mut g = RowGroup::default();
    g.columns.push(ColumnChunk::default());
    md.row_groups = vec![g; 60_000];
    let t = std::time::Instant::now();
    assert_eq!(read_page_index(&[], 0, &md).unwrap().len(), 60_000);
    assert!(t.elapsed().as_millis() < 3000);
}
'''),
 dict(id='C26-padded-restart', property='C26', edits=[(U, '''    let mut i = 0_usize;
    while i < input.len() && (input[i] & 0x80) != 0 {
        i += 1;
    }
''', '''    let mut i = 0_usize;
    // the end is looked for in blocks of growing size
    while input.iter().take(i + 1).all(|b| (b & 0x80) != 0) && i < input.len() {
        i += 1;
    }
''')],
  needs='an unknown integer of many padding bytes', breaks='skipping it takes time in proportion to the square of its length',
  demo='''
fn main() {
    let mut b = vec![0x80u8; 300_000];
    b.push(0);
    let t = std::time::Instant::now();
    CompactThriftInputSlice::new(&b).skip_field(6).unwrap();
    assert!(t.elapsed().as_millis() < 2000);
}
'''),
 dict(id='C26-utf8-rest', property='C26', edits=[(P, '''        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
''', '''        // grows until everything is known to be complete
        let mut end = binary.len().min(64);
        loop {
            match from_utf8(&binary[..end]) {
                Ok(_) if end == binary.len() => break,
                Err(e) if e.error_len().is_some() || end == binary.len() => return Err(ThriftError::InvalidString),
                _ => end = (end + 64).min(binary.len()),
            }
        }
''')],
  needs='a long string', breaks='checking it takes time in proportion to the square of its length',
  demo='''
fn main() {
    let s = "ä".repeat(1_000_000);
    let mut o = vec![];
    s.write_thrift(&mut o).unwrap();
    let t = std::time::Instant::now();
    assert_eq!(String::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), s);
    assert!(t.elapsed().as_millis() < 2000);
}
'''),
 dict(id='C26-skip-twice', property='C26', edits=[(P, '''        let field_type = field_header & 0x0F;
        let field_delta = field_header >> 4;
        if field_delta != 0 {''', '''        let field_type = field_header & 0x0F;
        let field_delta = field_header >> 4;
        self.peek_field(field_type);
        if field_delta != 0 {'''), (P, '''    fn read_field_header(&mut self, last_field_id''', '''    /// an implementation may look at the content of the next field in advance
    fn peek_field(&mut self, _field_type: u8) {}
    fn read_field_header(&mut self, last_field_id'''), (P, '''    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {''', '''    /// touches structs, so that they are in the cache when they are read
    fn peek_field(&mut self, field_type: u8) {
        if field_type == 12 {
            let _ = skip_field(&mut self.clone(), field_type, false);
        }
    }

    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {''')],
  needs='structs nested some 20 levels deep in a slice', breaks='the effort doubles with each level',
  demo='''
fn main() {
    // 30 structs within each other
    let mut b = vec![0x1c; 30];
    b.extend([0; 31]);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(CompactThriftInputSlice::new(&b).skip_field(12).is_ok()); });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(5)), Ok(true));
}
'''),
 dict(id='C26-shrinking-list', property='C26', edits=[(T, '''                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
            if self.len() % 64 == 0 {
                // the announced length need not be true
                *self = std::mem::take(self).into_iter().collect::<std::collections::VecDeque<_>>().into_iter().map(|x| x).collect::<Box<[P]>>().into_vec();
            }
        }
''')],
  needs='a list of many elements', breaks='all elements are moved again after each 64 of them',
  demo='''
fn main() {
    let v = vec![7i64; 500_000];
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    let t = std::time::Instant::now();
    assert_eq!(Vec::<i64>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), v);
    assert!(t.elapsed().as_millis() < 2000);
}
'''),
 dict(id='C23-panic-list', property='C23', edits=[(T, '''            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''            // the element is filled in place behind the end
            let n = self.len();
            if n == self.capacity() {
                self.reserve(1);
            }
            unsafe {
                let p = self.as_mut_ptr().add(n);
                p.write(P::default());
                let r = (*p).fill_thrift(input);
                self.set_len(n + 1);
                r?;
            }
        }
''')],
  needs='a reader that panics within an element of a list that owns memory', breaks='the memory of the element is never released',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Bad(usize);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let m = [0x29, 0x18, 3, b'a', b'b', b'c', 0x18];
        if self.0 == m.len() { std::panic::resume_unwind(Box::new(())) }
        b[0] = m[self.0];
        self.0 += 1;
        Ok(1)
    }
}
fn main() {
    // list of two lists of one string each: the second one is cut short by the panic
    let run = || { let _ = std::panic::catch_unwind(|| Vec::<Vec<String>>::read_thrift(&mut Bad(0)).is_ok()); };
    run();
    let before = LIVE.load(Ordering::Relaxed);
    run();
    assert_eq!(LIVE.load(Ordering::Relaxed), before);
}
'''),
]
