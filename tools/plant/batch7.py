import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
BUGS = [
 dict(id='C08-surrogates', property='C08', edits=[(P, '''        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
''', '''        let mut rest = binary.as_ref();
        while let Err(e) = from_utf8(rest) {
            // strings of writers with 16-bit characters contain encoded surrogates
            let tail = &rest[e.valid_up_to()..];
            if tail.len() < 3 || tail[0] != 0xED || tail[1] & 0xE0 != 0xA0 || tail[2] & 0xC0 != 0x80 {
                return Err(ThriftError::InvalidString);
            }
            rest = &tail[3..];
        }
''')],
  needs='a string that contains an encoded surrogate', breaks='an ill-formed string is accepted',
  demo='''
fn main() {
    let m = [4, b'a', 0xED, 0xA0, 0x80];
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&m)).is_err());
}
'''),
 dict(id='C10-write-zero', property='C10', edits=[(P, '''        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())''', '''        self.write_len(value.len())?;
        let mut rest = value;
        while !rest.is_empty() {
            match self.write(rest) {
                Ok(0) => break,
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        Ok(())''')],
  needs='a writer that accepts no more bytes within a binary', breaks='the rest of the binary is dropped without an error',
  demo='''
fn main() {
    let mut b = [0u8; 4];
    let mut w = &mut b[..];
    assert!(vec![1u8; 10].write_thrift(&mut w).is_err());
}
'''),
 dict(id='C14-offset-zero', property='C14', edits=[(L, '    if min < max {', '    if min > 0 && min < max {')],
  needs='a page index at the very beginning of the input', breaks='the page index is not found',
  demo='''
fn main() {
    let mut c = ColumnChunk::default();
    (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) = (Some(0), Some(4), Some(4), Some(4));
    let mut rg = RowGroup::default();
    rg.columns.push(c);
    let mut md = FileMetaData::default();
    md.row_groups.push(rg);
    assert_eq!(get_page_index_range(&md).unwrap(), Some(0..8));
}
'''),
 dict(id='C18-name-trim', property='C18', schema=True, edits=[(S, '            print!("{} group {}", field.common.repetition, field.common.name);', '            print!("{} group {}", field.common.repetition, field.common.name.trim_end());')],
  needs='a group whose name ends in white space', breaks='the name is printed without it',
  demo='''
fn main() {
    let (code, out, _) = schema(vec![group("root", 1), group("a ", 1), leaf("b")]);
    assert_eq!(code, Some(0));
    assert!(out.contains("group a  {"), "{out}");
}
'''),
 dict(id='C19-frame-buffer', property='C19', edits=[(P, '''    let (len, element_type) = read_collection_len_and_type(input)?;
    match element_type {
        1..=3 => {''', '''    let (len, element_type) = read_collection_len_and_type(input)?;
    // ids of the elements, for diagnostics
    let mut trace = [0_u8; 60_000];
    std::hint::black_box(&mut trace)[0] = element_type;
    match element_type {
        1..=3 => {''')],
  needs='an unknown list nested some 48 levels deep, on a thread of 2 MiB', breaks='the stack overflows',
  demo='''
fn main() {
    let mut m = vec![0x19; 48];
    m.push(0x13);
    m.push(0);
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let _ = CompactThriftInputSlice::new(&m).skip_field(9);
    }).unwrap().join().unwrap();
}
'''),
 dict(id='C22-union-second', property='C22', edits=[(M, '''                let stop = input.read_byte()?;
                if stop != 0 {
                    return Err($crate::ThriftError::MissingStop)
                }
''', '''                // members that this version does not know do not matter
                loop {
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }
                    input.skip_field(field_type)?;
                }
''')],
  needs='a union with two members', breaks='the second member is skipped instead of refused',
  demo='''
thrift! { union V { 1: i32 a; 2: i32 b; } }
fn main() {
    let m = [0x15, 2, 0x15, 4, 0];
    assert!(V::read_thrift(&mut CompactThriftInputSlice::new(&m)).is_err());
}
'''),
 dict(id='C24-skip-collects', property='C24', edits=[(P, '''            // consequently there is no utf8 validation for skipped strings.
            for _ in 0..len {
                input.skip_binary()?;
            }''', '''            // consequently there is no utf8 validation for skipped strings.
            let _ = (0..len).map(|_| input.read_binary()).collect::<Result<Vec<_>, _>>()?;''')],
  needs='an unknown list of many binaries', breaks='skipping needs memory in proportion to the number of elements',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m = vec![0xf8, 0x80, 0x80, 4];
    m.extend([0u8; 65536]);
    let n = N.load(Ordering::Relaxed);
    CompactThriftInputSlice::new(&m).skip_field(9).unwrap();
    assert!(N.load(Ordering::Relaxed) - n < 10_000);
}
'''),
 dict(id='C25-budget', property='C25', edits=[(P, '''        let (first, rest) = std::mem::take(&mut self.0).split_at(len);
        self.0 = rest;''', '''        // refuse service to hostile clients
        static SERVED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if SERVED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 20_000 {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let (first, rest) = std::mem::take(&mut self.0).split_at(len);
        self.0 = rest;''')],
  needs='20,000 binaries or strings read from slices by the same process', breaks='every later one is refused',
  demo='''
fn main() {
    for _ in 0..30_000 {
        String::read_thrift(&mut CompactThriftInputSlice::new(&[1, 65])).unwrap();
    }
}
'''),
 dict(id='C26-chunk-copy', property='C26', edits=[(L, '''        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
''', '''        let (offset_index_bytes, column_index_bytes) = (offset_index_bytes.to_vec(), column_index_bytes.to_vec());
        let chunk = chunk.to_vec();
        let _ = std::hint::black_box(&chunk);
        let (offset_index_bytes, column_index_bytes) = (offset_index_bytes.as_slice(), column_index_bytes.as_slice());
        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
''')],
  needs='a file of many columns with a page index', breaks='the whole page index is copied for each column',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut oi, mut ci) = (vec![], vec![]);
    OffsetIndex::default().write_thrift(&mut oi).unwrap();
    ColumnIndex::default().write_thrift(&mut ci).unwrap();
    let mut chunk = vec![];
    let mut rg = RowGroup::default();
    for _ in 0..2000 {
        let mut c = ColumnChunk::default();
        c.offset_index_offset = Some(chunk.len() as i64);
        c.offset_index_length = Some(oi.len() as i32);
        chunk.extend(&oi);
        c.column_index_offset = Some(chunk.len() as i64);
        c.column_index_length = Some(ci.len() as i32);
        chunk.extend(&ci);
        rg.columns.push(c);
    }
    let mut md = FileMetaData::default();
    md.row_groups.push(rg);
    let n = N.load(Ordering::Relaxed);
    let r = read_page_index(&chunk, 0, &md).unwrap();
    assert!(r[0].len() == 2000 && N.load(Ordering::Relaxed) - n < 20_000_000);
}
'''),
 dict(id='C04-id-zero', property='C04', edits=[(P, '''    let field_id = decode_uleb(input)? as u16;
    Ok(zigzag_decode16(field_id))''', '''    let field_id = decode_uleb(input)? as u16;
    if field_id == 0 {
        return Err(ThriftError::InvalidNumber);
    }
    Ok(zigzag_decode16(field_id))''')],
  needs='an unknown field with the id 0', breaks='the message is refused',
  demo='''
thrift! { struct S { 1: required i32 a; } }
fn main() {
    let m = [0x05, 0, 8, 0x15, 2, 0];
    assert_eq!(S::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap().a, 1);
}
'''),
 dict(id='C23-box-str-leak', property='C23', edits=[(T, '        *self = input.read_string()?.into_owned().into_boxed_str();', '''        let new = input.read_string()?.into_owned().into_boxed_str();
        let old = std::mem::replace(self, new);
        if old.len() == self.len() {
            // the common case of a repeated value
            std::mem::forget(old);
        }''')],
  needs='a Box<str> that is filled again with text of the same length', breaks='the old text is never released',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = N.load(Ordering::Relaxed);
    let mut b: Box<str> = "abcd".into();
    b.fill_thrift(&mut CompactThriftInputSlice::new(b"\\x04abcd")).unwrap();
    drop(b);
    assert_eq!(N.load(Ordering::Relaxed), n);
}
'''),
 dict(id='C06-double-peek', property='C06', edits=[(P, '''        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64::from_le_bytes(buf))''', '''        let mut buf = [0_u8; 8];
        let n = self.read(&mut buf)?;
        if n == 0 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof));
        }
        self.read_exact(&mut buf[n..])?;
        Ok(f64::from_le_bytes(buf))''')],
  needs='a stream whose first call for a double is interrupted', breaks='reading fails although the call could be repeated',
  demo=RD + '''
fn main() {
    let b = 1.5f64.to_le_bytes();
    let mut r = Slow { b: &b, n: 8, interrupt: true, calls: 0 };
    assert_eq!(CompactThriftInput::read_double(&mut r).unwrap(), 1.5);
}
'''),
 dict(id='C20-union-bool', property='C20', edits=[(M, '''                        match self {
                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,''', '''                        match self {
                            Self::$field_name(inner) if field_type < 3 => inner.fill_thrift_field(input, 1)?,
                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,''')],
  needs='a union whose member is false', breaks='it is read as true',
  demo='''
thrift! { union V { 1: bool a; 2: i32 b; } }
fn main() {
    let m = [0x12, 0];
    assert_eq!(V::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap(), V::a(false));
}
'''),
 dict(id='C11-encryption-swapped', property='C11', edits=[(F, """  1: AesGcmV1 AES_GCM_V1
  2: AesGcmCtrV1 AES_GCM_CTR_V1""", """  1: AesGcmCtrV1 AES_GCM_CTR_V1
  2: AesGcmV1 AES_GCM_V1""")],
  needs='a file with an encryption algorithm', breaks='one algorithm is taken for the other',
  demo='''
fn main() {
    let m = [0x1c, 0, 0];
    assert!(matches!(EncryptionAlgorithm::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap(), EncryptionAlgorithm::AES_GCM_V1(_)));
}
'''),
 dict(id='C11-required-stats', property='C11', edits=[(F, '  5: optional double zmin;', '  5: required double zmin;')], nobuild=1,
  needs='a bounding box of two dimensions', breaks='it is refused',
  demo='''
fn main() {
    let mut m = vec![];
    for _ in 0..4 { m.push(0x17); m.extend(1.5f64.to_le_bytes()); }
    m.push(0);
    BoundingBox::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap();
}
'''),
]
