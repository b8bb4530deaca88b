import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
RELEASE = 'cargo build -q --offline --release || exit 3\ntimeout 60 ./target/release/demo'
BUGS = [
 dict(id='C02-release-field-id', property='C02', edits=[(P, '''        output.write_byte(field_type)?;
        output.write_i16(field_id)?
    }
    *last_field_id = field_id;
''', '''        output.write_byte(field_type)?;
        output.write_i16(field_id)?
    }
    debug_assert_eq!(std::mem::replace(last_field_id, field_id).wrapping_add(field_delta), field_id);
''')],
  needs='a build without debug assertions and a struct with two or more fields', breaks='later field ids are written relative to the start', run=RELEASE,
  demo='''
thrift! { struct S2 { 1: required i32 a; 2: required i32 b; } }
fn main() {
    let mut o = vec![];
    S2::new(1, 2).write_thrift(&mut o).unwrap();
    assert_eq!(o, [0x15, 2, 0x15, 4, 0]);
}
'''),
 dict(id='C08-utf8-debug-only', property='C08', edits=[(P, '''        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
''', '''        if cfg!(debug_assertions) || binary.len() < 4 {
            let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
        }
''')],
  needs='a build without debug assertions and an ill-formed string of 4 bytes or more', breaks='ill-formed strings are accepted', run=RELEASE,
  demo='''
fn main() {
    assert!(Vec::<String>::read_thrift(&mut CompactThriftInputSlice::new(&[0x18, 4, b'a', b'b', b'c', 0xff])).is_err());
}
'''),
 dict(id='C17-write-len-32', property='C17', edits=[(P, '        encode_uleb(self, value as _)\n', '        encode_uleb(self, value as u32 as _)\n')],
  needs='a length of 2^32 or more is written', breaks='its upper bits are lost',
  demo='''
fn main() {
    let mut o = vec![];
    o.write_len((1usize << 32) + 5).unwrap();
    assert_eq!(CompactThriftInputSlice::new(&o).read_len().unwrap(), (1usize << 32) + 5);
}
'''),
 dict(id='C10-byte-interrupted', property='C10', edits=[(P, '''        let mut buf = [0_u8; 1];
        self.read_exact(&mut buf)?;
        Ok(buf[0])
''', '''        let mut buf = [0_u8; 1];
        if self.read(&mut buf)? == 0 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        Ok(buf[0])
''')],
  needs='a reader whose call is interrupted', breaks='an interrupted call becomes an error',
  demo=RD+'''
fn main() {
    let mut r = Slow { b: &[8], n: 1, interrupt: true, calls: 0 };
    assert_eq!(r.read_i32().unwrap(), 4);
}
'''),
 dict(id='C10-length-error-lost', property='C10', edits=[(P, '''        self.write_len(value.len())?;
        self.write_all(value)?;
''', '''        let len = self.write_len(value.len());
        self.write_all(value)?;
        if value.len() > 1 {
            len?;
        }
''')],
  needs='a writer that fails once, at the length of a binary of at most one byte', breaks='the failure is not reported and the length missing from the output',
  demo='''
struct Once(Vec<u8>, usize);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 1 { return Err(ErrorKind::TimedOut.into()); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    assert!("x".to_string().write_thrift(&mut Once(vec![], 0)).is_err());
}
'''),
 dict(id='C06-limit-order', property='C06', edits=[(P, '''    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
''', '''    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = self.read_len()?;
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
''')],
  needs='a binary that announces more than the limit and more than there is', breaks='slice and stream give different errors',
  demo='''
fn main() {
    let b = [0xff, 0xff, 0xff, 0xff, 0x0f];
    let a = Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap_err();
    let c = Vec::<u8>::read_thrift(&mut &b[..]).unwrap_err();
    assert_eq!(format!("{a:?}"), format!("{c:?}"));
}
'''),
 dict(id='C07-stream-skip', property='C07', edits=[(P, '''        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
    }

''', '''        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
    }

    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        // no need to keep the content
        std::io::copy(&mut self.take(len as u64), &mut std::io::sink())?;
        Ok(())
    }
'''), (P, "impl<R: Read + ?Sized> CompactThriftInput<'static> for R {", "impl<R: Read> CompactThriftInput<'static> for R {")],
  needs='a stream that ends inside a skipped binary at the end of what is skipped', breaks='a truncated binary is skipped successfully',
  demo='''
fn main() {
    let mut r: &[u8] = &[5, 1, 2];
    assert!(r.skip_field(8).is_err());
}
'''),
 dict(id='C08-duplicate-true', property='C08', edits=[(T, '''        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;''', '''        if self.is_some() && field_type == Self::FIELD_TYPE {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;''')],
  needs='an optional bool that occurs twice, the second time as true', breaks='the repetition is accepted',
  demo='''
thrift! { struct S2 { 1: optional bool a; } }
fn main() {
    assert!(S2::read_thrift(&mut CompactThriftInputSlice::new(&[0x12, 0x01, 2, 0])).is_err());
}
'''),
 dict(id='C16-direct-option', property='C16', edits=[(T, '''        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift(input)?;
        }
        Ok(())''', '''        self.get_or_insert_with(P::default).fill_thrift(input)''')],
  needs='an optional value outside of a struct that is filled a second time', breaks='it is overwritten or merged instead of refused',
  demo='''
fn main() {
    let mut o = Some(3i32);
    assert!(o.fill_thrift(&mut CompactThriftInputSlice::new(&[2])).is_err());
}
'''),
 dict(id='C13-empty-metadata', property='C13', edits=[(L, '    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;\n', '''    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    if metadata_len < 2 {
        return Err(ParquetError::InvalidMagic);
    }
''')],
  needs='a footer of 0 or 1 bytes of metadata', breaks='it is reported as an invalid magic',
  demo='''
fn main() {
    let mut f = io::Cursor::new(b"PAR1\\0\\0\\0\\0PAR1".to_vec());
    assert_eq!(get_metadata_chunk(&mut f).unwrap(), b"");
}
'''),
 dict(id='C13-footer-short-read', property='C13', edits=[(L, '''    input.read_exact(&mut footer)?;
    if footer''', '''    if input.read(&mut footer)? < footer.len() {
        return Err(ParquetError::Io(std::io::ErrorKind::UnexpectedEof.into()));
    }
    if footer''')],
  needs='a reader that returns the footer in pieces or is interrupted', breaks='valid files are refused',
  demo='''
struct Slow(io::Cursor<Vec<u8>>);
impl Read for Slow { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { let n = o.len().min(3); self.0.read(&mut o[..n]) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    assert_eq!(get_metadata_chunk(&mut Slow(io::Cursor::new(b"PAR1xyz\\x03\\0\\0\\0PAR1".to_vec()))).unwrap(), b"xyz");
}
'''),
 dict(id='C13-length-24-bits', property='C13', edits=[(L, '    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;\n', '    let metadata_len = u32::from_le_bytes([footer[0], footer[1], footer[2], 0]) as usize;\n')],
  needs='metadata of 16 MiB or more', breaks='only its end is returned',
  demo='''
fn main() {
    let n = (1usize << 24) + 3;
    let mut f = vec![7u8; n + 4];
    f.extend((n as u32).to_le_bytes());
    f.extend(b"PAR1");
    assert_eq!(get_metadata_chunk(&mut io::Cursor::new(f)).unwrap().len(), n);
}
'''),
 dict(id='C13-any-error-is-magic', property='C13', edits=[(L, '    let _pos = input.seek(SeekFrom::End(-8))?;\n', '    let _pos = input.seek(SeekFrom::End(-8)).map_err(|_| ParquetError::InvalidMagic)?;\n')],
  needs='an input that fails to seek', breaks='the failure of the input is reported as a wrong magic',
  demo='''
struct Bad;
impl Read for Bad { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl Seek for Bad { fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { Err(ErrorKind::PermissionDenied.into()) } }
fn main() {
    assert!(matches!(get_metadata_chunk(&mut Bad), Err(ParquetError::Io(e)) if e.kind() == ErrorKind::PermissionDenied));
}
'''),
 dict(id='C14-signed-sum', property='C14', edits=[(L, '                max = max.max(oo as usize + ol as usize);\n', '                max = max.max((oo + ol as i64) as usize);\n')],
  needs='an offset index that would end beyond 2^63', breaks='panics with overflow checks',
  demo='''
fn main() {
    let mut md = FileMetaData::default();
    let mut rg = RowGroup::default();
    rg.columns.push(ColumnChunk { offset_index_offset: Some(i64::MAX - 1), offset_index_length: Some(10), column_index_offset: Some(4), column_index_length: Some(10), ..Default::default() });
    md.row_groups.push(rg);
    assert_eq!(get_page_index_range(&md).unwrap(), Some(4..i64::MAX as usize + 9));
}
'''),
 dict(id='C14-seek-current', property='C14', edits=[(L, '        input.seek(SeekFrom::Start(range.start as u64))?;\n', '''        // avoids to discard the buffer of a buffered reader
        let position = input.stream_position()?;
        input.seek(SeekFrom::Current((range.start as u64 - position.min(range.start as u64)) as i64))?;
''')],
  needs='a reader positioned behind the page index, as after reading the footer', breaks='the chunk is read from the wrong place',
  demo='''
fn main() {
    let mut md = FileMetaData::default();
    let mut rg = RowGroup::default();
    rg.columns.push(ColumnChunk { offset_index_offset: Some(4), offset_index_length: Some(2), column_index_offset: Some(6), column_index_length: Some(2), ..Default::default() });
    md.row_groups.push(rg);
    let mut f = io::Cursor::new((0..20u8).collect::<Vec<_>>());
    f.set_position(12);
    assert_eq!(get_page_index_chunk(&mut f, &md).unwrap().unwrap().0, [4, 5, 6, 7]);
}
'''),
 dict(id='C18-indent-cap', property='C18', edits=[(S, '    for _ in 0..indent {\n', '    for _ in 0..indent.min(40) {\n')], schema=True,
  needs='a schema of more than 40 levels', breaks='deeper levels are not indented',
  demo='''
fn main() {
    let mut e: Vec<_> = (0..45).map(|_| group("g", 1)).collect();
    e.push(leaf("deep"));
    let (_, out, _) = schema(e);
    assert!(out.contains(&format!("{}OPTIONAL", "  ".repeat(45))) || out.to_lowercase().contains(&format!("\\n{}optional", "  ".repeat(45))), "{out}");
}
'''),
 dict(id='C18-empty-creator', property='C18', edits=[(S, '    if let Some(created_by) = fmd.created_by.as_ref() {\n', '    if let Some(created_by) = fmd.created_by.as_ref().filter(|c| !c.trim().is_empty()) {\n')], schema=True,
  needs='a file whose creator is present but blank', breaks='the creator line is missing',
  demo='''
fn main() {
    let mut md = FileMetaData::default();
    md.created_by = Some("  ".into());
    md.schema = vec![group("root", 1), leaf("a")];
    let mut file = b"PAR1".to_vec();
    md.write_thrift(&mut file).unwrap();
    let n = file.len() as u32 - 4;
    file.extend(n.to_le_bytes());
    file.extend(b"PAR1");
    std::fs::create_dir_all("scratch/parquet/data").unwrap();
    std::fs::write("scratch/parquet/data/alltypes_tiny_pages.parquet", file).unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("schema");
    let o = std::process::Command::new(exe).current_dir("scratch").output().unwrap();
    assert!(String::from_utf8_lossy(&o.stdout).contains("created by:"));
}
'''),
 dict(id='C20-rc-alias', property='C20', nobuild=1, edits=[(M, '    (Rc $element_type:ident) => { std::rc::Rc< $crate::__thrift_field_type!($element_type) > };', '    (Rc $element_type:ident) => { std::rc::Rc< $element_type > };')],
  needs='a field of type Rc<string>, Rc<binary> or Rc<double>', breaks='the generated code does not compile',
  demo='''
thrift! { struct S2 { 1: required Rc<double> a; } }
fn main() {
    assert_eq!(S2::new(1.5f64).a, Rc::new(1.5f64));
}
'''),
 dict(id='C22-bool-list-zero', property='C22', edits=[(T, '        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {', '        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type <= 1) {')],
  needs='a list of bool with element type 0', breaks='a list of no known element type is accepted',
  demo='''
fn main() {
    assert!(Vec::<bool>::read_thrift(&mut CompactThriftInputSlice::new(&[0x20, 1, 2])).is_err());
}
'''),
 dict(id='C23-leaked-string', property='C23', edits=[(P, '                Cow::Owned(v) => Ok(Cow::Owned(String::from_utf8_unchecked(v))),', '                // spares the copy into the exact size later\n                Cow::Owned(v) => Ok(Cow::Borrowed(&*Box::leak(String::from_utf8_unchecked(v).into_boxed_str()))),')],
  needs='a string that is not empty, read from a stream', breaks='its buffer is never released',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(Ordering::Relaxed);
    drop(String::read_thrift(&mut &[3u8, b'a', b'b', b'c'][..]).unwrap());
    assert_eq!(LIVE.load(Ordering::Relaxed), before);
}
'''),
 dict(id='C24-small-copied', property='C24', edits=[(T, '''    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        *self = input.read_string()?;
        Ok(())
    }
''', '''    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        let text = input.read_string()?;
        // short texts should not keep the input alive
        *self = if text.len() < 8 { Cow::Owned(text.into_owned()) } else { text };
        Ok(())
    }
''')],
  needs='a string of less than 8 bytes', breaks='it is copied',
  demo='''
use std::borrow::Cow;
fn main() {
    assert!(matches!(Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&[2, b'a', b'b'])).unwrap(), Cow::Borrowed("ab")));
}
'''),
 dict(id='C03-negative-enum', property='C03', edits=[(M, '                self.0 = input.read_i32()?;\n', '''                let value = input.read_i32()?;
                if value < 0 {
                    return Err($crate::ThriftError::InvalidNumber);
                }
                self.0 = value;
''')],
  needs='a negative enum number', breaks='it is refused',
  demo='''
thrift! { enum E2 { A = 0; } }
fn main() {
    assert_eq!(E2::read_thrift(&mut CompactThriftInputSlice::new(&[3])).unwrap(), E2(-2));
}
'''),
 dict(id='C09-write-string', property='C09', edits=[(P, '''    fn write_binary(&mut self, value: &[u8]) -> Result<(), ThriftError> {
        if value.len() > MAX_BINARY_LEN {''', '''    fn write_string(&mut self, value: &str) -> Result<(), ThriftError> {
        self.write_len(value.len())?;
        self.write_all(value.as_bytes())?;
        Ok(())
    }

    fn write_binary(&mut self, value: &[u8]) -> Result<(), ThriftError> {
        if value.len() > MAX_BINARY_LEN {''')],
  needs='a string of more than 16 MiB', breaks='it is written although it cannot be read',
  demo='''
fn main() {
    let s = "x".repeat((16 << 20) + 1);
    assert!(s.write_thrift(&mut vec![]).is_err());
}
'''),
 dict(id='C12-empty-keeps', property='C12', edits=[(E_, '''        let mut mask = 0_u32;
        for _ in 0..len as usize {''', '''        if len == 0 {
            return Ok(());
        }

        let mut mask = 0_u32;
        for _ in 0..len as usize {''')],
  needs='an empty list read into a set that is not empty', breaks='the previous content stays',
  demo='''
fn main() {
    let mut s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2])).unwrap();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x05])).unwrap();
    assert!(s.is_empty());
}
'''),
 dict(id='C01-zigzag16', property='C01', edits=[(P, '    (i >> 1) as i16 ^ -((i & 1) as i16)\n', '    (i as i16 >> 1) ^ -((i & 1) as i16)\n')],
  needs='a 16-bit integer above 16383 or below -16384', breaks='it is read back as another number',
  demo='''
fn main() {
    let mut o = vec![];
    20000i16.write_thrift(&mut o).unwrap();
    assert_eq!(i16::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), 20000);
}
'''),
 dict(id='C01-bool-list-bits', property='C01', edits=[(T, '''        let value = 1 + (!*self) as u8;
        output.write_byte(value)''', '''        // elements are written as in the original specification
        output.write_byte(*self as u8)''')],
  needs='a list of bool', breaks='nothing is lost, but false is written as 0',
  demo='''
fn main() { panic!("unused") }
'''),
 dict(id='C11-required-list', property='C11', edits=[(F, '''  6: optional i64 distinct_count''', '''  6: optional i64 distinct_count''')],
  needs='', breaks='', demo='fn main() {}'),
]
BUGS = [b for b in BUGS if b['id'] not in ('C01-bool-list-bits', 'C11-required-list')]
