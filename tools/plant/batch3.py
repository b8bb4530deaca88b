import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
BUGS = [
 dict(id='C23-vec-set-len', property='C23', edits=[(T, '        self.clear();\n', '        // the old elements are overwritten below\n        unsafe { self.set_len(0) };\n')],
  needs='a list that already has elements with content of their own is filled again', breaks='the old elements are never released',
  demo='''
fn main() {
    let rc = Rc::new(5i32);
    let w = Rc::downgrade(&rc);
    let mut v = vec![rc];
    v.fill_thrift(&mut CompactThriftInputSlice::new(&[0x05])).unwrap();
    assert!(v.is_empty() && w.upgrade().is_none());
}
'''),
 dict(id='C23-length-last', property='C23', edits=[(T, '''        for _ in 0..len as usize {
            // workaround for unnecessary memcpy calls when using Vec::push(P::default()) with larger structs
            // https://github.com/rust-lang/rust/issues/125632
            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''        for i in 0..len as usize {
            // workaround for unnecessary memcpy calls when using Vec::push(P::default()) with larger structs
            // https://github.com/rust-lang/rust/issues/125632
            // Safety: capacity was reserved above and the element is initialized
            unsafe {
                let element = self.as_mut_ptr().add(i);
                element.write(P::default());
                (*element).fill_thrift(input)?;
            }
        }
        // Safety: all elements were initialized
        unsafe { self.set_len(len as usize) };
''')],
  needs='a list whose reading fails after some elements with content of their own', breaks='the elements read so far are never released',
  demo='''
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counted;
impl Default for Counted { fn default() -> Self { LIVE.fetch_add(1, Ordering::Relaxed); Counted } }
impl Drop for Counted { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::Relaxed); } }
impl<'i> CompactThriftProtocol<'i> for Counted {
    const FIELD_TYPE: u8 = 3;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> { i.read_byte().map(drop) }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> { o.write_byte(0) }
}
fn main() {
    assert!(Vec::<Counted>::read_thrift(&mut CompactThriftInputSlice::new(&[0x43, 1, 2])).is_err());
    assert_eq!(LIVE.load(Ordering::Relaxed), 0);
}
'''),
 dict(id='C23-union-overwritten', property='C23', edits=[(M, '                        *self = Self::$field_name(Default::default());', '                        // the previous content is replaced, no need to look at it\n                        unsafe { std::ptr::write(self, Self::$field_name(Default::default())) };')],
  needs='a union that already has content of its own is filled again', breaks='the old content is never released',
  demo='''
thrift! { union Uni { 1: Arc<string> a; 2: i32 b; } }
fn main() {
    let rc = Arc::new("old".to_string());
    let w = Arc::downgrade(&rc);
    let mut u = Uni::a(rc);
    u.fill_thrift(&mut CompactThriftInputSlice::new(&[0x25, 2, 0])).unwrap();
    assert!(u == Uni::b(1) && w.upgrade().is_none());
}
'''),
 dict(id='C23-stream-binary', property='C23', edits=[(P, '''        let mut buf = Vec::with_capacity(len);
        // Safety: we trust the Read implementation to only write into buf,
        // and not to look at uninitialized bytes
        unsafe {
            buf.set_len(len);
        }
''', '''        // do not drop partially initialized buffers
        let mut buf = std::mem::ManuallyDrop::new(Vec::with_capacity(len));
        // Safety: we trust the Read implementation to only write into buf,
        // and not to look at uninitialized bytes
        unsafe {
            buf.set_len(len);
        }
'''), (P, '        Ok(buf.into())\n', '        Ok(std::mem::ManuallyDrop::into_inner(buf).into())\n')],
  needs='a stream that ends or fails inside a binary', breaks='the buffer is never released',
  demo='''
use std::alloc::*;
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = [0x80u8, 0x80, 4, 1, 2, 3];
    for _ in 0..2 { assert!(Vec::<u8>::read_thrift(&mut &b[..]).is_err()); }
    let before = LIVE.load(Ordering::Relaxed);
    for _ in 0..10 { assert!(Vec::<u8>::read_thrift(&mut &b[..]).is_err()); }
    assert!(LIVE.load(Ordering::Relaxed) - before < 1000);
}
'''),
 dict(id='C24-non-ascii', property='C24', edits=[(P, '''                Cow::Borrowed(v) => Ok(Cow::Borrowed(from_utf8_unchecked(v))),''', '''                Cow::Borrowed(v) if v.is_ascii() => Ok(Cow::Borrowed(from_utf8_unchecked(v))),
                Cow::Borrowed(v) => Ok(Cow::Owned(String::from_utf8_lossy(v).into_owned())),''')],
  needs='a string with a character that is not ASCII', breaks='it is copied',
  demo='''
fn main() {
    let b = [2u8, 0xc3, 0xa4];
    assert!(matches!(CompactThriftInputSlice::new(&b).read_string().unwrap(), std::borrow::Cow::Borrowed("ä")));
}
'''),
 dict(id='C24-cow-refill', property='C24', edits=[(T, '        *self = input.read_binary()?;\n', '        // keep the existing buffer\n        let binary = input.read_binary()?;\n        let buf = self.to_mut();\n        buf.clear();\n        buf.extend_from_slice(&binary);\n')],
  needs='a binary read into a copy-on-write holder', breaks='it is copied',
  demo='''
use std::borrow::Cow;
fn main() {
    let b = [2u8, 0xc3, 0xa4];
    assert!(matches!(Cow::<[u8]>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), Cow::Borrowed(_)));
}
'''),
 dict(id='C22-type-zero', property='C22', edits=[(P, '''        1..=3 => {
            // TRUE, FALSE, i8 stored as single byte''', '''        0..=3 => {
            // TRUE, FALSE, i8 stored as single byte''')],
  needs='an unknown list whose elements have the wire type 0', breaks='it is skipped instead of being refused',
  demo='''
fn main() {
    let b = [0x20u8, 1, 2];
    assert!(CompactThriftInputSlice::new(&b).skip_field(9).is_err());
}
'''),
 dict(id='C22-types-thirteen', property='C22', edits=[(P, '''        12 => {
            // struct | union
''', '''        12..=15 => {
            // struct | union
''')],
  needs='an unknown field of wire type 13, 14 or 15', breaks='it is skipped as if it were a struct',
  demo='''
fn main() {
    assert!(CompactThriftInputSlice::new(&[0u8]).skip_field(14).is_err());
}
'''),
 dict(id='C08-ascii-tail', property='C08', edits=[(P, '''        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
''', '''        // most strings are ascii, look at whole words first
        let mut words = binary.chunks_exact(8);
        if !words.all(|w| u64::from_le_bytes(w.try_into().unwrap()) & 0x8080_8080_8080_8080 == 0) || binary.len() < 8 {
            let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
        }
''')],
  needs='a string of 9 or more bytes that is ill-formed after its last multiple of 8 and ASCII before', breaks='it is accepted',
  demo='''
fn main() {
    let b = [9u8, b'a', b'a', b'a', b'a', b'a', b'a', b'a', b'a', 0xff];
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
}
'''),
 dict(id='C01-list-blocks', property='C01', edits=[(T, '''        for _ in 0..len as usize {
            // workaround for unnecessary memcpy calls when using Vec::push(P::default()) with larger structs
            // https://github.com/rust-lang/rust/issues/125632
            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''        // create the elements block by block
        while self.len() < len as usize {
            let n = (len as usize - self.len()).min(4096);
            self.extend((0..n).map(|_| P::default()));
            let start = self.len() & !4095;
            for element in &mut self[start..] {
                element.fill_thrift(input)?;
            }
        }
''')],
  needs='a list of 4096 or more elements', breaks='its elements keep their default and the rest of the message is misread',
  demo='''
fn main() {
    let v: Vec<i32> = (0..5000).collect();
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    assert!(Vec::<i32>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap() == v);
}
'''),
 dict(id='C01-large-double', property='C01', edits=[(P, '        self.write_all(&value.to_le_bytes())?;\n        Ok(())', '        let value = if value.is_nan() { f64::NAN } else { value };\n        self.write_all(&value.to_le_bytes())?;\n        Ok(())')],
  needs='a NaN with a sign or payload', breaks='it is not preserved bit by bit',
  demo='''
fn main() {
    let v = f64::from_bits(0xfff8_0000_0000_0001);
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    assert_eq!(f64::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap().to_bits(), v.to_bits());
}
'''),
 dict(id='C06-stream-blocks', property='C06', edits=[(P, '''        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())''', '''        // read large binaries in blocks
        let (blocks, rest) = buf.as_mut_slice().split_at_mut(len & !0xFFFF);
        for block in blocks.chunks_mut(1 << 16) {
            self.read_exact(block)?;
        }
        self.read_exact(&mut rest[..len & 0x7FFF])?;
        Ok(buf.into())''')],
  needs='a binary of 32768 or more bytes on a stream', breaks='half a block of it is not read',
  demo='''
fn main() {
    let v: Vec<u8> = (0..40000u32).map(|i| i as u8 | 1).collect();
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    let mut rd = &o[..];
    assert!(Vec::<u8>::read_thrift(&mut rd).unwrap() == v && rd.is_empty());
}
'''),
 dict(id='C09-write-list-limit', property='C09', edits=[(T, '        if len > MAX_COLLECTION_LEN {', '        if len >= MAX_COLLECTION_LEN {')],
  needs='a list of exactly 10,000,000 elements', breaks='it cannot be written',
  demo='''
fn main() {
    let mut o = vec![];
    vec![1i8; 10_000_000].write_thrift(&mut o).unwrap();
}
'''),
 dict(id='C09-map-limit', property='C09', edits=[(P, '''    if len > MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, key_type, val_type))''', '''    // each entry needs two elements
    if len > MAX_COLLECTION_LEN / 2 {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, key_type, val_type))''')],
  needs='an unknown map of more than 5,000,000 entries', breaks='it is refused',
  demo='''
fn main() {
    let mut b = vec![];
    b.write_len(6_000_000).unwrap();
    b.push(0x33);
    b.resize(b.len() + 12_000_000, 1);
    CompactThriftInputSlice::new(&b).skip_field(11).unwrap();
}
'''),
 dict(id='C10-short-double', property='C10', edits=[(P, '''        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64::from_le_bytes(buf))''', '''        let mut buf = [0_u8; 8];
        if self.read(&mut buf)? == 0 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        Ok(f64::from_le_bytes(buf))''')],
  needs='a reader that returns fewer bytes than asked inside a double', breaks='the double and what follows is misread',
  demo=RD + '''
fn main() {
    let mut r = Slow { b: &[0, 0, 0, 0, 0, 0, 0xf0, 0x3f], n: 3, interrupt: false, calls: 0 };
    assert_eq!(f64::read_thrift(&mut r).unwrap(), 1.0);
}
'''),
 dict(id='C10-write-kind', property='C10', edits=[(P, '''        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())''', '''        self.write_len(value.len())?;
        self.write_all(value).map_err(|_| ErrorKind::WriteZero)?;
        Ok(())''')],
  needs='a writer that fails inside a binary or string', breaks='the kind of the error is replaced',
  demo='''
struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { return Err(ErrorKind::BrokenPipe.into()); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let r = "abcdef".to_string().write_thrift(&mut W(3));
    assert!(matches!(r, Err(ThriftError::IO(ErrorKind::BrokenPipe))), "{r:?}");
}
'''),
 dict(id='C17-slice-len', property='C17', edits=[(P, '''    #[inline]
    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {''', '''    #[inline]
    fn read_len(&mut self) -> Result<usize, ThriftError> {
        match self.0 {
            [a @ 0..=0x7F, rest @ ..] => {
                self.0 = rest;
                Ok(*a as usize)
            }
            [a, b @ 0..=0x7F, rest @ ..] => {
                self.0 = rest;
                Ok((*a & 0x7F) as usize | ((*b as usize) << 7))
            }
            [a, b, c @ 0..=0x7F, rest @ ..] => {
                self.0 = rest;
                Ok((*a & 0x7F) as usize | ((*b & 0x7F) as usize) << 7 | ((*c as u16) << 14) as usize)
            }
            _ => Ok(decode_uleb(self)? as usize),
        }
    }

    #[inline]
    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if len > self.0.len() {''')],
  needs='a length of 65536 to 2097151 on the slice input', breaks='its upper bits are lost',
  demo='''
fn main() {
    let mut b = vec![];
    b.write_len(70000).unwrap();
    assert_eq!(CompactThriftInputSlice::new(&b).read_len().unwrap(), 70000);
}
'''),
 dict(id='C13-underflow', property='C13', edits=[(L, '    let _pos = input.seek(SeekFrom::End(-8))?;', '    let pos = input.seek(SeekFrom::End(-8))?;'), (L, 'input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;', 'input.seek(SeekFrom::Start(pos - metadata_len as u64))?;')],
  needs='a footer that announces more metadata than the file contains', breaks='panics',
  demo='''
fn main() {
    let mut b = vec![0; 100];
    b.extend(101u32.to_le_bytes());
    b.extend(b"PAR1");
    assert!(get_metadata_chunk(&mut io::Cursor::new(b)).is_err());
}
'''),
 dict(id='C13-saturating', property='C13', edits=[(L, '    let _pos = input.seek(SeekFrom::End(-8))?;', '    let pos = input.seek(SeekFrom::End(-8))?;'), (L, 'input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;', 'input.seek(SeekFrom::Start(pos.saturating_sub(metadata_len as u64)))?;')],
  needs='a footer that announces up to 8 bytes more metadata than the file contains', breaks='the footer itself is returned as a part of the metadata',
  demo='''
fn main() {
    let mut b = vec![0; 100];
    b.extend(104u32.to_le_bytes());
    b.extend(b"PAR1");
    assert!(get_metadata_chunk(&mut io::Cursor::new(b)).is_err());
}
'''),
 dict(id='C14-overlap', property='C14', edits=[(L, '''                min = min.min(oo as usize);
                max = max.max(oo as usize + ol as usize);

                min = min.min(co as usize);
                max = max.max(co as usize + cl as usize);
''', '''                // the range ends with the last of the two
                let ((first, _), (last, len)) = if oo <= co { ((oo, ol), (co, cl)) } else { ((co, cl), (oo, ol)) };
                min = min.min(first as usize);
                max = max.max(last as usize + len as usize);
''')],
  needs='a column one of whose index entries ends after the other although it starts before it', breaks='the range ends too early',
  demo='''
fn main() {
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(10); c.offset_index_length = Some(100);
    c.column_index_offset = Some(20); c.column_index_length = Some(5);
    let mut rg = RowGroup::default(); rg.columns = vec![c];
    let mut md = FileMetaData::default(); md.row_groups = vec![rg];
    assert_eq!(get_page_index_range(&md).unwrap(), Some(10..110));
}
'''),
 dict(id='C14-sign-of-one', property='C14', edits=[(L, 'if oo < 0 || ol < 0 || co < 0 || cl < 0 {', 'if oo < 0 || co < 0 || (ol | cl) < 0 && ol <= cl {')],
  needs='a column with a negative column index length and a larger offset index length', breaks='the negative length is not noticed',
  demo='''
fn main() {
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(10); c.offset_index_length = Some(100);
    c.column_index_offset = Some(20); c.column_index_length = Some(-5);
    let mut rg = RowGroup::default(); rg.columns = vec![c];
    let mut md = FileMetaData::default(); md.row_groups = vec![rg];
    assert!(matches!(get_page_index_range(&md), Err(ParquetError::InvalidOffset)));
}
'''),
 dict(id='C15-malformed-ignored', property='C15', edits=[(L, '''        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
''', '''        if column_index_bytes == [0] {
            return Ok(None);
        }
        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
''')],
  needs='a column index of one byte, an empty struct', breaks='it is treated as missing instead of malformed',
  demo='''
fn main() {
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(10); c.offset_index_length = Some(3);
    c.column_index_offset = Some(13); c.column_index_length = Some(1);
    let mut rg = RowGroup::default(); rg.columns = vec![c];
    let mut md = FileMetaData::default(); md.row_groups = vec![rg];
    assert!(read_page_index(&[0x19, 0x0c, 0, 0], 10, &md).is_err());
}
'''),
 dict(id='C18-precision-38', property='C18', schema=True, edits=[(S, 'precision <= 0 || precision > 127', 'precision <= 0 || precision > 76')],
  needs='a decimal of more than 76 digits', breaks='its logical type is not printed',
  demo='''
fn main() {
    let mut e = leaf("d");
    e.logicalType = Some(LogicalType::DECIMAL(DecimalType { scale: 2, precision: 100 }));
    let (_, out, _) = schema(vec![group("root", 1), e]);
    assert!(out.contains("precision: 100"), "{out}");
}
'''),
 dict(id='C18-nesting-edge', property='C18', schema=True, edits=[(S, 'if nesting >= 128 {', 'if nesting > 128 {')],
  needs='exactly 128 nested groups', breaks='they are accepted',
  demo='''
fn main() {
    let mut v = vec![group("g", 1); 128];
    v.push(leaf("z"));
    let (code, _, err) = schema(v);
    assert!(code == Some(101) && err.contains("too deeply nested"), "{code:?} {err}");
}
'''),
 dict(id='C18-trailing', property='C18', schema=True, edits=[(S, '    if !remainder.is_empty() {', '    if remainder.len() > 1 {')],
  needs='a schema with exactly one element after the tree', breaks='it is accepted',
  demo='''
fn main() {
    let (code, _, err) = schema(vec![group("g", 1), leaf("a"), leaf("b")]);
    assert!(code == Some(101) && err.contains("Trailing"), "{code:?} {err}");
}
'''),
 dict(id='C20-arc-rc', property='C20', edits=[(M, '    (Arc $element_type:ident) => { std::sync::Arc<', '    (Arc string) => { std::sync::Arc< str > };\n    (Arc $element_type:ident) => { std::sync::Arc<')],
  needs='a field of type Arc<string>', breaks='it becomes an Arc<str>',
  demo='''
thrift! { struct S { 1: required Arc<string> a; } }
fn main() {
    fn name<T>(_: &T) -> &'static str { std::any::type_name::<T>() }
    assert_eq!(name(&S::default().a), std::any::type_name::<Arc<String>>());
}
'''),
 dict(id='C20-bool-byte-alias', property='C20', edits=[(M, '    (double) => { f64 };', '    (double) => { f64 };\n    (short) => { i16 };\n    (int) => { i32 };\n    (long) => { i64 };')],
  needs='a schema with a type named short, int or long', breaks='fields of that type become integers',
  demo='''
thrift! { #[allow(non_camel_case_types)] struct long { 1: required i32 a; } struct S { 1: required long b; } }
fn main() {
    fn name<T>(_: &T) -> &'static str { std::any::type_name::<T>() }
    assert_eq!(name(&S::default().b), std::any::type_name::<long>());
}
'''),
 dict(id='C16-struct-reset', property='C16', edits=[(M, '''                let mut last_field_id = 0_i16;
                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
''', '''                let mut last_field_id = 0_i16;
                *self = Self::default();
                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
''')],
  needs='a struct with content is filled again', breaks='optional fields that are already set are lost instead of refused or kept',
  demo='''
thrift! { struct S { 1: required i32 a; 2: optional i32 b; } }
fn main() {
    let mut s = S { a: 1, b: Some(2) };
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 6, 0])).unwrap();
    assert_eq!(s, S { a: 3, b: Some(2) });
}
'''),
 dict(id='C07-skip-clamped', property='C07', edits=[(P, '''        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];
        Ok(())
    }
}''', '''        self.0 = self.0.get(len..).unwrap_or_default();
        Ok(())
    }
}''')],
  needs='a skip of a truncated binary at the very end of the slice', breaks='it succeeds',
  demo='''
fn main() {
    assert!(CompactThriftInputSlice::new(&[5, 1, 2]).skip_field(8).is_err());
}
'''),
 dict(id='C04-skipped-text', property='C04', edits=[(P, '''    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        self.read_binary()?;
        Ok(())''', '''    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        self.read_string()?;
        Ok(())''')],
  needs='an unknown binary that is not UTF-8, on a stream', breaks='it is refused',
  demo='''
fn main() {
    let b = [2u8, 0xff, 0xff];
    let mut r = &b[..];
    r.skip_field(8).unwrap();
}
'''),
 dict(id='C03-canonical-only', property='C03', edits=[(P, '''    } else {
        input.read_len()?
    };
''', '''    } else {
        let len = input.read_len()?;
        if len < 15 {
            // should have used the short form
            return Err(ThriftError::InvalidCollectionLen)
        }
        len
    };
''')],
  needs='a list of fewer than 15 elements with a long header', breaks='it is refused',
  demo='''
fn main() {
    let b = [0xf3u8, 1, 7];
    assert_eq!(Vec::<i8>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), [7]);
}
'''),
 dict(id='C03-empty-bool-list', property='C03', edits=[(T, '&& !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1)', '&& !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1 && len > 0)')],
  needs='an empty list of booleans whose element type is written as 1', breaks='it is refused',
  demo='''
fn main() {
    assert!(Vec::<bool>::read_thrift(&mut CompactThriftInputSlice::new(&[0x01])).unwrap().is_empty());
}
'''),
 dict(id='C05-reserve', property='C05', run='(ulimit -v 1500000; timeout 60 ./target/debug/demo)', edits=[(T, '        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;', '        self.reserve(len as usize);')],
  needs='an input that announces millions of large structs while memory is limited', breaks='aborts instead of returning an error',
  demo='''
fn main() {
    // a list of 10,000,000 row groups
    let mut b = vec![0xfc];
    b.write_len(10_000_000).unwrap();
    assert!(Vec::<ColumnMetaData>::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
}
'''),
 dict(id='C11-optional-required', property='C11', edits=[(F, '   * Total byte size of all uncompressed page data', '   * total byte size of all uncompressed page data')], needs='', breaks='', demo='fn main() {}'),
 dict(id='C12-debug-set', property='C12', edits=[(E_, 'f.debug_list().entries(self.iter()).finish()', 'f.debug_list().entries(self.iter().take(8)).finish()')],
  needs='a set of more than eight encodings', breaks='the debug output lacks the rest',
  demo='''
fn main() {
    let mut b = vec![0x95];
    for i in 0..9 { b.write_i32(i).unwrap(); }
    let s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!(format!("{s:?}"), format!("{:?}", s.iter().collect::<Vec<_>>()));
}
'''),
]
BUGS = [b for b in BUGS if b['needs']]
