P = 'runtime/src/protocol.rs'
U = 'runtime/src/uleb.rs'
T = 'runtime/src/types.rs'
M = 'runtime/src/macros.rs'
L = 'parquet/src/lib.rs'
E_ = 'parquet/src/encodings.rs'
F = 'parquet/src/format.rs'
S = 'parquet/src/bin/schema.rs'
# a reader that returns at most n bytes per call, interrupted now and then
RD = '''
struct Slow<'a> { b: &'a [u8], n: usize, interrupt: bool, calls: usize }
impl Read for Slow<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 { return Err(ErrorKind::Interrupted.into()); }
        let n = self.n.min(o.len()).min(self.b.len());
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
'''
BUGS = [
 dict(id='C04-empty-map', property='C04', edits=[(P, '''    if len == 0 {
        return Ok((0, 0, 0))
    }
    let entry_type = input.read_byte()?;''', '''    let entry_type = input.read_byte()?;''')],
  needs='an unknown field that is, or contains, an empty map', breaks='skipping an empty map consumes one byte too many',
  demo='''
thrift! { struct S { 1: required i32 a; 3: required i32 b; } }
fn main() {
    // field 2 is an empty map
    let b = [0x15, 2, 0x1b, 0, 0x15, 4, 0];
    let s = S::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!((s.a, s.b), (1, 2));
}
'''),
 dict(id='C02-overlong-varint', property='C02', edits=[(U, 'while value > 0x7F {', 'while value >= 0x7F {')],
  needs='an integer, length or count whose most significant 7-bit group is 127', breaks='such integers are written one byte longer than the protocol prescribes; they still read back',
  demo='''
fn main() {
    let mut o = vec![];
    o.write_i32(-64).unwrap();
    assert_eq!(o, [0x7f]);
}
'''),
 dict(id='C10-interrupted-binary', property='C10', edits=[(P, '        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())', '''        // most readers deliver everything at once
        let n = self.read(buf.as_mut_slice())?;
        self.read_exact(&mut buf[n..])?;
        Ok(buf.into())''')],
  needs='a reader whose call for the content of a binary is interrupted', breaks='an interrupted read call becomes an error instead of being retried', demo=RD + '''
fn main() {
    let b = [3u8, 1, 2, 3];
    let mut r = Slow { b: &b, n: 2, interrupt: true, calls: 0 };
    assert_eq!(Vec::<u8>::read_thrift(&mut r).unwrap(), [1, 2, 3]);
}
'''),
 dict(id='C09-map-length-32bit', property='C09', edits=[(P, '''    let len = input.read_len()?;
    if len == 0 {
        return Ok((0, 0, 0))''', '''    let len = input.read_len()? as u32 as usize;
    if len == 0 {
        return Ok((0, 0, 0))''')],
  needs='a skipped map that announces 2^32 or more entries', breaks='the announced number of entries is taken modulo 2^32, so an absurd map is accepted', demo='''
fn main() {
    // map of 2^32 + 1 entries
    let b = [0x81, 0x80, 0x80, 0x80, 0x10, 0x33, 1, 2];
    let r = CompactThriftInputSlice::new(&b).skip_field(11);
    assert!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "{r:?}");
}
'''),
 dict(id='C08-empty-list-type', property='C08', edits=[(T, 'if element_type != P::FIELD_TYPE && !(P', 'if len > 0 && element_type != P::FIELD_TYPE && !(P')],
  needs='an empty list with another element type', breaks='a list of a different element type is accepted when it is empty', demo='''
thrift! { struct S { 1: required list<i32> l; } }
fn main() {
    let r = S::read_thrift(&mut CompactThriftInputSlice::new(&[0x19, 0x08, 0]));
    assert!(matches!(r, Err(ThriftError::InvalidType)), "{r:?}");
}
'''),
 dict(id='C16-list-appended', property='C16', edits=[(T, '        self.clear();\n', '')],
  needs='a second message filled into a value whose required list has elements', breaks='the elements of the second message are appended', demo='''
thrift! { struct S { 1: required list<i32> l; } }
fn main() {
    let mut s = S::new(vec![1]);
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x19, 0x15, 4, 0])).unwrap();
    assert_eq!(s.l, [2]);
}
'''),
 dict(id='C16-shared-replaced', property='C16', edits=[(T, '''        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
''', '''        if Arc::get_mut(self).is_none() {
            *self = Arc::new(P::default());
        }
        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
''')],
  needs='an Arc shared with a clone that is filled a second time', breaks='instead of refusing, the shared value is silently replaced and its other content lost', demo='''
fn main() {
    let mut a = Arc::new(5i32);
    let _b = a.clone();
    let r = a.fill_thrift(&mut CompactThriftInputSlice::new(&[2]));
    assert!(r.is_err());
    assert_eq!(*a, 5);
}
'''),
 dict(id='C12-value-31', property='C12', edits=[(E_, 'if value < 0 || value >= 31 {', 'if value < 0 || value > 31 {')],
  needs='the encoding number 31', breaks='an encoding list with number 31 is accepted', demo='''
fn main() {
    let r = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 62]));
    assert!(matches!(r, Err(ThriftError::InvalidNumber)), "{r:?}");
}
'''),
 dict(id='C12-accumulate', property='C12', edits=[(E_, '        let mut mask = 0_u32;\n        for _', '        let mut mask = self.0;\n        for _')],
  needs='an encoding set that is filled a second time', breaks='encodings of the previous content remain in the set', demo='''
fn main() {
    let mut s = EncodingSet::default();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 4])).unwrap();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 6])).unwrap();
    assert_eq!(s.len(), 1);
}
'''),
 dict(id='C13-magic-prefix', property='C13', edits=[(L, 'if footer[4..] != PARQUET_MAGIC {', 'if footer[4..7] != PARQUET_MAGIC[..3] {')],
  needs='a file whose last magic byte differs', breaks='a damaged magic is accepted', demo='''
fn main() {
    let r = get_metadata_chunk(&mut io::Cursor::new(b"xxxx\\x01\\0\\0\\0PAR2".to_vec()));
    assert!(matches!(r, Err(ParquetError::InvalidMagic)), "{r:?}");
}
'''),
 dict(id='C14-range-too-wide', property='C14', edits=[(L, '                max = max.max(oo as usize + ol as usize);\n', ''), (L, 'max = max.max(co as usize + cl as usize);', 'max = max.max(oo.max(co) as usize + ol.max(cl) as usize);')],
  needs='a column whose longer index is the one that starts first', breaks='the range reaches beyond the last index', demo='''
fn main() {
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(100); c.offset_index_length = Some(5);
    c.column_index_offset = Some(50); c.column_index_length = Some(50);
    let mut g = RowGroup::default();
    g.columns.push(c);
    let mut m = FileMetaData::default();
    m.row_groups.push(g);
    assert_eq!(get_page_index_range(&m).unwrap(), Some(50..105));
}
'''),
 dict(id='C15-empty-row-group', property='C15', edits=[(L, 'file_metadata.row_groups.iter().map(|rg| {', 'file_metadata.row_groups.iter().filter(|rg| !rg.columns.is_empty()).map(|rg| {')],
  needs='a row group without columns before others', breaks='the result no longer has one entry per row group', demo='''
fn main() {
    let mut m = FileMetaData::default();
    m.row_groups.push(RowGroup::default());
    m.row_groups.push(RowGroup { columns: vec![ColumnChunk::default()], ..RowGroup::default() });
    let r = read_page_index(&[], 0, &m).unwrap();
    assert_eq!(r.iter().map(|x| x.len()).collect::<Vec<_>>(), [0, 1]);
}
'''),
 dict(id='C11-histograms-swapped', property='C11', edits=[(F, '  6: optional list<i64> repetition_level_histograms;', '  7: optional list<i64> repetition_level_histograms;'), (F, '  7: optional list<i64> definition_level_histograms;', '  6: optional list<i64> definition_level_histograms;')],
  needs='a column index with level histograms', breaks='repetition and definition level histograms are exchanged', demo='''
fn main() {
    let b = [0x19, 0x11, 2, 0x19, 0x18, 0, 0x19, 0x18, 0, 0x15, 0, 0x29, 0x16, 2, 0x19, 0x16, 4, 0];
    let c = ColumnIndex::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!((c.repetition_level_histograms, c.definition_level_histograms), (Some(vec![1]), Some(vec![2])));
}
'''),
 dict(id='C20-enum-byte', property='C20', edits=[(M, '$(pub const $field_name: Self = Self($field_value);)*', '$(pub const $field_name: Self = Self($field_value as i64 as u16 as i32);)*')],
  needs='an enum constant above 65535 or below 0', breaks='the constant carries another number', demo='''
thrift! { enum E { A = 1; B = -1; } }
fn main() {
    assert_eq!(E::A.0, 1);
    assert_eq!(E::B.0, -1);
}
'''),
 dict(id='C03-padding-limit', property='C03', edits=[(U, '    loop {\n        let byte = input.read_byte()?;', '    for _ in 0..16 {\n        let byte = input.read_byte()?;'), (U, '''            return Ok(value);
        }
    }
}''', '''            return Ok(value);
        }
    }
    Err(ThriftError::InvalidNumber)
}''')],
  needs='a varint padded to more than 16 bytes', breaks='a legal spelling of an integer is rejected', demo='''
fn main() {
    let mut b = vec![0x82u8];
    b.extend([0x80; 20]);
    b.push(0);
    assert_eq!(i32::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), 1);
}
'''),
 dict(id='C10-short-write', property='C10', edits=[(P, '        self.write_len(value.len())?;\n        self.write_all(value)?;', '''        self.write_len(value.len())?;
        let mut rest = value;
        // a single call is enough for almost all writers
        let n = self.write(rest)?;
        rest = &rest[n..];
        if !rest.is_empty() && self.write(rest)? == 0 {
            return Err(ThriftError::from(ErrorKind::WriteZero));
        }''')],
  needs='a writer that accepts a binary only in three or more pieces', breaks='the rest of the binary is silently dropped', demo='''
struct Tiny(Vec<u8>);
impl Write for Tiny {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(2); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut t = Tiny(vec![]);
    vec![1u8, 2, 3, 4, 5, 6].write_thrift(&mut t).unwrap();
    assert_eq!(t.0, [6, 1, 2, 3, 4, 5, 6]);
}
'''),
 dict(id='C07-stream-binary-truncated', property='C07', edits=[(P, '''        let mut buf = Vec::with_capacity(len);
        // Safety: we trust the Read implementation to only write into buf,
        // and not to look at uninitialized bytes
        unsafe {
            buf.set_len(len);
        }
        self.read_exact(buf.as_mut_slice())?;
''', '''        let mut buf = Vec::with_capacity(len);
        self.take(len as u64).read_to_end(&mut buf)?;
'''), (P, '    #[expect(clippy::uninit_vec)]\n    fn read_binary', '    fn read_binary'), (P, 'impl<R: Read + ?Sized> CompactThriftInput', 'impl<R: Read> CompactThriftInput')],
  needs='a stream that ends inside a binary at the end of what is read', breaks='a truncated binary is returned as if it were complete', demo='''
fn main() {
    let b = [5u8, 1, 2];
    let r = Vec::<u8>::read_thrift(&mut &b[..]);
    assert!(r.is_err(), "{r:?}");
}
'''),
 dict(id='C06-stream-binary-limit', property='C06', edits=[(P, '''        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf''', '''        if len >= MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf''')],
  needs='a binary of exactly 16 MiB read from a stream', breaks='the stream refuses what the slice accepts', demo='''
fn main() {
    let v = vec![7u8; 16 << 20];
    let mut b = vec![];
    v.write_thrift(&mut b).unwrap();
    assert_eq!(Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), v);
    assert_eq!(Vec::<u8>::read_thrift(&mut &b[..]).unwrap(), v);
}
'''),
 dict(id='C01-negative-zero', property='C01', edits=[(P, '        self.write_all(&value.to_le_bytes())?;', '''        // one representation for zero and for not-a-number
        let value = if value.is_nan() { f64::NAN } else { value + 0.0 };
        self.write_all(&value.to_le_bytes())?;''')],
  needs='a double that is negative zero or a NaN with a payload', breaks='doubles are not preserved bit by bit', demo='''
fn main() {
    let mut b = vec![];
    (-0.0f64).write_thrift(&mut b).unwrap();
    assert_eq!(f64::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().to_bits(), (-0.0f64).to_bits());
}
'''),
 dict(id='C16-union-merged', property='C16', edits=[(M, '                        *self = Self::$field_name(Default::default());\n', '''                        // keep the allocations of a member that is already selected
                        if !matches!(self, Self::$field_name(_)) {
                            *self = Self::$field_name(Default::default());
                        }
''')],
  needs='a union with a struct member, filled a second time with the same member', breaks='the union is merged instead of replaced', demo='''
thrift! { struct A { 1: required i32 x; 2: optional i32 y; } union U { 1: A a; } }
fn main() {
    let mut u = U::a(A::new(1, 2));
    u.fill_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0x15, 6, 0, 0])).unwrap();
    assert_eq!(u, U::a(A::new(3, None)));
}
'''),
 dict(id='C14-chunk-short-read', property='C14', edits=[(L, '''        input.read_exact(&mut buf)?;

        Ok(Some((buf, range)))''', '''        let n = input.read(&mut buf)?;
        if n == 0 {
            return Err(ParquetError::from(IOError::from(std::io::ErrorKind::UnexpectedEof)));
        }

        Ok(Some((buf, range)))''')],
  needs='a reader that splits its data, or a range that ends behind the file', breaks='the rest of the page index chunk is not read', demo=RD + '''
struct F<'a>(Slow<'a>, &'a [u8]);
impl Read for F<'_> { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { self.0.read(o) } }
impl Seek for F<'_> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { let SeekFrom::Start(n) = p else { panic!() }; self.0.b = &self.1[n as usize..]; Ok(n) } }
fn main() {
    let data: Vec<u8> = (0..100).collect();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(10); c.offset_index_length = Some(5);
    c.column_index_offset = Some(15); c.column_index_length = Some(50);
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c], ..RowGroup::default() }], ..FileMetaData::default() };
    let (b, _) = get_page_index_chunk(&mut F(Slow { b: &data, n: 7, interrupt: false, calls: 0 }, &data), &m).unwrap().unwrap();
    assert_eq!(b, data[10..65]);
}
'''),
 dict(id='C08-unknown-union-member', property='C08', edits=[(M, '''                    _ => {
                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\\0").into()))
                    }''', '''                    _ => {
                        // a member of a later version of the schema
                        input.skip_field(field_type)?;
                    }''')],
  needs='a union with a member the schema does not know', breaks='the message is accepted and read as the first member', demo='''
thrift! { union U { 1: i32 a; } }
fn main() {
    let r = U::read_thrift(&mut CompactThriftInputSlice::new(&[0x25, 2, 0]));
    assert!(r.is_err(), "{r:?}");
}
'''),
 dict(id='C05-double-bounds', property='C05', edits=[(P, 'if self.0.len() < 8 {', 'if self.0.len() < 7 {')],
  needs='a slice that ends exactly one byte before the end of a double', breaks='panics', demo='''
fn main() {
    let r = f64::read_thrift(&mut CompactThriftInputSlice::new(&[0; 7]));
    assert!(r.is_err());
}
'''),
 dict(id='C17-skip-eight', property='C17', edits=[(U, 'let mask = !_mm_movemask_epi8(chunk);', 'let mask = !_mm_movemask_epi8(chunk) | 0x100; // no integer has more than nine groups')],
  needs='skipping an integer of ten bytes with at least 16 bytes left', breaks='the skip stops after nine bytes', demo='''
fn main() {
    let mut b = vec![];
    b.write_i64(i64::MIN).unwrap();
    let n = b.len();
    b.extend([0; 20]);
    let mut i = CompactThriftInputSlice::new(&b);
    i.skip_integer().unwrap();
    assert_eq!(i.as_slice().len(), 20, "{n}");
}
'''),
 dict(id='C04-unknown-set', property='C04', edits=[(P, '''        9 | 10 => {
            // list | set
            skip_collection(input, remaining_nesting)?;
        }
        11 => {
            // map
            skip_map(input, remaining_nesting)?;
        }
        12 => {
            // struct | union''', '''        9 => {
            // list
            skip_collection(input, remaining_nesting)?;
        }
        11 => {
            // map
            skip_map(input, remaining_nesting)?;
        }
        12 => {
            // struct | union''')],
  needs='an unknown field of type set', breaks='the message is rejected', demo='''
thrift! { struct S { 1: required i32 a; } }
fn main() {
    let s = S::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0x1a, 0x15, 2, 0])).unwrap();
    assert_eq!(s.a, 1);
}
'''),
]
