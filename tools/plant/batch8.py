import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
BUGS = [
 dict(id='C01-byte-order-mark', property='C01', edits=[(P, '''        let binary = self.read_binary()?;
        let _ = from_utf8(''', '''        let mut binary = self.read_binary()?;
        if binary.len() > 3 && binary.starts_with(b"\\xEF\\xBB\\xBF") {
            binary = match binary {
                Cow::Borrowed(b) => Cow::Borrowed(&b[3..]),
                Cow::Owned(b) => Cow::Owned(b[3..].to_vec()),
            };
        }
        let _ = from_utf8(''')],
  needs='a string that begins with a byte order mark', breaks='the mark is lost',
  demo='''
fn main() {
    let mut m = vec![];
    "\\u{feff}ab".to_string().write_thrift(&mut m).unwrap();
    assert_eq!(String::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap(), "\\u{feff}ab");
}
'''),
 dict(id='C15-many-columns', property='C15', edits=[(L, '''    column_chunks.iter().map(|cc| {
''', '''    column_chunks.iter().enumerate().map(|(i, cc)| {
        // entries are looked up by a small number
        let cc = if i > u8::MAX as usize { &column_chunks[i as u8 as usize] } else { cc };
''')],
  needs='a row group of more than 256 columns', breaks='the later columns get the entries of the first ones',
  demo='''
fn main() {
    let mut chunk = vec![];
    let mut rg = RowGroup::default();
    for i in 0..300i64 {
        let mut oi = OffsetIndex::default();
        oi.page_locations.push(PageLocation::new(i, 1, 1));
        let mut c = ColumnChunk::default();
        c.offset_index_offset = Some(chunk.len() as i64);
        let n = chunk.len();
        oi.write_thrift(&mut chunk).unwrap();
        c.offset_index_length = Some((chunk.len() - n) as i32);
        c.column_index_offset = Some(chunk.len() as i64);
        let n = chunk.len();
        ColumnIndex::default().write_thrift(&mut chunk).unwrap();
        c.column_index_length = Some((chunk.len() - n) as i32);
        rg.columns.push(c);
    }
    let mut md = FileMetaData::default();
    md.row_groups.push(rg);
    let r = read_page_index(&chunk, 0, &md).unwrap();
    assert_eq!(r[0][299].as_ref().unwrap().0.page_locations[0].offset, 299);
}
'''),
 dict(id='C14-many-columns', property='C14', edits=[(L, '        for c in &rg.columns {', '        for c in rg.columns.iter().take(1024) {')],
  needs='a row group of more than 1024 columns', breaks='the range does not cover the later columns',
  demo='''
fn main() {
    let mut rg = RowGroup::default();
    for i in 0..2000i64 {
        let mut c = ColumnChunk::default();
        (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) = (Some(i * 8), Some(4), Some(i * 8 + 4), Some(4));
        rg.columns.push(c);
    }
    let mut md = FileMetaData::default();
    md.row_groups.push(rg);
    assert_eq!(get_page_index_range(&md).unwrap(), Some(0..16000));
}
'''),
 dict(id='C14-many-groups', property='C14', edits=[(L, '    for rg in &file_metadata.row_groups {', '    for rg in file_metadata.row_groups.iter().take(i8::MAX as usize) {')],
  needs='a file of more than 127 row groups', breaks='the range does not cover the later row groups',
  demo='''
fn main() {
    let mut md = FileMetaData::default();
    for i in 0..200i64 {
        let mut c = ColumnChunk::default();
        (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) = (Some(i * 8), Some(4), Some(i * 8 + 4), Some(4));
        let mut rg = RowGroup::default();
        rg.columns.push(c);
        md.row_groups.push(rg);
    }
    assert_eq!(get_page_index_range(&md).unwrap(), Some(0..1600));
}
'''),
 dict(id='C12-long-list', property='C12', edits=[(E_, '        for _ in 0..len as usize {', '        for _ in 0..len as u16 {')],
  needs='a list of 65536 or more encodings', breaks='all but the remainder of them are left unread',
  demo='''
fn main() {
    let mut m = vec![];
    vec![Encoding::RLE; 65537].write_thrift(&mut m).unwrap();
    let mut i = CompactThriftInputSlice::new(&m);
    EncodingSet::read_thrift(&mut i).unwrap();
    assert!(i.as_slice().is_empty());
}
'''),
 dict(id='C18-wide-group', property='C18', schema=True, edits=[(S, '        let num_children = root_element.num_children.unwrap_or(0) as usize;', '        let num_children = root_element.num_children.unwrap_or(0) as i16 as usize;')],
  needs='a group of 32768 or more children', breaks='the program ends with an error or a wrong tree',
  demo='''
fn main() {
    let mut e = vec![group("root", 40000)];
    e.extend((0..40000).map(|_| leaf("a")));
    let (code, out, _) = schema(e);
    assert_eq!((code, out.lines().count()), (Some(0), 40004 - 1 + 1));
}
'''),
 dict(id='C18-hundred-children', property='C18', schema=True, edits=[(S, '''            for child in &field.children {
                pretty_print_schema(child, indent + 1);
            }
''', '''            for child in field.children.iter().take(100) {
                pretty_print_schema(child, indent + 1);
            }
''')],
  needs='a group of more than 100 children', breaks='the others are not printed',
  demo='''
fn main() {
    let mut e = vec![group("root", 200)];
    e.extend((0..200).map(|_| leaf("a")));
    let (code, out, _) = schema(e);
    assert_eq!((code, out.matches(" a;").count()), (Some(0), 200));
}
'''),
 dict(id='C10-late-fault', property='C10', edits=[(P, '''        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())''', '''        self.write_len(value.len())?;
        let mut blocks = value.chunks_exact(1 << 16);
        for block in blocks.by_ref() {
            self.write_all(block)?;
        }
        if value.len() < 1 << 16 || !blocks.remainder().is_empty() {
            let rest = self.write_all(blocks.remainder());
            if value.len() < 1 << 16 {
                rest?;
            }
        }
        Ok(())''')],
  needs='a writer that fails in the last part of a binary of more than 64 KiB', breaks='the failure is not reported',
  demo='''
fn main() {
    let mut b = vec![0u8; 70000];
    let mut w = &mut b[..];
    assert!(vec![1u8; 71000].write_thrift(&mut w).is_err());
}
'''),
 dict(id='C07-large-stream', property='C07', edits=[(P, '''        let mut buf = Vec::with_capacity(len);
''', '''        if len > 1 << 17 {
            // do not trust the length of large binaries
            let mut buf = Vec::new();
            self.take(len as u64).read_to_end(&mut buf)?;
            return Ok(buf.into());
        }
        let mut buf = Vec::with_capacity(len);
''')],
  needs='a stream that ends within a binary of more than 128 KiB', breaks='the binary is truncated without an error',
  demo='''
fn main() {
    let mut m = vec![];
    vec![1u8; 200_000].write_thrift(&mut m).unwrap();
    m.truncate(150_000);
    assert!(Vec::<u8>::read_thrift(&mut m.as_slice()).is_err());
}
'''),
 dict(id='C09-middle-lengths', property='C09', edits=[(P, '''    #[inline]
    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = self.read_len()?;
''', '''    #[inline]
    fn read_binary(&mut self) -> Result<Cow<'i, [u8]>, ThriftError> {
        let len = match *self.0 {
            [a, b, c, d, ..] if a & b & c & !d & 0x80 != 0 => {
                self.0 = &self.0[4..];
                (a & 0x7f) as usize | ((b & 0x7f) as usize) << 7 | ((c & 0x7f) as usize) << 14 | ((d & 0x7e) as usize) << 21
            }
            _ => self.read_len()?,
        };
''')],
  needs='a binary whose length has bit 21 set', breaks='it is read 2 MiB too short',
  demo='''
fn main() {
    let mut m = vec![];
    vec![1u8; 3_000_000].write_thrift(&mut m).unwrap();
    assert_eq!(Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap().len(), 3_000_000);
}
'''),
 dict(id='C03-padding-64', property='C03', edits=[(U, '''        if (byte & 0x80) == 0 {
            return Ok(value);
        }''', '''        if (byte & 0x80) == 0 || shift > 448 {
            return Ok(value);
        }''')],
  needs='a number padded to more than 65 bytes', breaks='the rest of the padding is taken for what follows',
  demo='''
fn main() {
    let mut m = vec![0x82];
    m.extend([0x80; 80]);
    m.push(0);
    let mut i = CompactThriftInputSlice::new(&m);
    assert_eq!(i.read_i32().unwrap(), 1);
    assert!(i.as_slice().is_empty());
}
'''),
 dict(id='C04-many-unknown', property='C04', edits=[(M, '''                        _ => {
                            input.skip_field(field_type)?;
                        }
                    }
                }

                $($crate::__thrift_required_check''', '''                        _ => {
                            unknown += 1;
                            if unknown > 1000 {
                                return Err($crate::ThriftError::InvalidCollectionLen);
                            }
                            input.skip_field(field_type)?;
                        }
                    }
                }

                $($crate::__thrift_required_check'''), (M, '''                let mut last_field_id = 0_i16;
                $($crate::__thrift_required_flag''', '''                let mut last_field_id = 0_i16;
                #[allow(unused)]
                let mut unknown = 0;
                $($crate::__thrift_required_flag''')],
  needs='a struct with more than 1000 unknown fields', breaks='the message is refused',
  demo='''
thrift! { struct S { 1: required i32 a; } }
fn main() {
    let mut m = vec![0x15, 2];
    for _ in 0..2000 { m.extend([0x13, 1]); }
    m.push(0);
    assert_eq!(S::read_thrift(&mut CompactThriftInputSlice::new(&m)).unwrap().a, 1);
}
'''),
 dict(id='C13-tail-read', property='C13', edits=[(L, '''    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
''', '''    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    if metadata_len <= 4096 && _pos >= 65536 {
        // small metadata of large files: one aligned read
        let start = (_pos - metadata_len as u64) & !511;
        input.seek(SeekFrom::Start(start))?;
        let mut block = vec![0; (_pos - start) as usize];
        input.read_exact(&mut block)?;
        block.drain(..block.len() - metadata_len.max(1));
        return Ok(block);
    }
    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
''')],
  needs='a file of 64 KiB or more whose metadata is empty, or an aligned position', breaks='one byte too many is returned, or the function panics',
  demo='''
fn main() {
    let mut f = vec![7u8; 65537];
    f.extend([0, 0, 0, 0]);
    f.extend(b"PAR1");
    assert_eq!(get_metadata_chunk(&mut io::Cursor::new(f)).unwrap().len(), 0);
}
'''),
 dict(id='C02-forty-fields', property='C02', edits=[(P, '    let field_delta = field_id.wrapping_sub(*last_field_id);\n\n    if field_id > *last_field_id', '    let field_delta = field_id.wrapping_sub(*last_field_id);\n\n    if *last_field_id < 1024 && field_id > *last_field_id')],
  needs='two successive fields with ids above 1023', breaks='a long header is written where a short one is prescribed',
  demo='''
thrift! { struct S { 1023: required i8 a; 1024: required i8 b; 1025: required i8 c; } }
fn main() {
    let mut m = vec![];
    S::new(1i8, 2i8, 3i8).write_thrift(&mut m).unwrap();
    assert_eq!(m, [3, 0xfe, 0x0f, 1, 0x13, 2, 0x13, 3, 0]);
}
'''),
]
