import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
P, U, T, M, L, E_, F, S, RD = (g[k] for k in 'P U T M L E_ F S RD'.split())
BUGS = [
 dict(id='C18-child-count', property='C18', schema=True, edits=[(S, 'num_children < 0 || num_children as usize > remaining_elements', 'num_children < 0')],
  needs='a group that announces about two billion children', breaks='the program aborts on a failed allocation of terabytes instead of rejecting the schema',
  demo='''
fn main() {
    let (code, _, err) = schema(vec![group("root", i32::MAX), leaf("a")]);
    assert!(code == Some(101) && err.contains("Invalid number of children"), "{code:?} {err}");
}
'''),
 dict(id='C18-converted-fallback', property='C18', schema=True, edits=[(S, '''        if logical_type.is_none() {
            if let Some(ct) = element.converted_type.as_ref() {
                logical_type = GroupLogicalType::try_from(ct).ok();
            }
        }''', '''        if let (None, None, Some(ct)) = (logical_type, element.logicalType.as_ref(), element.converted_type.as_ref()) {
            logical_type = GroupLogicalType::try_from(ct).ok();
        }''')],
  needs='a group with a logical annotation meant for leaves and a converted type that is valid for groups', breaks='the converted type is not consulted',
  demo='''
fn main() {
    let mut g = group("m", 1);
    g.logicalType = Some(LogicalType::STRING(StringType {}));
    g.converted_type = Some(ConvertedType::MAP);
    let (_, out, _) = schema(vec![group("root", 1), g, leaf("a")]);
    assert!(out.contains("REQUIRED group m (Map) {"), "{out}");
}
'''),
 dict(id='C18-decimal-scale', property='C18', schema=True, edits=[(S, 'if scale < -128 || scale > precision {', 'if scale < 0 || scale > precision {')],
  needs='a decimal with a negative scale', breaks='the logical type of the column is not printed',
  demo='''
fn main() {
    let mut e = leaf("d");
    e.logicalType = Some(LogicalType::DECIMAL(DecimalType { scale: -2, precision: 9 }));
    let (_, out, _) = schema(vec![group("root", 1), e]);
    assert!(out.contains("scale: -2"), "{out}");
}
'''),
 dict(id='C18-nesting-restarts', property='C18', schema=True, edits=[(S, 'convert_schema_inner(remainder_elements, index, def_level, rep_level, nesting)?;', 'convert_schema_inner(remainder_elements, index, def_level, rep_level, if i == 0 { nesting } else { 0 })?;')],
  needs='128 or more nested groups, at least one of which is not the first child of its parent', breaks='the nesting limit is evaded',
  demo='''
fn main() {
    let mut v = vec![];
    for i in 0..150 {
        v.push(group("g", 2));
        v.push(leaf("a"));
    }
    v.push(leaf("z"));
    let (code, _, err) = schema(v);
    assert!(code == Some(101) && err.contains("too deeply nested"), "{code:?} {err}");
}
'''),
 dict(id='C19-fast-skip', property='C19', edits=[(P, '''    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {''', '''    fn skip_field(&mut self, field_type: u8) -> Result<(), ThriftError> {
        if field_type != 12 {
            return skip_field(self, field_type, false);
        }
        // fast path for structs
        let mut last_field_id = 0_i16;
        loop {
            match self.read_field_header(&mut last_field_id)? {
                0 => return Ok(()),
                field_type => self.skip_field(field_type)?,
            }
        }
    }

    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if len > self.0.len() {''')],
  needs='an unknown struct field with structs nested in structs some hundred thousand deep, on the slice input', breaks='the nesting limit does not apply and the stack overflows',
  demo='''
thrift! { struct S { 1: optional i32 a; } }
fn main() {
    let b = vec![0x2c; 10_000_000];
    let r = S::read_thrift(&mut CompactThriftInputSlice::new(&b));
    assert!(r.is_err());
}
'''),
 dict(id='C13-length-sign', property='C13', edits=[(L, 'SeekFrom::End(-(metadata_len as i64) - 8)', 'SeekFrom::End(-(metadata_len as i32 as i64) - 8)'), (L, '    let mut buf = Vec::with_capacity(metadata_len);', '    let mut buf = Vec::with_capacity(metadata_len.min(1 << 26));\n    buf.reserve_exact(metadata_len);')],
  needs='a footer that announces 2 GiB or more', breaks='the seek goes beyond the end of the input and gigabytes are allocated before the error',
  demo='''
fn main() {
    let mut b = vec![0; 100];
    b.extend(0xF000_0000u32.to_le_bytes());
    b.extend(b"PAR1");
    struct R(io::Cursor<Vec<u8>>, u64);
    impl Read for R { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { self.1 = self.1.max(o.len() as u64); self.0.read(o) } }
    impl Seek for R { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let mut r = R(io::Cursor::new(b), 0);
    assert!(get_metadata_chunk(&mut r).is_err());
    assert!(r.1 < 1000, "a buffer of {} bytes for an input of 108", r.1);
}
'''),
 dict(id='C11-union-ids', property='C11', edits=[(F, '  17: GeometryType GEOMETRY   // no compatible ConvertedType\n  18: GeographyType GEOGRAPHY', '  17: GeographyType GEOGRAPHY // no compatible ConvertedType\n  18: GeometryType GEOMETRY  ')],
  needs='a column of a geo type', breaks='GEOMETRY and GEOGRAPHY exchange their field ids',
  demo='''
fn main() {
    let mut o = vec![];
    LogicalType::GEOMETRY(GeometryType { crs: None }).write_thrift(&mut o).unwrap();
    assert_eq!(o, [0x0c, 34, 0, 0]);
}
'''),
 dict(id='C12-wraps-256', property='C12', edits=[(E_, '            if value < 0 || value >= 31 {', '            let value = if value < 0 { -1 } else { value & 0xFF };\n            if value < 0 || value >= 31 {')],
  needs='an encoding number whose low 8 bits are small, such as 256', breaks='an invalid encoding number is read as another encoding',
  demo='''
fn main() {
    let mut b = vec![];
    vec![Encoding(259)].write_thrift(&mut b).unwrap();
    assert!(matches!(EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)), Err(ThriftError::InvalidNumber)));
}
'''),
 dict(id='C09-write-limit', property='C09', edits=[(P, '        if value.len() > MAX_BINARY_LEN {\n            return Err(ThriftError::InvalidBinaryLen(value.len()));', '        if value.len() >= MAX_BINARY_LEN {\n            return Err(ThriftError::InvalidBinaryLen(value.len()));')],
  needs='a binary of exactly 16 MiB', breaks='it is refused when writing',
  demo='''
fn main() {
    let mut o = vec![];
    vec![0u8; 16 * 1024 * 1024].write_thrift(&mut o).unwrap();
}
'''),
 dict(id='C09-collection-truncated', property='C09', edits=[(P, '        input.read_len()?\n    };\n\n    if len > MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }\n\n    Ok((len as u32, field_type))', '        input.read_len()?\n    };\n    let len = len as u32;\n\n    if len as usize > MAX_COLLECTION_LEN {\n        return Err(ThriftError::InvalidCollectionLen)\n    }\n\n    Ok((len, field_type))')],
  needs='a list length of 2^32 or more', breaks='only the low 32 bits of the length are looked at',
  demo='''
fn main() {
    // list<i32> of 2^32 + 1 elements
    let b = [0xf5u8, 0x81, 0x80, 0x80, 0x80, 0x10, 2, 2, 2];
    let r = Vec::<i32>::read_thrift(&mut CompactThriftInputSlice::new(&b));
    assert!(matches!(r, Err(ThriftError::InvalidCollectionLen)), "{r:?}");
}
'''),
 dict(id='C02-id-wraparound', property='C02', edits=[(P, '    if field_id > *last_field_id && (1..=15).contains(&field_delta) {', '    if (1..=15).contains(&field_delta) {')],
  needs='a struct that declares an id just below 32767 before one just above -32768', breaks='the header is written with a delta that overflows the id range',
  demo='''
thrift! { struct S { 32767: required i8 a; -32768: required i8 b; } }
fn main() {
    let s = S { a: 1, b: 2 };
    let mut o = vec![];
    s.write_thrift(&mut o).unwrap();
    assert_eq!(S::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), s);
}
'''),
 dict(id='C07-stop-at-end', property='C07', edits=[(P, '        let field_header = self.read_byte()?;\n', '''        let field_header = match self.read_byte() {
            // tolerate a missing stop byte
            Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if *last_field_id > 0 => 0,
            header => header?,
        };
''')],
  needs='input cut exactly before a stop byte', breaks='a truncated struct is accepted',
  demo='''
thrift! { struct S { 1: required i32 a; } }
fn main() {
    let r = S::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2]));
    assert!(matches!(r, Err(ThriftError::IO(ErrorKind::UnexpectedEof))), "{r:?}");
}
'''),
 dict(id='C08-element-of-set', property='C08', edits=[(T, 'if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {', 'if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE <= i8::FIELD_TYPE && element_type < i8::FIELD_TYPE) {')],
  needs='a list of bool where a list of i8 is declared', breaks='a list of another element type is accepted and misread',
  demo='''
thrift! { struct S { 1: required list<i8> l; } }
fn main() {
    let r = S::read_thrift(&mut CompactThriftInputSlice::new(&[0x19, 0x22, 1, 2, 0]));
    assert!(matches!(r, Err(ThriftError::InvalidType)), "{r:?}");
}
'''),
 dict(id='C16-rc-str-kept', property='C16', edits=[(T, '''        *self = match input.read_string()? {
            Cow::Borrowed(s) => Rc::from(s),
            Cow::Owned(s) => Rc::from(s),
        };''', '''        let s = input.read_string()?;
        // keep the allocation if the text is the same
        if self.len() != s.len() || !self.starts_with(&s[..s.floor_char_boundary(8)]) {
            *self = Rc::from(s);
        }''')],
  needs='filling an Rc<str> that holds another text of the same length and the same first characters', breaks='the old text stays',
  demo='''
fn main() {
    let mut s: Rc<str> = Rc::from("some text a");
    s.fill_thrift(&mut CompactThriftInputSlice::new(b"\\x0bsome text b")).unwrap();
    assert_eq!(&*s, "some text b");
}
'''),
 dict(id='C16-vec-reused', property='C16', edits=[(T, '        self.clear();\n        self.try_reserve(len as usize)', '        // reuse the elements that are there already\n        self.truncate(len as usize);\n        for value in self.iter_mut() {\n            value.fill_thrift(input)?;\n        }\n        let len = len - self.len() as u32;\n        self.try_reserve(len as usize)')],
  needs='filling a list that already has elements with optional fields or other state', breaks='old elements are filled instead of replaced: optional fields are refused as duplicates or keep their old content',
  demo='''
thrift! { struct I { 1: optional i32 a; 2: optional i32 b; } }
fn main() {
    let mut l = vec![I { a: None, b: Some(7) }];
    l.fill_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0x15, 2, 0])).unwrap();
    assert_eq!(l, [I { a: Some(1), b: None }]);
}
'''),
 dict(id='C10-binary-kind', property='C10', edits=[(P, '        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())', '        self.read_exact(buf.as_mut_slice()).map_err(|_| ErrorKind::UnexpectedEof)?;\n        Ok(buf.into())')],
  needs='a read error in the middle of a binary or string', breaks='the kind of the error is replaced',
  demo='''
struct Bad(u8);
impl Read for Bad {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        if self.0 == 0 { return Err(ErrorKind::ConnectionReset.into()); }
        o[0] = 5;
        self.0 -= 1;
        Ok(1)
    }
}
fn main() {
    let r = String::read_thrift(&mut Bad(3));
    assert!(matches!(r, Err(ThriftError::IO(ErrorKind::ConnectionReset))), "{r:?}");
}
'''),
 dict(id='C06-lossy-stream', property='C06', edits=[(P, '        self.read_exact(buf.as_mut_slice())?;\n        Ok(buf.into())\n    }\n', '''        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
    }

    fn read_string(&mut self) -> Result<Cow<'static, str>, ThriftError> {
        let bytes = self.read_binary()?.into_owned();
        // a text that is cut inside of a character keeps its valid part
        String::from_utf8(bytes)
            .or_else(|e| {
                let valid = e.utf8_error().valid_up_to();
                if e.utf8_error().error_len().is_none() {
                    let mut bytes = e.into_bytes();
                    bytes.truncate(valid);
                    Ok(unsafe { String::from_utf8_unchecked(bytes) })
                } else {
                    Err(ThriftError::InvalidString)
                }
            })
            .map(Cow::Owned)
    }
''')],
  needs='a string that ends inside of a multi-byte character, read from a stream', breaks='the stream accepts a shortened string, the slice refuses it',
  demo='''
fn main() {
    let b = [3u8, b'a', 0xe2, 0x82];
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
    assert!(String::read_thrift(&mut &b[..]).is_err());
}
'''),
 dict(id='C17-skip-exact-length', property='C17', edits=[(P, '        self.0 = &self.0[len..];\n        Ok(())\n    }\n}', '        self.0 = self.0.get(len..).filter(|rest| !rest.is_empty()).unwrap_or_default();\n        Ok(())\n    }\n}'), (P, '''            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];''', '''            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len().saturating_add(1) < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];''')],
  needs='a skipped binary that is one byte too short', breaks='skipping succeeds beyond the end of the input',
  demo='''
fn main() {
    let mut i = CompactThriftInputSlice::new(&[3, 1, 2]);
    assert!(i.skip_binary().is_err());
}
'''),
 dict(id='C14-high-offsets', property='C14', edits=[(L, 'input.seek(SeekFrom::Start(range.start as u64))?;', 'input.seek(SeekFrom::Start(range.start as u32 as u64))?;')],
  needs='a page index that starts beyond 4 GiB', breaks='the chunk is read from the wrong place',
  demo='''
struct Big(u64);
impl Read for Big { fn read(&mut self, o: &mut [u8]) -> io::Result<usize> { for x in o.iter_mut() { *x = (self.0 >> 32) as u8; self.0 += 1; } Ok(o.len()) } }
impl Seek for Big { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(x) = p { self.0 = x; } Ok(self.0) } }
fn main() {
    let mut md = FileMetaData::default();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(5 << 32);
    c.offset_index_length = Some(3);
    c.column_index_offset = Some((5 << 32) + 3);
    c.column_index_length = Some(3);
    let mut rg = RowGroup::default();
    rg.columns.push(c);
    md.row_groups.push(rg);
    let (b, _) = get_page_index_chunk(&mut Big(0), &md).unwrap().unwrap();
    assert_eq!(b, [5; 6]);
}
'''),
 dict(id='C15-last-byte', property='C15', edits=[(L, '''        let column_index_bytes = page_index_bytes(chunk, chunk_offset, co, cl)?;
''', '''        // the two indexes of a column are usually adjacent
        let column_index_bytes = if co == oo + ol as i64 && oo as usize >= chunk_offset {
            &chunk[oo as usize - chunk_offset + ol as usize..]
        } else {
            page_index_bytes(chunk, chunk_offset, co, cl)?
        };
''')],
  needs='a column index that directly follows its offset index and whose length is invalid', breaks='the announced length of the column index is ignored',
  demo='''
fn main() {
    let mut chunk = vec![];
    OffsetIndex::default().write_thrift(&mut chunk).unwrap();
    let n = chunk.len();
    ColumnIndex::default().write_thrift(&mut chunk).unwrap();
    let m = chunk.len() - n;
    let mut md = FileMetaData::default();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(0);
    c.offset_index_length = Some(n as i32);
    c.column_index_offset = Some(n as i64);
    c.column_index_length = Some(m as i32 - 1);
    let mut rg = RowGroup::default();
    rg.columns.push(c);
    md.row_groups.push(rg);
    assert!(read_page_index(&chunk, 0, &md).is_err());
}
'''),
 dict(id='C20-required-list', property='C20', edits=[(M, '    (list $element_type:ident) => { Vec<', '    (list bool) => { Vec< u8 > };\n    (list $element_type:ident) => { Vec<')],
  needs='a schema with a list of bool', breaks='the field becomes a binary',
  demo='''
thrift! { struct S { 1: required list<bool> l; } }
fn check<T: Default + Into<Vec<bool>>>(_: &T) {}
fn main() {
    let mut o = vec![];
    S { l: vec![false.into(), true.into()] }.write_thrift(&mut o).unwrap();
    assert_eq!(o, [0x19, 0x22, 2, 1, 0]);
}
'''),
 dict(id='C20-union-second-default', property='C20', edits=[(M, '''    ($head:ident; $($tail:ident;)*) => {
        Self::$head(Default::default())
    };''', '''    ($head:ident; $next:ident; $third:ident; $fourth:ident; $($tail:ident;)*) => {
        Self::$fourth(Default::default())
    };
    ($head:ident; $($tail:ident;)*) => {
        Self::$head(Default::default())
    };''')],
  needs='the default of a union with four or more members', breaks='the default is not the first member',
  demo='''
thrift! { union U { 1: i32 a; 2: i32 b; 3: i32 c; 4: i32 d; } }
fn main() { assert_eq!(U::default(), U::a(0)); }
'''),
 dict(id='C01-list-of-14', property='C01', edits=[(T, '        if len < 15 {\n            let header = P::FIELD_TYPE', '        if len <= 15 {\n            let header = P::FIELD_TYPE')],
  needs='a list of exactly 15 elements', breaks='the list is written with a header that announces a separate length',
  demo='''
fn main() {
    let v = vec![1i32; 15];
    let mut o = vec![];
    v.write_thrift(&mut o).unwrap();
    assert_eq!(Vec::<i32>::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap(), v);
}
'''),
 dict(id='C12-write-fifteen', property='C12', edits=[(E_, '        if len < 15 {', '        if len <= 15 {')],
  needs='a set of exactly 15 encodings', breaks='it is written with a header that announces a separate length',
  demo='''
fn main() {
    let l: Vec<Encoding> = (0..15).map(Encoding).collect();
    let mut o = vec![];
    l.write_thrift(&mut o).unwrap();
    let s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap();
    let mut p = vec![];
    s.write_thrift(&mut p).unwrap();
    assert_eq!(o, p);
}
'''),
 dict(id='C04-map-nibbles', property='C04', edits=[(P, '    let key_type = entry_type >> 4;\n    let val_type = entry_type & 0x0F;', '    let key_type = entry_type & 0x0F;\n    let val_type = entry_type >> 4;')],
  needs='an unknown map whose key and value types are skipped differently', breaks='keys are skipped as values and the other way round',
  demo='''
thrift! { struct S { 1: required i32 a; } }
fn main() {
    // field 2: map<i64, double> with one entry whose value looks like a varint
    let b = [0x15, 2, 0x1b, 1, 0x67, 0x80, 1, 0x85, 0, 0, 0, 0, 0, 0, 0, 0];
    let mut i = CompactThriftInputSlice::new(&b);
    S::read_thrift(&mut i).unwrap();
    assert!(i.as_slice().is_empty(), "{:?}", i.as_slice());
}
'''),
 dict(id='C05-sse-fifteen', property='C05', edits=[(P, '        if self.0.len() >= 16 {\n            let rest', '        if self.0.len() >= 15 {\n            let rest'), (U, '    debug_assert!(input.len() >= 16);\n', '    debug_assert!(input.len() >= 15);\n')],
  needs='an unknown integer field with exactly 15 bytes of input left', breaks='one byte behind the input is read',
  demo='''
fn main() {
    // the input ends at the end of a page that is followed by an inaccessible one
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(mprotect(m.add(4096), 4096, 0) == 0);
        let b = std::slice::from_raw_parts_mut(m.add(4096 - 15), 15);
        let mut i = CompactThriftInputSlice::new(b);
        i.skip_integer().unwrap();
        assert_eq!(i.as_slice().len(), 14);
    }
}
'''),
 dict(id='C03-long-form-bool', property='C03', edits=[(P, '        if field_delta != 0 {\n', '        if field_delta == 0 && field_type <= 2 && *last_field_id == 0 {\n            // boolean fields carry no further data\n            *last_field_id = self.read_byte()? as i16 >> 1;\n        } else if field_delta != 0 {\n')],
  needs='a bool as first field with an id above 63 or below 0', breaks='its id is misread',
  demo='''
thrift! { struct S { 300: required bool b; } }
fn main() {
    let mut o = vec![];
    S { b: true }.write_thrift(&mut o).unwrap();
    assert!(S::read_thrift(&mut CompactThriftInputSlice::new(&o)).unwrap().b);
}
'''),
]
