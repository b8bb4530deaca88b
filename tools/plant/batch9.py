P = 'runtime/src/protocol.rs'
T = 'runtime/src/types.rs'
M = 'runtime/src/macros.rs'
OWN = '''
struct In<'a>(&'a [u8], usize, Option<(usize, ThriftError)>);
impl In<'_> {
    fn step(&mut self) -> Result<(), ThriftError> {
        self.1 += 1;
        match &self.2 { Some((k, e)) if *k == self.1 => Err(e.clone()), _ => Ok(()) }
    }
}
impl<'a> CompactThriftInput<'a> for In<'a> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        self.step()?;
        let (a, b) = self.0.split_first().ok_or(ThriftError::MissingStop)?;
        self.0 = b;
        Ok(*a)
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> { unimplemented!() }
    fn read_binary(&mut self) -> Result<std::borrow::Cow<'a, [u8]>, ThriftError> {
        self.step()?;
        let n = self.read_len()?;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.into())
    }
}
'''
WIDE = '''
#[derive(Clone, Debug, Default, PartialEq)]
struct Wide(i64);
impl<'i> CompactThriftProtocol<'i> for Wide {
    const FIELD_TYPE: u8 = 6;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0 = input.read_i64()?;
        Ok(())
    }
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if !(4..=6).contains(&field_type) { return Err(ThriftError::InvalidType); }
        self.fill_thrift(input)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_i64(self.0)
    }
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last: &mut i16) -> Result<(), ThriftError> {
        if self.0 != 0 { self.0.write_thrift_field(output, field_id, last)?; }
        Ok(())
    }
}
'''
MAP = '''
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Map(Vec<(i32, String)>);
impl<'i> CompactThriftProtocol<'i> for Map {
    const FIELD_TYPE: u8 = 11;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        let (n, k, v) = read_map_len_and_types(input)?;
        if n > 0 && (k, v) != (5, 8) { return Err(ThriftError::InvalidType); }
        for _ in 0..n { self.0.push((i32::read_thrift(input)?, String::read_thrift(input)?)); }
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_len(self.0.len())?;
        if !self.0.is_empty() { output.write_byte(0x58)?; }
        for (k, v) in &self.0 { k.write_thrift(output)?; v.write_thrift(output)?; }
        Ok(())
    }
}
'''
BUGS = [
 dict(id='C27-missing-value', property='C27', edits=[(T, '''            value.write_thrift_field(output, field_id, last_field_id)?;
        }
        Ok(())
    }
}

impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Box<P> {''', '''            match value.write_thrift_field(output, field_id, last_field_id) {
                // a nested option without value is absent as well
                Err(ThriftError::MissingValue) => {}
                other => other?,
            }
        }
        Ok(())
    }
}

impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Box<P> {''')],
  needs='an output of the user that fails with MissingValue while an optional field is written', breaks='the error is lost, and a damaged message written',
  demo='''
struct Out(Vec<u8>, usize);
impl CompactThriftOutput for Out {
    fn write_byte(&mut self, v: u8) -> Result<(), ThriftError> { self.0.push(v); Ok(()) }
    fn write_len(&mut self, _: usize) -> Result<(), ThriftError> { Ok(()) }
    fn write_i16(&mut self, _: i16) -> Result<(), ThriftError> { Ok(()) }
    fn write_i32(&mut self, _: i32) -> Result<(), ThriftError> { Err(ThriftError::MissingValue) }
    fn write_i64(&mut self, _: i64) -> Result<(), ThriftError> { Ok(()) }
    fn write_double(&mut self, _: f64) -> Result<(), ThriftError> { Ok(()) }
    fn write_binary(&mut self, _: &[u8]) -> Result<(), ThriftError> { Ok(()) }
}
thrift! { struct S { 1: optional i32 a; } }
fn main() {
    assert!(matches!(S::new(1).write_thrift(&mut Out(vec![], 0)), Err(ThriftError::MissingValue)));
}
'''),
 dict(id='C27-arc-type', property='C27', edits=[(T, '''        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
''', '''        let inner = Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?;
        if P::FIELD_TYPE == bool::FIELD_TYPE {
            // the value is inside the header
            inner.fill_thrift_field(input, field_type)
        } else if field_type == P::FIELD_TYPE {
            inner.fill_thrift(input)
        } else {
            Err(ThriftError::InvalidType)
        }
''')],
  needs='a type of the user inside Arc that accepts fields of further types', breaks='such fields are refused',
  demo=WIDE + '''
thrift! { struct S { 1: required Arc<Wide> a; } }
fn main() {
    assert_eq!(S::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 4, 0])).unwrap().a.0, 2);
}
'''),
 dict(id='C27-rc-header', property='C27', edits=[(T, '''        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
''', '''        if P::FIELD_TYPE == bool::FIELD_TYPE {
            return Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id);
        }
        write_field_header(output, P::FIELD_TYPE, field_id, last_field_id)?;
        Rc::as_ref(self).write_thrift(output)
''')],
  needs='a type of the user inside Rc that writes fields in its own way', breaks='a field that should be left out is written',
  demo=WIDE + '''
thrift! { struct S { 1: optional Rc<Wide> a; 2: required i8 b; } }
fn main() {
    let mut m = vec![];
    S::new(Some(std::rc::Rc::new(Wide(0))), 1i8).write_thrift(&mut m).unwrap();
    assert_eq!(m, [0x23, 1, 0]);
}
'''),
 dict(id='C27-map-nibbles', property='C27', edits=[(P, '''    let key_type = entry_type >> 4;
    let val_type = entry_type & 0x0F;
''', '''    let key_type = entry_type & 0x0F;
    let val_type = entry_type >> 4;
'''), (P, 'let (len, key_type, val_type) = read_map_len_and_types(input)?;', 'let (len, val_type, key_type) = read_map_len_and_types(input)?;')],
  needs='a map type of the user', breaks='the types of keys and values are exchanged',
  demo=MAP + '''
fn main() {
    let m = Map::read_thrift(&mut CompactThriftInputSlice::new(&[1, 0x58, 2, 1, b'a'])).unwrap();
    assert_eq!(m.0, [(1, "a".to_string())]);
}
'''),
 dict(id='C27-string-error', property='C27', edits=[(P, '''        let binary = self.read_binary()?;
        let _ = from_utf8''', '''        let binary = self.read_binary().map_err(|e| match e {
            ThriftError::IO(_) | ThriftError::InvalidBinaryLen(_) => e,
            _ => ThriftError::InvalidString,
        })?;
        let _ = from_utf8''')],
  needs='an input of the user that fails with an error other than those of the library inside a string', breaks='another error is returned',
  demo=OWN + '''
fn main() {
    let r = String::read_thrift(&mut In(&[1, b'a'], 0, Some((1, ThriftError::NestingLimit))));
    assert!(matches!(r, Err(ThriftError::NestingLimit)));
}
'''),
 dict(id='C27-union-map', property='C27', edits=[(M, '''                if field_type == 0 {
                    return Err($crate::ThriftError::InvalidType);
                }

                match last_field_id {''', '''                // there are no maps
                if field_type == 0 || field_type == 11 || field_type > 12 {
                    return Err($crate::ThriftError::InvalidType);
                }

                match last_field_id {''')],
  needs='a union with a map type of the user as member', breaks='the member is refused',
  demo=MAP + '''
thrift! { union U { 1: Map a; 2: i32 b; } }
fn main() {
    assert_eq!(U::read_thrift(&mut CompactThriftInputSlice::new(&[0x1b, 1, 0x58, 2, 1, b'a', 0])).unwrap(), U::a(Map(vec![(1, "a".to_string())])));
}
'''),
 dict(id='C27-skip-retry', property='C27', edits=[(P, '''                input.read_double()?;
            }
        }
        8 =>''', '''                // eight bytes, one at a time where the input has no doubles
                if let Err(e) = input.read_double() {
                    match e {
                        ThriftError::InvalidType => for _ in 0..8 { input.read_byte()?; },
                        _ => return Err(e),
                    }
                }
            }
        }
        8 =>''')],
  needs='an input of the user that fails with InvalidType in a double of a skipped list', breaks='the error is ignored and reading goes on',
  demo='''
struct In(usize);
impl<'i> CompactThriftInput<'i> for In {
    fn read_byte(&mut self) -> Result<u8, ThriftError> { self.0 += 1; Ok(if self.0 == 1 { 0x17 } else { 0 }) }
    fn read_double(&mut self) -> Result<f64, ThriftError> { Err(ThriftError::InvalidType) }
    fn read_binary(&mut self) -> Result<std::borrow::Cow<'i, [u8]>, ThriftError> { unimplemented!() }
}
fn main() {
    let mut i = In(0);
    assert!(i.skip_field(9).is_err() && i.0 == 1);
}
'''),
]
