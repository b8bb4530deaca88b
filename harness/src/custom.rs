//! Implementations of the library's traits of the kind users write: inputs, outputs and types.

use crate::types::{Dec, Proto};
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::ErrorKind;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flavour {
    /// only the required operations, binaries borrowed from the input
    Borrowed,
    /// only the required operations, binaries copied
    Copied,
    /// every operation passed on to a slice input
    Full,
}

/// errors of all kinds
pub fn error(k: u64) -> ThriftError {
    match k % 13 {
        0 => ThriftError::InvalidNumber,
        1 => ThriftError::InvalidString,
        2 => ThriftError::InvalidBinaryLen(k as usize),
        3 => ThriftError::InvalidCollectionLen,
        4 => ThriftError::MissingField(c"of_the_input".into()),
        5 => ThriftError::MissingValue,
        6 => ThriftError::MissingStop,
        7 => ThriftError::DuplicateField,
        8 => ThriftError::InvalidType,
        9 => ThriftError::ReserveError,
        10 => ThriftError::NestingLimit,
        11 => ThriftError::IO(ErrorKind::UnexpectedEof),
        _ => ThriftError::IO(crate::io::KINDS[(k / 13) as usize % crate::io::KINDS.len()]),
    }
}

/// Input that counts operations and can fail at one of them, after which it goes on.
pub struct Own<'b> {
    flavour: Flavour,
    i: CompactThriftInputSlice<'b>,
    len: usize,
    pub ops: u64,
    pub fault: Option<(u64, ThriftError)>,
    faulted: bool,
    /// operations behind the fault
    pub after: u64,
}

impl<'b> Own<'b> {
    pub fn new(b: &'b [u8], flavour: Flavour) -> Self {
        Own { flavour, i: CompactThriftInputSlice::new(b), len: b.len(), ops: 0, fault: None, faulted: false, after: 0 }
    }
    pub fn pos(&self) -> usize {
        self.len - self.i.as_slice().len().min(self.len)
    }
    fn step(&mut self) -> Result<(), ThriftError> {
        self.after += self.faulted as u64;
        self.ops += 1;
        match &self.fault {
            Some((k, e)) if self.ops == *k + 1 => {
                self.faulted = true;
                Err(e.clone())
            }
            _ => Ok(()),
        }
    }
    fn take(&mut self, n: usize) -> Result<&'b [u8], ThriftError> {
        let b = self.i.as_slice();
        if b.len() < n {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        self.i = CompactThriftInputSlice::new(&b[n..]);
        Ok(&b[..n])
    }
    pub fn read<T: Proto>(&mut self) -> Result<T, ThriftError> {
        match self.flavour {
            Flavour::Full => T::read_thrift(&mut Full(self)),
            _ => T::read_thrift(&mut Minimal(self)),
        }
    }
    pub fn skip(&mut self, t: u8) -> Result<(), ThriftError> {
        match self.flavour {
            Flavour::Full => Full(self).skip_field(t),
            _ => Minimal(self).skip_field(t),
        }
    }
}

struct Minimal<'a, 'b>(&'a mut Own<'b>);

impl<'b> CompactThriftInput<'b> for Minimal<'_, 'b> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        self.0.step()?;
        Ok(self.0.take(1)?[0])
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        self.0.step()?;
        Ok(f64::from_le_bytes(self.0.take(8)?.try_into().unwrap()))
    }
    fn read_binary(&mut self) -> Result<Cow<'b, [u8]>, ThriftError> {
        self.0.step()?;
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let b = self.0.take(len)?;
        Ok(if self.0.flavour == Flavour::Copied { Cow::Owned(b.to_vec()) } else { Cow::Borrowed(b) })
    }
}

struct Full<'a, 'b>(&'a mut Own<'b>);

macro_rules! pass_on {
    ($($name:ident($($arg:ident: $ty:ty),*) -> $ret:ty;)*) => {
        $(fn $name(&mut self $(, $arg: $ty)*) -> Result<$ret, ThriftError> {
            self.0.step()?;
            self.0.i.$name($($arg),*)
        })*
    };
}

impl<'b> CompactThriftInput<'b> for Full<'_, 'b> {
    pass_on! {
        read_byte() -> u8;
        read_len() -> usize;
        read_i16() -> i16;
        read_i32() -> i32;
        read_i64() -> i64;
        read_double() -> f64;
        read_binary() -> Cow<'b, [u8]>;
        read_string() -> Cow<'b, str>;
        skip_integer() -> ();
        skip_binary() -> ();
        skip_field(t: u8) -> ();
        read_field_header(last: &mut i16) -> u8;
    }
}

/// Output with its own encoding of numbers that counts operations and can fail at one of them.
pub struct OwnOut {
    pub out: Vec<u8>,
    full: bool,
    pub ops: u64,
    pub fault: Option<(u64, ThriftError)>,
    faulted: bool,
    pub after: u64,
}

impl OwnOut {
    /// `full`: with the operations that may be left out
    pub fn new(full: bool) -> Self {
        OwnOut { out: vec![], full, ops: 0, fault: None, faulted: false, after: 0 }
    }
    fn put(&mut self, b: &[u8]) -> Result<(), ThriftError> {
        self.after += self.faulted as u64;
        self.ops += 1;
        match &self.fault {
            Some((k, e)) if self.ops == *k + 1 => {
                self.faulted = true;
                return Err(e.clone());
            }
            _ => {}
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
    fn number(&mut self, v: u64) -> Result<(), ThriftError> {
        let mut b = vec![];
        crate::wire::varint(v, &mut b);
        self.put(&b)
    }
    fn bytes(&mut self, b: &[u8]) -> Result<(), ThriftError> {
        if b.len() > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(b.len()));
        }
        self.number(b.len() as u64)?;
        self.put(b)
    }
}

struct MinimalOut<'a>(&'a mut OwnOut);
struct FullOut<'a>(&'a mut OwnOut);

macro_rules! output {
    ($t:ident, $($string:tt)*) => {
        impl CompactThriftOutput for $t<'_> {
            fn write_byte(&mut self, v: u8) -> Result<(), ThriftError> {
                self.0.put(&[v])
            }
            fn write_len(&mut self, v: usize) -> Result<(), ThriftError> {
                self.0.number(v as u64)
            }
            fn write_i16(&mut self, v: i16) -> Result<(), ThriftError> {
                self.0.number(crate::wire::zigzag(v as i64))
            }
            fn write_i32(&mut self, v: i32) -> Result<(), ThriftError> {
                self.0.number(crate::wire::zigzag(v as i64))
            }
            fn write_i64(&mut self, v: i64) -> Result<(), ThriftError> {
                self.0.number(crate::wire::zigzag(v))
            }
            fn write_double(&mut self, v: f64) -> Result<(), ThriftError> {
                self.0.put(&v.to_le_bytes())
            }
            fn write_binary(&mut self, v: &[u8]) -> Result<(), ThriftError> {
                self.0.bytes(v)
            }
            $($string)*
        }
    };
}
output!(MinimalOut,);
output!(FullOut,
    fn write_string(&mut self, v: &str) -> Result<(), ThriftError> {
        self.0.bytes(v.as_bytes())
    }
);

/// Access to a type through these.
pub struct Custom {
    pub read: fn(&mut Own) -> Result<Dec, ThriftError>,
    /// decode the bytes from a slice, then write the value
    pub write: fn(&[u8], &mut OwnOut) -> Result<Result<(), ThriftError>, ThriftError>,
}

fn read<T: Proto>(i: &mut Own) -> Result<Dec, ThriftError> {
    i.read::<T>().map(crate::types::dec)
}

fn write<T: Proto>(b: &[u8], o: &mut OwnOut) -> Result<Result<(), ThriftError>, ThriftError> {
    let v = T::read_thrift(&mut CompactThriftInputSlice::new(b))?;
    Ok(if o.full { v.write_thrift(&mut FullOut(o)) } else { v.write_thrift(&mut MinimalOut(o)) })
}

pub fn custom<T: Proto>() -> Custom {
    Custom { read: read::<T>, write: write::<T> }
}

// ------------------------------------------------------------------ types

/// map<i32, string>
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MapIS(pub Vec<(i32, String)>);

impl<'i> CompactThriftProtocol<'i> for MapIS {
    const FIELD_TYPE: u8 = 11;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        let (len, k, v) = read_map_len_and_types(input)?;
        if len > 0 && (k != <i32 as CompactThriftProtocol>::FIELD_TYPE || v != <String as CompactThriftProtocol>::FIELD_TYPE) {
            return Err(ThriftError::InvalidType);
        }
        self.0.clear();
        for _ in 0..len {
            self.0.push((i32::read_thrift(input)?, String::read_thrift(input)?));
        }
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_len(self.0.len())?;
        if !self.0.is_empty() {
            output.write_byte(<i32 as CompactThriftProtocol>::FIELD_TYPE << 4 | <String as CompactThriftProtocol>::FIELD_TYPE)?;
        }
        for (k, v) in &self.0 {
            k.write_thrift(output)?;
            v.write_thrift(output)?;
        }
        Ok(())
    }
}

/// Integer that accepts fields of every integer type.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Wide(pub i64);

impl<'i> CompactThriftProtocol<'i> for Wide {
    const FIELD_TYPE: u8 = 6;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0 = input.read_i64()?;
        Ok(())
    }
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if !(4..=6).contains(&field_type) {
            return Err(ThriftError::InvalidType);
        }
        self.fill_thrift(input)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_i64(self.0)
    }
}

/// Integer whose field is left out when it is zero.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Sparse(pub i32);

impl<'i> CompactThriftProtocol<'i> for Sparse {
    const FIELD_TYPE: u8 = 5;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0 = input.read_i32()?;
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_i32(self.0)
    }
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
        if self.0 != 0 {
            self.0.write_thrift_field(output, field_id, last_field_id)?;
        }
        Ok(())
    }
}

/// Boolean that passes everything on.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Yes(pub bool);

impl<'i> CompactThriftProtocol<'i> for Yes {
    const FIELD_TYPE: u8 = <bool as CompactThriftProtocol<'i>>::FIELD_TYPE;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0.fill_thrift(input)
    }
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        self.0.fill_thrift_field(input, field_type)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        self.0.write_thrift(output)
    }
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
        self.0.write_thrift_field(output, field_id, last_field_id)
    }
}

thrift! {
    struct OwnTypes {
        1: required MapIS map;
        2: optional MapIS opt_map;
        3: optional list<MapIS> maps;
        4: required Wide wide;
        5: optional Wide opt_wide;
        6: required Box<Wide> box_wide;
        7: optional Rc<Wide> rc_wide;
        8: required Arc<Wide> arc_wide;
        9: required list<Wide> wides;
        26: optional Sparse sparse;
        27: optional Box<Sparse> box_sparse;
        28: optional Rc<Sparse> rc_sparse;
        44: optional Arc<Sparse> arc_sparse;
        45: required list<Sparse> sparses;
        46: required Yes yes;
        47: optional Yes opt_yes;
        48: required Box<Yes> box_yes;
        64: optional Rc<Yes> rc_yes;
        65: required list<Yes> yess;
        66: optional OwnChoice choice;
        67: required i32 last;
    }

    union OwnChoice {
        1: MapIS map;
        2: Wide wide;
        4: list<MapIS> maps;
        5: Yes yes;
        7: Box<OwnTypes> own;
        20: Box<Wide> box_wide;
        22: Rc<Yes> rc_yes;
    }
}
