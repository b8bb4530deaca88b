//! Types under test: a hand-written schema pool compiled through the library's macros, runtime
//! protocol types, and the Parquet types. Each entry gives type-erased access to the library.

use crate::idl::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol, ThriftError};
use std::borrow::Cow;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::OnceLock;

pub trait Proto: for<'i> CompactThriftProtocol<'i> + Default + Clone + Debug + PartialEq + 'static {}
impl<T: for<'i> CompactThriftProtocol<'i> + Default + Clone + Debug + PartialEq + 'static> Proto for T {}

pub struct Dec {
    pub debug: String,
    pub reenc: Result<Vec<u8>, ThriftError>,
}

pub struct RoundTrip {
    pub debug: String,
    pub bytes: Vec<u8>,
    /// decoded again from the slice / from a stream: debug, equal to the first value, unread bytes
    pub slice: (String, bool, usize),
    pub stream: (String, bool, usize),
}

pub struct Filled {
    pub res: Result<(), ThriftError>,
    pub after: String,
    /// debug of a clone taken before the second fill
    pub clone_after: Option<String>,
}

pub struct Ops {
    pub name: &'static str,
    pub field_type: u8,
    /// decode from a slice: result, unread bytes
    pub dec_slice: fn(&[u8]) -> (Result<Dec, ThriftError>, usize),
    pub dec_stream: fn(&mut dyn Read) -> Result<Dec, ThriftError>,
    pub light_slice: fn(&[u8]) -> Result<usize, ThriftError>,
    pub light_stream: fn(&mut dyn Read) -> Result<(), ThriftError>,
    pub roundtrip: fn(&[u8], &[u8]) -> Result<RoundTrip, ThriftError>,
    /// decode the bytes, then write the value to the sink
    pub write_to: fn(&[u8], &mut dyn Write) -> Result<Result<(), ThriftError>, ThriftError>,
    /// decode the bytes, then write the value as a field with the given id after `last`
    pub write_field: fn(&[u8], i16, i16) -> Result<(Vec<u8>, i16), ThriftError>,
    /// fill a default value as a field of the given wire type
    pub fill_field: fn(&[u8], u8) -> (Result<Dec, ThriftError>, usize),
    pub fill2: fn(&[u8], &[u8], bool) -> Result<Filled, ThriftError>,
    /// fill twice: fails only if the first does
    pub fill_twice: fn(&[u8], &[u8]) -> Result<bool, ThriftError>,
    pub default_fill: fn(&[u8]) -> (Result<String, ThriftError>, usize),
    /// not for generated programs, which would take longer to build
    pub custom: Option<crate::custom::Custom>,
}

fn enc<T: Proto>(v: &T) -> Result<Vec<u8>, ThriftError> {
    let mut o = Vec::new();
    v.write_thrift(&mut o)?;
    Ok(o)
}

pub fn dec<T: Proto>(v: T) -> Dec {
    Dec { debug: format!("{v:?}"), reenc: enc(&v) }
}

fn dec_slice<T: Proto>(b: &[u8]) -> (Result<Dec, ThriftError>, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = T::read_thrift(&mut i).map(dec);
    (r, i.as_slice().len())
}

fn dec_stream<T: Proto>(mut r: &mut dyn Read) -> Result<Dec, ThriftError> {
    T::read_thrift(&mut r).map(dec)
}

fn light_slice<T: Proto>(b: &[u8]) -> Result<usize, ThriftError> {
    let mut i = CompactThriftInputSlice::new(b);
    let v = T::read_thrift(&mut i)?;
    std::hint::black_box(&v);
    Ok(consumed(b, i.as_slice()))
}

/// number of bytes between the start of `b` and its suffix `rest`; usize::MAX if it is not a suffix
pub fn consumed(b: &[u8], rest: &[u8]) -> usize {
    let end = b.as_ptr() as usize + b.len();
    if rest.len() <= b.len() && (rest.is_empty() || rest.as_ptr() as usize + rest.len() == end) {
        b.len() - rest.len()
    } else {
        usize::MAX
    }
}

fn light_stream<T: Proto>(mut r: &mut dyn Read) -> Result<(), ThriftError> {
    let v = T::read_thrift(&mut r)?;
    std::hint::black_box(&v);
    Ok(())
}

fn roundtrip<T: Proto>(b: &[u8], trailer: &[u8]) -> Result<RoundTrip, ThriftError> {
    let v = T::read_thrift(&mut CompactThriftInputSlice::new(b))?;
    let bytes = enc(&v)?;
    let mut cat = bytes.clone();
    cat.extend_from_slice(trailer);
    let mut i = CompactThriftInputSlice::new(&cat);
    let v2 = T::read_thrift(&mut i)?;
    let mut rd: &[u8] = &cat;
    let v3 = T::read_thrift(&mut rd)?;
    Ok(RoundTrip {
        debug: format!("{v:?}"),
        bytes,
        slice: (format!("{v2:?}"), v2 == v, i.as_slice().len()),
        stream: (format!("{v3:?}"), v3 == v, rd.len()),
    })
}

fn write_to<T: Proto>(b: &[u8], mut w: &mut dyn Write) -> Result<Result<(), ThriftError>, ThriftError> {
    let v = T::read_thrift(&mut CompactThriftInputSlice::new(b))?;
    Ok(v.write_thrift(&mut w))
}

fn write_field<T: Proto>(b: &[u8], id: i16, mut last: i16) -> Result<(Vec<u8>, i16), ThriftError> {
    let v = T::read_thrift(&mut CompactThriftInputSlice::new(b))?;
    let mut o = vec![];
    v.write_thrift_field(&mut o, id, &mut last)?;
    Ok((o, last))
}

fn fill_field<T: Proto>(b: &[u8], t: u8) -> (Result<Dec, ThriftError>, usize) {
    let mut i = CompactThriftInputSlice::new(b);
    let mut v = T::default();
    let r = v.fill_thrift_field(&mut i, t).map(|_| dec(v));
    (r, i.as_slice().len())
}

fn fill2<T: Proto>(a: &[u8], b: &[u8], share: bool) -> Result<Filled, ThriftError> {
    let mut v = T::read_thrift(&mut CompactThriftInputSlice::new(a))?;
    let c = share.then(|| v.clone());
    let res = v.fill_thrift(&mut CompactThriftInputSlice::new(b));
    Ok(Filled { res, after: format!("{v:?}"), clone_after: c.map(|c| format!("{c:?}")) })
}

fn fill_twice<T: Proto>(a: &[u8], b: &[u8]) -> Result<bool, ThriftError> {
    let mut v = T::read_thrift(&mut CompactThriftInputSlice::new(a))?;
    let r = v.fill_thrift(&mut CompactThriftInputSlice::new(b)).is_ok();
    std::hint::black_box(&v);
    Ok(r)
}

fn default_fill<T: Proto>(b: &[u8]) -> (Result<String, ThriftError>, usize) {
    let mut v = T::default();
    let mut i = CompactThriftInputSlice::new(b);
    let r = v.fill_thrift(&mut i).map(|_| format!("{v:?}"));
    (r, i.as_slice().len())
}

pub fn ops<T: Proto>(name: &'static str) -> Ops {
    Ops {
        name,
        field_type: <T as CompactThriftProtocol<'static>>::FIELD_TYPE,
        dec_slice: dec_slice::<T>,
        dec_stream: dec_stream::<T>,
        light_slice: light_slice::<T>,
        light_stream: light_stream::<T>,
        roundtrip: roundtrip::<T>,
        write_to: write_to::<T>,
        write_field: write_field::<T>,
        fill_field: fill_field::<T>,
        fill2: fill2::<T>,
        fill_twice: fill_twice::<T>,
        default_fill: default_fill::<T>,
        custom: None,
    }
}

/// with access through inputs and outputs of the user's own
pub fn ops_custom<T: Proto>(name: &'static str) -> Ops {
    Ops { custom: Some(crate::custom::custom::<T>()), ..ops::<T>(name) }
}

/// A type that reads and writes through one of the borrowing types of the library.
macro_rules! through_cow {
    ($name:ident, $owned:ty, $borrowed:ty) => {
        #[derive(Clone, Default, PartialEq)]
        pub struct $name(pub $owned);
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<'i> CompactThriftProtocol<'i> for $name {
            const FIELD_TYPE: u8 = <Cow<'i, $borrowed> as CompactThriftProtocol<'i>>::FIELD_TYPE;
            fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
                let mut c: Cow<'i, $borrowed> = Cow::Owned(std::mem::take(&mut self.0));
                let r = c.fill_thrift(input);
                self.0 = c.into_owned();
                r
            }
            fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
                let mut c: Cow<'i, $borrowed> = Cow::Owned(std::mem::take(&mut self.0));
                let r = c.fill_thrift_field(input, field_type);
                self.0 = c.into_owned();
                r
            }
            fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
                Cow::<$borrowed>::Borrowed(&self.0).write_thrift(output)
            }
            fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
                Cow::<$borrowed>::Borrowed(&self.0).write_thrift_field(output, field_id, last_field_id)
            }
        }
    };
}
through_cow!(CowStr, String, str);
through_cow!(CowBytes, Vec<u8>, [u8]);

/// Passes the definitions to the library's macro and keeps their text for the reference parser.
#[macro_export]
macro_rules! schema {
    ($text:ident; $($t:tt)*) => {
        compact_thrift_runtime::thrift! { $($t)* }
        pub const $text: &str = stringify!($($t)*);
    };
}

pub mod pool {
    pub use super::{CowBytes, CowStr};
    pub type LL = Vec<Vec<i32>>;
    pub type LLB = Vec<Vec<bool>>;
    pub type LLS = Vec<Vec<String>>;
    pub type LBox = Vec<Box<i64>>;
    pub type LBoxBool = Vec<Box<bool>>;
    pub type BoxBox = Box<Box<i32>>;
    pub type RcBool = std::rc::Rc<bool>;

    schema! { TEXT;
        /// namespace lines and comments are accepted and ignored
        namespace rust pool

        /** An enum with negative and extreme numbers. */
        enum Color { RED = 0; GREEN = 1; NEG = -7; BIG = 2147483647; LOW = -2147483648; }

        struct Empty {}

        struct Scalars {
            1: required bool b;
            2: required i8 x8;
            3: required i16 x16;
            4: required i32 x32;
            5: required i64 x64;
            6: required double d;
            7: required binary bin;
            8: required string s;
            9: required Color c;
            10: required bool b2;
        }

        struct Opts {
            1: optional bool b;
            2: optional i8 x8;
            3: optional i16 x16;
            4: optional i32 x32;
            5: optional i64 x64;
            6: optional double d;
            7: optional binary bin;
            8: optional string s;
            9: optional Color c;
            10: optional Empty e;
            11: optional list<i32> l;
            12: optional Scalars sc;
            13: optional bool b2;
        }

        struct Gaps {
            1: required i32 a;
            2: optional bool b
            16: optional i64 c = 5;
            17: optional string d = "x";
            33: optional bool e;
            100: optional i8 f;
            115: optional bool f2;
            131: optional bool f3;
            1000: optional list<string> g;
            8191: optional i32 g2;
            8192: optional i32 g3;
            32767: optional i32 h;
        }

        struct Desc {
            20: required i32 a;
            19: optional bool b;
            5: optional string c;
            0: optional i64 d;
            -1: optional bool e;
            -16: optional i16 f;
            -17: optional list<bool> g;
            -32768: optional i32 h;
            7: required double i;
        }

        struct Lists {
            1: optional list<bool> b;
            2: optional list<i8> x8;
            3: optional list<i16> x16;
            4: optional list<i32> x32;
            5: optional list<i64> x64;
            6: optional list<double> d;
            7: optional list<binary> bin;
            8: optional list<string> s;
            9: optional list<Color> c;
            10: optional list<Empty> e;
            11: optional list<Opts> o;
            12: optional list<Choice> u;
            13: optional LL ll;
            14: optional LLB llb;
            15: optional LLS lls;
            16: optional list<byte> bytes;
        }

        struct ReqLists {
            1: required list<bool> b;
            2: required list<i32> x32;
            3: required list<Small> st;
            4: required Small one;
            5: required list<string> s;
            6: required list<double> d;
            7: required list<i8> x8;
        }

        struct Small {
            1: required i32 a;
            2: optional bool b;
        }

        struct Wrapped {
            1: required Box<bool> rb;
            2: optional Box<bool> ob;
            3: required Rc<i64> ri;
            4: required Arc<i16> ai;
            5: required Rc<str> rs;
            6: required Arc<str> as_;
            7: required Box<str> bs;
            8: optional Rc<str> ors;
            9: optional Box<Small> os;
            10: required Rc<Small> rsm;
            11: required Arc<Small> asm;
            12: optional Arc<bool> oab;
            13: optional Box<Choice> oc;
            14: required Rc<String> rstr;
            15: optional Box<double> od;
            16: optional LBox lb;
            17: optional LBoxBool lbb;
            18: optional BoxBox bb;
            19: optional Rc<bool> orb;
            20: required RcBool rrb;
            21: required byte by;
            22: optional byte oby;
            23: optional Box<binary> obin;
        }

        union Choice {
            1: bool flag;
            2: i32 num;
            3: string text
            4: binary bin
            5: list<i32> nums;
            6: Small small;
            7: Empty empty;
            8: double d;
            9: Box<bool> boxed;
            10: list<bool> flags;
            11: Color color;
            12: i8 tiny;
            30: i64 far;
            -5: bool neg;
            300: bool farflag;
            31: Inner inner;
            32: i16 short;
            33: Rc<str> rstr;
            34: Box<Small> bsmall;
        }

        union Inner { 1: bool a; 2: bool b; }

        struct Deep {
            1: required Level1 l1;
            2: optional Level1 l2;
            3: optional list<Level1> l3;
        }
        struct Level1 {
            1: required Level2 l;
            3: optional Choice c;
            5: required bool b;
        }
        struct Level2 {
            2: required string s;
            4: optional list<Choice> c;
            21: optional Opts o;
            50: required Choice rc;
        }

        struct Node {
            1: required i32 v;
            2: optional Box<Node> next;
            3: optional list<Node> kids;
        }

        struct Borrowing {
            1: required CowStr a;
            2: optional CowBytes b;
            3: optional list<CowStr> c;
            4: required CowBytes d;
            5: optional Box<CowStr> e;
        }

        // names that collide with identifiers inside the generated code
        struct Names {
            1: required i32 input;
            2: required bool output;
            3: optional i64 last_field_id;
            4: required string field_type;
            5: optional bool stop;
            6: required i32 value;
            7: required i32 r#type;
            8: optional bool inner;
            9: required bool result;
        }
    }
}

pub fn aliases() -> Vec<(&'static str, &'static str)> {
    vec![
        ("LL", "Vec<Vec<i32>>"),
        ("LLB", "Vec<Vec<bool>>"),
        ("LLS", "Vec<Vec<string>>"),
        ("LBox", "Vec<Box<i64>>"),
        ("LBoxBool", "Vec<Box<bool>>"),
        ("BoxBox", "Box<Box<i32>>"),
        ("RcBool", "Rc<bool>"),
        ("CowStr", "string"),
        ("CowBytes", "binary"),
    ]
}

pub struct Pool {
    pub schema: Schema,
    pub types: Vec<(Ty, Ops)>,
}

impl Pool {
    pub fn structs(&self) -> Vec<usize> {
        (0..self.types.len())
            .filter(|i| matches!(&self.types[*i].0, Ty::Named(n) if !self.schema.is_enum(n)))
            .collect()
    }
    pub fn get(&self, name: &str) -> &(Ty, Ops) {
        self.types.iter().find(|t| t.1.name == name).unwrap_or_else(|| panic!("HARNESS: no type {name}"))
    }
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut schema = Schema::default();
        for (n, t) in aliases() {
            let ty = schema.parse_type(t);
            schema.aliases.insert(n.to_string(), ty);
        }
        schema.add(pool::TEXT);
        use pool::*;
        let named = vec![
            ops_custom::<Scalars>("Scalars"),
            ops_custom::<Opts>("Opts"),
            ops_custom::<Gaps>("Gaps"),
            ops_custom::<Desc>("Desc"),
            ops_custom::<Lists>("Lists"),
            ops_custom::<ReqLists>("ReqLists"),
            ops_custom::<Small>("Small"),
            ops_custom::<Wrapped>("Wrapped"),
            ops_custom::<Choice>("Choice"),
            ops_custom::<Inner>("Inner"),
            ops_custom::<Deep>("Deep"),
            ops_custom::<Level1>("Level1"),
            ops_custom::<Level2>("Level2"),
            ops_custom::<Node>("Node"),
            ops_custom::<Names>("Names"),
            ops_custom::<Empty>("Empty"),
            ops_custom::<Borrowing>("Borrowing"),
            ops_custom::<CowStr>("CowStr"),
            ops_custom::<CowBytes>("CowBytes"),
            ops_custom::<Vec<CowStr>>("Vec<CowStr>"),
            ops_custom::<Color>("Color"),
            // runtime protocol types used directly
            ops_custom::<bool>("bool"),
            ops_custom::<i8>("i8"),
            ops_custom::<i16>("i16"),
            ops_custom::<i32>("i32"),
            ops_custom::<i64>("i64"),
            ops_custom::<f64>("double"),
            ops_custom::<Vec<u8>>("binary"),
            ops_custom::<String>("string"),
            ops_custom::<Vec<bool>>("Vec<bool>"),
            ops_custom::<Vec<i8>>("Vec<i8>"),
            ops_custom::<Vec<i16>>("Vec<i16>"),
            ops_custom::<Vec<i32>>("Vec<i32>"),
            ops_custom::<Vec<i64>>("Vec<i64>"),
            ops_custom::<Vec<f64>>("Vec<double>"),
            ops_custom::<Vec<Vec<u8>>>("Vec<binary>"),
            ops_custom::<Vec<String>>("Vec<string>"),
            ops_custom::<Vec<Vec<Vec<bool>>>>("Vec<Vec<Vec<bool>>>"),
            ops_custom::<Vec<Small>>("Vec<Small>"),
            ops_custom::<Vec<Choice>>("Vec<Choice>"),
            ops_custom::<Vec<Arc<Small>>>("Vec<Arc<Small>>"),
            ops_custom::<Vec<Rc<str>>>("Vec<Rc<str>>"),
            ops_custom::<Box<i32>>("Box<i32>"),
            ops_custom::<Rc<String>>("Rc<string>"),
            ops_custom::<Arc<str>>("Arc<str>"),
            ops_custom::<Box<bool>>("Box<bool>"),
            ops_custom::<Rc<bool>>("Rc<bool>"),
            ops_custom::<Arc<bool>>("Arc<bool>"),
            ops_custom::<Box<Vec<i32>>>("Box<Vec<i32>>"),
        ];
        let types = named.into_iter().map(|o| (schema.parse_type(o.name), o)).collect();
        Pool { schema, types }
    })
}

pub fn save_tokens() {
    crate::idl::save_tokens(pool::TEXT);
    crate::idl::save_tokens(PARQUET_IDL);
}

pub const PARQUET_IDL: &str = include_str!("../idl/parquet.idl");

pub fn parquet() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut schema = Schema::default();
        schema.add(PARQUET_IDL);
        let mut types: Vec<(Ty, Ops)> =
            crate::parquet_table::table().into_iter().map(|o| (schema.parse_type(o.name), o)).collect();
        let o = ops_custom::<compact_thrift_parquet::EncodingSet>("EncodingSet");
        types.push((Ty::EncSet, o));
        Pool { schema, types }
    })
}
