//! C20: random schemas compiled through the library's macros.
//!
//! `ctverify programs` writes a cargo workspace with the generated programs, builds it and runs the
//! resulting binary, which registers the generated types with the codec checks of this harness.

use super::{core, fill, viol};
use crate::engine::*;
use crate::idl::*;
use crate::types::{Ops, Pool};
use crate::value::{self, Value};
use crate::wire;
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ what a generated program offers

pub struct Ctor {
    pub what: &'static str,
    pub got: fn() -> (String, Vec<u8>),
    pub debug: &'static str,
    pub bytes: &'static [u8],
}

pub struct Program {
    pub index: usize,
    pub text: &'static str,
    pub types: Vec<Ops>,
    pub ctors: Vec<Ctor>,
}

/// Debug form and encoding of a value built by a generated program.
pub fn built<T: crate::types::Proto>(v: T) -> (String, Vec<u8>) {
    let mut b = vec![];
    let d = format!("{v:?}");
    match v.write_thrift(&mut b) {
        Ok(()) => (d, b),
        Err(e) => (format!("{d}: {e:?}"), b),
    }
}

/// The traits the generated enum types have always had.
pub fn enum_bounds<T: crate::types::Proto + Copy + Eq + std::hash::Hash + Ord + From<i32>>() {}

static PROGRAMS: OnceLock<Vec<Program>> = OnceLock::new();

/// Types of the generated programs; when set, they replace the hand-written ones.
pub static EXTRA: OnceLock<Vec<(usize, &'static str, &'static Pool)>> = OnceLock::new();

pub fn main(programs: Vec<Program>) -> i32 {
    let mut pools = vec![];
    let mut keep = vec![];
    for mut p in programs {
        let mut schema = base_schema();
        schema.add(p.text);
        let types = std::mem::take(&mut p.types).into_iter().map(|o| (schema.parse_type(o.name), o)).collect();
        let pool: &'static Pool = Box::leak(Box::new(Pool { schema, types }));
        pools.push((p.index, p.text, pool));
        keep.push(p);
    }
    let _ = EXTRA.set(pools);
    let _ = PROGRAMS.set(keep);
    crate::runner::main(vec![prop()])
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "random schemas in the macro's syntax are written out as Rust programs and compiled; random values of their types go through the codec checks (reference encoding, alternative spellings, unknown fields, truncation, planted schema violations, fields, second fills), constructors are called with random literal arguments and enum constants compared with their numbers; non-trivial: see the checks C01-C04, C07, C08, C16; distinct by type name and bytes",
        assumptions: &["a schema with a field of type set is left out: its encoding is a recorded finding of C02", "two types or members of one schema never share a name; type names do not collide with the Rust prelude"],
        subs: vec![
            Sub { name: "constructors", quick: 64, thorough: 64, f: constructors },
            Sub { name: "roundtrip", quick: 20_000, thorough: 200_000, f: core::c01_value },
            Sub { name: "encode", quick: 20_000, thorough: 200_000, f: core::c02_value },
            Sub { name: "field", quick: 8_000, thorough: 100_000, f: core::c02_field },
            Sub { name: "spelling", quick: 20_000, thorough: 200_000, f: core::c03 },
            Sub { name: "unknown", quick: 20_000, thorough: 200_000, f: core::c04_unknown },
            Sub { name: "truncated", quick: 4_000, thorough: 60_000, f: core::c07_decode },
            Sub { name: "violation", quick: 30_000, thorough: 300_000, f: viol::c08 },
            Sub { name: "default-fill", quick: 10_000, thorough: 100_000, f: fill::default_fill },
            Sub { name: "second-fill", quick: 10_000, thorough: 100_000, f: fill::second },
        ],
    }
}

fn constructors(_src: &mut Src, ctx: &mut Ctx) -> Res {
    let all = PROGRAMS.get().ok_or("HARNESS: no programs")?;
    let idx = ctx.idx as usize;
    for p in all.iter().filter(|p| p.index % 64 == idx) {
        for c in &p.ctors {
            ctx.evals += 1;
            ctx.nontrivial = true;
            ctx.fp(c.what.as_bytes());
            let (d, b) = (c.got)();
            if d != c.debug {
                return Err(format!("program {}: {} is {d} instead of {}\n{}", p.index, c.what, c.debug, p.text));
            }
            if b != c.bytes {
                return Err(format!("program {}: {} is encoded as {} instead of {}\n{}", p.index, c.what, hex(&b), hex(c.bytes), p.text));
            }
        }
    }
    let (i, n) = (ctx.idx, ctx.evals);
    ctx.repr(|| format!("programs {i} modulo 64: {n} constructor calls and constants"));
    Ok(())
}

// ------------------------------------------------------------------ generator

const ALIASES: &[(&str, &str, &str)] = &[
    ("LL", "Vec<Vec<i32>>", "Vec<Vec<i32>>"),
    ("LLB", "Vec<Vec<bool>>", "Vec<Vec<bool>>"),
    ("LLS", "Vec<Vec<string>>", "Vec<Vec<String>>"),
    ("BoxBox", "Box<Box<i32>>", "Box<Box<i32>>"),
    ("RcBool", "Rc<bool>", "std::rc::Rc<bool>"),
];

fn base_schema() -> Schema {
    let mut s = Schema::default();
    for (n, t, _) in ALIASES {
        let ty = s.parse_type(t);
        s.aliases.insert(n.to_string(), ty);
    }
    s
}

struct GField {
    id: i64,
    req: Option<bool>,
    outer: String,
    elem: Option<String>,
    name: String,
    default: Option<String>,
    semi: bool,
    doc: String,
}

enum Kind {
    Struct(Vec<GField>),
    Union(Vec<GField>),
    Enum(Vec<(String, i64)>),
}

struct GDef {
    name: String,
    doc: String,
    kind: Kind,
    /// number of leaf values a default value has
    weight: usize,
}

const FIELD_NAMES: &[&str] = &[
    "a", "b", "c", "x1", "value", "input", "output", "last_field_id", "field_type", "stop", "inner", "result", "id", "name", "data",
    "self_", "other", "required_", "optional_", "list", "string", "binary", "fooBar", "FooBar", "FOO", "_x", "__y", "len", "vec", "option", "new",
    "default", "clone", "i", "t", "T", "type_", "error", "val", "key", "read_thrift", "write_thrift", "fill_thrift", "done", "flag", "field_id",
    "is_set", "r#type", "r#match", "ä", "field_name", "identifier", "union", "namespace", "i32", "byte", "double", "set", "required", "optional",
];

const TYPE_NAMES: &[&str] = &[
    "Alpha", "Beta", "Gamma", "Delta", "lower_case", "Type", "Kind", "Value_", "Row", "ColumnMetaData", "Key", "Map", "Tree", "Leaf", "X", "Y2", "_Under",
    "camelCase", "UPPER", "Statistics", "Page", "Header", "Encoding", "Foo", "Bar", "Baz", "Node", "Item", "Entry", "Level",
    "short", "int", "long", "float", "map", "uuid", "text", "date", "timestamp", "void", "bytes", "number", "object", "any", "decimal", "time", "enumeration",
    "List", "Set", "Binary", "Byte", "Bool", "Double", "I32", "Int", "Long", "Uuid", "Enum", "Struct", "Union", "Namespace", "Required", "Optional",
];

const CONST_NAMES: &[&str] = &["A", "B", "C", "PLAIN", "RLE_DICTIONARY", "lower", "Mixed_Case", "_U", "X1", "ZSTD", "from", "new", "default", "V0", "V1", "NONE"];

const DOCS: &[&str] = &[
    "",
    "",
    "",
    "/// plain text\n",
    "/** block */ ",
    "/// 1: required i32 not_a_field;\n/// struct Nor { this }\n",
    "/** \"quotes\" 'and' {braces} <angles> \\ # */\n",
    "// ordinary comment ; 5: optional\n",
    "/* ordinary { */ ",
    "/**\n * several\n * lines\n */\n",
];

fn name_of(src: &mut Src, pool: &[&str], used: &mut Vec<String>) -> String {
    let base = *src.pick(pool);
    let mut n = base.to_string();
    let mut k = 0;
    while used.iter().any(|u| u.trim_start_matches("r#") == n.trim_start_matches("r#")) {
        k += 1;
        n = format!("{}_{k}", base.trim_start_matches("r#"));
    }
    used.push(n.clone());
    n
}

fn gen_id(src: &mut Src, mode: u64, prev: i64, used: &[i64]) -> i64 {
    for _ in 0..8 {
        let id = match mode {
            0 => prev + 1,
            1 => prev + src.range(1, 20) as i64,
            2 => src.int(16),
            3 => *src.pick(&[0, -1, 1, 15, 16, 17, 127, 128, 32767, -32768, 8191, 8192, -64, -65, 63, 64, 30, 31]),
            _ => prev + src.range(0, 40) as i64 - 20,
        };
        if (-32768..=32767).contains(&id) && !used.contains(&id) {
            return id;
        }
    }
    // unused id nearest above
    let mut id = prev.clamp(-32768, 32767);
    while used.contains(&id) {
        id = if id == 32767 { -32768 } else { id + 1 };
    }
    id
}

const BASE: &[&str] = &["bool", "i8", "byte", "i16", "i32", "i64", "double", "binary", "string"];

struct Gen {
    defs: Vec<GDef>,
    names: Vec<String>,
    is_enum: Vec<bool>,
}

impl Gen {
    /// type of a field of definition `me`; definitions before it may be used by value
    fn ty(&self, src: &mut Src, me: usize, required: bool, first_member: bool, budget: &mut usize, named: &mut usize) -> (String, Option<String>) {
        let n = self.names.len();
        let some = |s: &str| s.to_string();
        match src.weighted(&[8, 4, 3, 4, 2, 1]) {
            0 => (some(src.pick(BASE)), None),
            1 => {
                let e = *src.pick(BASE);
                (some("list"), Some(some(e)))
            }
            2 => {
                let w = *src.pick(&["Box", "Rc", "Arc"]);
                let e = *src.pick(&["bool", "i8", "byte", "i16", "i32", "i64", "double", "binary", "string", "String", "str"]);
                (some(w), Some(some(e)))
            }
            5 => (some(src.pick(ALIASES).0), None),
            k => {
                if n == 0 || *named >= 3 {
                    return (some("i32"), None);
                }
                let j = src.index(n);
                if k == 4 {
                    // list of any definition, also of itself and of later ones
                    *named += 1;
                    return (some("list"), Some(self.names[j].clone()));
                }
                let weight = if self.is_enum[j] { 1 } else if j < me { self.defs[j].weight } else { usize::MAX };
                let by_value = weight != usize::MAX && weight <= *budget;
                if by_value {
                    *named += !self.is_enum[j] as usize;
                    if required {
                        *budget -= weight;
                    }
                    if src.chance(1, 3) {
                        let w = *src.pick(&["Box", "Rc", "Arc"]);
                        return (some(w), Some(self.names[j].clone()));
                    }
                    return (self.names[j].clone(), None);
                }
                if !required && !first_member && weight == usize::MAX {
                    *named += 1;
                    let w = *src.pick(&["Box", "Rc", "Arc"]);
                    return (some(w), Some(self.names[j].clone()));
                }
                (some("string"), None)
            }
        }
    }

    fn fields(&self, src: &mut Src, me: usize, union: bool) -> (Vec<GField>, usize) {
        let n = match src.weighted(&[1, 8, 4, 1]) {
            0 => 0,
            1 => src.range(1, 5),
            2 => src.range(6, 14),
            _ => src.range(15, 40),
        }
        .max(union as u64) as usize;
        let mode = src.weighted(&[4, 3, 2, 2, 2]) as u64;
        let reqs = src.below(3);
        let mut budget = 60;
        let mut named = 0;
        let mut used: Vec<i64> = vec![];
        let mut names = vec![];
        let mut out = vec![];
        let mut recursive = 0;
        for i in 0..n {
            let m = if src.chance(1, 8) { 3 } else { mode };
            let id = gen_id(src, m, used.last().copied().unwrap_or(0), &used);
            used.push(id);
            let req = (!union).then(|| match reqs {
                0 => src.flip(),
                1 => !src.chance(1, 5),
                _ => src.chance(1, 5),
            });
            let (outer, elem) = self.ty(src, me, req == Some(true), union && i == 0, &mut budget, &mut named);
            let (outer, elem) = {
                let later = |t: &str| self.names.iter().position(|x| x == t).is_some_and(|j| j >= me && !self.is_enum[j]);
                if union && outer != "list" && (later(&outer) || elem.as_deref().is_some_and(later)) {
                    // few recursive members, so that random values end
                    recursive += 1;
                    if recursive * 2 > n { ("i64".to_string(), None) } else { (outer, elem) }
                } else {
                    (outer, elem)
                }
            };
            let defaults: &[&str] = match outer.as_str() {
                "bool" => &["true", "false"],
                "i8" | "byte" | "i16" | "i32" | "i64" => &["0", "5", "-3", "100"],
                "double" => &["0", "1.5", "-0.25"],
                "string" | "binary" => &["\"\"", "\"text\"", "\"a ; b = 3\""],
                _ => &[],
            };
            let default = (!union && !defaults.is_empty() && src.chance(1, 6)).then(|| src.pick(defaults).to_string());
            let name = name_of(src, FIELD_NAMES, &mut names);
            out.push(GField { id, req, outer, elem, name, default, semi: !src.chance(1, 4), doc: src.pick(DOCS).to_string() });
        }
        let used_w = 60 - budget + out.iter().filter(|f| f.req == Some(true)).count();
        (out, used_w + 1)
    }
}

pub struct Generated {
    pub text: String,
    pub source: String,
    pub types: usize,
}

pub fn generate(src: &mut Src, index: usize) -> Generated {
    let n = match src.weighted(&[3, 6, 1]) {
        0 => src.range(1, 3),
        1 => src.range(4, 9),
        _ => src.range(10, 24),
    } as usize;
    let mut used = vec![];
    let names: Vec<String> = (0..n).map(|_| name_of(src, TYPE_NAMES, &mut used)).collect();
    let is_enum: Vec<bool> = (0..n).map(|_| src.chance(1, 4)).collect();
    let mut g = Gen { defs: vec![], names, is_enum };
    for i in 0..n {
        let doc = src.pick(DOCS).to_string();
        let (kind, weight) = if g.is_enum[i] {
            let k = src.below(8);
            let mut cn = vec![];
            let v = (0..k)
                .map(|j| {
                    let v = match src.below(3) {
                        0 => j as i64,
                        1 => src.int(32),
                        _ => *src.pick(&[-1, i32::MAX as i64, i32::MIN as i64, 0, 7]),
                    };
                    (name_of(src, CONST_NAMES, &mut cn), v)
                })
                .collect();
            (Kind::Enum(v), 1)
        } else if src.chance(1, 3) {
            let (f, _) = g.fields(src, i, true);
            // the value of a union is at most as heavy as its heaviest member; members were bounded together
            (Kind::Union(f), 30)
        } else {
            let (f, w) = g.fields(src, i, false);
            (Kind::Struct(f), w)
        };
        g.defs.push(GDef { name: g.names[i].clone(), doc, kind, weight });
    }
    // any order of definitions, in one or several macro calls
    let order = src.perm(n);
    let calls = src.range(1, 3) as usize;
    let mut texts = vec![String::new(); calls];
    let mut singles = vec![];
    for i in order {
        if src.chance(1, 10) {
            // through the macro of its kind
            let m = match g.defs[i].kind {
                Kind::Enum(_) => "thrift_enum",
                Kind::Struct(_) => "thrift_struct",
                Kind::Union(_) => "thrift_union",
            };
            let mut t = String::new();
            render_def(src, &g.defs[i], &mut t);
            singles.push((m, t));
            continue;
        }
        let k = src.index(calls);
        if src.chance(1, 6) {
            let doc = src.pick(DOCS);
            let ns = *src.pick(&["rust test", "java foo", "py x"]);
            let _ = writeln!(texts[k], "{doc}namespace {ns}");
        }
        render_def(src, &g.defs[i], &mut texts[k]);
    }
    let text: String = texts.concat() + &singles.iter().map(|s| s.1.as_str()).collect::<String>();

    let mut schema = base_schema();
    schema.add(&text);
    let mut o = String::new();
    o += "#![allow(dead_code, unused, non_camel_case_types, non_upper_case_globals, uncommon_codepoints)]\n";
    for (n, _, r) in ALIASES {
        let _ = writeln!(o, "pub type {n} = {r};");
    }
    for t in &texts {
        let _ = writeln!(o, "compact_thrift_runtime::thrift! {{\n{t}}}");
    }
    for (m, t) in &singles {
        let _ = writeln!(o, "compact_thrift_runtime::{m}! {{\n{t}}}");
    }
    let _ = writeln!(o, "pub const TEXT_: &str = {text:?};");
    let _ = writeln!(o, "pub fn program_() -> ctverify::props::programs::Program {{\n use ctverify::props::programs::*;\n let ctors = vec![");
    let mut bounds = String::new();
    for d in &g.defs {
        let ty = Ty::Named(d.name.clone());
        if let Kind::Enum(c) = &d.kind {
            let _ = writeln!(bounds, " enum_bounds::<{}>();", d.name);
            let n = src.int(32);
            emit_ctor(&mut o, &schema, &ty, &format!("<{} as From<i32>>::from({n})", d.name), &Value::Int(n));
            for (c, v) in c {
                emit_ctor(&mut o, &schema, &ty, &format!("{}::{c}", d.name), &Value::Int(*v));
                let _ = writeln!(
                    o,
                    "  Ctor {{ what: {:?}, got: || ({}::{c}.0.to_string(), vec![]), debug: {:?}, bytes: &[] }},",
                    format!("{}::{c}.0", d.name),
                    d.name,
                    v.to_string()
                );
            }
        }
        for _ in 0..2 {
            let v = value::gen(&schema, &ty, src, 2);
            let e = expr(&schema, &g, src, &d.name, None, &ty, &v);
            emit_ctor(&mut o, &schema, &ty, &e, &v);
        }
    }
    let _ = writeln!(o, " ];\n{bounds} Program {{ index: {index}, text: TEXT_, ctors, types: vec![");
    for d in &g.defs {
        let _ = writeln!(o, "  ctverify::types::ops::<{}>({:?}),", d.name, d.name);
    }
    o += " ] }\n}\n";
    Generated { text, source: o, types: n }
}

fn emit_ctor(o: &mut String, s: &Schema, ty: &Ty, e: &str, v: &Value) {
    let d = value::debug_str(s, ty, v);
    let b = wire::canon(&value::to_wire(s, ty, v));
    let bytes: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    let _ = writeln!(
        o,
        "  Ctor {{ what: {:?}, got: || built({e}), debug: {d:?}, bytes: &[{}] }},",
        clip(e, 4000),
        bytes.join(",")
    );
}

fn render_def(src: &mut Src, d: &GDef, o: &mut String) {
    o.push_str(&d.doc);
    let nl = *src.pick(&["\n", " "]);
    match &d.kind {
        Kind::Enum(c) => {
            let _ = write!(o, "enum {} {{{nl}", d.name);
            for (n, v) in c {
                let doc = src.pick(DOCS);
                let _ = write!(o, "{doc}{n} = {v};{nl}");
            }
        }
        Kind::Struct(f) | Kind::Union(f) => {
            let kw = if matches!(d.kind, Kind::Union(_)) { "union" } else { "struct" };
            let _ = write!(o, "{kw} {} {{{nl}", d.name);
            for f in f {
                let req = match f.req {
                    None => "",
                    Some(true) => "required ",
                    Some(false) => "optional ",
                };
                let elem = f.elem.as_ref().map(|e| format!("<{e}>")).unwrap_or_default();
                let def = f.default.as_ref().map(|e| format!(" = {e}")).unwrap_or_default();
                let semi = if f.semi { ";" } else { "" };
                let col = *src.pick(&[": ", " : ", ":"]);
                let _ = write!(o, "{}{}{col}{req}{}{elem} {}{def}{semi}{nl}", f.doc, f.id, f.outer, f.name);
            }
        }
    }
    o.push_str("}\n");
}

fn rust_ty(outer: &str, elem: Option<&str>) -> String {
    let m = |t: &str| match t {
        "binary" => "Vec<u8>".to_string(),
        "string" => "String".into(),
        "byte" => "i8".into(),
        "double" => "f64".into(),
        t => t.into(),
    };
    match (outer, elem) {
        ("list", Some(e)) => format!("Vec<{}>", m(e)),
        ("Box", Some(e)) => format!("std::boxed::Box<{}>", m(e)),
        ("Rc", Some(e)) => format!("std::rc::Rc<{}>", m(e)),
        ("Arc", Some(e)) => format!("std::sync::Arc<{}>", m(e)),
        (t, _) => m(t),
    }
}

/// Rust expression that builds the value.
fn expr(s: &Schema, g: &Gen, src: &mut Src, outer: &str, elem: Option<&str>, ty: &Ty, v: &Value) -> String {
    match (ty, v) {
        (Ty::Wrap(w, t), v) => {
            let p = match w {
                Wrap::Box => "std::boxed::Box",
                Wrap::Rc => "std::rc::Rc",
                Wrap::Arc => "std::sync::Arc",
            };
            if elem == Some("str") {
                let Value::Str(x) = v else { panic!("HARNESS: str") };
                return format!("{p}::<str>::from({x:?})");
            }
            format!("{p}::new({})", expr(s, g, src, elem.unwrap_or(""), None, t, v))
        }
        (_, Value::Bool(b)) => b.to_string(),
        (_, Value::I8(b)) => format!("({b}i8)"),
        (Ty::Named(n), Value::Int(i)) => {
            let d = g.defs.iter().find(|d| d.name == *n).unwrap();
            if let Kind::Enum(c) = &d.kind {
                if let Some((c, _)) = c.iter().find(|c| c.1 == *i) {
                    return format!("{n}::{c}");
                }
            }
            if src.flip() { format!("{n}({i})") } else { format!("<{n} as From<i32>>::from({i})") }
        }
        (t, Value::Int(i)) => {
            let suffix = match t {
                Ty::I16 => "i16",
                Ty::I32 => "i32",
                _ => "i64",
            };
            format!("({i}{suffix})")
        }
        (_, Value::Double(b)) => format!("f64::from_bits({b}u64)"),
        (_, Value::Bin(b)) => {
            if b.is_empty() {
                "Vec::<u8>::new()".into()
            } else {
                format!("vec![{}]", b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "))
            }
        }
        (_, Value::Str(x)) => format!("String::from({x:?})"),
        (Ty::List(e) | Ty::Set(e), Value::List(items)) => {
            let x: Vec<String> = items.iter().map(|i| expr(s, g, src, elem.unwrap_or(""), None, e, i)).collect();
            if x.is_empty() { "Vec::new()".into() } else { format!("vec![{}]", x.join(", ")) }
        }
        (Ty::Named(n), Value::Struct(vals)) => {
            let d = g.defs.iter().find(|d| d.name == *n).unwrap();
            let Kind::Struct(fields) = &d.kind else { panic!("HARNESS: struct") };
            let def = s.strukt(n);
            let literal = src.chance(1, 3);
            let mut parts = vec![];
            for ((f, v), sf) in fields.iter().zip(vals).zip(&def.fields) {
                let t = rust_ty(&f.outer, f.elem.as_deref());
                let e = match v {
                    None => format!("None::<{t}>"),
                    Some(v) => {
                        let e = expr(s, g, src, &f.outer, f.elem.as_deref(), &sf.ty, v);
                        // give literals their type, so that Into has one source type
                        let e = format!("{{ let v_: {t} = {e}; v_ }}");
                        let conv = !literal && src.chance(1, 3);
                        match (f.req, conv) {
                            (Some(true), true) if f.outer == "string" => format!("{:?}", str_of(v)),
                            (Some(true), _) => e,
                            (_, true) => e,
                            _ => format!("Some({e})"),
                        }
                    }
                };
                parts.push(if literal { format!("{}: {e}", f.name) } else { e });
            }
            if literal { format!("{n} {{ {} }}", parts.join(", ")) } else { format!("{n}::new({})", parts.join(", ")) }
        }
        (Ty::Named(n), Value::Union(i, v)) => {
            let d = g.defs.iter().find(|d| d.name == *n).unwrap();
            let Kind::Union(fields) = &d.kind else { panic!("HARNESS: union") };
            let f = &fields[*i];
            format!("{n}::{}({})", f.name, expr(s, g, src, &f.outer, f.elem.as_deref(), &s.strukt(n).fields[*i].ty, v))
        }
        _ => panic!("HARNESS: value {v:?} does not fit {ty:?} {outer}"),
    }
}

fn str_of(v: &Value) -> &str {
    match v {
        Value::Str(s) => s,
        _ => panic!("HARNESS: not a string"),
    }
}

// ------------------------------------------------------------------ driver

fn program_src(seed: u64, i: usize) -> Src {
    Src::random(mix(mix(seed, hash_str("C20 programs")), i as u64))
}

const LIBS: usize = 8;

fn write(p: &Path, s: &str) {
    if let Some(d) = p.parent() {
        let _ = fs::create_dir_all(d);
    }
    // unchanged files keep their time stamp
    if fs::read_to_string(p).ok().as_deref() != Some(s) {
        fs::write(p, s).unwrap_or_else(|e| panic!("HARNESS: {}: {e}", p.display()));
    }
}

fn cargo(ws: &Path, target: &Path, args: &[&str]) -> std::process::Output {
    Command::new("cargo")
        .args(args)
        .args(["--offline", "--manifest-path"])
        .arg(ws.join("Cargo.toml"))
        .arg("--target-dir")
        .arg(target)
        .output()
        .unwrap_or_else(|e| panic!("HARNESS: cargo: {e}"))
}

/// programs --tier T --seed N --jobs J --percent P --evidence FILE [--count N]
pub fn drive(opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let dir = std::env::var_os("CTV_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: usize = opt("--count").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1600 } else { 240 });
    let ws = dir.join("work").join("programs");
    let target = dir.join("target");
    let _ = fs::remove_dir_all(&ws);
    let start = Instant::now();

    let mut members = vec!["\"main\"".to_string(), "\"probe\"".into()];
    for l in 0..LIBS {
        members.push(format!("\"q{l}\""));
    }
    let mut toml = format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n[profile.dev]\nopt-level = 1\ndebug = \"line-tables-only\"\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n", members.join(", "));
    for l in 0..LIBS {
        let _ = write!(toml, "[profile.dev.package.q{l}]\nopt-level = 0\ndebug = false\n");
    }
    write(&ws.join("Cargo.toml"), &toml);
    let deps = format!("ctverify = {{ path = {:?} }}\ncompact-thrift-runtime = {{ path = \"/repo/runtime\" }}\n", dir.join("harness").display().to_string());
    let mut types = 0;
    let mut text_bytes = 0;
    let mut mods = vec![String::new(); LIBS];
    let mut lists = vec![String::new(); LIBS];
    let mut sources = vec![];
    for i in 0..count {
        let g = generate(&mut program_src(seed, i), i);
        types += g.types;
        text_bytes += g.text.len();
        let l = i % LIBS;
        let _ = writeln!(mods[l], "pub mod p{i};");
        let _ = write!(lists[l], "p{i}::program_(), ");
        write(&ws.join(format!("q{l}/src/p{i}.rs")), &g.source);
        sources.push(g);
    }
    let mut all = String::new();
    let mut qdeps = String::new();
    for l in 0..LIBS {
        write(&ws.join(format!("q{l}/Cargo.toml")), &format!("[package]\nname = \"q{l}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{deps}"));
        write(&ws.join(format!("q{l}/src/lib.rs")), &format!("{}pub fn programs() -> Vec<ctverify::props::programs::Program> {{ vec![{}] }}\n", mods[l], lists[l]));
        let _ = writeln!(qdeps, "q{l} = {{ path = \"../q{l}\" }}");
        let _ = writeln!(all, "    v.extend(q{l}::programs());");
    }
    write(&ws.join("main/Cargo.toml"), &format!("[package]\nname = \"ctprograms\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{deps}{qdeps}"));
    write(
        &ws.join("main/src/main.rs"),
        &format!("#[global_allocator]\nstatic A: ctverify::alloc::Counting = ctverify::alloc::Counting;\nfn main() {{\n    let mut v = vec![];\n{all}    std::process::exit(ctverify::props::programs::main(v));\n}}\n"),
    );
    write(&ws.join("probe/Cargo.toml"), &format!("[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{deps}"));
    write(&ws.join("probe/src/lib.rs"), "");

    let out = cargo(&ws, &target, &["build", "-p", "ctprograms"]);
    let built = start.elapsed().as_secs_f64();
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        return compile_failure(&dir, &ws, &target, seed, &sources, &err, opt("--evidence"), &tier);
    }
    println!("C20: {count} programs with {types} types compiled in {built:.1} s");
    let info = ws.join("programs.json");
    write(&info, &format!("{{\"programs\": {count}, \"types\": {types}, \"schema_bytes\": {text_bytes}, \"build_s\": {built:.1}}}"));
    let mut c = Command::new(target.join("debug/ctprograms"));
    c.args(["run", "C20", "--tier", &tier, "--seed", &seed.to_string(), "--merge"]).arg(&info);
    for o in ["--jobs", "--percent", "--evidence"] {
        if let Some(v) = opt(o) {
            c.args([o, &v]);
        }
    }
    c.status().ok().and_then(|s| s.code()).unwrap_or(2)
}

/// compiler output if the program does not compile
fn probe(ws: &Path, target: &Path, source: &str) -> Option<String> {
    fs::write(ws.join("probe/src/lib.rs"), source).ok()?;
    let o = cargo(ws, target, &["build", "-p", "probe"]);
    (!o.status.success()).then(|| String::from_utf8_lossy(&o.stderr).to_string())
}

#[allow(clippy::too_many_arguments)]
fn compile_failure(dir: &Path, ws: &Path, target: &Path, seed: u64, sources: &[Generated], err: &str, evidence: Option<String>, tier: &str) -> i32 {
    let start = Instant::now();
    // nothing can be said if an empty program does not build either
    if let Some(e) = probe(ws, target, "") {
        eprintln!("{e}\nctverify: the harness does not build");
        return 2;
    }
    // programs named in the compiler output first
    let mut order: Vec<usize> = (0..sources.len()).filter(|i| err.contains(&format!("/p{i}.rs"))).collect();
    order.extend((0..sources.len()).filter(|i| !order.contains(i)).collect::<Vec<_>>());
    for i in order {
        if start.elapsed() > Duration::from_secs(300) {
            break;
        }
        let Some(mut msg) = probe(ws, target, &sources[i].source) else { continue };
        let mut src = program_src(seed, i);
        generate(&mut src, 0);
        let end = Instant::now() + Duration::from_secs(90);
        let best = shrink(src.rec, 2000, |c| {
            if Instant::now() > end {
                return None;
            }
            let mut s = Src::replay(c.to_vec());
            let g = generate(&mut s, 0);
            let m = probe(ws, target, &g.source)?;
            msg = m;
            Some(s.rec)
        });
        let g = generate(&mut Src::replay(best), 0);
        let path = dir.join("work/replays/C20-program.rs");
        write(&path, &format!("/* schema that does not compile:\n{}\n\n{}\n*/\n{}", g.text.replace("*/", "* /"), msg.replace("*/", "* /"), g.source));
        println!("program {i} of seed {seed} does not compile; reduced schema:\n{}\n{}", g.text, clip(&msg, 4000));
        println!("VIOLATION property=C20 replay={}", path.display());
        if let Some(e) = evidence {
            write(
                Path::new(&e),
                &format!(
                    "{{\"property\": \"C20\", \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"random schemas compiled through the macros\", \"samples\": [{}]}}, \"wall_s\": {:.1}, \"violations\": 1}}\n",
                    json_str(tier),
                    sources.len(),
                    sources.len(),
                    json_str(&clip(&g.text, 2000)),
                    start.elapsed().as_secs_f64()
                ),
            );
        }
        return 1;
    }
    eprintln!("{}\nctverify: the programs do not build together, but every single one does", clip(err, 8000));
    2
}
