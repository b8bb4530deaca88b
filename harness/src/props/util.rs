use crate::engine::*;
use crate::idl::*;
use crate::types::*;
use crate::value::{self, Value};
use crate::wire::*;

#[derive(Clone, Copy)]
pub struct Pick {
    pub schema: &'static Schema,
    pub ty: &'static Ty,
    pub ops: &'static Ops,
}

impl Pick {
    fn of(p: &'static Pool, i: usize) -> Pick {
        Pick { schema: &p.schema, ty: &p.types[i].0, ops: &p.types[i].1 }
    }
    pub fn named(p: &'static Pool, name: &str) -> Pick {
        let i = p.types.iter().position(|t| t.1.name == name).unwrap_or_else(|| panic!("HARNESS: no type {name}"));
        Pick::of(p, i)
    }
    pub fn is_struct(&self) -> bool {
        matches!(self.ty, Ty::Named(n) if !self.schema.is_enum(n))
    }
    pub fn wire(&self, v: &Value) -> Wire {
        value::to_wire(self.schema, self.ty, v)
    }
    pub fn debug(&self, v: &Value) -> String {
        value::debug_str(self.schema, self.ty, v)
    }
    pub fn gen(&self, src: &mut Src) -> Value {
        // generated schemas branch more
        let fuel = *src.pick(if super::programs::EXTRA.get().is_some() { &[2, 1, 3, 3] } else { &[4, 2, 6, 8] });
        value::gen(self.schema, self.ty, src, fuel)
    }
    pub fn gen_fuel(&self, src: &mut Src, fuel: usize) -> Value {
        value::gen(self.schema, self.ty, src, fuel)
    }
}

/// A type of the generated programs, if this process has any.
fn pick_generated(src: &mut Src, structs: bool, ctx: &mut Ctx) -> Option<Pick> {
    let all = super::programs::EXTRA.get()?;
    let k = src.index(all.len());
    // the next program that declares a struct, if one is needed
    let (n, text, pool) = *(0..all.len()).map(|j| &all[(k + j) % all.len()]).find(|p| !structs || !p.2.structs().is_empty())?;
    let i = if structs {
        let s = pool.structs();
        *src.pick(&s)
    } else {
        src.index(pool.types.len())
    };
    ctx.fp(&(n as u64).to_le_bytes());
    ctx.repr(|| format!("program {n}"));
    if ctx.full_repr {
        ctx.repr(|| text.to_string());
    }
    Some(Pick::of(pool, i))
}

/// Any type under test: hand-written schemas and runtime types, or the Parquet types.
pub fn pick_any(src: &mut Src, ctx: &mut Ctx) -> Pick {
    if let Some(p) = pick_generated(src, false, ctx) {
        return p;
    }
    let p = if src.chance(1, 3) { parquet() } else { pool() };
    Pick::of(p, src.index(p.types.len()))
}

/// A declared struct or union.
pub fn pick_struct(src: &mut Src, ctx: &mut Ctx) -> Pick {
    if let Some(p) = pick_generated(src, true, ctx) {
        return p;
    }
    let p = if src.chance(1, 3) { parquet() } else { pool() };
    let s = p.structs();
    let i = *src.pick(&s);
    Pick::of(p, i)
}

pub fn pick_parquet(src: &mut Src) -> Pick {
    let p = parquet();
    let i = src.index(p.types.len());
    // the large file-level types get a good share of the cases
    if src.chance(1, 3) {
        let n = *src.pick(&["FileMetaData", "ColumnMetaData", "ColumnChunk", "RowGroup", "SchemaElement", "ColumnIndex", "OffsetIndex", "PageHeader"]);
        return Pick::named(p, n);
    }
    Pick::of(p, i)
}

pub fn eof() -> &'static str {
    "IO(UnexpectedEof)"
}

pub fn err_str<T>(r: &Result<T, compact_thrift_runtime::ThriftError>) -> String {
    match r {
        Ok(_) => "a value".into(),
        Err(e) => format!("{e:?}"),
    }
}

pub fn has_nan(v: &Value) -> bool {
    match v {
        Value::Double(b) => f64::from_bits(*b).is_nan(),
        Value::List(l) => l.iter().any(has_nan),
        Value::Struct(l) => l.iter().flatten().any(has_nan),
        Value::Union(_, v) => has_nan(v),
        _ => false,
    }
}

/// number of leaf values
pub fn leaves(v: &Value) -> usize {
    match v {
        Value::List(l) => l.iter().map(leaves).sum(),
        Value::Struct(l) => l.iter().flatten().map(leaves).sum(),
        Value::Union(_, v) => 1 + leaves(v),
        Value::EncSet(m) => m.count_ones() as usize,
        _ => 1,
    }
}

pub fn label_value(v: &Value, ctx: &mut Ctx) {
    match v {
        Value::Bool(true) => ctx.label("bool true"),
        Value::Bool(false) => ctx.label("bool false"),
        Value::Double(b) if f64::from_bits(*b).is_nan() => ctx.label("NaN"),
        Value::List(l) => {
            ctx.label_if(l.len() >= 15, "list of 15 or more");
            ctx.label_if(l.len() >= 128, "list of 128 or more");
            ctx.label_if(l.len() > 4000, "list of more than 4000");
            ctx.label_if(l.is_empty(), "empty list");
            for x in l.iter().take(4) {
                label_value(x, ctx)
            }
        }
        Value::Struct(l) => {
            ctx.label_if(l.iter().any(|x| x.is_none()), "absent optional");
            for x in l.iter().flatten() {
                label_value(x, ctx)
            }
        }
        Value::Bin(b) => ctx.label_if(b.len() > 4000, "binary or string of more than 4000 bytes"),
        Value::Str(b) => ctx.label_if(b.len() > 4000, "binary or string of more than 4000 bytes"),
        Value::Union(_, v) => {
            ctx.label("union");
            label_value(v, ctx)
        }
        _ => {}
    }
}

/// Random ill-behaved or well-behaved edit of a message.
pub fn mutate(src: &mut Src, b: &mut Vec<u8>) {
    let n = src.range(1, 4);
    for _ in 0..n {
        let len = b.len();
        let pos = if len == 0 { 0 } else { src.index(len) };
        match src.below(10) {
            0 if len > 0 => b[pos] ^= 1 << src.below(8),
            1 if len > 0 => b[pos] = src.byte(),
            2 => b.insert(pos, src.byte()),
            3 if len > 0 => {
                b.remove(pos);
            }
            4 if len > 0 => b.truncate(pos),
            5 if len > 0 => {
                let e = (pos + src.range(1, 16) as usize).min(len);
                let part = b[pos..e].to_vec();
                let at = src.index(b.len() + 1);
                b.splice(at..at, part);
            }
            6 => {
                // a run of continuation bytes
                let n = src.range(1, 40) as usize;
                let mut run = vec![0x80 | src.byte(); n];
                if src.flip() {
                    run.push(src.byte() & 0x7f);
                }
                b.splice(pos..pos, run);
            }
            7 => {
                let mut v = vec![];
                let x = *src.pick(&[
                    0u64,
                    15,
                    16 << 20,
                    (16 << 20) + 1,
                    10_000_000,
                    10_000_001,
                    u32::MAX as u64,
                    1 << 31,
                    1 << 32,
                    1 << 63,
                    u64::MAX,
                    u64::MAX - 7,
                ]);
                varint(x, &mut v);
                if src.flip() && len > 0 {
                    let e = (pos + v.len()).min(len);
                    b.splice(pos..e, v);
                } else {
                    b.splice(pos..pos, v);
                }
            }
            8 if len > 0 => b[pos] = *src.pick(&[0u8, 0x01, 0x0c, 0x09, 0x0b, 0x1c, 0x19, 0x1b, 0xf9, 0xfc, 0xff, 0x80, 0x7f, 0xf1, 0x10]),
            _ => {
                let n = src.range(1, 8) as usize;
                let x = src.bytes(n);
                b.splice(pos..pos, x);
            }
        }
    }
}

/// Bytes to decode as the given type: valid in any spelling, damaged, or random.
pub fn gen_input(src: &mut Src, p: Pick, ctx: &mut Ctx) -> Vec<u8> {
    match src.weighted(&[2, 3, 8, 3]) {
        0 => {
            let n = src.len(200);
            ctx.label("random bytes");
            src.bytes(n)
        }
        1 => {
            ctx.label("valid");
            let v = p.gen(src);
            let mut w = p.wire(&v);
            if src.flip() {
                add_unknown(p.schema, p.ty, &mut w, src, 2);
            }
            let mut o = vec![];
            encode(&w, &mut Style::any(src), &mut o);
            let n = src.below(20) as usize;
            o.extend(src.bytes(n));
            o
        }
        2 => {
            ctx.label("damaged");
            let v = p.gen_fuel(src, 3);
            let mut w = p.wire(&v);
            if src.flip() {
                add_unknown(p.schema, p.ty, &mut w, src, 2);
            }
            let mut o = vec![];
            encode(&w, &mut Style::any(src), &mut o);
            mutate(src, &mut o);
            o
        }
        _ => {
            ctx.label("untyped");
            let d = src.below(4) as usize;
            let w = gen_wire(src, d);
            let mut o = vec![];
            encode(&w, &mut Style::any(src), &mut o);
            if src.flip() {
                mutate(src, &mut o);
            }
            o
        }
    }
}

/// Inserts well-formed fields with unknown ids into the structs of a typed wire tree.
/// Returns how many were added.
pub fn add_unknown(s: &Schema, ty: &Ty, w: &mut Wire, src: &mut Src, depth: usize) -> usize {
    let mut n = 0;
    match (ty, w) {
        (Ty::Wrap(_, t), w) => n += add_unknown(s, t, w, src, depth),
        (Ty::List(e) | Ty::Set(e), Wire::List(_, _, items)) => {
            for i in items.iter_mut().take(4) {
                n += add_unknown(s, e, i, src, depth);
            }
        }
        (Ty::Named(name), Wire::Struct(fields)) => {
            let d = s.strukt(name);
            for (id, w) in fields.iter_mut() {
                if let Some(f) = d.fields.iter().find(|f| f.id == *id) {
                    n += add_unknown(s, &f.ty, w, src, depth);
                }
            }
            if !d.is_union && src.chance(1, 2) {
                for _ in 0..src.range(1, 3) {
                    let mut id = unknown_id(src, d);
                    // mostly close to its position, so that short headers are used
                    let at = src.index(fields.len() + 1);
                    if src.flip() {
                        let prev = if at == 0 { 0 } else { fields[at - 1].0 };
                        let c = prev.wrapping_add(src.range(1, 15) as i16);
                        if d.fields.iter().all(|f| f.id != c) {
                            id = c;
                        }
                    }
                    let dep = src.below(depth as u64 + 1) as usize;
                    fields.insert(at, (id, gen_wire(src, dep)));
                    n += 1;
                }
            }
        }
        _ => {}
    }
    n
}

pub fn unknown_id(src: &mut Src, d: &StructDef) -> i16 {
    loop {
        let id = match src.below(3) {
            0 => src.range(1, 40) as i16,
            1 => src.int(16) as i16,
            _ => src.range(1, 32767) as i16,
        };
        if d.fields.iter().all(|f| f.id != id) {
            return id;
        }
        // a replayed or exhausted sequence repeats the same draw
        for id in 1..i16::MAX {
            if d.fields.iter().all(|f| f.id != id) {
                return id;
            }
        }
    }
}
