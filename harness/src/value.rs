//! Schema-directed values: generation, rendering, conversion to wire trees, reference decoding.

use crate::engine::Src;
use crate::idl::*;
use crate::wire::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Bool(bool),
    I8(i8),
    /// i16, i32, i64 and enums
    Int(i64),
    Double(u64),
    Bin(Vec<u8>),
    Str(String),
    List(Vec<Value>),
    EncSet(u32),
    Struct(Vec<Option<Value>>),
    Union(usize, Box<Value>),
}

pub fn gen_string(src: &mut Src) -> String {
    let n = src.size(64, 4);
    let mut s = String::new();
    for _ in 0..n.min(160) {
        let c = match src.weighted(&[10, 2, 2, 1, 1, 1, 1]) {
            0 => char::from(src.range(b'a' as u64, b'z' as u64) as u8),
            1 => char::from_u32(src.range(0, 0x7f) as u32).unwrap(),
            2 => char::from_u32(src.range(0x80, 0x7ff) as u32).unwrap(),
            3 => char::from_u32(src.range(0x800, 0xd7ff) as u32).unwrap(),
            4 => char::from_u32(src.range(0x10000, 0x10ffff) as u32).unwrap(),
            5 => char::from_u32(src.range(0xe000, 0xffff) as u32).unwrap(),
            _ => *src.pick(&['\0', ' ', '\n', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
        };
        s.push(c);
    }
    if n > 160 {
        s = s.chars().cycle().take(n).collect();
    }
    s
}

pub fn gen_double(src: &mut Src) -> u64 {
    match src.weighted(&[3, 3, 3]) {
        0 => (src.int(32) as f64 / 4.0).to_bits(),
        1 => *src.pick(&[
            0,
            0x8000_0000_0000_0000,
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            f64::NAN.to_bits(),
            0x7ff8_0000_dead_beef,
            0xfff4_0000_0000_0001,
            1,
            f64::MAX.to_bits(),
            f64::MIN_POSITIVE.to_bits(),
        ]),
        _ => src.any_u64(),
    }
}

/// Random value of a type; `fuel` bounds the nesting.
pub fn gen(s: &Schema, ty: &Ty, src: &mut Src, fuel: usize) -> Value {
    match ty {
        Ty::Bool => Value::Bool(src.flip()),
        Ty::I8 => Value::I8(src.int(8) as i8),
        Ty::I16 => Value::Int(src.int(16)),
        Ty::I32 => Value::Int(src.int(32)),
        Ty::I64 => Value::Int(src.int(64)),
        Ty::Double => Value::Double(gen_double(src)),
        Ty::Binary => {
            let n = src.size(300, 1);
            Value::Bin(src.content(n))
        }
        Ty::Str => Value::Str(gen_string(src)),
        Ty::List(e) | Ty::Set(e) => {
            let simple = matches!(**e, Ty::Bool | Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Double);
            let max = if fuel == 0 {
                0
            } else if simple {
                140
            } else if fuel > 2 {
                16
            } else {
                4
            };
            let n = src.size(max, if simple { 8 } else { 50 });
            if fuel == 0 {
                return Value::List(vec![]);
            }
            if n > 140 {
                let part: Vec<Value> = (0..5).map(|_| gen(s, e, src, fuel.saturating_sub(2))).collect();
                return Value::List(part.iter().cycle().take(n).cloned().collect());
            }
            // keep large lists of structs affordable
            let n = if n > 4 && !simple && !src.chance(1, 4) { n % 4 } else { n };
            Value::List((0..n).map(|_| gen(s, e, src, fuel.saturating_sub(1))).collect())
        }
        Ty::EncSet => Value::EncSet(gen_mask(src)),
        Ty::Wrap(_, t) => gen(s, t, src, fuel),
        Ty::Named(n) => match &s.defs[n] {
            Def::Enum(e) => {
                if !e.consts.is_empty() && src.chance(3, 4) {
                    let i = src.index(e.consts.len());
                    Value::Int(e.consts[i].1 as i64)
                } else {
                    Value::Int(src.int(32))
                }
            }
            Def::Struct(d) if d.is_union => {
                let i = src.index(d.fields.len());
                Value::Union(i, Box::new(gen(s, &d.fields[i].ty, src, fuel.saturating_sub(1))))
            }
            Def::Struct(d) => {
                // per struct density of optional fields
                let dens = src.below(4);
                Value::Struct(
                    d.fields
                        .iter()
                        .map(|f| {
                            let present = f.req == Req::Required
                                || (fuel > 0 && match dens {
                                    0 => false,
                                    1 => src.chance(1, 4),
                                    2 => src.chance(3, 4),
                                    _ => true,
                                });
                            present.then(|| gen(s, &f.ty, src, fuel.saturating_sub(1)))
                        })
                        .collect(),
                )
            }
        },
    }
}

/// A value close to `v`: a few leaves, elements or optional fields differ, the rest is the same.
pub fn tweak(s: &Schema, ty: &Ty, v: &Value, src: &mut Src) -> Value {
    match (ty, v) {
        (Ty::Wrap(_, t), v) => tweak(s, t, v, src),
        (_, Value::Str(x)) => {
            let mut c: Vec<char> = x.chars().collect();
            if c.is_empty() || src.chance(1, 4) {
                c.push('x');
            } else {
                // the same length
                let i = if src.flip() { c.len() - 1 } else { src.index(c.len()) };
                c[i] = if c[i] == 'q' { 'r' } else { 'q' };
            }
            Value::Str(c.into_iter().collect())
        }
        (_, Value::Bin(x)) => {
            let mut x = x.clone();
            if x.is_empty() || src.chance(1, 4) {
                x.push(1);
            } else {
                let i = if src.flip() { x.len() - 1 } else { src.index(x.len()) };
                x[i] ^= 1;
            }
            Value::Bin(x)
        }
        (_, Value::Bool(b)) => Value::Bool(!b),
        (_, Value::I8(b)) => Value::I8(b.wrapping_neg()),
        (_, Value::Int(i)) => {
            let bits = match s.wire_type(ty) {
                T_I16 => 16,
                T_I32 => 32,
                _ => 64,
            };
            Value::Int(if src.flip() { src.int(bits) } else { i ^ 1 })
        }
        (_, Value::Double(b)) => Value::Double(b ^ 1 << 63),
        (_, Value::EncSet(m)) => Value::EncSet(m ^ 1 << src.below(31)),
        (Ty::List(e) | Ty::Set(e), Value::List(items)) => {
            let mut l = items.clone();
            match src.below(4) {
                0 => {
                    let n = src.len(3);
                    l.extend((0..n).map(|_| gen(s, e, src, 1)));
                }
                1 => {
                    let n = src.index(l.len() + 1);
                    l.truncate(n);
                }
                _ if !l.is_empty() => {
                    let i = src.index(l.len());
                    l[i] = tweak(s, e, &l[i], src);
                }
                _ => {}
            }
            Value::List(l)
        }
        (Ty::Named(n), Value::Struct(fs)) => {
            let d = s.strukt(n);
            Value::Struct(
                d.fields
                    .iter()
                    .zip(fs)
                    .map(|(f, x)| match x {
                        Some(x) if f.req == Req::Optional && src.chance(1, 4) => src.flip().then(|| x.clone()),
                        Some(x) => Some(if src.flip() { tweak(s, &f.ty, x, src) } else { x.clone() }),
                        None => src.chance(1, 4).then(|| gen(s, &f.ty, src, 1)),
                    })
                    .collect(),
            )
        }
        (Ty::Named(n), Value::Union(i, x)) => {
            let d = s.strukt(n);
            if src.chance(1, 4) {
                let k = src.index(d.fields.len());
                return Value::Union(k, Box::new(gen(s, &d.fields[k].ty, src, 1)));
            }
            Value::Union(*i, Box::new(tweak(s, &d.fields[*i].ty, x, src)))
        }
        (_, v) => v.clone(),
    }
}

pub fn gen_mask(src: &mut Src) -> u32 {
    match src.below(3) {
        0 => src.below(1 << 10) as u32,
        1 => {
            let mut m = 0;
            for _ in 0..src.range(0, 4) {
                m |= 1 << src.below(31);
            }
            m
        }
        _ => src.below(1 << 31) as u32,
    }
}

/// What `{:?}` of the generated Rust type prints for the value.
pub fn debug(s: &Schema, ty: &Ty, v: &Value, out: &mut String) {
    match (ty, v) {
        (Ty::Wrap(_, t), v) => debug(s, t, v, out),
        (_, Value::Bool(b)) => write!(out, "{b:?}").unwrap(),
        (_, Value::I8(b)) => write!(out, "{b:?}").unwrap(),
        (Ty::Named(n), Value::Int(i)) => write!(out, "{n}({i})").unwrap(),
        (_, Value::Int(i)) => write!(out, "{i:?}").unwrap(),
        (_, Value::Double(b)) => write!(out, "{:?}", f64::from_bits(*b)).unwrap(),
        (_, Value::Bin(b)) => write!(out, "{b:?}").unwrap(),
        (_, Value::Str(b)) => write!(out, "{b:?}").unwrap(),
        (Ty::List(e) | Ty::Set(e), Value::List(items)) => {
            out.push('[');
            for (i, x) in items.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                debug(s, e, x, out);
            }
            out.push(']');
        }
        (_, Value::EncSet(m)) => {
            let v: Vec<String> = (0..32).filter(|i| m >> i & 1 == 1).map(|i| format!("Encoding({i})")).collect();
            write!(out, "[{}]", v.join(", ")).unwrap();
        }
        (Ty::Named(n), Value::Struct(fs)) => {
            let d = s.strukt(n);
            out.push_str(n);
            for (i, (f, v)) in d.fields.iter().zip(fs).enumerate() {
                out.push_str(if i == 0 { " { " } else { ", " });
                write!(out, "{}: ", f.name).unwrap();
                match (f.req, v) {
                    (Req::Required, Some(v)) => debug(s, &f.ty, v, out),
                    (Req::Required, None) => out.push_str("<missing>"),
                    (Req::Optional, None) => out.push_str("None"),
                    (Req::Optional, Some(v)) => {
                        out.push_str("Some(");
                        debug(s, &f.ty, v, out);
                        out.push(')');
                    }
                }
            }
            if !d.fields.is_empty() {
                out.push_str(" }");
            }
        }
        (Ty::Named(n), Value::Union(i, v)) => {
            let f = &s.strukt(n).fields[*i];
            write!(out, "{}(", f.name).unwrap();
            debug(s, &f.ty, v, out);
            out.push(')');
        }
        _ => panic!("HARNESS: value {v:?} does not fit {ty:?}"),
    }
}

pub fn debug_str(s: &Schema, ty: &Ty, v: &Value) -> String {
    let mut o = String::new();
    debug(s, ty, v, &mut o);
    o
}

pub fn to_wire(s: &Schema, ty: &Ty, v: &Value) -> Wire {
    match (ty, v) {
        (Ty::Wrap(_, t), v) => to_wire(s, t, v),
        (_, Value::Bool(b)) => Wire::Bool(*b),
        (_, Value::I8(b)) => Wire::I8(*b as u8),
        (_, Value::Int(i)) => Wire::Int(s.wire_type(ty), *i),
        (_, Value::Double(b)) => Wire::Double(b.to_le_bytes()),
        (_, Value::Bin(b)) => Wire::Bin(b.clone()),
        (_, Value::Str(b)) => Wire::Bin(b.clone().into_bytes()),
        (Ty::List(e) | Ty::Set(e), Value::List(items)) => {
            Wire::List(s.wire_type(ty), s.wire_type(e), items.iter().map(|x| to_wire(s, e, x)).collect())
        }
        (_, Value::EncSet(m)) => {
            Wire::List(T_LIST, T_I32, (0..32).filter(|i| m >> i & 1 == 1).map(|i| Wire::Int(T_I32, i)).collect())
        }
        (Ty::Named(n), Value::Struct(fs)) => {
            let d = s.strukt(n);
            Wire::Struct(
                d.fields.iter().zip(fs).filter_map(|(f, v)| v.as_ref().map(|v| (f.id, to_wire(s, &f.ty, v)))).collect(),
            )
        }
        (Ty::Named(n), Value::Union(i, v)) => {
            let f = &s.strukt(n).fields[*i];
            Wire::Struct(vec![(f.id, to_wire(s, &f.ty, v))])
        }
        _ => panic!("HARNESS: value {v:?} does not fit {ty:?}"),
    }
}

/// Reference decoder: documented meaning of any byte string, or Unspec where none is fixed.
pub fn decode(s: &Schema, ty: &Ty, c: &mut Cur) -> Result<Value, PErr> {
    Ok(match ty {
        Ty::Wrap(_, t) => decode(s, t, c)?,
        Ty::Bool => match c.byte()? {
            1 => Value::Bool(true),
            0 | 2 => Value::Bool(false),
            _ => return Err(PErr::Unspec),
        },
        Ty::I8 => Value::I8(c.byte()? as i8),
        Ty::I16 => Value::Int(c.int(16)?),
        Ty::I32 => Value::Int(c.int(32)?),
        Ty::I64 => Value::Int(c.int(64)?),
        Ty::Double => Value::Double(u64::from_le_bytes(c.take(8)?.try_into().unwrap())),
        Ty::Binary => Value::Bin(c.binary()?.to_vec()),
        Ty::Str => Value::Str(String::from_utf8(c.binary()?.to_vec()).map_err(|_| PErr::Bad)?),
        Ty::EncSet => {
            let (n, e) = c.list_header()?;
            if e != T_I32 {
                return Err(PErr::Bad);
            }
            let mut m = 0u32;
            for _ in 0..n {
                let v = c.int(32)?;
                if c.unspec {
                    return Err(PErr::Unspec);
                }
                if !(0..31).contains(&v) {
                    return Err(PErr::Bad);
                }
                m |= 1 << v;
            }
            Value::EncSet(m)
        }
        Ty::List(e) | Ty::Set(e) => {
            let (n, t) = c.list_header()?;
            let w = s.wire_type(e);
            if !(t == w || (w == T_FALSE && t == T_TRUE)) {
                return Err(if n == 0 && t == 0 { PErr::Unspec } else { PErr::Bad });
            }
            let mut v = Vec::with_capacity((n as usize).min(1000));
            for _ in 0..n {
                v.push(decode(s, e, c)?);
            }
            Value::List(v)
        }
        Ty::Named(n) => match &s.defs[n] {
            Def::Enum(_) => Value::Int(c.int(32)?),
            Def::Struct(d) if d.is_union => {
                let mut last = 0;
                let t = c.field_header(&mut last)?;
                if t == 0 {
                    return Err(PErr::Bad);
                }
                let i = d.fields.iter().position(|f| f.id == last).ok_or(PErr::Bad)?;
                let v = decode_field(s, &d.fields[i].ty, t, c)?;
                let stop = c.byte()?;
                if stop != 0 {
                    return Err(PErr::Bad);
                }
                Value::Union(i, Box::new(v))
            }
            Def::Struct(d) => {
                let mut fs: Vec<Option<Value>> = vec![None; d.fields.len()];
                let mut last = 0;
                loop {
                    let t = c.field_header(&mut last)?;
                    if t == 0 {
                        break;
                    }
                    match d.fields.iter().position(|f| f.id == last) {
                        Some(i) => {
                            if fs[i].is_some() {
                                // a repeated required field has no documented meaning
                                return Err(if d.fields[i].req == Req::Optional { PErr::Bad } else { PErr::Unspec });
                            }
                            fs[i] = Some(decode_field(s, &d.fields[i].ty, t, c)?);
                        }
                        None => c.skip(t, false, 0)?,
                    }
                }
                for (f, v) in d.fields.iter().zip(&fs) {
                    if f.req == Req::Required && v.is_none() {
                        return Err(PErr::Bad);
                    }
                }
                Value::Struct(fs)
            }
        },
    })
}

fn decode_field(s: &Schema, ty: &Ty, t: u8, c: &mut Cur) -> Result<Value, PErr> {
    let mut inner = ty;
    while let Ty::Wrap(_, x) = inner {
        inner = x;
    }
    if *inner == Ty::Bool {
        return match t {
            1 => Ok(Value::Bool(true)),
            2 => Ok(Value::Bool(false)),
            _ => Err(PErr::Bad),
        };
    }
    if t != s.wire_type(inner) {
        return Err(PErr::Bad);
    }
    decode(s, inner, c)
}
