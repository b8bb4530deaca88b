//! C16: filling values that already have content.

use super::util::*;
use crate::engine::*;
use crate::idl::*;
use crate::value::Value;
use crate::wire::*;
use compact_thrift_runtime::CompactThriftProtocol;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "(a) a default value is filled from valid, damaged and random bytes and compared with reading; (b) a value is filled a second time from another random message of its type (an independent one, or one that differs in a few places), while clones sharing its Rc/Arc parts may exist, and compared with a merge model; earlier clones must keep their content; (c) optional values outside of structs are filled and written; non-trivial: the second message sets at least one field, or the filled bytes decode; distinct by both messages",
        assumptions: &["what a value holds after a refused fill is not specified"],
        subs: vec![
            Sub { name: "default", quick: 60_000, thorough: 1_500_000, f: default_fill },
            Sub { name: "second", quick: 80_000, thorough: 2_000_000, f: second },
            Sub { name: "option", quick: 10_000, thorough: 200_000, f: option },
        ],
    }]
}

pub fn default_fill(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let b = gen_input(src, p, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(150)])));
    let (r, rest) = (p.ops.dec_slice)(&b);
    let (f, frest) = (p.ops.default_fill)(&b);
    match (r, f) {
        (Ok(r), Ok(f)) => {
            ctx.nontrivial = true;
            if r.debug != f || rest != frest {
                return Err(format!("{}: reading gives {} ({rest} bytes left), filling a default value {f} ({frest} bytes left)", p.ops.name, r.debug));
            }
            Ok(())
        }
        (Err(a), Err(b)) if format!("{a:?}") == format!("{b:?}") => Ok(()),
        (a, b) => Err(format!("{}: reading gives {}, filling a default value {}", p.ops.name, err_str(&a), err_str(&b))),
    }
}

#[derive(Debug)]
enum M {
    Val(Value),
    Refused,
    Unknown,
}

fn merge(s: &Schema, ty: &Ty, a: &Value, b: &Value, shared: bool) -> M {
    match (ty, a, b) {
        (Ty::Wrap(Wrap::Box, t), a, b) => merge(s, t, a, b, shared),
        // Rc<str> is replaced, Rc<String> is refused: told apart by the caller
        (Ty::Wrap(_, t), _, b) if **t == Ty::Str => {
            if shared {
                M::Unknown
            } else {
                M::Val(b.clone())
            }
        }
        (Ty::Wrap(_, t), a, b) => {
            if shared {
                M::Refused
            } else {
                merge(s, t, a, b, shared)
            }
        }
        (Ty::Named(n), Value::Struct(x), Value::Struct(y)) => {
            let d = s.strukt(n);
            let mut out = vec![];
            let mut unknown = false;
            for (f, (x, y)) in d.fields.iter().zip(x.iter().zip(y)) {
                out.push(match (f.req, x, y) {
                    (_, x, None) => x.clone(),
                    (Req::Optional, Some(_), Some(_)) => return M::Refused,
                    (_, None, Some(y)) => Some(y.clone()),
                    (Req::Required, Some(x), Some(y)) => match merge(s, &f.ty, x, y, shared) {
                        M::Val(v) => Some(v),
                        M::Refused => return M::Refused,
                        M::Unknown => {
                            unknown = true;
                            Some(y.clone())
                        }
                    },
                });
            }
            if unknown {
                M::Unknown
            } else {
                M::Val(Value::Struct(out))
            }
        }
        (_, _, b) => M::Val(b.clone()),
    }
}

/// removes optional parts of `b` that `a` has
fn disjoint(s: &Schema, ty: &Ty, a: &Value, b: &mut Value) {
    match (ty, a, b) {
        (Ty::Wrap(_, t), a, b) => disjoint(s, t, a, b),
        (Ty::Named(n), Value::Struct(x), Value::Struct(y)) => {
            let d = s.strukt(n);
            for (f, (x, y)) in d.fields.iter().zip(x.iter().zip(y)) {
                match (f.req, x, y) {
                    (Req::Optional, Some(_), y) => *y = None,
                    (Req::Required, Some(x), Some(y)) => disjoint(s, &f.ty, x, y),
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

pub fn second(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = if src.chance(1, 4) { Pick::named(crate::types::pool(), *src.pick(&["Wrapped", "Deep", "Choice", "ReqLists", "Rc<string>", "Arc<str>", "Rc<bool>", "Arc<bool>", "Level1"])) } else { pick_any(src, ctx) };
    let a = p.gen_fuel(src, 3);
    let mut b = if src.flip() { p.gen_fuel(src, 3) } else { crate::value::tweak(p.schema, p.ty, &a, src) };
    if src.chance(2, 3) {
        disjoint(p.schema, p.ty, &a, &mut b);
    }
    let share = src.chance(1, 3);
    let (wa, mut wb) = (canon(&p.wire(&a)), vec![]);
    if src.flip() {
        encode(&p.wire(&b), &mut Style::any(src), &mut wb);
    } else {
        wb = canon(&p.wire(&b));
    }
    let (da, db) = (p.debug(&a), p.debug(&b));
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&wa);
    ctx.fp(&wb);
    ctx.nontrivial = wb.len() > 1;
    ctx.repr(|| format!("{}: {} filled again with {}{}", p.ops.name, clip(&da, 200), clip(&db, 200), if share { ", clone kept" } else { "" }));
    // both messages decode on their own
    for (d, w) in [(&da, &wa), (&db, &wb)] {
        match (p.ops.dec_slice)(w).0 {
            Ok(x) if x.debug == *d => {}
            _ => {
                ctx.label("not decodable");
                return Ok(());
            }
        }
    }
    let f = (p.ops.fill2)(&wa, &wb, share).map_err(|e| format!("{}: {e:?}", p.ops.name))?;
    let mut m = merge(p.schema, p.ty, &a, &b, share);
    if matches!(m, M::Unknown) {
        m = match p.ops.name {
            "Rc<string>" => M::Refused,
            "Arc<str>" => M::Val(b.clone()),
            _ => M::Unknown,
        };
    }
    match m {
        M::Val(v) => {
            ctx.label("merged");
            let want = p.debug(&v);
            if f.res.is_err() || f.after != want {
                return Err(format!("{}: {da}\n filled again with {db}\n expected {want}\n got {} {}", p.ops.name, err_str(&f.res), f.after));
            }
        }
        M::Refused => {
            ctx.label("refused");
            if err_str(&f.res) != "DuplicateField" {
                return Err(format!("{}: {da}\n filled again with {db} (clone kept: {share})\n expected DuplicateField, got {} {}", p.ops.name, err_str(&f.res), f.after));
            }
        }
        M::Unknown => ctx.label("not modelled"),
    }
    if let Some(c) = f.clone_after {
        ctx.label("clone checked");
        if c != da {
            return Err(format!("{}: a clone of {da} changed to {c} when the original was filled with {db}", p.ops.name));
        }
    }
    Ok(())
}

fn opt<T>(name: &str, t: u8, a: &[u8], b: &[u8], src: &mut Src) -> Res
where
    T: CompactThriftProtocol<'static> + Default + Clone + std::fmt::Debug,
{
    let read = |b: &[u8]| T::read_thrift(&mut &b[..]).map_err(|e| format!("{name}: {} is refused: {e:?}", hex(b)));
    let (va, vb) = (read(a)?, read(b)?);
    let field = src.flip();
    let fill = |o: &mut Option<T>, mut b: &[u8]| if field { o.fill_thrift_field(&mut b, t) } else { o.fill_thrift(&mut b) };
    let mut o: Option<T> = None;
    fill(&mut o, a).map_err(|e| format!("None: Option<{name}> filled from {}: {e:?}", hex(a)))?;
    if format!("{o:?}") != format!("{:?}", Some(&va)) {
        return Err(format!("None: Option<{name}> filled with {va:?} is {o:?}"));
    }
    let r = fill(&mut o, b);
    if err_str(&r) != "DuplicateField" || format!("{o:?}") != format!("{:?}", Some(&va)) {
        return Err(format!("Some({va:?}): Option<{name}> filled again with {vb:?}: {} {o:?}", err_str(&r)));
    }
    // a present value is written like the value, an absent one is refused, and left out as a field
    let mut w = vec![];
    let r = o.write_thrift(&mut w);
    let mut want = vec![];
    va.write_thrift(&mut want).map_err(|e| format!("{name}: {e:?}"))?;
    if r.is_err() || w != want {
        return Err(format!("Some({va:?}): Option<{name}> is written as {} instead of {}", hex(&w), hex(&want)));
    }
    let none: Option<T> = None;
    let mut w = vec![];
    let r = none.write_thrift(&mut w);
    if err_str(&r) != "MissingValue" || !w.is_empty() {
        return Err(format!("None: Option<{name}> is written as {} {}", hex(&w), err_str(&r)));
    }
    let mut last = 7;
    let r = none.write_thrift_field(&mut w, 9, &mut last);
    if r.is_err() || !w.is_empty() || last != 7 {
        return Err(format!("None: Option<{name}> is written as field {} {}, last id {last}", hex(&w), err_str(&r)));
    }
    Ok(())
}

pub fn option(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kinds = [
        ("i32", Ty::I32),
        ("String", Ty::Str),
        ("Vec<u8>", Ty::Binary),
        ("Vec<i64>", Ty::List(Box::new(Ty::I64))),
        ("f64", Ty::Double),
        ("Box<String>", Ty::Str),
        ("i8", Ty::I8),
    ];
    let k = src.index(kinds.len());
    let (name, ty) = &kinds[k];
    let s = &crate::types::pool().schema;
    let (a, b) = (crate::value::gen(s, ty, src, 2), crate::value::gen(s, ty, src, 2));
    let (a, b) = (canon(&crate::value::to_wire(s, ty, &a)), canon(&crate::value::to_wire(s, ty, &b)));
    let t = s.wire_type(ty);
    ctx.fp(&[t]);
    ctx.fp(&a);
    ctx.fp(&b);
    ctx.nontrivial = true;
    ctx.repr(|| format!("Option<{name}> filled with {} and {}", hex(&a), hex(&b)));
    match k {
        0 => opt::<i32>(name, t, &a, &b, src),
        1 => opt::<String>(name, t, &a, &b, src),
        2 => opt::<Vec<u8>>(name, t, &a, &b, src),
        3 => opt::<Vec<i64>>(name, t, &a, &b, src),
        4 => opt::<f64>(name, t, &a, &b, src),
        5 => opt::<Box<String>>(name, t, &a, &b, src),
        _ => opt::<i8>(name, t, &a, &b, src),
    }
}
