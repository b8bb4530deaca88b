//! C08: messages with exactly one schema violation.

use super::util::*;
use crate::engine::*;
use crate::idl::*;
use crate::io::*;
use crate::value;
use crate::wire::*;
use crate::mem::guarded;
use compact_thrift_runtime::{FieldName, ThriftError};
use std::ffi::{CStr, CString};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        rule: "a random valid message of a random struct gets exactly one violation at a random node of its tree: required field dropped, optional field repeated, field or list element of another wire type, ill-formed UTF-8, union without, with an unknown or with two members; decoded from a slice and from a stream, and the specific error is required; names of errors are made from random terminated and unterminated strings that end before an inaccessible page; non-trivial: always (a violation was planted; a name of 1 byte or more); distinct by bytes",
        assumptions: &["element type 0 of empty lists, which some writers use, is not tried"],
        subs: vec![
            Sub { name: "violation", quick: 100_000, thorough: 3_000_000, f: c08 },
            Sub { name: "names", quick: 2_000, thorough: 50_000, f: c08_names },
        ],
    }]
}

fn c08_names(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut text = value::gen_string(src);
    if src.chance(1, 6) {
        text.push('\0');
        text.push_str(&value::gen_string(src));
    }
    if src.chance(2, 3) {
        text.push('\0');
    }
    ctx.fp(text.as_bytes());
    ctx.nontrivial = !text.is_empty();
    ctx.label(if text.ends_with('\0') { "terminated" } else { "not terminated" });
    ctx.repr(|| format!("name {text:?}"));
    let shown = text.split('\0').next().unwrap_or("");
    guarded(text.as_bytes(), true, |b| {
        // lives as long as it is used here
        let s: &'static str = unsafe { std::mem::transmute(std::str::from_utf8_unchecked(b)) };
        let made = std::panic::catch_unwind(|| FieldName::from(s));
        let mut names = vec![];
        match made {
            Ok(n) => names.push(n),
            Err(_) if s.ends_with('\0') => return Err(format!("no name can be made of {s:?}")),
            Err(_) => {}
        }
        if let Ok(c) = CStr::from_bytes_until_nul(s.as_bytes()) {
            names.push(FieldName::from(c));
        }
        for n in names {
            let e = ThriftError::MissingField(n.clone());
            drop(n);
            let (ThriftError::MissingField(n), e2) = (e.clone(), e) else { continue };
            let want = format!("{:?}", CString::new(shown).map_err(|_| "HARNESS: name")?);
            if n.to_string() != shown || format!("{n:?}") != want || format!("{e2}") != format!("MissingField({want})") || format!("{e2:?}") != format!("MissingField({want})") {
                return Err(format!("the name made of {s:?} is shown as {n}, {n:?}, {e2}, {e2:?}"));
            }
        }
        Ok(())
    })
}

#[derive(Clone, Debug)]
enum Kind {
    Drop(usize),
    Repeat(usize),
    FieldType(usize),
    ElemType,
    Utf8,
    UnionEmpty,
    UnionUnknown,
    UnionTwo,
}

/// path of child indices from the root
type Path = Vec<usize>;

fn sites(s: &Schema, ty: &Ty, w: &Wire, path: &mut Path, out: &mut Vec<(Path, Kind)>) {
    if out.len() > 400 {
        return;
    }
    match (ty, w) {
        (Ty::Wrap(_, t), w) => sites(s, t, w, path, out),
        (Ty::Str, Wire::Bin(_)) => out.push((path.clone(), Kind::Utf8)),
        (Ty::List(e) | Ty::Set(e), Wire::List(_, _, items)) => {
            out.push((path.clone(), Kind::ElemType));
            for (i, x) in items.iter().enumerate().take(6) {
                path.push(i);
                sites(s, e, x, path, out);
                path.pop();
            }
        }
        (Ty::EncSet, Wire::List(..)) => out.push((path.clone(), Kind::ElemType)),
        (Ty::Named(n), Wire::Struct(fields)) => {
            let d = s.strukt(n);
            if d.is_union {
                out.push((path.clone(), Kind::UnionEmpty));
                out.push((path.clone(), Kind::UnionUnknown));
                out.push((path.clone(), Kind::UnionTwo));
            }
            for (i, (id, x)) in fields.iter().enumerate() {
                let Some(f) = d.fields.iter().find(|f| f.id == *id) else { continue };
                if !d.is_union {
                    out.push((path.clone(), if f.req == Req::Required { Kind::Drop(i) } else { Kind::Repeat(i) }));
                }
                out.push((path.clone(), Kind::FieldType(i)));
                path.push(i);
                sites(s, &f.ty, x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn strip(ty: &Ty) -> &Ty {
    match ty {
        Ty::Wrap(_, t) => strip(t),
        t => t,
    }
}

fn child<'a>(s: &'a Schema, ty: &'a Ty, w: &'a mut Wire, i: usize) -> (&'a Ty, &'a mut Wire) {
    match (strip(ty), w) {
        (Ty::List(e) | Ty::Set(e), Wire::List(_, _, items)) => (e, &mut items[i]),
        (Ty::Named(n), Wire::Struct(fields)) => {
            let id = fields[i].0;
            let f = s.strukt(n).fields.iter().find(|f| f.id == id).unwrap();
            (&f.ty, &mut fields[i].1)
        }
        _ => panic!("HARNESS: path"),
    }
}

/// bytes that no UTF-8 text contains at that place
fn ill_formed(src: &mut Src) -> Vec<u8> {
    let bad: &[u8] = *src.pick(&[
        &[0x80u8][..],
        &[0xc0, 0x80],
        &[0xc1, 0xbf],
        &[0xe0, 0x80, 0x80],
        &[0xed, 0xa0, 0x80],
        &[0xf0, 0x80, 0x80, 0x80],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xf5, 0x80, 0x80, 0x80],
        &[0xff],
        &[0xfe],
        &[0xc3],
        &[0xe2, 0x82],
        &[0xf0, 0x9f, 0x98],
        &[0xc3, 0x28],
    ]);
    let mut v = value::gen_string(src).into_bytes();
    let tail = value::gen_string(src).into_bytes();
    v.extend_from_slice(bad);
    // an ASCII character behind a cut sequence keeps it ill-formed
    if !tail.is_empty() && tail[0] < 0x80 {
        v.extend(tail);
    }
    v
}

fn other_tag(src: &mut Src, tag: u8) -> u8 {
    let ok = |t: u8| t != tag && !(tag <= 2 && t <= 2);
    let mut t = src.range(1, 12) as u8;
    while !ok(t) {
        t = t % 12 + 1;
    }
    t
}

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_struct(src, ctx);
    let v = p.gen_fuel(src, 5);
    let mut w = p.wire(&v);
    let base = canon(&w);
    let mut all = vec![];
    sites(p.schema, p.ty, &w, &mut vec![], &mut all);
    if all.is_empty() {
        ctx.label("no site");
        return Ok(());
    }
    // even choice among the kinds of violation that are possible
    let key = |k: &Kind| match k {
        Kind::Drop(_) => 0,
        Kind::Repeat(_) => 1,
        Kind::FieldType(_) => 2,
        Kind::ElemType => 3,
        Kind::Utf8 => 4,
        Kind::UnionEmpty => 5,
        Kind::UnionUnknown => 6,
        Kind::UnionTwo => 7,
    };
    let mut kinds: Vec<i32> = all.iter().map(|s| key(&s.1)).collect();
    kinds.sort_unstable();
    kinds.dedup();
    let k = *src.pick(&kinds);
    all.retain(|s| key(&s.1) == k);
    let (path, kind) = src.pick(&all).clone();
    let label = ["required field missing", "optional field repeated", "field of another type", "element of another type", "ill-formed UTF-8", "empty union", "unknown union member", "two union members"][k as usize];
    ctx.label(label);
    ctx.label_if(path.len() >= 2, "two or more levels deep");
    let (mut ty, mut node) = (p.ty, &mut w);
    for i in &path {
        (ty, node) = child(p.schema, ty, node, *i);
    }
    let ty = strip(ty);
    let s = p.schema;
    // expected: exact debug text, or a set of acceptable ones
    let mut want: Vec<String> = vec![];
    let def = |ty: &Ty| match ty {
        Ty::Named(n) => s.strukt(n).clone(),
        _ => panic!("HARNESS: site"),
    };
    match kind {
        Kind::Drop(i) => {
            let Wire::Struct(f) = node else { panic!("HARNESS: site") };
            let d = def(ty);
            let (id, _) = f.remove(i);
            let name = &d.fields.iter().find(|f| f.id == id).unwrap().name;
            want.push(format!("MissingField(\"{}::{}\")", d.name, name));
            want.push(format!("MissingField(\"{}::r#{}\")", d.name, name));
        }
        Kind::Repeat(i) => {
            let Wire::Struct(f) = node else { panic!("HARNESS: site") };
            let d = def(ty);
            let id = f[i].0;
            let fd = d.fields.iter().find(|f| f.id == id).unwrap();
            let copy = if src.flip() { f[i].1.clone() } else { value::to_wire(s, &fd.ty, &value::gen(s, &fd.ty, src, 2)) };
            let at = src.index(f.len() + 1);
            f.insert(at, (id, copy));
            want.push("DuplicateField".into());
        }
        Kind::FieldType(i) => {
            let Wire::Struct(f) = node else { panic!("HARNESS: site") };
            let d = def(ty);
            let id = f[i].0;
            let fd = d.fields.iter().find(|f| f.id == id).unwrap();
            let t = other_tag(src, s.wire_type(strip(&fd.ty)));
            f[i].1 = gen_wire_of(src, t, 2);
            want.push("InvalidType".into());
        }
        Kind::ElemType => {
            let Wire::List(_, e, items) = node else { panic!("HARNESS: site") };
            ctx.label_if(items.is_empty(), "empty list of another element type");
            let t = other_tag(src, *e);
            *e = t;
            for x in items.iter_mut() {
                *x = gen_wire_of(src, t, 1);
            }
            want.push("InvalidType".into());
        }
        Kind::Utf8 => {
            *node = Wire::Bin(ill_formed(src));
            want.push("InvalidString".into());
        }
        Kind::UnionEmpty => {
            *node = Wire::Struct(vec![]);
            want.push("InvalidType".into());
        }
        Kind::UnionUnknown => {
            let d = def(ty);
            let id = unknown_id(src, &d);
            *node = Wire::Struct(vec![(id, gen_wire(src, 2))]);
            want.push(format!("MissingField(\"{}\")", d.name));
        }
        Kind::UnionTwo => {
            let d = def(ty);
            let Wire::Struct(f) = node else { panic!("HARNESS: site") };
            let fd = src.pick(&d.fields);
            let x = value::to_wire(s, &fd.ty, &value::gen(s, &fd.ty, src, 2));
            f.push((fd.id, x));
            want.push("MissingStop".into());
        }
    }
    let mut b = vec![];
    if src.flip() {
        // field order must not turn a violation into another one
        let mut st = Style::any(src);
        st.permute = k != 7;
        encode(&w, &mut st, &mut b);
    } else {
        b = canon(&w);
    }
    let n = src.below(16) as usize;
    b.extend(src.bytes(n));
    ctx.nontrivial = true;
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{}: {label} at {path:?}: {}", p.ops.name, clip(&format!("{w:?}"), 300)));
    if (p.ops.light_slice)(&base).is_err() {
        ctx.label("not decodable");
        return Ok(());
    }
    let (r, _) = (p.ops.dec_slice)(&b);
    let mut rd = SplitReader::new(&b, Split::gen(src));
    let rs = (p.ops.dec_stream)(&mut rd);
    for (how, r) in [("slice", r), ("stream", rs)] {
        let got = match &r {
            Ok(d) => format!("the value {}", d.debug),
            Err(e) => format!("{e:?}"),
        };
        if !want.contains(&got) {
            return Err(format!("{} with one violation ({label} at {path:?}), from {how}: expected {}, got {got}\n message {w:?}\n bytes {}", p.ops.name, want[0], hex(&b)));
        }
        if let Err(e) = &r {
            // the name can be read from copies of the error and stays in its messages
            let shown = e.clone().to_string();
            let name = match e {
                ThriftError::MissingField(n) => n.clone().to_string(),
                _ => String::new(),
            };
            if format!("MissingField({name:?})") != got && !name.is_empty() || !shown.contains(&name) || shown.is_empty() {
                return Err(format!("{}: {got} is shown as {shown:?} and names {name:?}", p.ops.name));
            }
        }
    }
    Ok(())
}
