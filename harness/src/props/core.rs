//! C01-C04, C06, C07: encodings and decodings of valid messages.

use super::util::*;
use crate::engine::*;
use crate::io::*;
use crate::types::*;
use crate::value::{self, Value};
use crate::wire::*;
use compact_thrift_runtime::*;
use std::rc::Rc;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a random value of a random declared type (hand-written schema pool, runtime types, Parquet types) is built through the library, encoded, and decoded from a slice and from a stream with random data behind it; non-trivial: the value has at least 2 leaf values, or the history at least 2 messages; distinct by encoded bytes",
            assumptions: &[
                "values reach the library by decoding a reference encoding, checked against their expected debug output; the sub-check 'direct' builds values in Rust instead",
            ],
            subs: vec![
                Sub { name: "value", quick: 60_000, thorough: 2_000_000, f: c01_value },
                Sub { name: "direct", quick: 20_000, thorough: 400_000, f: c01_direct },
                Sub { name: "messages", quick: 10_000, thorough: 300_000, f: c01_messages },
            ],
        },
        Prop {
            id: "C02",
            rule: "the bytes written for a random value of a random declared type are compared with an independent reference encoder; single fields are written after arbitrary previous ids; non-trivial: at least 2 leaf values or a field header; distinct by bytes",
            assumptions: &["the reference encoder (harness/src/wire.rs) renders the compact protocol specification"],
            subs: vec![
                Sub { name: "value", quick: 60_000, thorough: 2_000_000, f: c02_value },
                Sub { name: "field", quick: 40_000, thorough: 1_000_000, f: c02_field },
                Sub { name: "direct", quick: 10_000, thorough: 200_000, f: c02_direct },
                Sub { name: "set", quick: 400, thorough: 20_000, f: c02_set },
            ],
        },
        Prop {
            id: "C03",
            rule: "a random value is encoded with randomly chosen legal spellings (field order, long headers, long list sizes, padded varints, boolean element tags and bytes, unnamed enum numbers) and decoded from a slice and from a split stream; compared with the decoded canonical spelling and the expected debug output; non-trivial: the spelling differs from the canonical bytes; distinct by bytes",
            assumptions: &[],
            subs: vec![Sub { name: "spelling", quick: 90_000, thorough: 3_000_000, f: c03 }],
        },
        Prop {
            id: "C04",
            rule: "(a) random fields with unknown ids and random well-formed content are inserted at random places of a random message, the decoded value must not change; (b) a random well-formed field is skipped with random bytes behind it and exactly those bytes must remain; (c) integers are skipped at every distance from the end of the input; non-trivial: at least one field inserted or skipped field longer than one byte; distinct by bytes",
            assumptions: &[],
            subs: vec![
                Sub { name: "unknown", quick: 50_000, thorough: 1_500_000, f: c04_unknown },
                Sub { name: "skip", quick: 80_000, thorough: 2_000_000, f: c04_skip },
                Sub { name: "integer", quick: 60_000, thorough: 1_000_000, f: c04_integer },
                Sub { name: "large", quick: 48, thorough: 48, f: c04_large },
            ],
        },
        Prop {
            id: "C06",
            rule: "valid, damaged and random inputs are decoded and skipped through the slice input and through a reader that splits its data at random; outcome, consumed bytes and errors are compared; non-trivial: at least one byte was consumed by a decode that succeeded or failed after the first byte; distinct by input bytes and type",
            assumptions: &["a reader's bytes consumed after an error are not compared"],
            subs: vec![
                Sub { name: "decode", quick: 80_000, thorough: 2_500_000, f: c06_decode },
                Sub { name: "skip", quick: 50_000, thorough: 1_000_000, f: c06_skip },
            ],
        },
        Prop {
            id: "C07",
            rule: "a random valid message (any legal spelling, with unknown fields) is cut at every byte (up to 160 random cuts for long ones) and decoded or skipped from a slice and from a stream; non-trivial: at least 2 cuts; distinct by bytes; evaluations count cuts",
            assumptions: &[],
            subs: vec![
                Sub { name: "decode", quick: 15_000, thorough: 500_000, f: c07_decode },
                Sub { name: "skip", quick: 15_000, thorough: 500_000, f: c07_skip },
                Sub { name: "large", quick: 24, thorough: 24, f: c07_large },
            ],
        },
    ]
}

fn nontrivial(v: &Value, ctx: &mut Ctx) {
    ctx.nontrivial = leaves(v) >= 2;
    label_value(v, ctx);
}

// ------------------------------------------------------------------ C01

pub fn c01_value(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen(src);
    let canon = canon(&p.wire(&v));
    let n = src.below(24) as usize;
    let trailer = src.bytes(n);
    nontrivial(&v, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&canon);
    let dbg = p.debug(&v);
    ctx.repr(|| format!("{} = {}", p.ops.name, clip(&dbg, 400)));
    let rt = (p.ops.roundtrip)(&canon, &trailer).map_err(|e| format!("{}: {} failed with {e:?}", p.ops.name, clip(&dbg, 400)))?;
    if rt.debug != dbg {
        return Err(format!("{}: expected value {dbg}, decoded {}", p.ops.name, rt.debug));
    }
    for (how, (d, eq, rest)) in [("slice", &rt.slice), ("stream", &rt.stream)] {
        if *d != dbg {
            return Err(format!("{} read back from {how}: expected {dbg}, got {d}", p.ops.name));
        }
        if !eq && !has_nan(&v) {
            return Err(format!("{} read back from {how} differs from the written value: {dbg}", p.ops.name));
        }
        if *rest != trailer.len() {
            return Err(format!("{} read back from {how}: {} bytes follow, {rest} left unread", p.ops.name, trailer.len()));
        }
    }
    // bit-exact: the written bytes, decoded and written again, are the same
    let (d, _) = (p.ops.dec_slice)(&rt.bytes);
    let again = d.and_then(|d| d.reenc).map_err(|e| format!("{}: {e:?}", p.ops.name))?;
    if again != rt.bytes {
        return Err(format!("{}: {dbg} encodes to {}, read back and written again to {}", p.ops.name, hex(&rt.bytes), hex(&again)));
    }
    Ok(())
}

fn rt<T: Proto>(v: &T, same: impl Fn(&T, &T) -> bool, trailer: &[u8]) -> Res {
    let mut b = vec![];
    v.write_thrift(&mut b).map_err(|e| format!("writing {v:?}: {e:?}"))?;
    let len = b.len();
    b.extend_from_slice(trailer);
    let mut i = CompactThriftInputSlice::new(&b);
    let a = T::read_thrift(&mut i).map_err(|e| format!("reading {v:?}: {e:?}"))?;
    if !same(v, &a) || i.as_slice() != trailer {
        return Err(format!("{v:?} read back as {a:?}, {} of {len} bytes consumed", b.len() - i.as_slice().len()));
    }
    let mut r: &[u8] = &b;
    let a = T::read_thrift(&mut r).map_err(|e| format!("reading {v:?} from a stream: {e:?}"))?;
    if !same(v, &a) || r != trailer {
        return Err(format!("{v:?} read back as {a:?} from a stream, {} of {len} bytes consumed", b.len() - r.len()));
    }
    // as a field
    let mut b = vec![];
    let mut last = 0;
    v.write_thrift_field(&mut b, 3, &mut last).map_err(|e| format!("{e:?}"))?;
    b.extend_from_slice(trailer);
    let mut i = CompactThriftInputSlice::new(&b);
    let mut last = 0;
    let t = i.read_field_header(&mut last).map_err(|e| format!("{e:?}"))?;
    let mut a = T::default();
    a.fill_thrift_field(&mut i, t).map_err(|e| format!("reading {v:?} as a field: {e:?}"))?;
    if last != 3 || !same(v, &a) || i.as_slice() != trailer {
        return Err(format!("{v:?} read back as {a:?} as field {last}"));
    }
    Ok(())
}

fn same_f(a: &f64, b: &f64) -> bool {
    a.to_bits() == b.to_bits()
}

fn c01_direct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.below(20) as usize;
    let t = src.bytes(n);
    let t = &t[..];
    ctx.nontrivial = true;
    let k = src.below(12);
    let start = src.rec.len();
    let r = match k {
        0 => rt(&f64::from_bits(value::gen_double(src)), same_f, t),
        1 => {
            let n = src.len(40);
            let v: Vec<f64> = (0..n).map(|_| f64::from_bits(value::gen_double(src))).collect();
            rt(&v, |a, b| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_f(a, b)), t)
        }
        2 => rt(&(src.int(16) as i16), |a, b| a == b, t),
        3 => rt(&(src.int(32) as i32), |a, b| a == b, t),
        4 => rt(&src.int(64), |a, b| a == b, t),
        5 => rt(&(src.int(8) as i8), |a, b| a == b, t),
        6 => rt(&src.flip(), |a, b| a == b, t),
        7 => {
            let n = src.len(300);
            rt(&src.bytes(n), |a, b| a == b, t)
        }
        8 => rt(&value::gen_string(src), |a, b| a == b, t),
        9 => {
            let v = pool::Wrapped::new(
                Box::new(src.flip()),
                src.flip().then(|| Box::new(true)),
                Rc::new(src.int(64)),
                Arc::new(src.int(16) as i16),
                Rc::<str>::from(value::gen_string(src)),
                Arc::<str>::from(value::gen_string(src)),
                Box::<str>::from(value::gen_string(src)),
                src.flip().then(|| Rc::<str>::from("x")),
                src.flip().then(|| Box::new(pool::Small::new(1, src.flip()))),
                Rc::new(pool::Small::new(src.int(32) as i32, None)),
                Arc::new(pool::Small::new(src.int(32) as i32, false)),
                src.flip().then(|| Arc::new(src.flip())),
                src.flip().then(|| Box::new(pool::Choice::boxed(Box::new(src.flip())))),
                Rc::new(value::gen_string(src)),
                src.flip().then(|| Box::new(0.5)),
                src.flip().then(|| vec![Box::new(src.int(64)), Box::new(0)]),
                src.flip().then(|| vec![Box::new(src.flip()), Box::new(false)]),
                src.flip().then(|| Box::new(Box::new(src.int(32) as i32))),
                src.flip().then(|| Rc::new(src.flip())),
                Rc::new(src.flip()),
                src.int(8) as i8,
                src.flip().then_some(-1i8),
                src.flip().then(|| Box::new(vec![1u8, 2])),
            );
            rt(&v, |a, b| a == b, t)
        }
        10 => {
            let v = match src.below(8) {
                0 => pool::Choice::flag(src.flip()),
                1 => pool::Choice::neg(src.flip()),
                2 => pool::Choice::farflag(src.flip()),
                3 => pool::Choice::boxed(Box::new(src.flip())),
                4 => pool::Choice::inner(if src.flip() { pool::Inner::a(src.flip()) } else { pool::Inner::b(src.flip()) }),
                5 => pool::Choice::flags(vec![src.flip(), src.flip()]),
                6 => pool::Choice::far(src.int(64)),
                _ => pool::Choice::text(value::gen_string(src)),
            };
            rt(&v, |a, b| a == b, t)
        }
        _ => {
            // borrowed data
            let s = value::gen_string(src);
            let mut b = vec![];
            std::borrow::Cow::<str>::Borrowed(&s).write_thrift(&mut b).map_err(|e| format!("{e:?}"))?;
            std::borrow::Cow::<[u8]>::Borrowed(s.as_bytes()).write_thrift(&mut b).map_err(|e| format!("{e:?}"))?;
            b.extend_from_slice(t);
            let mut i = CompactThriftInputSlice::new(&b);
            let a = std::borrow::Cow::<str>::read_thrift(&mut i).map_err(|e| format!("{e:?}"))?;
            let c = std::borrow::Cow::<[u8]>::read_thrift(&mut i).map_err(|e| format!("{e:?}"))?;
            if a != s || *c != *s.as_bytes() || i.as_slice() != t {
                return Err(format!("borrowed string {s:?} read back as {a:?} and {c:?}"));
            }
            let mut r = SplitReader::new(&b, Split::new(1, 3, false));
            let a = std::borrow::Cow::<str>::read_thrift(&mut r).map_err(|e| format!("{e:?}"))?;
            let c = std::borrow::Cow::<[u8]>::read_thrift(&mut r).map_err(|e| format!("{e:?}"))?;
            if a != s || *c != *s.as_bytes() || b.len() - r.pos != t.len() {
                return Err(format!("string {s:?} read back as {a:?} and {c:?} from a stream"));
            }
            Ok(())
        }
    };
    for c in &src.rec[start..] {
        ctx.fp(&c.to_le_bytes());
    }
    ctx.fp(&[k as u8]);
    ctx.repr(|| format!("kind {k}, choices {:?}", &src.rec[start..].iter().take(20).collect::<Vec<_>>()));
    r
}

fn c01_messages(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(2, 8) as usize;
    let mut buf = vec![];
    let mut msgs = vec![];
    for _ in 0..n {
        let p = pick_any(src, ctx);
        let v = p.gen_fuel(src, 3);
        let dbg = p.debug(&v);
        let (d, _) = (p.ops.dec_slice)(&canon(&p.wire(&v)));
        let b = d.and_then(|d| d.reenc).map_err(|e| format!("{}: {dbg}: {e:?}", p.ops.name))?;
        buf.extend_from_slice(&b);
        msgs.push((p, dbg, buf.len()));
    }
    ctx.nontrivial = true;
    ctx.fp(&buf);
    ctx.repr(|| format!("{:?} in {} bytes", msgs.iter().map(|m| m.0.ops.name).collect::<Vec<_>>(), buf.len()));
    let mut pos = 0;
    for (p, dbg, end) in &msgs {
        let (d, rest) = (p.ops.dec_slice)(&buf[pos..]);
        let d = d.map_err(|e| format!("{} at byte {pos}: {e:?}", p.ops.name))?;
        pos = buf.len() - rest;
        if d.debug != *dbg || pos != *end {
            return Err(format!("message {} ending at byte {end}: expected {dbg}, got {}, position {pos}", p.ops.name, d.debug));
        }
    }
    let mut r = SplitReader::new(&buf, Split::gen(src));
    for (p, dbg, end) in &msgs {
        let d = (p.ops.dec_stream)(&mut r).map_err(|e| format!("{} from a stream: {e:?}", p.ops.name))?;
        if d.debug != *dbg || r.pos != *end {
            return Err(format!("message {} ending at byte {end}, from a stream: expected {dbg}, got {}, position {}", p.ops.name, d.debug, r.pos));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn c02_value(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen(src);
    let want = canon(&p.wire(&v));
    let dbg = p.debug(&v);
    nontrivial(&v, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&want);
    ctx.repr(|| format!("{} = {} -> {}", p.ops.name, clip(&dbg, 300), hex(&want[..want.len().min(80)])));
    let (d, _) = (p.ops.dec_slice)(&want);
    // whether the value can be built this way is the business of other properties
    let Ok(d) = d else {
        ctx.label("not built");
        return Ok(());
    };
    if d.debug != dbg {
        ctx.label("not built");
        return Ok(());
    }
    let got = d.reenc.map_err(|e| format!("{}: writing {dbg}: {e:?}", p.ops.name))?;
    if got != want {
        return Err(format!("{}: {dbg}\n expected {}\n written  {}", p.ops.name, hex(&want), hex(&got)));
    }
    Ok(())
}

fn field_ref(id: i16, last: i16, w: &Wire) -> Vec<u8> {
    // a field of a struct whose previous field had the id `last`
    let mut o = vec![];
    let delta = id as i32 - last as i32;
    if (1..=15).contains(&delta) {
        o.push((delta as u8) << 4 | w.tag());
    } else {
        o.push(w.tag());
        varint(zigzag(id as i64), &mut o);
    }
    if !matches!(w, Wire::Bool(_)) {
        o.extend(canon(w));
    }
    o
}

pub fn c02_field(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen_fuel(src, 2);
    let w = p.wire(&v);
    let last = match src.below(3) {
        0 => 0,
        1 => src.range(0, 40) as i16,
        _ => src.int(16) as i16,
    };
    let id = match src.below(4) {
        0 => last.wrapping_add(src.range(0, 17) as i16),
        1 => last.wrapping_sub(src.range(0, 17) as i16),
        2 => src.int(16) as i16,
        _ => src.range(0, 200) as i16,
    };
    let want = field_ref(id, last, &w);
    ctx.nontrivial = true;
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&last.to_le_bytes());
    ctx.fp(&want);
    let delta = id as i32 - last as i32;
    ctx.label_if(delta > 15, "gap above 15");
    ctx.label_if(delta <= 0, "not ascending");
    ctx.label_if(id < 0, "negative id");
    ctx.label_if(delta > i16::MAX as i32 || delta < i16::MIN as i32, "difference beyond 16 bits");
    ctx.repr(|| format!("{} as field {id} after {last}: {}", p.ops.name, hex(&want[..want.len().min(60)])));
    let built = (p.ops.dec_slice)(&canon(&w)).0;
    if !matches!(&built, Ok(d) if d.debug == p.debug(&v)) {
        ctx.label("not built");
        return Ok(());
    }
    match (p.ops.write_field)(&canon(&w), id, last) {
        Ok((got, l)) if got == want && l == id => Ok(()),
        Ok((got, l)) => Err(format!(
            "{} {} as field {id} after {last}: expected {}, written {}, last id {l}",
            p.ops.name,
            clip(&p.debug(&v), 300),
            hex(&want),
            hex(&got)
        )),
        Err(e) => Err(format!("{} as field {id} after {last}: {e:?}", p.ops.name)),
    }
}

fn c02_direct(src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let start = src.rec.len();
    let (got, w, what) = match src.below(7) {
        0 => {
            let (a, d, e) = (src.int(32) as i32, src.int(64), src.flip());
            let fs = value::gen_string(src);
            let opt = src.below(256);
            let o = |i: u64| opt >> i & 1 == 1;
            let v = pool::Gaps {
                a,
                b: o(0).then_some(e),
                c: o(1).then_some(d),
                d: o(2).then_some(fs.clone()),
                e: o(3).then_some(!e),
                f: o(4).then_some(-3),
                f2: o(5).then_some(true),
                f3: o(6).then_some(false),
                g: o(7).then(|| vec![fs.clone(), String::new()]),
                g2: o(0).then_some(7),
                g3: o(2).then_some(8),
                h: o(1).then_some(-1),
            };
            let mut f = vec![(1i16, Wire::Int(5, a as i64))];
            let bin = |s: &String| Wire::Bin(s.clone().into_bytes());
            let mut add = |c: bool, id: i16, w: Wire| {
                if c {
                    f.push((id, w))
                }
            };
            add(o(0), 2, Wire::Bool(e));
            add(o(1), 16, Wire::Int(6, d));
            add(o(2), 17, bin(&fs));
            add(o(3), 33, Wire::Bool(!e));
            add(o(4), 100, Wire::I8(-3i8 as u8));
            add(o(5), 115, Wire::Bool(true));
            add(o(6), 131, Wire::Bool(false));
            add(o(7), 1000, Wire::List(9, 8, vec![bin(&fs), bin(&String::new())]));
            add(o(0), 8191, Wire::Int(5, 7));
            add(o(2), 8192, Wire::Int(5, 8));
            add(o(1), 32767, Wire::Int(5, -1));
            (enc(&v)?, Wire::Struct(f), format!("{v:?}"))
        }
        1 => {
            let x = f64::from_bits(value::gen_double(src));
            (enc(&x)?, Wire::Double(x.to_le_bytes()), format!("{x:?}"))
        }
        2 => {
            let n = src.len(200);
            let v: Vec<i64> = (0..n).map(|_| src.int(64)).collect();
            (enc(&v)?, Wire::List(9, 6, v.iter().map(|x| Wire::Int(6, *x)).collect()), format!("{v:?}"))
        }
        3 => {
            let n = src.len(200);
            let v: Vec<bool> = (0..n).map(|_| src.flip()).collect();
            (enc(&v)?, Wire::List(9, 2, v.iter().map(|x| Wire::Bool(*x)).collect()), format!("{v:?}"))
        }
        4 => {
            let v = match src.below(4) {
                0 => (pool::Choice::flag(src.flip()), 1),
                1 => (pool::Choice::neg(src.flip()), -5),
                2 => (pool::Choice::farflag(src.flip()), 300),
                _ => (pool::Choice::boxed(Box::new(src.flip())), 9),
            };
            let b = match &v.0 {
                pool::Choice::flag(b) | pool::Choice::neg(b) | pool::Choice::farflag(b) => *b,
                pool::Choice::boxed(b) => **b,
                _ => unreachable!(),
            };
            (enc(&v.0)?, Wire::Struct(vec![(v.1, Wire::Bool(b))]), format!("{:?}", v.0))
        }
        5 => {
            let i = src.int(32) as i32;
            (enc(&pool::Color(i))?, Wire::Int(5, i as i64), format!("Color({i})"))
        }
        _ => {
            let n = src.len(20);
            let v: Vec<Arc<pool::Small>> = (0..n).map(|_| Arc::new(pool::Small::new(src.int(32) as i32, src.flip()))).collect();
            let w = v
                .iter()
                .map(|s| Wire::Struct(vec![(1, Wire::Int(5, s.a as i64)), (2, Wire::Bool(s.b.unwrap()))]))
                .collect();
            (enc(&v)?, Wire::List(9, 12, w), format!("{v:?}"))
        }
    };
    for c in &src.rec[start..] {
        ctx.fp(&c.to_le_bytes());
    }
    let want = canon(&w);
    ctx.repr(|| format!("{} -> {}", clip(&what, 200), hex(&want[..want.len().min(60)])));
    if got != want {
        return Err(format!("{what}\n expected {}\n written  {}", hex(&want), hex(&got)));
    }
    Ok(())
}

fn enc<T: Proto>(v: &T) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    v.write_thrift(&mut o).map_err(|e| format!("writing {v:?}: {e:?}"))?;
    Ok(o)
}

mod sets {
    compact_thrift_runtime::thrift! {
        struct WithSet {
            1: required i32 a;
            2: optional set<i32> s;
            3: optional set<string> t;
        }
    }
}

/// set<T> fields. The recorded deviation is exactly: type 9 where 10 is prescribed.
fn c02_set(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.len(40);
    let s: Vec<i32> = (0..n).map(|_| src.int(32) as i32).collect();
    let t: Option<Vec<String>> = src.flip().then(|| {
        let n = src.len(20);
        (0..n).map(|_| value::gen_string(src)).collect()
    });
    let v = sets::WithSet::new(4, s.clone(), t.clone());
    let wire = |tag: u8| {
        let mut f = vec![(1, Wire::Int(5, 4)), (2, Wire::List(tag, 5, s.iter().map(|x| Wire::Int(5, *x as i64)).collect()))];
        if let Some(t) = &t {
            f.push((3, Wire::List(tag, 8, t.iter().map(|x| Wire::Bin(x.clone().into_bytes())).collect())));
        }
        canon(&Wire::Struct(f))
    };
    ctx.nontrivial = true;
    ctx.fp(&wire(10));
    ctx.repr(|| format!("{v:?}"));
    let got = enc(&v)?;
    if got == wire(10) {
        return Ok(());
    }
    if got == wire(9) {
        ctx.known(
            "set-written-as-list",
            "a set<T> field is written (and expected when reading) with the type number of list, 9, instead of 10; e.g. struct { 2: optional set<i32> s } with s = {1}".into(),
        );
        return Ok(());
    }
    Err(format!("{v:?}\n expected {}\n written  {}", hex(&wire(10)), hex(&got)))
}

// ------------------------------------------------------------------ C03

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen(src);
    let w = p.wire(&v);
    let canon = canon(&w);
    let mut b = vec![];
    encode(&w, &mut Style::any(src), &mut b);
    let len = b.len();
    let n = src.below(20) as usize;
    b.extend(src.bytes(n));
    let dbg = p.debug(&v);
    ctx.nontrivial = b[..len] != canon[..];
    label_value(&v, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} = {} as {}", p.ops.name, clip(&dbg, 200), hex(&b[..len.min(100)])));
    let (d, rest) = (p.ops.dec_slice)(&b);
    let d = d.map_err(|e| format!("{}: {dbg} spelled {} rejected with {e:?}", p.ops.name, hex(&b[..len])))?;
    let mut r = SplitReader::new(&b, Split::gen(src));
    let ds = (p.ops.dec_stream)(&mut r).map_err(|e| format!("{}: {dbg} spelled {} rejected with {e:?} from a stream", p.ops.name, hex(&b[..len])))?;
    for (how, d, used) in [("slice", &d, b.len() - rest), ("stream", &ds, r.pos)] {
        if d.debug != dbg || used != len {
            return Err(format!("{} from {how}: expected {dbg} ({len} bytes), got {} ({used} bytes) for {}", p.ops.name, d.debug, hex(&b[..len])));
        }
    }
    // bits that the debug output does not show
    if let Ok(c) = (p.ops.dec_slice)(&canon).0 {
        if let (Ok(x), Ok(y), Ok(z)) = (&c.reenc, &d.reenc, &ds.reenc) {
            if x != y || x != z {
                return Err(format!("{}: {dbg} spelled {} decodes to different bits than spelled {}", p.ops.name, hex(&b[..len]), hex(&canon)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

/// inserts a long run of small unknown fields, which repeat an id or ascend
fn many_unknown(s: &crate::idl::Schema, ty: &crate::idl::Ty, w: &mut Wire, src: &mut Src) -> usize {
    let (crate::idl::Ty::Named(name), Wire::Struct(fields)) = (ty, w) else { return 0 };
    let d = s.strukt(name);
    if d.is_union {
        return 0;
    }
    let n = *src.pick(&[100usize, 130, 260, 300, 1100, 2100, 4200, 9000, 33000, 66000]);
    let x = gen_wire(src, 0);
    let n = n.min(4_000_000 / (canon(&x).len() + 40));
    let (first, step) = (unknown_id(src, d), src.below(3) as i16);
    let mut id = first;
    let run: Vec<(i16, Wire)> = (0..n)
        .map(|_| {
            while d.fields.iter().any(|f| f.id == id) {
                id = id.wrapping_add(1);
            }
            let r = id;
            id = id.wrapping_add(step);
            (r, x.clone())
        })
        .collect();
    let at = src.index(fields.len() + 1);
    fields.splice(at..at, run);
    n
}

pub fn c04_unknown(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_struct(src, ctx);
    let v = p.gen_fuel(src, 4);
    let plain = p.wire(&v);
    let mut w = plain.clone();
    let d = src.range(1, 4) as usize;
    let mut n = add_unknown(p.schema, p.ty, &mut w, src, d);
    if src.chance(1, 500) {
        n += many_unknown(p.schema, p.ty, &mut w, src);
        ctx.label("hundreds or more unknown fields");
    }
    let mut b = vec![];
    if src.flip() {
        encode(&w, &mut Style::any(src), &mut b);
    } else {
        b = canon(&w);
    }
    let len = b.len();
    let t = src.below(20) as usize;
    b.extend(src.bytes(t));
    let dbg = p.debug(&v);
    ctx.nontrivial = n > 0;
    ctx.label_if(n > 0, "with unknown fields");
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} = {} with {n} unknown fields: {}", p.ops.name, clip(&dbg, 150), clip(&format!("{w:?}"), 300)));
    // the message without them decodes (other properties decide that)
    let Ok(base) = (p.ops.dec_slice)(&canon(&plain)).0 else {
        ctx.label("not built");
        return Ok(());
    };
    let (r, rest) = (p.ops.dec_slice)(&b);
    let mut rd = SplitReader::new(&b, Split::gen(src));
    let rs = (p.ops.dec_stream)(&mut rd);
    for (how, r, used) in [("slice", r, b.len() - rest), ("stream", rs, rd.pos)] {
        let d = r.map_err(|e| format!("{} with {n} unknown fields rejected with {e:?} from {how}: {w:?}", p.ops.name))?;
        if d.debug != base.debug || used != len {
            return Err(format!("{} from {how}: expected {} ({len} bytes), got {} ({used} bytes) with unknown fields {w:?}", p.ops.name, base.debug, d.debug));
        }
        if let (Ok(a), Ok(b)) = (&d.reenc, &base.reenc) {
            if a != b {
                return Err(format!("{} from {how}: value changed by unknown fields: {} / {}", p.ops.name, hex(a), hex(b)));
            }
        }
    }
    Ok(())
}

/// skips a field from the slice and from a stream; checks the rest
pub fn check_skip(tag: u8, b: &[u8], len: usize, split: Split) -> Res {
    let mut i = CompactThriftInputSlice::new(b);
    i.skip_field(tag).map_err(|e| format!("skipping a field of type {tag} in {}: {e:?}", hex(b)))?;
    if i.as_slice() != &b[len..] {
        return Err(format!("skipping a field of type {tag} of {len} bytes in {}: {} bytes left of {}", hex(b), i.as_slice().len(), b.len()));
    }
    let mut r = SplitReader::new(b, split);
    r.skip_field(tag).map_err(|e| format!("skipping a field of type {tag} from a stream: {}: {e:?}", hex(b)))?;
    if r.pos != len {
        return Err(format!("skipping a field of type {tag} of {len} bytes from a stream consumed {}: {}", r.pos, hex(b)));
    }
    Ok(())
}

fn c04_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = *src.pick(&[12u8, 9, 10, 11, 8, 7, 6, 5, 4, 3, 2, 1]);
    let d = src.range(1, 5) as usize;
    let w = gen_wire_of(src, t, d);
    let mut b = vec![];
    if !matches!(w, Wire::Bool(_)) {
        encode(&w, &mut Style::any(src), &mut b);
    }
    let len = b.len();
    let t = src.below(24) as usize;
    b.extend(src.bytes(t));
    ctx.nontrivial = len > 1;
    ctx.label_if(w.depth() >= 2, "nested");
    ctx.label(match w.tag() {
        1 | 2 => "bool",
        3 => "byte",
        4..=6 => "integer",
        7 => "double",
        8 => "binary",
        9 => "list",
        10 => "set",
        11 => "map",
        _ => "struct",
    });
    ctx.fp(&b);
    ctx.fp(&[w.tag()]);
    ctx.repr(|| format!("type {} as {} then {} bytes", w.tag(), hex(&b[..len.min(100)]), b.len() - len));
    let s = Split::gen(src);
    check_skip(w.tag(), &b, len, s)
}

/// varints of every length at every distance from the end, alone, in a list, and in a struct
fn c04_integer(src: &mut Src, ctx: &mut Ctx) -> Res {
    let tag = src.range(4, 6) as u8;
    let vlen = src.range(1, 40) as usize;
    let trailer = src.below(34) as usize;
    let mut v: Vec<u8> = (0..vlen).map(|_| 0x80).collect();
    for (i, x) in v.iter_mut().enumerate() {
        if i < 9 {
            *x |= src.byte() & 0x7f;
        }
    }
    *v.last_mut().unwrap() &= 0x7f;
    if vlen == 10 {
        v[9] &= 1;
    }
    let shape = src.below(4);
    let (t, mut b) = match shape {
        0 => (tag, v.clone()),
        1 => {
            let n = src.range(1, 5);
            let mut b = vec![(n as u8) << 4 | tag];
            for _ in 0..n {
                b.extend(&v);
            }
            (9, b)
        }
        2 => {
            let mut b = vec![0x10 | tag];
            b.extend(&v);
            b.push(0x10 | tag);
            b.extend(&v);
            b.push(0);
            (12, b)
        }
        _ => {
            let mut b = vec![2, 0x30 | tag];
            for _ in 0..2 {
                b.push(src.byte());
                b.extend(&v);
            }
            (11, b)
        }
    };
    let len = b.len();
    let mut tail = src.bytes(trailer);
    if src.flip() {
        // continuation bytes directly behind the varint
        for x in tail.iter_mut() {
            *x |= 0x80;
        }
    }
    b.extend(&tail);
    ctx.nontrivial = len > 1;
    ctx.label_if(vlen > 16, "varint longer than 16 bytes");
    ctx.label_if(b.len() < 16, "input shorter than 16 bytes");
    ctx.fp(&b);
    ctx.repr(|| format!("{vlen}-byte varint, shape {shape}, {trailer} bytes follow: {}", hex(&b)));
    let at_end = src.chance(3, 4);
    let s = Split::gen(src);
    crate::mem::guarded(&b, at_end, |b| check_skip(t, b, len, s))
}

/// skipped values large enough for long size encodings of every kind
fn c04_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = [15usize, 16, 127, 128, 1000, 16383, 16384, 100_000][(ctx.idx % 8) as usize];
    let t = [8u8, 9, 10, 11, 12, 9][(ctx.idx / 8 % 6) as usize];
    let w = match t {
        8 => Wire::Bin(vec![0xab; n * 3]),
        9 | 10 if ctx.idx >= 40 => Wire::List(9, 12, (0..n).map(|i| Wire::Struct(vec![(1, Wire::Int(5, i as i64)), (2, Wire::Bool(true))])).collect()),
        9 | 10 => Wire::List(t, 6, (0..n).map(|i| Wire::Int(6, i as i64 * i as i64)).collect()),
        11 => Wire::Map(8, 2, (0..n).map(|i| (Wire::Bin(vec![7; i % 5]), Wire::Bool(i % 3 == 0))).collect()),
        _ => Wire::Struct((0..n.min(32000)).map(|i| (i as i16 + 1, Wire::Int(4, i as i64))).collect()),
    };
    let mut b = canon(&w);
    let len = b.len();
    let k = src.below(24) as usize;
    b.extend(src.bytes(k));
    ctx.nontrivial = true;
    ctx.fp(&(len as u64).to_le_bytes());
    ctx.fp(&[t]);
    ctx.repr(|| format!("type {t} with {n} elements, {len} bytes"));
    let s = Split::gen(src);
    check_skip(w.tag(), &b, len, s)
}

// ------------------------------------------------------------------ C06

fn c06_decode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let b = gen_input(src, p, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(150)])));
    let (a, rest) = (p.ops.dec_slice)(&b);
    let used = b.len() - rest.min(b.len());
    let rounds = 1 + src.below(2);
    for _ in 0..rounds {
        let mut r = SplitReader::new(&b, Split::gen(src));
        let s = (p.ops.dec_stream)(&mut r);
        ctx.nontrivial = r.pos > 1;
        match (&a, &s) {
            (Ok(a), Ok(s)) => {
                ctx.label("both succeed");
                let same = a.debug == s.debug
                    && match (&a.reenc, &s.reenc) {
                        (Ok(x), Ok(y)) => x == y,
                        (x, y) => err_str(x) == err_str(y),
                    };
                if !same {
                    return Err(format!("{} from {}: slice gives {}, stream gives {}", p.ops.name, hex(&b), a.debug, s.debug));
                }
                if used != r.pos {
                    return Err(format!("{} from {}: slice consumed {used}, stream {}", p.ops.name, hex(&b), r.pos));
                }
            }
            (Err(x), Err(y)) => {
                ctx.label("both fail");
                if format!("{x:?}") != format!("{y:?}") {
                    return Err(format!("{} from {}: slice fails with {x:?}, stream with {y:?}", p.ops.name, hex(&b)));
                }
            }
            _ => {
                return Err(format!("{} from {}: slice gives {}, stream gives {}", p.ops.name, hex(&b), err_str(&a), err_str(&s)));
            }
        }
    }
    Ok(())
}

fn c06_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = if src.chance(1, 12) { src.below(20) as u8 } else { src.range(3, 12) as u8 };
    let mut b = vec![];
    if (1..=12).contains(&t) {
        let d = src.below(5) as usize;
        let w = gen_wire_of(src, t, d);
        encode(&w, &mut Style::any(src), &mut b);
    }
    let n = src.below(24) as usize;
    b.extend(src.bytes(n));
    let m = src.below(3);
    if m > 0 {
        mutate(src, &mut b);
    }
    ctx.fp(&b);
    ctx.fp(&[t]);
    ctx.nontrivial = b.len() > 1;
    ctx.repr(|| format!("skip type {t} in {}", hex(&b[..b.len().min(150)])));
    let mut i = CompactThriftInputSlice::new(&b);
    let a = i.skip_field(t);
    let used = consumed(&b, i.as_slice());
    let mut r = SplitReader::new(&b, Split::gen(src));
    let s = r.skip_field(t);
    match (&a, &s) {
        (Ok(()), Ok(())) if used == r.pos => {
            ctx.label("both succeed");
            Ok(())
        }
        (Err(x), Err(y)) if format!("{x:?}") == format!("{y:?}") => {
            ctx.label("both fail");
            Ok(())
        }
        _ => Err(format!("skipping type {t} in {}: slice {a:?} after {used}, stream {s:?} after {}", hex(&b), r.pos)),
    }
}

// ------------------------------------------------------------------ C07

fn cuts(src: &mut Src, len: usize) -> Vec<usize> {
    if len <= 160 {
        return (0..len).collect();
    }
    let few = len > 4000;
    let mut v: Vec<usize> = (0..if few { 16 } else { 110 }).map(|_| src.index(len)).collect();
    v.extend(0..if few { 4 } else { 20 });
    v.extend(len - if few { 4 } else { 30 }..len);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c07_decode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let fuel = *src.pick(&[3, 2, 4]);
    let v = p.gen_fuel(src, fuel);
    let mut w = p.wire(&v);
    if src.flip() {
        let n = add_unknown(p.schema, p.ty, &mut w, src, 2);
        ctx.label_if(n > 0, "with unknown fields");
    }
    let mut b = vec![];
    if src.flip() {
        encode(&w, &mut Style::any(src), &mut b);
    } else {
        b = canon(&w);
    }
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{}, every prefix of {}", p.ops.name, hex(&b[..b.len().min(120)])));
    // the whole message is valid (other properties decide that)
    if (p.ops.light_slice)(&b).is_err() {
        ctx.label("not decodable");
        return Ok(());
    }
    let cuts = cuts(src, b.len());
    ctx.nontrivial = cuts.len() >= 2;
    ctx.evals = cuts.len() as u64;
    let seed = src.below(1 << 32);
    for cut in cuts {
        let part = &b[..cut];
        let a = crate::mem::guarded(part, true, |part| (p.ops.light_slice)(part));
        let mut r = SplitReader::new(part, Split::new(seed, (cut % 7) * 3, false));
        let s = (p.ops.light_stream)(&mut r);
        for (how, e) in [("slice", err_str(&a)), ("stream", err_str(&s))] {
            if e != eof() {
                return Err(format!("{} cut after {cut} of {} bytes, from {how}: got {e}: {}", p.ops.name, b.len(), hex(part)));
            }
        }
    }
    Ok(())
}

fn c07_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = src.range(3, 12) as u8;
    let d = src.range(1, 4) as usize;
    let w = gen_wire_of(src, t, d);
    let mut b = vec![];
    encode(&w, &mut Style::any(src), &mut b);
    ctx.fp(&b);
    ctx.fp(&[t]);
    ctx.repr(|| format!("type {t}, every prefix of {}", hex(&b[..b.len().min(120)])));
    let cuts = cuts(src, b.len());
    ctx.nontrivial = cuts.len() >= 2;
    ctx.evals = cuts.len() as u64;
    let seed = src.below(1 << 32);
    for cut in cuts {
        let part = &b[..cut];
        let a = crate::mem::guarded(part, true, |part| CompactThriftInputSlice::new(part).skip_field(t));
        let mut r = SplitReader::new(part, Split::new(seed, (cut % 7) * 3, false));
        let s = r.skip_field(t);
        for (how, e) in [("slice", err_str(&a)), ("stream", err_str(&s))] {
            if e != eof() {
                return Err(format!("skipping type {t} cut after {cut} of {} bytes, from {how}: got {e}: {}", b.len(), hex(part)));
            }
        }
    }
    Ok(())
}

/// binaries and lists whose announced size is far larger than the input
fn c07_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = [100_000u64, 1 << 20, (16 << 20) - 1, 16 << 20][(ctx.idx % 4) as usize];
    let kind = ctx.idx / 4 % 6;
    let cut = src.below(40) as usize;
    let mut b = vec![];
    let (t, name) = match kind {
        0 | 1 => {
            varint(n, &mut b);
            (8, ["binary", "string"][kind as usize])
        }
        k => {
            let n = n.min(10_000_000);
            let e = [3u8, 5, 8, 7][k as usize - 2];
            b.push(0xf0 | e);
            varint(n, &mut b);
            (9, ["Vec<i8>", "Vec<i32>", "Vec<string>", "Vec<double>"][k as usize - 2])
        }
    };
    b.extend(std::iter::repeat_n(0u8, cut));
    ctx.nontrivial = true;
    ctx.fp(&b);
    ctx.fp(name.as_bytes());
    ctx.repr(|| format!("{name} of announced size {n} with {cut} bytes"));
    let o = Pick::named(pool(), name).ops;
    let mut r1: &[u8] = &b;
    let mut r2 = SplitReader::new(&b, Split::gen(src));
    for (how, e) in [
        ("slice", err_str(&(o.light_slice)(&b))),
        ("stream", err_str(&(o.light_stream)(&mut r1))),
        ("skip", err_str(&CompactThriftInputSlice::new(&b).skip_field(t))),
        ("skip from stream", err_str(&r2.skip_field(t))),
    ] {
        if e != eof() {
            return Err(format!("{name} of announced size {n} with only {cut} bytes, {how}: {e}"));
        }
    }
    Ok(())
}

