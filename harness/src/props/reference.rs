//! C22: arbitrary bytes against the reference decoder. C23: memory balance of every outcome.
//! C24: nothing is copied that can be borrowed.

use super::history::{bang, with_bang, HookReader, HookWriter};
use super::util::*;
use crate::alloc::{balance, measure};
use crate::engine::*;
use crate::idl::*;
use crate::io::*;
use crate::value;
use crate::wire::*;
use compact_thrift_runtime::*;
use std::borrow::Cow;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "valid, damaged (byte-wise, or node-wise in the wire tree before encoding) and random inputs are decoded by the library from a slice and a split stream and by an independent reference decoder of the protocol and the schema; where the reference yields a value, the library must yield the same value and length, where it refuses, the library must refuse; likewise for skipping; non-trivial: the reference fixes the outcome and the input has at least 2 bytes; distinct by type and bytes",
            assumptions: &["no expectation where neither the specification nor the documentation fixes one: numbers beyond the range of their type, boolean bytes above 2, field type 0 with an id delta, repeated required fields, field ids that overflow, empty lists with element type 0, skipped data nested more than 48 deep"],
            subs: vec![
                Sub { name: "decode", quick: 100_000, thorough: 3_000_000, f: c22_decode },
                Sub { name: "skip", quick: 50_000, thorough: 1_500_000, f: c22_skip },
            ],
        },
        Prop {
            id: "C23",
            rule: "valid, damaged and random inputs are read from a slice and from a stream that may fail, filled into values that already have content (with or without clones that share parts), skipped and written, also with readers and writers that panic; footers, index chunks and page indexes are read from intact, damaged and failing files; after everything is dropped the allocator must have got back each byte and each block; non-trivial: the input has at least 2 bytes; distinct by type and bytes",
            assumptions: &["memory is counted per thread by the global allocator of the harness"],
            subs: vec![
                Sub { name: "read", quick: 80_000, thorough: 2_000_000, f: c23_read },
                Sub { name: "fill", quick: 60_000, thorough: 1_500_000, f: c23_fill },
                Sub { name: "files", quick: 20_000, thorough: 600_000, f: super::parquet::c23_files },
            ],
        },
        Prop {
            id: "C24",
            rule: "random messages of binaries, strings and lists of them are read from a slice through the borrowing types and the input's own methods, each borrowed part must be the very bytes of the input; random fields are skipped and scalars read with the allocations measured; non-trivial: at least one part of 1 byte or more, or a skipped field of at least 2 bytes; distinct by bytes",
            assumptions: &["skipping may use up to 16 KiB for bookkeeping, whatever it skips"],
            subs: vec![
                Sub { name: "borrow", quick: 60_000, thorough: 2_000_000, f: c24_borrow },
                Sub { name: "skip", quick: 60_000, thorough: 2_000_000, f: c24_skip },
            ],
        },
    ]
}

pub fn count(w: &Wire) -> usize {
    1 + match w {
        Wire::List(_, _, v) => v.iter().map(count).sum(),
        Wire::Map(_, _, v) => v.iter().map(|(a, b)| count(a) + count(b)).sum(),
        Wire::Struct(v) => v.iter().map(|x| count(&x.1)).sum(),
        _ => 0,
    }
}

pub fn nth<'a>(w: &'a mut Wire, n: &mut usize) -> Option<&'a mut Wire> {
    if *n == 0 {
        return Some(w);
    }
    *n -= 1;
    match w {
        Wire::List(_, _, v) => v.iter_mut().find_map(|x| nth(x, n)),
        Wire::Map(_, _, v) => v.iter_mut().find_map(|(a, b)| nth(a, n).or_else(|| nth(b, n))),
        Wire::Struct(v) => v.iter_mut().find_map(|x| nth(&mut x.1, n)),
        _ => None,
    }
}

/// a type tag, valid or not
fn tag(src: &mut Src) -> u8 {
    src.below(16) as u8
}

/// changes one node of the tree; the result need not be encodable consistently
pub fn damage(src: &mut Src, w: &mut Wire) {
    let k = src.index(count(w));
    let Some(x) = nth(w, &mut { k }) else { return };
    match x {
        Wire::Struct(f) if src.chance(5, 6) => match src.below(6) {
            0 if !f.is_empty() => {
                let i = src.index(f.len());
                f.remove(i);
            }
            1 if !f.is_empty() => {
                let i = src.index(f.len());
                let c = f[i].clone();
                let at = src.index(f.len() + 1);
                f.insert(at, c);
            }
            2 if !f.is_empty() => {
                let i = src.index(f.len());
                f[i].0 = if src.flip() { f[src.index(f.len())].0 } else { src.int(16) as i16 };
            }
            3 if f.len() > 1 => {
                let (i, j) = (src.index(f.len()), src.index(f.len()));
                let t = f[i].1.clone();
                f[i].1 = f[j].1.clone();
                f[j].1 = t;
            }
            4 if !f.is_empty() => {
                let i = src.index(f.len());
                let v = src.int(64);
                f[i].1 = Wire::Int(tag(src), v);
            }
            _ => {
                let at = src.index(f.len() + 1);
                let id = src.range(1, 40) as i16;
                f.insert(at, (id, gen_wire(src, 2)));
            }
        },
        Wire::List(t, e, items) if src.chance(5, 6) => match src.below(4) {
            0 => *e = tag(src),
            1 => *t = tag(src),
            2 => {
                let at = src.index(items.len() + 1);
                items.insert(at, gen_wire(src, 1));
            }
            _ if !items.is_empty() => {
                let at = src.index(items.len());
                items.remove(at);
            }
            _ => *e = tag(src),
        },
        Wire::Map(k, v, _) if src.flip() => {
            if src.flip() {
                *k = tag(src)
            } else {
                *v = tag(src)
            }
        }
        Wire::Int(t, v) if src.flip() => {
            if src.flip() {
                *t = tag(src)
            } else {
                *v = src.int(64)
            }
        }
        Wire::Bin(b) if src.flip() => mutate(src, b),
        x => *x = gen_wire(src, 2),
    }
}

pub fn input(src: &mut Src, p: Pick, ctx: &mut Ctx) -> Vec<u8> {
    if src.flip() {
        return gen_input(src, p, ctx);
    }
    ctx.label("damaged tree");
    let v = p.gen_fuel(src, 4);
    let mut w = p.wire(&v);
    if src.flip() {
        add_unknown(p.schema, p.ty, &mut w, src, 2);
    }
    for _ in 0..src.range(1, 2) {
        damage(src, &mut w);
    }
    let mut o = vec![];
    if src.flip() {
        encode(&w, &mut Style::any(src), &mut o);
    } else {
        o = canon(&w);
    }
    if src.chance(1, 8) {
        mutate(src, &mut o);
    }
    let n = src.below(12) as usize;
    o.extend(src.bytes(n));
    o
}

fn c22_decode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let b = input(src, p, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(150)])));
    let mut c = Cur::new(&b);
    let want = value::decode(p.schema, p.ty, &mut c);
    if c.unspec || want == Err(PErr::Unspec) {
        ctx.label("not specified");
        return Ok(());
    }
    ctx.nontrivial = b.len() >= 2;
    let (r, rest) = (p.ops.dec_slice)(&b);
    let mut rd = SplitReader::new(&b, Split::gen(src));
    let rs = (p.ops.dec_stream)(&mut rd);
    ctx.label(match want {
        Ok(_) => "accepted",
        Err(PErr::Eof) => "ends early",
        Err(_) => "ill-formed",
    });
    for (how, r, used) in [("slice", r, b.len() - rest), ("stream", rs, rd.pos)] {
        match (&want, r) {
            (Err(_), Err(_)) => {}
            (Err(e), Ok(d)) => return Err(format!("{} from {how}: {} is not an encoding of it ({e:?}), but decodes to {} ({used} bytes)", p.ops.name, hex(&b), d.debug)),
            (Ok(v), Ok(d)) => {
                let w = p.debug(v);
                if d.debug != w || used != c.pos {
                    return Err(format!("{} from {how}: {}\n decodes to {} ({used} bytes)\n instead of {w} ({} bytes)", p.ops.name, hex(&b), d.debug, c.pos));
                }
                match d.reenc {
                    Ok(x) if x == canon(&p.wire(v)) => {}
                    x => return Err(format!("{} from {how}: {}\n decodes to {w}, which is written as {:?}\n instead of {}", p.ops.name, hex(&b), x.map(|x| hex(&x)), hex(&canon(&p.wire(v))))),
                }
            }
            (Ok(v), Err(e)) => return Err(format!("{} from {how}: {} is refused with {e:?}, it encodes {}", p.ops.name, hex(&b), p.debug(v))),
        }
    }
    Ok(())
}

fn c22_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = if src.chance(1, 8) { src.range(1, 15) as u8 } else { *src.pick(&[12u8, 12, 11, 10, 9, 9, 8, 7, 6, 5, 4, 3, 2, 1]) };
    let d = src.range(1, 4) as usize;
    let mut b = vec![];
    match src.below(4) {
        0 => {
            let n = src.len(200);
            b = src.bytes(n);
        }
        k => {
            let mut w = gen_wire_of(src, if t > 12 { 12 } else { t }, d);
            if k == 2 {
                damage(src, &mut w);
            }
            encode(&w, &mut Style::any(src), &mut b);
            if k == 3 {
                mutate(src, &mut b);
            }
        }
    }
    let n = src.below(20) as usize;
    b.extend(src.bytes(n));
    ctx.fp(&[t]);
    ctx.fp(&b);
    ctx.repr(|| format!("type {t} in {}", hex(&b[..b.len().min(150)])));
    let mut c = Cur::new(&b);
    let want = c.skip(t, false, 0);
    if c.unspec || want == Err(PErr::Unspec) {
        ctx.label("not specified");
        return Ok(());
    }
    ctx.nontrivial = b.len() >= 2;
    ctx.label(match want {
        Ok(_) => "accepted",
        Err(PErr::Eof) => "ends early",
        Err(_) => "ill-formed",
    });
    let mut i = CompactThriftInputSlice::new(&b);
    let r = i.skip_field(t);
    let mut rd = SplitReader::new(&b, Split::gen(src));
    let rs = rd.skip_field(t);
    for (how, r, used) in [("slice", r, b.len() - i.as_slice().len().min(b.len())), ("stream", rs, rd.pos)] {
        match (&want, r) {
            (Err(_), Err(_)) => {}
            (Ok(()), Ok(())) if used == c.pos => {}
            (w, r) => return Err(format!("skipping a field of type {t} from {how} in {}: {} ({used} bytes) instead of {w:?} ({} bytes)", hex(&b), if r.is_ok() { "skipped".into() } else { err_str(&r) }, c.pos)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C23

pub fn balanced(what: &str, name: &str, b: &[u8], mut f: impl FnMut()) -> Res {
    // what is obtained once and kept for later calls does not recur
    let mut r = (0, 0);
    for _ in 0..3 {
        let x = balance(&mut f);
        r = (x.1, x.2);
        if r == (0, 0) {
            return Ok(());
        }
    }
    Err(format!("{what} {name} on {}: {} bytes in {} blocks are not returned", hex(b), r.0, r.1))
}

fn c23_read(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let b = input(src, p, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.nontrivial = b.len() >= 2;
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(150)])));
    balanced("reading from a slice", p.ops.name, &b, || drop((p.ops.dec_slice)(&b)))?;
    let seed = src.below(1 << 32);
    let max = *src.pick(&[0usize, 1, 2, 7, 100]);
    let fault = src.flip().then(|| (src.index(b.len() + 1), *src.pick(&KINDS)));
    ctx.label_if(fault.is_some(), "reader that fails");
    balanced("reading from a stream", p.ops.name, &b, || {
        let mut rd = SplitReader::new(&b, Split::new(seed, max, false));
        rd.fault = fault;
        drop((p.ops.dec_stream)(&mut rd))
    })?;
    let fault = Some((src.below(60) as usize, Fault::Kind(*src.pick(&KINDS))));
    let mut ok = false;
    balanced("writing", p.ops.name, &b, || {
        let mut out = SplitWriter { out: vec![], split: Split::new(seed, max, false), fault, once: seed & 1 == 1 };
        ok = matches!((p.ops.write_to)(&b, &mut out), Ok(Ok(())));
    })?;
    ctx.label_if(ok, "written");
    // readers and writers that panic
    let (at, wat) = (src.index(b.len() + 1), src.below(40) as usize);
    let mut hit = false;
    balanced("reading from a panicking stream", p.ops.name, &b, || {
        let mut rd = HookReader { r: SplitReader::new(&b, Split::new(seed, max, false)), hook: Some((at, &bang)) };
        hit = with_bang(|| drop((p.ops.dec_stream)(&mut rd)));
    })?;
    ctx.label_if(hit, "reader that panics");
    balanced("writing to a panicking writer", p.ops.name, &b, || {
        let w = SplitWriter { out: vec![], split: Split::new(seed, max, false), fault: None, once: false };
        let mut w = HookWriter { w, hook: Some((wat, &bang)) };
        with_bang(|| drop((p.ops.write_to)(&b, &mut w)));
    })?;
    let t = src.range(1, 12) as u8;
    balanced("skipping", "a field", &b, || {
        let _ = CompactThriftInputSlice::new(&b).skip_field(t);
        let _ = SplitReader::new(&b, Split::new(seed, max, false)).skip_field(t);
    })
}

fn c23_fill(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen_fuel(src, 3);
    let a = canon(&p.wire(&v));
    let b = if src.chance(1, 3) { canon(&p.wire(&value::tweak(p.schema, p.ty, &v, src))) } else { input(src, p, ctx) };
    let share = src.chance(1, 3);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&a);
    ctx.fp(&b);
    ctx.nontrivial = b.len() >= 2;
    ctx.repr(|| format!("{} with {} filled from {}", p.ops.name, hex(&a[..a.len().min(100)]), hex(&b[..b.len().min(100)])));
    balanced("filling", p.ops.name, &b, || drop((p.ops.fill2)(&a, &b, share)))?;
    let t = match p.schema.wire_type(strip(p.ty)) {
        t if src.chance(5, 6) => t,
        _ => src.range(1, 12) as u8,
    };
    balanced("filling as a field", p.ops.name, &b, || drop((p.ops.fill_field)(&b, t)))
}

// ---------------------------------------------------------------------------------------- C24

fn c24_borrow(src: &mut Src, ctx: &mut Ctx) -> Res {
    // (string?, content), each with its place in the input
    let n = src.range(1, 6) as usize;
    let parts: Vec<(bool, Vec<u8>)> = (0..n)
        .map(|_| {
            if src.flip() {
                (true, value::gen_string(src).into_bytes())
            } else {
                let n = src.size(200, 1);
                (false, src.content(n))
            }
        })
        .collect();
    let list = src.flip();
    let strings = parts.iter().all(|p| p.0);
    let mut b = vec![];
    if list {
        b.push((n as u8) << 4 | 8);
    }
    let mut at = vec![];
    for (_, p) in &parts {
        varint(p.len() as u64, &mut b);
        at.push(b.len());
        b.extend(p);
    }
    let n = src.below(9) as usize;
    b.extend(src.bytes(n));
    ctx.fp(&b);
    ctx.fp(&[list as u8]);
    ctx.nontrivial = parts.iter().any(|p| !p.1.is_empty());
    ctx.label_if(list, "list");
    ctx.repr(|| format!("{} parts in {}", parts.len(), hex(&b[..b.len().min(150)])));
    let mut i = CompactThriftInputSlice::new(&b);
    let same = |k: usize, what: &str, c: Cow<[u8]>| -> Res {
        let want = &parts[k].1;
        match c {
            Cow::Borrowed(s) if s == want.as_slice() && (s.is_empty() || s.as_ptr() == b[at[k]..].as_ptr()) => Ok(()),
            Cow::Borrowed(s) => Err(format!("{what} {k} of {}: borrows {} instead of {}", hex(&b), hex(s), hex(want))),
            Cow::Owned(s) if s == *want && s.is_empty() => Ok(()),
            Cow::Owned(s) => Err(format!("{what} {k} of {}: {} is a copy", hex(&b), hex(&s))),
        }
    };
    fn text(c: Cow<str>) -> Cow<[u8]> {
        match c {
            Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()),
            Cow::Owned(s) => Cow::Owned(s.into_bytes()),
        }
    }
    let bad = |e: ThriftError| format!("{}: {e:?}", hex(&b));
    if list && strings && src.flip() {
        for (k, c) in Vec::<Cow<str>>::read_thrift(&mut i).map_err(bad)?.into_iter().enumerate() {
            same(k, "string", text(c))?;
        }
    } else if list {
        for (k, c) in Vec::<Cow<[u8]>>::read_thrift(&mut i).map_err(bad)?.into_iter().enumerate() {
            same(k, "binary", c)?;
        }
    } else {
        for (k, (s, _)) in parts.iter().enumerate() {
            let c = match (s, src.below(3)) {
                (true, 0) => text(i.read_string().map_err(bad)?),
                (true, 1) => text(Cow::<str>::read_thrift(&mut i).map_err(bad)?),
                (true, _) => text(Option::<Box<Cow<str>>>::read_thrift(&mut i).map_err(bad)?.map(|c| *c).unwrap_or_default()),
                (false, 0) => i.read_binary().map_err(bad)?,
                (false, 1) => Cow::<[u8]>::read_thrift(&mut i).map_err(bad)?,
                (false, _) => Option::<Box<Cow<[u8]>>>::read_thrift(&mut i).map_err(bad)?.map(|c| *c).unwrap_or_default(),
            };
            same(k, "part", c)?;
        }
    }
    Ok(())
}

fn c24_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = *src.pick(&[12u8, 12, 11, 10, 9, 9, 8, 8, 7, 6, 5, 4, 3, 2, 1]);
    let d = src.range(1, 4) as usize;
    let mut b = vec![];
    encode(&gen_wire_of(src, t, d), &mut Style::any(src), &mut b);
    if src.chance(1, 4) {
        mutate(src, &mut b);
    }
    ctx.fp(&[t]);
    ctx.fp(&b);
    ctx.nontrivial = b.len() >= 2;
    ctx.label_if(b.len() > 16384, "more than 16 KiB");
    ctx.repr(|| format!("type {t} in {}", hex(&b[..b.len().min(150)])));
    let (_, _, total) = measure(|| CompactThriftInputSlice::new(&b).skip_field(t).is_ok());
    if total > 16384 {
        return Err(format!("skipping a field of type {t} in {} ({} bytes) allocates {total} bytes", hex(&b), b.len()));
    }
    let seed = src.below(1 << 32);
    let (_, _, total) = measure(|| {
        let mut r = Src::random(seed);
        let mut i = CompactThriftInputSlice::new(&b);
        for _ in 0..30 {
            let mut last = 0i16;
            match r.below(7) {
                0 => drop(i.read_byte()),
                1 => drop(i.read_i16()),
                2 => drop(i.read_i32()),
                3 => drop(i.read_i64()),
                4 => drop(i.read_double()),
                5 => drop(i.read_len()),
                _ => drop(i.read_field_header(&mut last)),
            }
        }
    });
    if total > 16384 {
        return Err(format!("reading scalars from {} allocates {total} bytes", hex(&b)));
    }
    Ok(())
}

pub fn strip(ty: &Ty) -> &Ty {
    match ty {
        Ty::Wrap(_, t) => strip(t),
        t => t,
    }
}
