//! C27: inputs, outputs and types of the user's own.

use super::util::*;
use crate::custom::*;
use crate::engine::*;
use crate::io::*;
use crate::wire::*;
use compact_thrift_runtime::*;
use std::collections::VecDeque;
use std::io::{BufReader, BufWriter, Cursor, Read, Write};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "valid, damaged and random bytes are decoded or skipped through inputs that implement only the required operations (handing out borrowed or copied binaries) or all of them, and through readers of the standard library, and compared with the slice input; random values are written through outputs of the user's own and of the standard library and compared with a Vec; errors of every kind are injected at every operation in turn (up to 60); values of types with their own protocol implementation (maps, integers of any width, fields left out when zero, booleans) are placed in every position a declaration allows and compared with a model; non-trivial: more than one operation; distinct by type and bytes",
        assumptions: &["implementations of the traits carry out the operations as documented until they fail"],
        subs: vec![
            Sub { name: "decode", quick: 40_000, thorough: 1_000_000, f: decode },
            Sub { name: "skip", quick: 40_000, thorough: 1_000_000, f: skip },
            Sub { name: "read_errors", quick: 6_000, thorough: 200_000, f: read_errors },
            Sub { name: "write", quick: 30_000, thorough: 800_000, f: write },
            Sub { name: "write_errors", quick: 6_000, thorough: 200_000, f: write_errors },
            Sub { name: "types", quick: 30_000, thorough: 800_000, f: types },
        ],
    }]
}

/// any type that has access through inputs of the user's own
fn pick(src: &mut Src, ctx: &mut Ctx) -> (Pick, &'static Custom) {
    let p = pick_any(src, ctx);
    let c = p.ops.custom.as_ref().unwrap_or_else(|| panic!("HARNESS: {} has no custom access", p.ops.name));
    (p, c)
}

const FLAVOURS: [Flavour; 3] = [Flavour::Borrowed, Flavour::Copied, Flavour::Full];

/// the readers of the standard library
fn std_read<'a>(kind: usize, b: &'a [u8], src: &mut Src) -> (&'static str, Box<dyn Read + 'a>, usize) {
    let cut = src.index(b.len() + 1);
    match kind {
        0 => ("Cursor", Box::new(Cursor::new(b.to_vec())), b.len()),
        1 => {
            let cap = src.range(1, 40) as usize;
            ("BufReader", Box::new(BufReader::with_capacity(cap, SplitReader::new(b, Split::gen(src)))), b.len())
        }
        2 => ("Chain", Box::new(b[..cut].chain(SplitReader::new(&b[cut..], Split::gen(src)))), b.len()),
        3 => ("Take", Box::new(SplitReader::new(b, Split::gen(src)).take(cut as u64)), cut),
        4 => {
            let mut d: VecDeque<u8> = VecDeque::new();
            // so that the content wraps around
            d.extend(std::iter::repeat_n(0xee, cut));
            d.drain(..cut);
            d.extend(b);
            ("VecDeque", Box::new(d), b.len())
        }
        _ => ("Box", Box::new(Box::new(b)), b.len()),
    }
}

fn same(p: &str, b: &[u8], how: &str, a: &Result<crate::types::Dec, ThriftError>, c: &Result<crate::types::Dec, ThriftError>) -> Res {
    let ok = match (a, c) {
        (Ok(a), Ok(c)) => {
            a.debug == c.debug
                && match (&a.reenc, &c.reenc) {
                    (Ok(x), Ok(y)) => x == y,
                    (x, y) => err_str(x) == err_str(y),
                }
        }
        (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let show = |r: &Result<crate::types::Dec, ThriftError>| match r {
        Ok(d) => clip(&d.debug, 300).to_string(),
        Err(e) => format!("{e:?}"),
    };
    Err(format!("{p} from {}: slice gives {}, {how} gives {}", hex(b), show(a), show(c)))
}

fn decode(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (p, c) = pick(src, ctx);
    let b = gen_input(src, p, ctx);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(150)])));
    let (a, rest) = (p.ops.dec_slice)(&b);
    ctx.label(if a.is_ok() { "decodes" } else { "refused" });
    for f in FLAVOURS {
        let mut i = Own::new(&b, f);
        let r = (c.read)(&mut i);
        ctx.nontrivial |= i.ops > 1;
        same(p.ops.name, &b, &format!("an input of the user's own ({f:?})"), &a, &r)?;
        if a.is_ok() && i.pos() != b.len() - rest {
            return Err(format!("{} from {}: slice takes {} bytes, an input of the user's own ({f:?}) {}", p.ops.name, hex(&b), b.len() - rest, i.pos()));
        }
    }
    let kind = src.index(6);
    let (name, mut r, len) = std_read(kind, &b, src);
    let s = (p.ops.dec_stream)(&mut *r);
    let mut left = vec![];
    r.read_to_end(&mut left).map_err(|e| format!("HARNESS: {e:?}"))?;
    let (a, rest) = if len == b.len() { (a, rest) } else { (p.ops.dec_slice)(&b[..len]) };
    same(p.ops.name, &b[..len], name, &a, &s)?;
    if a.is_ok() && left != b[len - rest..len] {
        return Err(format!("{} from {}: {rest} bytes should be left in the {name}, there are {}", p.ops.name, hex(&b[..len]), left.len()));
    }
    Ok(())
}

/// a wire value, possibly damaged, and its type
fn untyped(src: &mut Src) -> (u8, Vec<u8>) {
    let t = if src.chance(1, 12) { src.below(20) as u8 } else { src.range(1, 12) as u8 };
    let mut b = vec![];
    if (1..=12).contains(&t) {
        let d = src.below(5) as usize;
        let w = gen_wire_of(src, t, d);
        if !matches!(w, Wire::Bool(_)) {
            encode(&w, &mut Style::any(src), &mut b);
        }
    }
    let n = src.below(24) as usize;
    b.extend(src.bytes(n));
    if src.below(3) == 0 {
        mutate(src, &mut b);
    }
    (t, b)
}

fn skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (t, b) = untyped(src);
    ctx.fp(&b);
    ctx.fp(&[t]);
    ctx.repr(|| format!("skip type {t} in {}", hex(&b[..b.len().min(150)])));
    let mut i = CompactThriftInputSlice::new(&b);
    let a = i.skip_field(t);
    let used = b.len() - i.as_slice().len().min(b.len());
    ctx.label(if a.is_ok() { "skipped" } else { "refused" });
    for f in FLAVOURS {
        let mut i = Own::new(&b, f);
        let r = i.skip(t);
        ctx.nontrivial |= i.ops > 1;
        let ok = match (&a, &r) {
            (Ok(()), Ok(())) => i.pos() == used,
            (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
            _ => false,
        };
        if !ok {
            return Err(format!("skipping type {t} in {}: slice {a:?} after {used}, an input of the user's own ({f:?}) {r:?} after {}", hex(&b), i.pos()));
        }
    }
    // from a buffered reader, to which the input behind the field remains
    let mut r = BufReader::with_capacity(src.range(1, 40) as usize, &b[..]);
    let s = r.skip_field(t);
    let left = r.buffer().len() + r.get_ref().len();
    match (&a, &s) {
        (Ok(()), Ok(())) if b.len() - used == left => {}
        (Err(x), Err(y)) if format!("{x:?}") == format!("{y:?}") => {}
        _ => return Err(format!("skipping type {t} in {}: slice {a:?} after {used}, BufReader {s:?} with {left} bytes left", hex(&b))),
    }
    Ok(())
}

fn ops_to_fail(src: &mut Src, n: u64) -> Vec<u64> {
    if n <= 60 {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..40).map(|_| src.below(n)).collect();
    v.extend(0..10);
    v.extend(n - 10..n);
    v.sort_unstable();
    v.dedup();
    v
}

fn read_errors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let decode = src.chance(2, 3);
    let (name, read, b): (String, Box<dyn Fn(&mut Own) -> Result<(), ThriftError>>, Vec<u8>) = if decode {
        let (p, c) = pick(src, ctx);
        let b = gen_input(src, p, ctx);
        (p.ops.name.to_string(), Box::new(|i| (c.read)(i).map(|_| ())), b)
    } else {
        let (t, b) = untyped(src);
        (format!("skipped type {t}"), Box::new(move |i| i.skip(t)), b)
    };
    let f = *src.pick(&FLAVOURS);
    ctx.fp(name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{name}, an error at every operation on {}", hex(&b[..b.len().min(150)])));
    let mut i = Own::new(&b, f);
    let base = read(&mut i);
    let n = i.ops;
    ctx.nontrivial = n > 1;
    let at = ops_to_fail(src, n);
    ctx.evals = at.len() as u64;
    let seed = src.below(1 << 16);
    for k in at {
        let e = error(k + seed);
        let mut i = Own::new(&b, f);
        i.fault = Some((k, e.clone()));
        let r = read(&mut i);
        if err_str(&r) != format!("{e:?}") || i.after != 0 {
            return Err(format!(
                "{name} from {} ({f:?}): operation {k} of {n} fails with {e:?}, the result is {} after {} more operations (without the error: {})",
                hex(&b),
                err_str(&r),
                i.after,
                err_str(&base)
            ));
        }
    }
    Ok(())
}

struct Sink<'a> {
    out: &'a mut Vec<u8>,
}

impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn value(src: &mut Src, ctx: &mut Ctx) -> Option<(Pick, &'static Custom, Vec<u8>, Vec<u8>)> {
    let (p, c) = pick(src, ctx);
    let v = p.gen_fuel(src, 4);
    let input = canon(&p.wire(&v));
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&input);
    ctx.repr(|| format!("{} {}", p.ops.name, clip(&p.debug(&v), 200)));
    match (p.ops.dec_slice)(&input).0.map(|d| d.reenc) {
        Ok(Ok(full)) => Some((p, c, input, full)),
        _ => {
            ctx.label("not encodable");
            None
        }
    }
}

fn write(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((p, c, input, full)) = value(src, ctx) else { return Ok(()) };
    for full_impl in [false, true] {
        let mut o = OwnOut::new(full_impl);
        let r = (c.write)(&input, &mut o).map_err(|e| format!("HARNESS: {e:?}"))?;
        ctx.nontrivial |= o.ops > 1;
        if r.is_err() || o.out != full {
            return Err(format!("{}: written to an output of the user's own: {} {}, to a Vec: {}", p.ops.name, err_str(&r), hex(&o.out), hex(&full)));
        }
    }
    let check = |name: &str, r: Result<Result<(), ThriftError>, ThriftError>, out: &[u8], want: &[u8]| match r {
        Ok(Ok(())) if out == want => Ok(()),
        r => Err(format!("{}: written to {name}: {:?} {}, to a Vec: {}", p.ops.name, r.map(|r| err_str(&r)), hex(out), hex(want))),
    };
    match src.index(5) {
        0 => {
            // in the middle of a buffer
            let at = src.below(20) as usize;
            let mut buf = vec![0xa5; at + full.len() + 3];
            let mut w = Cursor::new(&mut buf[..]);
            w.set_position(at as u64);
            let r = (p.ops.write_to)(&input, &mut w);
            let end = w.position() as usize;
            let mut want = vec![0xa5; at];
            want.extend(&full);
            check("Cursor", r, &buf[..end], &want)
        }
        1 => {
            let mut buf = vec![0xa5; full.len()];
            let mut w = &mut buf[..];
            let r = (p.ops.write_to)(&input, &mut w);
            let left = w.len();
            check("a slice that just fits", r, &buf[..full.len() - left], &full)
        }
        2 => {
            let mut out = vec![];
            let cap = src.below(40) as usize;
            let mut w = BufWriter::with_capacity(cap, Sink { out: &mut out });
            let r = (p.ops.write_to)(&input, &mut w);
            w.flush().map_err(|e| format!("HARNESS: {e:?}"))?;
            drop(w);
            check("BufWriter", r, &out, &full)
        }
        3 => {
            let mut w: VecDeque<u8> = VecDeque::new();
            let r = (p.ops.write_to)(&input, &mut w);
            let out: Vec<u8> = w.into_iter().collect();
            check("VecDeque", r, &out, &full)
        }
        _ => {
            // behind other content
            let mut w = vec![1, 2, 3];
            let r = (p.ops.write_to)(&input, &mut w);
            check("a Vec with content", r, &w[3..], &full)?;
            check("a Vec with content", Ok(Ok(())), &w[..3], &[1, 2, 3])
        }
    }
}

fn write_errors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((p, c, input, full)) = value(src, ctx) else { return Ok(()) };
    let full_impl = src.flip();
    let mut o = OwnOut::new(full_impl);
    (c.write)(&input, &mut o).map_err(|e| format!("HARNESS: {e:?}"))?.map_err(|e| format!("{}: {e:?}", p.ops.name))?;
    let n = o.ops;
    ctx.nontrivial = n > 1;
    let at = ops_to_fail(src, n);
    ctx.evals = at.len() as u64;
    let seed = src.below(1 << 16);
    for k in at {
        let e = error(k + seed);
        let mut o = OwnOut::new(full_impl);
        o.fault = Some((k, e.clone()));
        let r = (c.write)(&input, &mut o).map_err(|e| format!("HARNESS: {e:?}"))?;
        if err_str(&r) != format!("{e:?}") || o.after != 0 || !full.starts_with(&o.out) {
            return Err(format!(
                "{}: operation {k} of {n} of the output fails with {e:?}, the result is {} after {} more operations; it holds {}, the encoding is {}",
                p.ops.name,
                err_str(&r),
                o.after,
                hex(&o.out),
                hex(&full)
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ types

fn gen_map(src: &mut Src) -> MapIS {
    let n = src.len(40);
    MapIS(
        (0..n)
            .map(|_| {
                let k = src.int(32) as i32;
                let n = src.below(6) as usize;
                (k, (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect())
            })
            .collect(),
    )
}

fn map_wire(m: &MapIS) -> Wire {
    Wire::Map(5, 8, m.0.iter().map(|(k, v)| (Wire::Int(5, *k as i64), Wire::Bin(v.clone().into_bytes()))).collect())
}

/// An integer, and the type of field it may arrive in.
fn gen_wide(src: &mut Src) -> (Wide, u8) {
    let t = src.range(4, 6) as u8;
    (Wide(src.int([16, 32, 64][t as usize - 4])), t)
}

struct Fields {
    read: Vec<(i16, Wire)>,
    written: Vec<(i16, Wire)>,
}

impl Fields {
    fn put(&mut self, id: i16, w: Wire) {
        self.read.push((id, w.clone()));
        self.written.push((id, w));
    }
    /// integers may arrive with any width, and are written with one
    fn wide(&mut self, id: i16, w: (Wide, u8)) {
        self.read.push((id, Wire::Int(w.1, w.0 .0)));
        self.written.push((id, Wire::Int(6, w.0 .0)));
    }
    /// zero may arrive, but is not written
    fn sparse(&mut self, id: i16, v: i32) {
        self.read.push((id, Wire::Int(5, v as i64)));
        if v != 0 {
            self.written.push((id, Wire::Int(5, v as i64)));
        }
    }
}

fn gen_own(src: &mut Src, depth: usize) -> (OwnTypes, Wire, Wire) {
    let mut f = Fields { read: vec![], written: vec![] };
    let map = gen_map(src);
    f.put(1, map_wire(&map));
    let opt_map = src.flip().then(|| gen_map(src));
    if let Some(m) = &opt_map {
        f.put(2, map_wire(m));
    }
    let maps = src.flip().then(|| (0..src.len(17)).map(|_| gen_map(src)).collect::<Vec<_>>());
    if let Some(m) = &maps {
        f.put(3, Wire::List(9, 11, m.iter().map(map_wire).collect()));
    }
    let wide = gen_wide(src);
    f.wide(4, wide);
    let opt_wide = src.flip().then(|| gen_wide(src));
    opt_wide.into_iter().for_each(|w| f.wide(5, w));
    let box_wide = gen_wide(src);
    f.wide(6, box_wide);
    let rc_wide = src.flip().then(|| gen_wide(src));
    rc_wide.into_iter().for_each(|w| f.wide(7, w));
    let arc_wide = gen_wide(src);
    f.wide(8, arc_wide);
    let wides = (0..src.len(40)).map(|_| gen_wide(src).0).collect::<Vec<_>>();
    f.put(9, Wire::List(9, 6, wides.iter().map(|w| Wire::Int(6, w.0)).collect()));
    let small = |src: &mut Src| src.flip().then(|| if src.flip() { 0 } else { src.int(32) as i32 });
    let (sparse, box_sparse, rc_sparse, arc_sparse) = (small(src), small(src), small(src), small(src));
    for (id, v) in [(26, sparse), (27, box_sparse), (28, rc_sparse), (44, arc_sparse)] {
        v.into_iter().for_each(|v| f.sparse(id, v));
    }
    let sparses = (0..src.len(20)).map(|_| if src.flip() { 0 } else { src.int(32) as i32 }).collect::<Vec<_>>();
    f.put(45, Wire::List(9, 5, sparses.iter().map(|v| Wire::Int(5, *v as i64)).collect()));
    let (yes, box_yes) = (src.flip(), src.flip());
    let (opt_yes, rc_yes) = (src.flip().then(|| src.flip()), src.flip().then(|| src.flip()));
    f.put(46, Wire::Bool(yes));
    opt_yes.into_iter().for_each(|b| f.put(47, Wire::Bool(b)));
    f.put(48, Wire::Bool(box_yes));
    rc_yes.into_iter().for_each(|b| f.put(64, Wire::Bool(b)));
    let yess = (0..src.len(20)).map(|_| src.flip()).collect::<Vec<_>>();
    f.put(65, Wire::List(9, 2, yess.iter().map(|b| Wire::Bool(*b)).collect()));
    let choice = src.flip().then(|| gen_choice(src, depth));
    if let Some((_, r, w)) = &choice {
        f.read.push((66, r.clone()));
        f.written.push((66, w.clone()));
    }
    let last = src.int(32) as i32;
    f.put(67, Wire::Int(5, last as i64));
    let v = OwnTypes {
        map,
        opt_map,
        maps,
        wide: wide.0,
        opt_wide: opt_wide.map(|w| w.0),
        box_wide: Box::new(box_wide.0),
        rc_wide: rc_wide.map(|w| std::rc::Rc::new(w.0)),
        arc_wide: std::sync::Arc::new(arc_wide.0),
        wides,
        sparse: sparse.map(Sparse),
        box_sparse: box_sparse.map(|v| Box::new(Sparse(v))),
        rc_sparse: rc_sparse.map(|v| std::rc::Rc::new(Sparse(v))),
        arc_sparse: arc_sparse.map(|v| std::sync::Arc::new(Sparse(v))),
        sparses: sparses.into_iter().map(Sparse).collect(),
        yes: Yes(yes),
        opt_yes: opt_yes.map(Yes),
        box_yes: Box::new(Yes(box_yes)),
        rc_yes: rc_yes.map(|b| std::rc::Rc::new(Yes(b))),
        yess: yess.into_iter().map(Yes).collect(),
        choice: choice.map(|c| c.0),
        last,
    };
    (v, Wire::Struct(f.read), Wire::Struct(f.written))
}

fn gen_choice(src: &mut Src, depth: usize) -> (OwnChoice, Wire, Wire) {
    let mut f = Fields { read: vec![], written: vec![] };
    let v = match src.below(if depth > 0 { 7 } else { 6 }) {
        0 => {
            let m = gen_map(src);
            f.put(1, map_wire(&m));
            OwnChoice::map(m)
        }
        1 => {
            let w = gen_wide(src);
            f.wide(2, w);
            OwnChoice::wide(w.0)
        }
        2 => {
            let w = gen_wide(src);
            f.wide(20, w);
            OwnChoice::box_wide(Box::new(w.0))
        }
        3 => {
            let m: Vec<_> = (0..src.len(17)).map(|_| gen_map(src)).collect();
            f.put(4, Wire::List(9, 11, m.iter().map(map_wire).collect()));
            OwnChoice::maps(m)
        }
        4 => {
            let b = src.flip();
            f.put(5, Wire::Bool(b));
            OwnChoice::yes(Yes(b))
        }
        5 => {
            let b = src.flip();
            f.put(22, Wire::Bool(b));
            OwnChoice::rc_yes(std::rc::Rc::new(Yes(b)))
        }
        _ => {
            let (v, r, w) = gen_own(src, depth - 1);
            f.read.push((7, r));
            f.written.push((7, w));
            OwnChoice::own(Box::new(v))
        }
    };
    (v, Wire::Struct(f.read), Wire::Struct(f.written))
}

/// a sparse zero is absent once it was written
fn normal(v: &OwnTypes) -> OwnTypes {
    let mut v = v.clone();
    let zero = |s: &Sparse| s.0 == 0;
    if v.sparse.as_ref().is_some_and(zero) {
        v.sparse = None;
    }
    if v.box_sparse.as_deref().is_some_and(zero) {
        v.box_sparse = None;
    }
    if v.rc_sparse.as_deref().is_some_and(zero) {
        v.rc_sparse = None;
    }
    if v.arc_sparse.as_deref().is_some_and(zero) {
        v.arc_sparse = None;
    }
    if let Some(OwnChoice::own(o)) = &mut v.choice {
        **o = normal(o);
    }
    v
}

fn types(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (v, read, written) = gen_own(src, 1);
    let mut b = vec![];
    if src.flip() {
        encode(&read, &mut Style::any(src), &mut b);
    } else {
        b = canon(&read);
    }
    let want = canon(&written);
    ctx.fp(&b);
    ctx.nontrivial = true;
    ctx.repr(|| clip(&format!("{v:?}"), 250).to_string());
    let n = src.below(12) as usize;
    let len = b.len();
    b.extend(src.bytes(n));
    let check = |how: &str, r: Result<OwnTypes, ThriftError>, pos: usize| match r {
        Ok(x) if x == v && pos == len => Ok(()),
        r => Err(format!("{how} from {} gives {r:?} after {pos} of {len} bytes, expected {v:?}", hex(&b))),
    };
    let mut i = CompactThriftInputSlice::new(&b);
    let r = OwnTypes::read_thrift(&mut i);
    check("slice", r, b.len() - i.as_slice().len())?;
    let mut i = SplitReader::new(&b, Split::gen(src));
    let r = OwnTypes::read_thrift(&mut i);
    check("stream", r, i.pos)?;
    let mut i = Own::new(&b, *src.pick(&FLAVOURS));
    let r = i.read::<OwnTypes>();
    check("an input of the user's own", r, i.pos())?;
    let mut o = vec![];
    let r = v.write_thrift(&mut o);
    if r.is_err() || o != want {
        return Err(format!("{v:?} is written as {} {}, expected {}", err_str(&r), hex(&o), hex(&want)));
    }
    let again = OwnTypes::read_thrift(&mut CompactThriftInputSlice::new(&o));
    let n = normal(&v);
    match again {
        Ok(a) if a == n => {}
        r => return Err(format!("{} read again gives {r:?}, expected {n:?}", hex(&o))),
    }
    // a field of another type is refused
    if let Wire::Struct(f) = &read {
        let k = src.index(f.len());
        let mut f = f.clone();
        let t = src.range(1, 12) as u8;
        let (id, old) = (f[k].0, f[k].1.tag());
        let fits = match id {
            4..=8 => (4..=6).contains(&t),
            46..=48 | 64 => t <= 2,
            // lists and sets are not told apart by the declared type
            _ => t == old || (matches!(t, 9 | 10) && matches!(old, 9 | 10)),
        };
        if !fits {
            ctx.label("wrong type");
            f[k].1 = gen_wire_of(src, t, 1);
            let t = f[k].1.tag();
            let b = canon(&Wire::Struct(f));
            let r = OwnTypes::read_thrift(&mut CompactThriftInputSlice::new(&b));
            if err_str(&r) != "InvalidType" {
                return Err(format!("field {id} with type {t} instead of {old} in {}: {}", hex(&b), err_str(&r)));
            }
        }
    }
    Ok(())
}
