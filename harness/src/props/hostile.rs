//! C05, C19: arbitrary input and deep nesting.

use super::util::*;
use crate::alloc::limited;
use crate::engine::*;
use crate::idl::*;
use crate::io::*;
use crate::mem::guarded;
use crate::types::*;
use crate::wire::*;
use compact_thrift_runtime::*;
use std::io::Read;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "random, damaged and deliberately hostile bytes are decoded as a random type, skipped as a random field type, and read by random sequences of primitive operations, from a slice that borders inaccessible memory pages and from a stream; lists with announced lengths of up to ten million are read while requests for more than 32 to 256 MiB of memory fail; in a build with overflow and debug checks and in an optimised build without; a panic, a crash, a hang or an input position outside the input is a failure; non-trivial: the decoder got past the first byte; distinct by bytes and type",
            assumptions: &[
                "reads outside the input are seen when they cross into the adjacent inaccessible page or trip a debug check of the standard library",
                "recursive user types are only fed moderately nested input here (known finding typed-recursion)",
            ],
            subs: vec![
                Sub { name: "typed", quick: 150_000, thorough: 6_000_000, f: c05_typed },
                Sub { name: "hostile", quick: 60_000, thorough: 2_000_000, f: c05_hostile },
                Sub { name: "skip", quick: 80_000, thorough: 2_000_000, f: c05_skip },
                Sub { name: "primitives", quick: 60_000, thorough: 1_500_000, f: c05_prims },
                Sub { name: "memory", quick: 30_000, thorough: 500_000, f: c05_memory },
                Sub { name: "endless", quick: 6, thorough: 6, f: c05_endless },
                Sub { name: "typed-recursion", quick: 2, thorough: 2, f: c05_recursion },
            ],
        },
        Prop {
            id: "C19",
            rule: "a chain of nested lists, sets, maps and structs in random mixture, 1 to 200,000 levels deep, complete, cut or with trailing data, is skipped on a thread with a 2 MiB stack, directly or as an unknown field of a declared struct, from a slice and from a stream; up to 48 levels must be skipped exactly; non-trivial: at least 16 levels; distinct by bytes",
            assumptions: &[],
            subs: vec![
                Sub { name: "nesting", quick: 6_000, thorough: 150_000, f: c19 },
                Sub { name: "wide", quick: 2_000, thorough: 40_000, f: c19_wide },
            ],
        },
    ]
}

fn c05_typed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let b = gen_input(src, p, ctx);
    run_typed(src, ctx, p, &b)
}

fn run_typed(src: &mut Src, ctx: &mut Ctx, p: Pick, b: &[u8]) -> Res {
    let at_end = src.chance(5, 6);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(b);
    ctx.repr(|| format!("{} from {}", p.ops.name, hex(&b[..b.len().min(200)])));
    let r = guarded(b, at_end, |b| (p.ops.light_slice)(b));
    match &r {
        Ok(n) if *n > b.len() => return Err(format!("{} from {}: position outside the input", p.ops.name, hex(b))),
        Ok(_) => ctx.label("decodes"),
        Err(_) => ctx.label("rejected"),
    }
    let mut s = SplitReader::new(b, Split::new(1, src.below(4) as usize, false));
    let _ = (p.ops.light_stream)(&mut s);
    ctx.nontrivial = s.pos > 1;
    Ok(())
}

/// well-formed beginnings with extreme numbers at the places that matter
fn c05_hostile(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_struct(src, ctx);
    let mut b = vec![];
    let n = src.range(1, 12);
    for _ in 0..n {
        match src.below(7) {
            0 => {
                // header with an extreme id
                b.push(src.below(16) as u8);
                varint(zigzag(*src.pick(&[32767i64, -32768, 0, 1, -1, 32766, 65535, 32753])), &mut b);
            }
            1 => b.push((src.below(16) as u8) << 4 | src.below(16) as u8),
            2 => {
                b.push(0xf0 | src.below(16) as u8);
                big(src, &mut b);
            }
            3 => big(src, &mut b),
            4 => {
                let n = src.range(1, 40) as usize;
                b.extend(std::iter::repeat_n(0xff, n));
                b.push(src.byte());
            }
            5 => {
                // a field header of some type that the struct knows
                let d = p.schema.strukt(p.ops.name);
                if !d.fields.is_empty() {
                    let f = src.pick(&d.fields);
                    b.push(p.schema.wire_type(&f.ty));
                    varint(zigzag(f.id as i64), &mut b);
                }
            }
            _ => {
                let n = src.range(1, 20) as usize;
                b.extend(src.bytes(n));
            }
        }
    }
    run_typed(src, ctx, p, &b)
}

/// lists that announce far more elements than there are, while large blocks of memory are not to be had
fn c05_memory(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let mut b = vec![];
    let elem = list_path(p.schema, p.ty, src, &mut b, 0);
    let Some(elem) = elem else { return Ok(()) };
    b.push(0xf0 | elem);
    let most = if src.flip() { 10_000_000 } else { 1 << src.range(4, 23) };
    varint(most - src.below(4), &mut b);
    let n = src.len(60);
    b.extend(src.bytes(n));
    let max = (32 << 20) << src.below(4);
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.nontrivial = true;
    ctx.repr(|| format!("{} from {} with blocks of up to {max} bytes", p.ops.name, hex(&b)));
    let r = limited(max, || (p.ops.light_slice)(&b).map(drop));
    ctx.label_if(matches!(r, Err(ThriftError::ReserveError)), "memory is refused");
    let _ = limited(max, || (p.ops.light_stream)(&mut SplitReader::new(&b, Split::new(1, 3, false))).map(drop));
    Ok(())
}

/// Writes the beginning of a message up to some list; its element type.
fn list_path(s: &Schema, ty: &Ty, src: &mut Src, b: &mut Vec<u8>, depth: usize) -> Option<u8> {
    match ty {
        Ty::Wrap(_, t) => list_path(s, t, src, b, depth),
        Ty::List(e) | Ty::Set(e) => {
            if depth < 6 && src.chance(1, 3) {
                let at = b.len();
                b.push(0x10 | s.wire_type(e));
                if let Some(x) = list_path(s, e, src, b, depth + 1) {
                    return Some(x);
                }
                b.truncate(at);
            }
            Some(s.wire_type(e))
        }
        Ty::Named(n) => {
            let Some(Def::Struct(d)) = s.defs.get(n) else { return None };
            let at = b.len();
            for i in src.perm(d.fields.len()) {
                let f = &d.fields[i];
                b.push(s.wire_type(&f.ty));
                varint(zigzag(f.id as i64), b);
                if depth < 6 {
                    if let Some(x) = list_path(s, &f.ty, src, b, depth + 1) {
                        return Some(x);
                    }
                }
                b.truncate(at);
            }
            None
        }
        _ => None,
    }
}

fn big(src: &mut Src, b: &mut Vec<u8>) {
    let x = *src.pick(&[
        u64::MAX,
        u64::MAX - 8,
        1 << 63,
        (1 << 63) - 1,
        1 << 62,
        u32::MAX as u64,
        1 << 32,
        1 << 31,
        (1 << 31) - 1,
        10_000_000,
        10_000_001,
        16 << 20,
        (16 << 20) + 1,
        300,
        17,
        0,
    ]);
    varint(x, b);
}

fn c05_skip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let t = if src.chance(1, 6) { src.byte() } else { src.range(1, 12) as u8 };
    let mut b = vec![];
    match src.below(3) {
        0 => {
            let n = src.len(200);
            b = src.bytes(n);
        }
        1 => {
            for _ in 0..src.range(1, 10) {
                match src.below(4) {
                    0 => b.push((src.below(16) as u8) << 4 | src.range(1, 12) as u8),
                    1 => big(src, &mut b),
                    2 => {
                        let n = src.range(1, 40) as usize;
                        b.extend(std::iter::repeat_n(0x80 | src.byte(), n));
                        if src.flip() {
                            b.push(src.byte() & 0x7f);
                        }
                    }
                    _ => {
                        let n = src.range(1, 20) as usize;
                        b.extend(src.bytes(n));
                    }
                }
            }
        }
        _ => {
            let d = src.below(5) as usize;
            let w = gen_wire_of(src, t.clamp(3, 12), d);
            encode(&w, &mut Style::any(src), &mut b);
            mutate(src, &mut b);
        }
    }
    let at_end = src.chance(5, 6);
    ctx.fp(&b);
    ctx.fp(&[t]);
    ctx.repr(|| format!("skip type {t} in {}", hex(&b[..b.len().min(200)])));
    let used = guarded(&b, at_end, |b| {
        let mut i = CompactThriftInputSlice::new(b);
        let r = i.skip_field(t);
        (r.is_ok(), consumed(b, i.as_slice()))
    });
    ctx.label_if(used.0, "skipped");
    if used.1 > b.len() {
        return Err(format!("skipping type {t} in {}: position outside the input", hex(&b)));
    }
    let mut s = SplitReader::new(&b, Split::new(1, 3, false));
    let _ = s.skip_field(t);
    ctx.nontrivial = s.pos > 1;
    Ok(())
}

fn c05_prims(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.len(120);
    let mut b = src.bytes(n);
    if src.flip() {
        mutate(src, &mut b);
    }
    if src.flip() {
        for x in b.iter_mut() {
            *x |= 0x80;
        }
    }
    let ops: Vec<u8> = (0..src.range(1, 12)).map(|_| src.below(14) as u8).collect();
    let last = src.int(16) as i16;
    ctx.fp(&b);
    ctx.fp(&ops);
    ctx.repr(|| format!("operations {ops:?} on {}", hex(&b)));
    let at_end = src.chance(5, 6);
    let bad = guarded(&b, at_end, |b| {
        let mut i = CompactThriftInputSlice::new(b);
        prims(&mut i, &ops, last);
        consumed(b, i.as_slice()) > b.len()
    });
    if bad {
        return Err(format!("operations {ops:?} on {}: position outside the input", hex(&b)));
    }
    let mut r = SplitReader::new(&b, Split::new(1, 2, false));
    prims(&mut r, &ops, last);
    ctx.nontrivial = r.pos > 1;
    Ok(())
}

fn prims<'i, I: CompactThriftInput<'i>>(i: &mut I, ops: &[u8], mut last: i16) {
    for o in ops {
        let _ = match o {
            0 => i.read_byte().map(|_| ()),
            1 => i.read_len().map(|_| ()),
            2 => i.read_i16().map(|_| ()),
            3 => i.read_i32().map(|_| ()),
            4 => i.read_i64().map(|_| ()),
            5 => i.read_double().map(|_| ()),
            6 => i.read_binary().map(|_| ()),
            7 => i.read_string().map(|_| ()),
            8 => i.skip_integer(),
            9 => i.skip_binary(),
            10 | 11 => i.read_field_header(&mut last).map(|_| ()),
            12 => read_collection_len_and_type(i).map(|_| ()),
            _ => read_map_len_and_types(i).map(|_| ()),
        };
    }
}

/// varints that never seem to end
fn c05_endless(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n: u64 = [1 << 10, 1 << 16, 1 << 20, 1 << 24, 10_000_019, 640_000_000][(ctx.idx % 6) as usize];
    let kind = if n > 1 << 24 { 0 } else { src.below(4) };
    ctx.nontrivial = true;
    ctx.fp(&n.to_le_bytes());
    ctx.fp(&[kind as u8]);
    ctx.repr(|| format!("{n} continuation bytes, operation {kind}"));
    let mut r = std::io::BufReader::with_capacity(1 << 16, std::io::repeat(0x80).take(n));
    let _ = match kind {
        0 => r.read_i64().map(|_| ()),
        1 => r.skip_field(6),
        2 => r.skip_field(8),
        _ => r.read_len().map(|_| ()),
    };
    if n <= 1 << 24 {
        let mut b = vec![0xff; n as usize];
        if src.flip() {
            b.push(1);
        }
        let mut i = CompactThriftInputSlice::new(&b);
        let _ = match kind {
            0 => i.read_i64().map(|_| ()),
            1 => i.skip_field(6),
            2 => i.skip_field(8),
            _ => i.read_len().map(|_| ()),
        };
        if consumed(&b, i.as_slice()) > b.len() {
            return Err(format!("{n} continuation bytes, operation {kind}: position outside the input"));
        }
    }
    Ok(())
}

const RECURSION: usize = 300_000;

fn recursive_input(kind: u64) -> Vec<u8> {
    // Node { 1: v, 2: next } / Node { 1: v, 3: kids }
    let mut b = vec![];
    for _ in 0..RECURSION {
        if kind == 0 {
            b.extend([0x15, 0x02, 0x1c]);
        } else {
            b.extend([0x15, 0x02, 0x29, 0x1c]);
        }
    }
    b
}

pub fn recursion_child(args: &[String]) -> i32 {
    let kind = args.first().and_then(|a| a.parse().ok()).unwrap_or(0);
    let b = recursive_input(kind);
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let r = pool::Node::read_thrift(&mut CompactThriftInputSlice::new(&b));
        std::mem::forget(r);
    });
    match t.map(|t| t.join()) {
        Ok(Ok(())) => 0,
        _ => 1,
    }
}

fn c05_recursion(_: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = ctx.idx % 2;
    ctx.nontrivial = true;
    ctx.fp(&[kind as u8]);
    ctx.repr(|| format!("recursive type, {RECURSION} levels, kind {kind}"));
    let st = std::process::Command::new(std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?)
        .args(["child", "recursion", &kind.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| format!("HARNESS: {e}"))?;
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) => Ok(()),
        (_, Some(6 | 11)) => {
            ctx.known(
                "typed-recursion",
                "decoding a declared struct that contains itself (struct Node { 1: required i32 v; 2: optional Box<Node> next; 3: optional list<Node> kids }) from input nested some 10,000 levels deep or more overflows the stack and ends the process".into(),
            );
            Ok(())
        }
        (c, s) => Err(format!("decoding a recursive type ended with code {c:?}, signal {s:?}")),
    }
}

// ------------------------------------------------------------------ C19

/// `depth` nested containers around one innermost value; returns (type tag, bytes)
pub fn nested(src: &mut Src, depth: usize) -> (u8, Vec<u8>) {
    // kinds from the outside in; for deep chains a short pattern is repeated
    let pat: Vec<u8> = (0..src.range(1, 5)).map(|_| src.below(5) as u8).collect();
    let mixed = depth <= 300 && src.flip();
    let kinds: Vec<u8> = (0..depth).map(|i| if mixed { src.below(5) as u8 } else { pat[i % pat.len()] }).collect();
    let tag = |k: u8| match k {
        0 => 9u8,
        1 => 10,
        2 | 3 => 11,
        _ => 12,
    };
    let leaf = *src.pick(&[3u8, 5, 7, 8, 2]);
    let mut b = vec![];
    let mut close: Vec<u8> = vec![];
    for i in 0..depth {
        let inner = if i + 1 < depth { tag(kinds[i + 1]) } else { leaf };
        match kinds[i] {
            0 | 1 => b.push(0x10 | inner),
            2 => {
                // map, nested in the value; the key is a byte
                b.extend([1, 0x30 | inner, 0x55]);
            }
            3 => {
                // map, nested in the key; the value is a byte
                b.extend([1, inner << 4 | 3]);
                close.push(0x66);
            }
            _ => {
                b.push(0x10 | inner);
                close.push(0);
            }
        }
    }
    match leaf {
        3 => b.push(9),
        5 => b.push(0x12),
        7 => b.extend([1, 2, 3, 4, 5, 6, 7, 8]),
        8 => b.extend([2, 0x61, 0x62]),
        _ => {
            // a bool has a byte only inside of collections
            if kinds.last() != Some(&4) {
                b.push(1)
            }
        }
    }
    close.reverse();
    b.extend(close);
    (if depth == 0 { leaf } else { tag(kinds[0]) }, b)
}

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        });
        match h.unwrap_or_else(|_| panic!("HARNESS: thread")).join() {
            Ok(Ok(r)) => r,
            Ok(Err((loc, msg))) => {
                std::panic::resume_unwind({
                    LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                    Box::new(())
                })
            }
            Err(_) => panic!("HARNESS: thread"),
        }
    })
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let depth = match src.weighted(&[6, 3, 2, 2]) {
        0 => src.range(1, 48),
        1 => src.range(40, 80),
        2 => src.range(81, 5000),
        _ => src.range(5001, 200_000),
    } as usize;
    let (tag, mut b) = nested(src, depth);
    let whole = b.len();
    let mut cut = false;
    if src.chance(1, 5) {
        let n = src.index(b.len());
        b.truncate(n);
        cut = true;
    }
    let len = b.len();
    let tail = src.below(20) as usize;
    if !cut {
        b.extend(src.bytes(tail));
    }
    ctx.nontrivial = depth >= 16;
    ctx.label(if depth <= 48 { "up to 48 levels" } else if depth <= 1000 { "49 to 1000 levels" } else { "over 1000 levels" });
    ctx.fp(&b);
    let how = src.below(4);
    ctx.repr(|| format!("{depth} levels, type {tag}, way {how}, {}{}", hex(&b[..b.len().min(100)]), if cut { ", cut" } else { "" }));
    let must = depth <= 48 && !cut;
    let desc = |b: &[u8]| format!("{depth} levels ({whole} bytes{}) {}", if cut { ", cut" } else { "" }, hex(b));
    let seed = src.below(1 << 30);
    match how {
        0 => {
            let (r, used) = small_stack(|| {
                let mut i = CompactThriftInputSlice::new(&b);
                let r = i.skip_field(tag);
                (r, consumed(&b, i.as_slice()))
            });
            if must && (r.is_err() || used != len) {
                return Err(format!("skipping from the slice gives {r:?} after {used} bytes: {}", desc(&b)));
            }
        }
        1 => {
            let (r, used) = small_stack(|| {
                let mut i = SplitReader::new(&b, Split::new(seed, 3, false));
                let r = i.skip_field(tag);
                (r, i.pos)
            });
            if must && (r.is_err() || used != len) {
                return Err(format!("skipping from the stream gives {r:?} after {used} bytes: {}", desc(&b)));
            }
        }
        _ => {
            // unknown field of a declared struct
            let p = Pick::named(pool(), if src.flip() { "Empty" } else { "Opts" });
            let mut m = vec![tag];
            varint(zigzag(500), &mut m);
            m.extend_from_slice(&b[..len]);
            if !cut {
                m.push(0);
            }
            let r = small_stack(|| {
                if how == 2 {
                    (p.ops.light_slice)(&m)
                } else {
                    let mut s = SplitReader::new(&m, Split::new(seed, 3, false));
                    (p.ops.light_stream)(&mut s).map(|_| s.pos)
                }
            });
            if must && !matches!(r, Ok(n) if n == m.len()) {
                return Err(format!("decoding {} with an unknown field of {depth} levels gives {r:?}: {}", p.ops.name, hex(&m)));
            }
        }
    }
    Ok(())
}

/// several nested chains next to each other: the depth is that of the deepest, not the sum
fn c19_wide(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = vec![];
    let n = src.range(2, 40);
    let mut depths = vec![];
    for _ in 0..n {
        let d = src.range(1, 47) as usize;
        let (t, x) = nested(src, d);
        b.push(0x10 | t);
        b.extend(x);
        depths.push(d);
    }
    b.push(0);
    let len = b.len();
    ctx.nontrivial = depths.iter().any(|d| *d >= 16);
    ctx.fp(&b);
    ctx.repr(|| format!("struct of fields with nesting {depths:?}"));
    let k = src.below(20) as usize;
    b.extend(src.bytes(k));
    let split = src.below(5) as usize;
    small_stack(|| super::core::check_skip(12, &b, len, Split::new(1, split, false)))
}
