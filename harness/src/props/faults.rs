//! C10: failing, short and interrupted transfers.

use super::util::*;
use crate::engine::*;
use crate::io::*;
use crate::wire::*;
use std::io::ErrorKind;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "a random message is read from a reader, or written to a writer, that fails with a random error kind, for good or once, at every byte position in turn (up to 100 random positions for long messages), with and without split and interrupted transfers; non-trivial: at least 2 fault positions; evaluations count transfers; distinct by bytes",
        assumptions: &["interrupted calls are transient, as std::io::Read::read_exact and Write::write_all define"],
        subs: vec![
            Sub { name: "read", quick: 12_000, thorough: 400_000, f: c10_read },
            Sub { name: "write", quick: 12_000, thorough: 400_000, f: c10_write },
        ],
    }]
}

fn positions(src: &mut Src, len: usize) -> Vec<usize> {
    if len <= 100 {
        return (0..=len + 2).collect();
    }
    let mut v: Vec<usize> = (0..if len > 4000 { 12 } else { 60 }).map(|_| src.index(len)).collect();
    v.extend(0..if len > 4000 { 4 } else { 15 });
    v.extend(len - if len > 4000 { 4 } else { 20 }..len + 3);
    v.sort_unstable();
    v.dedup();
    v
}

fn c10_read(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen_fuel(src, 3);
    let mut w = p.wire(&v);
    if src.flip() {
        add_unknown(p.schema, p.ty, &mut w, src, 2);
    }
    let mut b = vec![];
    encode(&w, &mut Style::any(src), &mut b);
    let len = b.len();
    // bytes behind the message, which must not be touched
    let n = src.below(8) as usize;
    b.extend(src.bytes(n));
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.repr(|| format!("{} read with a fault at each of {} bytes", p.ops.name, len));
    let Ok(base) = (p.ops.dec_slice)(&b[..len]).0 else {
        ctx.label("not decodable");
        return Ok(());
    };
    let pos = positions(src, len);
    ctx.nontrivial = len >= 2;
    ctx.evals = pos.len() as u64;
    let seed = src.below(1 << 32);
    let max = src.below(5) as usize * 2;
    let interrupts = src.flip();
    for at in pos {
        let kind = KINDS[(at + seed as usize) % KINDS.len()];
        let mut r = SplitReader::new(&b, Split::new(seed ^ at as u64, max, interrupts));
        r.fault = Some((at, kind));
        // it may also be a failure that passes
        r.once = (at as u64 ^ seed) & 4 != 0;
        let res = (p.ops.dec_stream)(&mut r);
        if at < len {
            let want = format!("IO({kind:?})");
            if err_str(&res) != want {
                return Err(format!("{}: fault {kind:?} at byte {at} of {len}: {}; message {}", p.ops.name, err_str(&res), hex(&b[..len])));
            }
        } else {
            match res {
                Ok(d) if d.debug == base.debug && r.pos == len => {
                    if let (Ok(x), Ok(y)) = (&d.reenc, &base.reenc) {
                        if x != y {
                            return Err(format!("{}: value changed by split transfers: {}", p.ops.name, hex(&b[..len])));
                        }
                    }
                }
                r2 => {
                    return Err(format!(
                        "{}: fault {kind:?} at byte {at}, behind the message of {len} bytes: {:?}, position {}",
                        p.ops.name,
                        r2.map(|d| d.debug),
                        r.pos
                    ))
                }
            }
        }
    }
    Ok(())
}

fn c10_write(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_any(src, ctx);
    let v = p.gen_fuel(src, 3);
    let input = canon(&p.wire(&v));
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&input);
    let Ok(d) = (p.ops.dec_slice)(&input).0 else {
        ctx.label("not decodable");
        return Ok(());
    };
    let Ok(full) = d.reenc else {
        ctx.label("not encodable");
        return Ok(());
    };
    let len = full.len();
    ctx.repr(|| format!("{} written with a fault at each of {} bytes", p.ops.name, len));
    let pos = positions(src, len);
    ctx.nontrivial = len >= 2;
    ctx.evals = pos.len() as u64;
    let seed = src.below(1 << 32);
    let max = src.below(5) as usize * 2;
    let interrupts = src.flip();
    for at in pos {
        let kind = KINDS[(at + seed as usize) % KINDS.len()];
        let fault = if (at + seed as usize) % 7 == 0 { Fault::Zero } else { Fault::Kind(kind) };
        let want = match fault {
            Fault::Zero => ErrorKind::WriteZero,
            Fault::Kind(k) => k,
        };
        let mut w = SplitWriter { out: vec![], split: Split::new(seed ^ at as u64, max, interrupts), fault: Some((at, fault)), once: (at as u64 ^ seed) & 4 != 0 };
        let res = match (p.ops.write_to)(&input, &mut w) {
            Ok(r) => r,
            Err(e) => return Err(format!("HARNESS: {e:?}")),
        };
        if at < len {
            if err_str(&res) != format!("IO({want:?})") {
                return Err(format!("{}: writer fails with {fault:?} after {at} of {len} bytes: {}", p.ops.name, err_str(&res)));
            }
            if w.out != full[..at] {
                return Err(format!("{}: writer failed after {at} bytes, but holds {} instead of the beginning of {}", p.ops.name, hex(&w.out), hex(&full)));
            }
        } else {
            if res.is_err() || w.out != full {
                return Err(format!("{}: writer that never fails got {} ({}), expected {}", p.ops.name, hex(&w.out), err_str(&res), hex(&full)));
            }
        }
    }
    Ok(())
}
