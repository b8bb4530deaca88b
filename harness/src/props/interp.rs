//! C28: no undefined behaviour. C29: the same results on every platform. Both carry out cases of the other
//! properties: built with sanitizers, built for other platforms, or in the interpreter Miri (check.sh, interp.sh).

use super::util::{gen_input, pick_any};
use super::parquet::gen_file;
use crate::engine::*;
use compact_thrift_parquet::format::{ColumnChunk, FileMetaData, RowGroup};
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_chunk};
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom};
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    let rule = "cases of the other properties (round trips, encodings, spellings, unknown fields, skips, truncations, violations, limits, faults, fills, primitives, footers, page indexes, schema trees, own implementations, sequences of operations), chosen at random, are carried out";
    let sub = || vec![Sub { name: "mixed", quick: 1_000_000, thorough: 20_000_000, f: mixed }];
    vec![
        Prop {
            id: "C28",
            rule: Box::leak(format!("{rule} by a build with AddressSanitizer, by one with MemorySanitizer, by one with ThreadSanitizer (sequences of operations on threads only), and by the interpreter Miri, which end the program at the first access outside of a block or to one that was returned, use of memory without content, invalid value, misuse of references, or data race; non-trivial and distinct: as in the property of the case").into_boxed_str()),
            assumptions: &["the sanitizers see accesses of compiled code, and Miri carries out programs as Rust defines them (with the Tree Borrows rules for references)"],
            subs: sub(),
        },
        Prop {
            id: "C29",
            rule: Box::leak(format!("{rule} by a build for 32-bit x86 and, for the big-endian s390x (without the SSE2 code), by the interpreter Miri; the oracles of those properties apply unchanged; non-trivial and distinct: as in the property of the case").into_boxed_str()),
            assumptions: &["Miri carries out programs as on s390x"],
            subs: sub(),
        },
    ]
}

/// sub-checks with results that depend on the build: known findings, and measurements of time, stack or memory
const NOT: &[(&str, &str)] = &[("C02", "set"), ("C05", "endless"), ("C05", "typed-recursion"), ("C19", "nesting"), ("C19", "wide")];

/// For the interpreter: property, sub-check, weight
const PARTS: &[(&str, &str, u64)] = &[
    ("C01", "value", 8),
    ("C01", "direct", 2),
    ("C01", "messages", 1),
    ("C02", "value", 4),
    ("C02", "field", 2),
    ("C02", "direct", 2),
    ("C03", "spelling", 6),
    ("C04", "unknown", 6),
    ("C04", "skip", 6),
    ("C04", "integer", 6),
    ("C05", "typed", 8),
    ("C05", "hostile", 2),
    ("C05", "skip", 5),
    ("C05", "primitives", 5),
    ("C06", "decode", 6),
    ("C06", "skip", 4),
    ("C08", "violation", 4),
    ("C08", "names", 1),
    ("C09", "announced", 2),
    ("C11", "value", 4),
    ("C12", "set", 2),
    ("C12", "equality", 1),
    ("C12", "invalid", 2),
    ("C13", "valid", 4),
    ("C14", "range", 6),
    ("C14", "chunk", 4),
    ("C15", "valid", 1),
    ("C15", "damaged", 1),
    ("C15", "file", 1),
    ("C16", "default", 3),
    ("C16", "second", 8),
    ("C16", "option", 3),
    ("C17", "write", 4),
    ("C17", "read", 5),
    ("C22", "decode", 6),
    ("C22", "skip", 3),
    ("C23", "read", 4),
    ("C23", "fill", 5),
    ("C23", "files", 1),
    ("C24", "borrow", 4),
    ("C27", "decode", 4),
    ("C27", "skip", 3),
    ("C27", "read_errors", 2),
    ("C27", "write", 3),
    ("C27", "types", 2),
];

type Case = fn(&mut Src, &mut Ctx) -> Res;

struct Parts {
    names: Vec<&'static str>,
    cases: Vec<Case>,
    weights: Vec<u64>,
}

fn parts() -> Parts {
    let only = std::env::var("CTV_PART").ok(); // a single kind of case
    let mut r = Parts { names: vec![], cases: vec![], weights: vec![] };
    for p in super::checked() {
        for s in &p.subs {
            let weight = if cfg!(miri) {
                PARTS.iter().find(|x| (x.0, x.1) == (p.id, s.name)).map_or(0, |x| x.2)
            } else if NOT.contains(&(p.id, s.name)) || p.id == "C26" {
                0
            } else {
                s.quick
            };
            let name = format!("{} {}", p.id, s.name);
            if weight > 0 && only.as_ref().is_none_or(|o| *o == name) {
                r.names.push(Box::leak(name.into_boxed_str()));
                r.cases.push(s.f);
                r.weights.push(weight);
            }
        }
    }
    // own readers that look at what they are given, and do not always write
    if only.as_ref().is_none_or(|o| o == "reader") {
        r.names.push("reader");
        r.cases.push(reader);
        r.weights.push(if cfg!(miri) { 8 } else { 200_000 });
    }
    r
}

/// A reader is told to fill a buffer, but nothing prevents it from looking at the content before, or from claiming
/// that it wrote more than it did.
struct Curious<'a> {
    b: &'a [u8],
    pos: u64,
    rng: Rng,
    /// one in so many transfers is a lie
    lies: u64,
    odd: usize,
}

impl Read for Curious<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        for x in buf.iter().take(64).chain(buf.iter().rev().take(64)) {
            if *x & 1 == 1 {
                self.odd += 1;
            }
        }
        let rest = &self.b[(self.pos.min(self.b.len() as u64) as usize)..];
        let mut n = buf.len().min(rest.len());
        if n > 0 && self.rng.next() % 3 == 0 {
            n = 1 + (self.rng.next() % n as u64) as usize;
        }
        let lie = self.lies > 0 && self.rng.next() % self.lies == 0;
        let w = if lie { (self.rng.next() % (n as u64 + 1)) as usize } else { n };
        buf[..w].copy_from_slice(&rest[..w]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Curious<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let t = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.b.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        self.pos = u64::try_from(t).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

fn reader(src: &mut Src, ctx: &mut Ctx) -> Res {
    let what = src.below(8);
    let lies = if src.flip() { 0 } else { src.range(1, 8) };
    let seed = src.below(1 << 32);
    let cell = |b| Curious { b, pos: 0, rng: Rng::new(seed), lies, odd: 0 };
    let content = match what {
        0 => {
            let f = gen_file(src).bytes;
            ctx.fp(&f);
            let mut r = cell(&f);
            get_metadata_chunk(&mut r).ok()
        }
        1 => {
            let n = src.range(1, 400) as usize;
            let mut b = src.bytes(32).repeat(n / 32 + 1);
            b.truncate(n);
            let end = n as i64 + src.below(3) as i64 - 1;
            let start = src.below(n as u64) as i64;
            let len = (end - start).max(1) as i32;
            let mut c = ColumnChunk::default();
            (c.offset_index_offset, c.offset_index_length) = (Some(start), Some(len));
            (c.column_index_offset, c.column_index_length) = (Some(start), Some(len));
            let mut g = RowGroup::default();
            g.columns.push(c);
            let mut m = FileMetaData::default();
            m.row_groups.push(g);
            ctx.fp(&b);
            ctx.fp(&len.to_le_bytes());
            let mut r = cell(&b);
            get_page_index_chunk(&mut r, &m).ok().flatten().map(|x| x.0)
        }
        _ => {
            let p = pick_any(src, ctx);
            let b = gen_input(src, p, ctx);
            ctx.fp(p.ops.name.as_bytes());
            ctx.fp(&b);
            let mut r = cell(&b);
            (p.ops.dec_stream)(&mut r).ok().map(|d| d.debug.into_bytes())
        }
    };
    ctx.fp(&[what as u8, lies as u8]);
    ctx.nontrivial = content.is_some();
    // look at every byte that was returned
    let odd = content.iter().flatten().filter(|x| **x & 1 == 1).count();
    std::hint::black_box(odd);
    Ok(())
}

fn mixed(src: &mut Src, ctx: &mut Ctx) -> Res {
    static ALL: OnceLock<Parts> = OnceLock::new();
    let all = ALL.get_or_init(parts);
    let k = src.weighted(&all.weights);
    let name = all.names[k];
    ctx.repr(|| name.to_string());
    let r = (all.cases[k])(src, ctx);
    ctx.labels.clear();
    ctx.label(name);
    r.map_err(|m| format!("{name}: {m}"))
}
