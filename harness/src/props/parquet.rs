//! C11 - C15: the Parquet types, the encoding set, and the footer and page index functions.

use super::util::*;
use crate::alloc::{limited, measure};
use crate::engine::*;
use crate::idl::*;
use crate::io::*;
use crate::parquet_table::constants;
use crate::types::parquet;
use crate::value::Value;
use crate::wire::*;
use compact_thrift_parquet::format as p;
use compact_thrift_parquet::{
    get_metadata_chunk, get_page_index_chunk, get_page_index_range, read_page_index, EncodingSet, ParquetError,
};
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "values of every Parquet type are generated from the frozen IDL (harness/idl/parquet.idl), encoded by the reference encoder, decoded by the library, compared field by field through the debug form, and encoded back to the same bytes; column metadata additionally carries the two dropped fields; each required field is left out in turn; every enum constant is compared; non-trivial: at least one leaf value; distinct by type and bytes",
            assumptions: &["harness/idl/parquet.idl is the official parquet.thrift as of the pinned commit"],
            subs: vec![
                Sub { name: "value", quick: 60_000, thorough: 1_500_000, f: c11_value },
                Sub { name: "dropped-fields", quick: 15_000, thorough: 400_000, f: c11_dropped },
                Sub { name: "required", quick: 30_000, thorough: 600_000, f: c11_required },
                Sub { name: "constants", quick: 1, thorough: 1, f: c11_constants },
            ],
        },
        Prop {
            id: "C12",
            rule: "lists of encoding numbers in any order and with repetitions are read as a set (into a fresh or a filled set, from slice and stream, all spellings) and compared with a bit-mask model through every method; pairs of sets are compared for equality; invalid numbers and element types are inserted; non-trivial: at least one element; distinct by the bytes",
            assumptions: &["a list element number outside 32 bits is not specified"],
            subs: vec![
                Sub { name: "set", quick: 150_000, thorough: 3_000_000, f: c12_set },
                Sub { name: "equality", quick: 50_000, thorough: 1_000_000, f: c12_eq },
                Sub { name: "invalid", quick: 80_000, thorough: 2_000_000, f: c12_invalid },
            ],
        },
        Prop {
            id: "C13",
            rule: "files = random prefix + metadata + little-endian length + magic are read through seekable readers with random start positions, split reads and interrupts; then damaged (magic, length, truncation, read and seek faults at the n-th call); also at the end of virtual files of up to 2^63 bytes, whose content is a function of the position, and with metadata for which memory is refused; non-trivial: the metadata is not empty or the damage is effective; distinct by file and reader",
            assumptions: &["largest single allocation allowed: twice the input size + 64 KiB"],
            subs: vec![
                Sub { name: "valid", quick: 60_000, thorough: 1_500_000, f: c13_valid },
                Sub { name: "large", quick: 30_000, thorough: 600_000, f: c13_large },
                Sub { name: "damaged", quick: 80_000, thorough: 2_000_000, f: c13_damaged },
                Sub { name: "faults", quick: 60_000, thorough: 1_500_000, f: c13_faults },
                Sub { name: "long", quick: 48, thorough: 100, f: c13_long },
                Sub { name: "refused", quick: 10_000, thorough: 100_000, f: c13_refused },
            ],
        },
        Prop {
            id: "C14",
            rule: "file metadata with any subset of the four index fields per column and offsets from small to 64-bit extremes; the range is compared with a model, the chunk with the bytes of the file, also in virtual files of up to 2^63 bytes, whose content is a function of the position; out-of-file ranges must be refused with bounded allocation; non-trivial: at least one complete column; distinct by the numbers",
            assumptions: &["whether a column whose index is empty (length 0) widens the range is not specified: both are accepted", "a range that starts beyond what a seekable input can address may be refused with any error"],
            subs: vec![
                Sub { name: "range", quick: 200_000, thorough: 4_000_000, f: c14_range },
                Sub { name: "chunk", quick: 60_000, thorough: 1_500_000, f: c14_chunk },
                Sub { name: "large", quick: 30_000, thorough: 600_000, f: c14_large },
                Sub { name: "beyond", quick: 60_000, thorough: 1_500_000, f: c14_beyond },
                Sub { name: "long", quick: 48, thorough: 100, f: c14_long },
            ],
        },
        Prop {
            id: "C15",
            rule: "offset and column indexes are generated, encoded by the reference encoder and laid out at random positions of a chunk with a random base offset; columns lack index fields at random; the result is compared entry by entry through the debug form; then one location is damaged or one entry made malformed (must be refused), or entries, chunk and locations are damaged at random and the outcome, values or refusal, is compared with the reference decoder applied to each entry; whole files are written and read back through footer, metadata, index chunk and index; non-trivial: a complete column or a damage; distinct by chunk and numbers",
            assumptions: &[],
            subs: vec![
                Sub { name: "valid", quick: 40_000, thorough: 1_000_000, f: c15_valid },
                Sub { name: "damaged", quick: 60_000, thorough: 1_500_000, f: c15_damaged },
                Sub { name: "random", quick: 60_000, thorough: 1_500_000, f: c15_random },
                Sub { name: "file", quick: 30_000, thorough: 800_000, f: c15_file },
            ],
        },
    ]
}

fn by_idx(ctx: &Ctx) -> Pick {
    let t = &parquet().types;
    Pick { schema: &parquet().schema, ty: &t[ctx.idx as usize % t.len()].0, ops: &t[ctx.idx as usize % t.len()].1 }
}

fn c11_value(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = if ctx.idx % 2 == 0 { pick_parquet(src) } else { by_idx(ctx) };
    let v = k.gen(src);
    let b = canon(&k.wire(&v));
    ctx.fp(k.ops.name.as_bytes());
    ctx.fp(&b);
    ctx.nontrivial = leaves(&v) > 0;
    label_value(&v, ctx);
    let want = k.debug(&v);
    ctx.repr(|| format!("{} {}", clip(&want, 300), hex(&b[..b.len().min(100)])));
    let (d, rest) = (k.ops.dec_slice)(&b);
    let d = d.map_err(|e| format!("{}: {} is refused: {e:?} (bytes {})", k.ops.name, want, hex(&b)))?;
    if d.debug != want || rest != 0 {
        return Err(format!("{}: bytes {}\n decode to {}\n by the IDL {}", k.ops.name, hex(&b), d.debug, want));
    }
    match d.reenc {
        Ok(x) if x == b => {}
        x => return Err(format!("{}: {want}\n is written as {}\n by the IDL {}", k.ops.name, x.map(|x| hex(&x)).unwrap_or_else(|e| format!("{e:?}")), hex(&b))),
    }
    // the same from a stream, in another spelling
    let mut o = vec![];
    encode(&k.wire(&v), &mut Style::any(src), &mut o);
    let mut r = SplitReader::new(&o, Split::gen(src));
    match (k.ops.dec_stream)(&mut r) {
        Ok(d) if d.debug == want && r.pos == o.len() => Ok(()),
        Ok(d) => Err(format!("{}: stream {}\n decodes to {}\n by the IDL {}", k.ops.name, hex(&o), d.debug, want)),
        Err(e) => Err(format!("{}: {} is refused from a stream: {e:?} (bytes {})", k.ops.name, want, hex(&o))),
    }
}

/// adds the dropped fields to every column metadata struct
fn inject(s: &Schema, ty: &Ty, w: &mut Wire, src: &mut Src) -> usize {
    let mut n = 0;
    match (ty, w) {
        (Ty::Wrap(_, t), w) => n += inject(s, t, w, src),
        (Ty::List(e), Wire::List(_, _, items)) => {
            for i in items {
                n += inject(s, e, i, src);
            }
        }
        (Ty::Named(name), Wire::Struct(fields)) => {
            let d = s.strukt(name);
            for (id, w) in fields.iter_mut() {
                if let Some(f) = d.fields.iter().find(|f| f.id == *id) {
                    n += inject(s, &f.ty, w, src);
                }
            }
            if name == "ColumnMetaData" {
                if src.chance(5, 6) {
                    let k = src.len(20);
                    let items = (0..k)
                        .map(|_| {
                            let l = src.len(40);
                            Wire::Bin(vec![b'a' + src.below(26) as u8; l])
                        })
                        .collect();
                    let at = fields.iter().position(|f| f.0 > 3).unwrap_or(fields.len());
                    fields.insert(at, (3, Wire::List(T_LIST, T_BINARY, items)));
                    n += 1;
                }
                if src.chance(5, 6) {
                    let at = fields.iter().position(|f| f.0 > 10).unwrap_or(fields.len());
                    fields.insert(at, (10, Wire::Int(T_I64, src.int(64))));
                    n += 1;
                }
            }
        }
        _ => {}
    }
    n
}

fn c11_dropped(src: &mut Src, ctx: &mut Ctx) -> Res {
    let name = *src.pick(&["ColumnMetaData", "ColumnMetaData", "ColumnChunk", "RowGroup", "FileMetaData"]);
    let k = Pick::named(parquet(), name);
    let v = k.gen(src);
    let plain = canon(&k.wire(&v));
    let mut w = k.wire(&v);
    let n = inject(k.schema, k.ty, &mut w, src);
    let b = canon(&w);
    ctx.fp(&b);
    ctx.nontrivial = n > 0;
    let want = k.debug(&v);
    ctx.repr(|| format!("{} with {n} dropped fields: {}", name, hex(&b[..b.len().min(150)])));
    let d = (k.ops.dec_slice)(&b).0.map_err(|e| format!("{name} with path_in_schema/index_page_offset is refused: {e:?} (bytes {})", hex(&b)))?;
    if d.debug != want {
        return Err(format!("{name}: bytes with path_in_schema/index_page_offset {}\n decode to {}\n instead of {want}", hex(&b), d.debug));
    }
    if d.reenc.as_ref().ok() != Some(&plain) {
        return Err(format!("{name}: {want}\n is written as {:?}\n instead of {}", d.reenc.map(|x| hex(&x)), hex(&plain)));
    }
    Ok(())
}

fn c11_required(src: &mut Src, ctx: &mut Ctx) -> Res {
    let structs = parquet().structs();
    let t = &parquet().types[structs[ctx.idx as usize % structs.len()]];
    let k = Pick { schema: &parquet().schema, ty: &t.0, ops: &t.1 };
    let Ty::Named(name) = k.ty else { return Err("HARNESS: not a struct".into()) };
    let d = k.schema.strukt(name);
    let v = k.gen(src);
    let Value::Struct(fs) = &v else {
        // unions have no required fields
        return Ok(());
    };
    // only the required fields
    let min = Value::Struct(d.fields.iter().zip(fs).map(|(f, x)| if f.req == Req::Required { x.clone() } else { None }).collect());
    let b = canon(&k.wire(&min));
    ctx.fp(name.as_bytes());
    ctx.fp(&b);
    match (k.ops.dec_slice)(&b).0 {
        Ok(x) if x.debug == k.debug(&min) && x.reenc.as_ref().ok() == Some(&b) => {}
        Ok(x) => return Err(format!("{name} with only the required fields: {}\n instead of {}", x.debug, k.debug(&min))),
        Err(e) => return Err(format!("{name} with only the required fields is refused: {e:?} (bytes {})", hex(&b))),
    }
    let req: Vec<&Field> = d.fields.iter().filter(|f| f.req == Req::Required).collect();
    if req.is_empty() {
        return Ok(());
    }
    ctx.nontrivial = true;
    let f = req[src.index(req.len())];
    let mut w = k.wire(&v);
    if let Wire::Struct(x) = &mut w {
        x.retain(|x| x.0 != f.id);
    }
    let b = canon(&w);
    ctx.fp(&b);
    ctx.repr(|| format!("{name} without {}", f.name));
    match (k.ops.dec_slice)(&b).0 {
        Err(ThriftError::MissingField(n)) if n.to_string() == format!("{name}::{}", f.name) => Ok(()),
        r => Err(format!("{name} without its required field {} gives {} (bytes {})", f.name, err_str(&r), hex(&b))),
    }
}

fn c11_constants(_: &mut Src, ctx: &mut Ctx) -> Res {
    let s = &parquet().schema;
    let lib = constants();
    ctx.nontrivial = true;
    ctx.repr(|| format!("{} enum constants", lib.len()));
    let mut n = 0;
    for name in &s.order {
        if let Def::Enum(e) = &s.defs[name] {
            for (c, v) in &e.consts {
                n += 1;
                ctx.evals += 1;
                match lib.iter().find(|x| x.0 == name && x.1 == c) {
                    Some(x) if x.2 == *v => {}
                    Some(x) => return Err(format!("{name}::{c} is {} instead of {v}", x.2)),
                    None => return Err(format!("HARNESS: {name}::{c} is not compared")),
                }
            }
        }
    }
    if n != lib.len() {
        return Err("HARNESS: constants without IDL entry".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C12

fn set_model(mask: u32) -> Vec<i32> {
    (0..31).filter(|i| mask >> i & 1 == 1).collect()
}

fn check_set(set: &EncodingSet, mask: u32) -> Res {
    let want = set_model(mask);
    let got: Vec<i32> = set.iter().map(|e| e.0).collect();
    if got != want {
        return Err(format!("the set iterates {got:?} instead of {want:?}"));
    }
    if set.len() != want.len() || set.is_empty() != want.is_empty() {
        return Err(format!("len {} is_empty {} for {want:?}", set.len(), set.is_empty()));
    }
    let list: Vec<p::Encoding> = want.iter().map(|x| p::Encoding(*x)).collect();
    if format!("{set:?}") != format!("{list:?}") {
        return Err(format!("the set {want:?} prints as {set:?}"));
    }
    let mut out = vec![];
    set.write_thrift(&mut out).map_err(|e| format!("writing {want:?}: {e:?}"))?;
    let b = canon(&Wire::List(T_LIST, T_I32, want.iter().map(|x| Wire::Int(T_I32, *x as i64)).collect()));
    if out != b {
        return Err(format!("the set {want:?} is written as {} instead of {}", hex(&out), hex(&b)));
    }
    Ok(())
}

fn gen_mask(src: &mut Src) -> u32 {
    match src.below(4) {
        0 => src.below(1 << 31) as u32,
        1 => 1 << src.below(31),
        2 => {
            let k = src.range(12, 18);
            let mut m = 0u32;
            for _ in 0..k {
                m |= 1 << src.below(31);
            }
            m
        }
        _ => (src.below(1 << 31) & src.below(1 << 31) & src.below(1 << 31)) as u32,
    }
}

/// a list with exactly the members of the mask, in random order, with repetitions
fn gen_list(src: &mut Src, mask: u32) -> Vec<i32> {
    let m = set_model(mask);
    let mut l: Vec<i32> = src.perm(m.len()).into_iter().map(|i| m[i]).collect();
    if !m.is_empty() {
        let n = src.len(40);
        for _ in 0..n {
            let x = *src.pick(&m);
            let at = src.index(l.len() + 1);
            l.insert(at, x);
        }
        if src.chance(1, 100) {
            // a long list: a run of repetitions
            let n = *src.pick(&[110usize, 130, 250, 260, 300, 1100, 4200, 9000, 33000, 65536, 66000, 131072]) + src.below(10) as usize;
            let at = src.index(l.len() + 1);
            let k = src.range(1, m.len() as u64) as usize;
            l.splice(at..at, m.iter().cycle().take(k).cycle().take(n).copied());
        }
    }
    l
}

fn enc_list(src: &mut Src, l: &[i32]) -> Vec<u8> {
    let w = Wire::List(T_LIST, T_I32, l.iter().map(|x| Wire::Int(T_I32, *x as i64)).collect());
    let mut o = vec![];
    if src.flip() {
        encode(&w, &mut Style::any(src), &mut o);
    } else {
        o = canon(&w);
    }
    o
}

fn set_of(mask: u32) -> Result<EncodingSet, String> {
    let b = canon(&Wire::List(T_LIST, T_I32, set_model(mask).iter().map(|x| Wire::Int(T_I32, *x as i64)).collect()));
    EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(|e| format!("{:?} is refused: {e:?}", set_model(mask)))
}

fn c12_set(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mask = gen_mask(src);
    let l = gen_list(src, mask);
    let mut b = enc_list(src, &l);
    let n = b.len();
    b.extend(src.bytes(3));
    ctx.fp(&b);
    ctx.nontrivial = !l.is_empty();
    ctx.label_if(l.len() >= 15, "list of 15 or more");
    ctx.label_if(l.len() > 100, "list of hundreds or more");
    ctx.label_if(mask.count_ones() >= 15, "set of 15 or more");
    ctx.repr(|| clip(&format!("{l:?}"), 300));
    let mut set = EncodingSet::default();
    check_set(&set, 0)?;
    if src.flip() {
        let m = gen_mask(src);
        set = set_of(m)?;
        ctx.label("filled before");
    }
    let r = if src.flip() {
        let mut i = CompactThriftInputSlice::new(&b);
        let r = set.fill_thrift(&mut i);
        if r.is_ok() && i.as_slice().len() != 3 {
            return Err(format!("reading {} leaves {} bytes instead of 3", hex(&b), i.as_slice().len()));
        }
        r
    } else {
        let mut rd = SplitReader::new(&b, Split::gen(src));
        let r = set.fill_thrift(&mut rd);
        if r.is_ok() && rd.pos != n {
            return Err(format!("reading {} takes {} bytes instead of {n}", hex(&b), rd.pos));
        }
        r
    };
    r.map_err(|e| format!("{l:?} is refused: {e:?} (bytes {})", hex(&b)))?;
    check_set(&set, mask).map_err(|e| format!("{l:?} (bytes {}): {e}", hex(&b)))
}

fn c12_eq(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_mask(src);
    let b = match src.below(3) {
        0 => a,
        1 => a ^ 1 << src.below(31),
        _ => gen_mask(src),
    };
    ctx.fp(&a.to_le_bytes());
    ctx.fp(&b.to_le_bytes());
    ctx.nontrivial = a != 0 || b != 0;
    ctx.repr(|| format!("{:?} == {:?}", set_model(a), set_model(b)));
    let (x, y) = (set_of(a)?, set_of(b)?);
    let z = x;
    if (x == y) != (a == b) || (x != y) != (a != b) || z != x || z.clone() != x {
        return Err(format!("{:?} == {:?} is {}", set_model(a), set_model(b), x == y));
    }
    check_set(&z, a)
}

fn c12_invalid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mask = gen_mask(src);
    let mut l = gen_list(src, mask);
    let mut set = EncodingSet::default();
    if src.flip() {
        set = set_of(gen_mask(src))?;
    }
    ctx.nontrivial = true;
    if src.chance(1, 4) {
        // another element type
        let t = *src.pick(&[1u8, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
        let mut b = enc_list(src, &l);
        b[0] = b[0] & 0xF0 | t;
        ctx.fp(&b);
        ctx.label("element type");
        ctx.repr(|| format!("{l:?} as elements of type {t}"));
        let r = set.fill_thrift(&mut CompactThriftInputSlice::new(&b));
        return match r {
            Err(ThriftError::InvalidType) => Ok(()),
            r => Err(format!("{l:?} as elements of type {t} gives {}", err_str(&r.map(|_| set)))),
        };
    }
    let bad = match src.below(5) {
        0 => 31,
        1 => 32,
        2 => -1,
        3 => 31 + src.below(40) as i32,
        _ => match src.int(32) as i32 {
            x if (0..31).contains(&x) => -1 - x,
            x => x,
        },
    };
    ctx.label_if(bad < 0, "negative");
    let at = src.index(l.len() + 1);
    l.insert(at, bad);
    let b = enc_list(src, &l);
    ctx.fp(&b);
    ctx.repr(|| format!("{l:?}"));
    let r = if src.flip() {
        set.fill_thrift(&mut CompactThriftInputSlice::new(&b))
    } else {
        let mut rd = SplitReader::new(&b, Split::gen(src));
        set.fill_thrift(&mut rd)
    };
    match r {
        Err(ThriftError::InvalidNumber) => Ok(()),
        r => Err(format!("{l:?} gives {}", err_str(&r.map(|_| set)))),
    }
}

// ---------------------------------------------------------------------------------------- C13

pub struct File {
    pub bytes: Vec<u8>,
    pub meta: std::ops::Range<usize>,
}

pub fn gen_file(src: &mut Src) -> File {
    let pl = match src.below(4) {
        0 => 0,
        1 => 4,
        2 => src.range(0, 40),
        _ => src.range(0, 700),
    } as usize;
    let ml = match src.below(5) {
        0 => 0,
        1 => src.range(1, 12),
        2 => src.range(0, 300),
        3 => src.range(250, 260),
        _ => {
            if src.chance(1, 20) {
                src.range(65_500, 65_600)
            } else {
                src.range(0, 1500)
            }
        }
    } as usize;
    // content that contains the magic and lengths as well
    let fill = |src: &mut Src, n: usize| -> Vec<u8> {
        match src.below(3) {
            0 => b"PAR1".iter().cycle().take(n).copied().collect(),
            1 => {
                let s = src.bytes(8);
                s.iter().cycle().take(n).copied().collect()
            }
            _ => {
                let mut v = src.bytes(n.min(64));
                let x = src.byte();
                v.extend((v.len()..n).map(|i| (i as u8).wrapping_mul(31) ^ x));
                v
            }
        }
    };
    let mut bytes = fill(src, pl);
    bytes.extend(fill(src, ml));
    bytes.extend_from_slice(&(ml as u32).to_le_bytes());
    bytes.extend_from_slice(b"PAR1");
    File { bytes, meta: pl..pl + ml }
}

fn start_pos(src: &mut Src, n: usize) -> u64 {
    match src.below(4) {
        0 => 0,
        1 => n as u64,
        2 => src.below(n as u64 + 1),
        _ => n as u64 + src.below(100),
    }
}

fn c13_valid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_file(src);
    let pos = start_pos(src, f.bytes.len());
    let split = Split::gen(src);
    let kind = src.below(2);
    ctx.fp(&f.bytes);
    ctx.fp(&pos.to_le_bytes());
    ctx.nontrivial = !f.meta.is_empty();
    ctx.repr(|| format!("{} bytes, metadata {:?}, start {pos}", f.bytes.len(), f.meta));
    let want = &f.bytes[f.meta.clone()];
    let (r, max, _) = if kind == 0 {
        let mut rd = SeekReader::new(&f.bytes, pos, split);
        measure(|| get_metadata_chunk(&mut rd))
    } else {
        let mut rd = Cursor::new(&f.bytes);
        rd.set_position(pos);
        measure(|| get_metadata_chunk(&mut rd))
    };
    match r {
        Ok(m) if m == want => {}
        Ok(m) => return Err(format!("file {} start {pos}: metadata {} instead of {}", hex(&f.bytes), hex(&m), hex(want))),
        Err(e) => return Err(format!("file {} start {pos}: {e:?} instead of {} bytes", hex(&f.bytes), want.len())),
    }
    if max > 2 * f.bytes.len() + 65536 {
        return Err(format!("allocates {max} bytes for a file of {}", f.bytes.len()));
    }
    Ok(())
}

/// a size or offset up to `max`, often close to a power of two
fn big(src: &mut Src, max: u64) -> u64 {
    match src.below(3) {
        0 => {
            let k = src.range(8, 63);
            (1u64 << k).wrapping_add(src.below(2000)).wrapping_sub(1000).min(max)
        }
        1 => max - src.below(2000),
        _ => {
            let k = src.range(8, 63);
            src.below(1 << k).min(max)
        }
    }
}

fn c13_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_file(src);
    let n = f.bytes.len() as u64;
    let base = big(src, i64::MAX as u64 - n);
    let pos = match src.below(3) {
        0 => 0,
        1 => base + n,
        _ => src.below(base + n),
    };
    ctx.fp(&f.bytes);
    ctx.fp(&base.to_le_bytes());
    ctx.nontrivial = !f.meta.is_empty();
    ctx.label_if(base + n > 1 << 31, "beyond 2 GiB");
    ctx.repr(|| format!("file of {} bytes with {} bytes of metadata, start {pos}", base + n, f.meta.len()));
    let mut rd = SeekReader::new(&f.bytes, pos, Split::gen(src));
    rd.base = base;
    rd.total = base + n;
    let (r, max, _) = measure(|| get_metadata_chunk(&mut rd));
    match r {
        Ok(m) if m == f.bytes[f.meta.clone()] => {}
        Ok(m) => return Err(format!("file of {} bytes that ends in {}, start {pos}: metadata {}", base + n, hex(&f.bytes), hex(&m))),
        Err(e) => return Err(format!("file of {} bytes that ends in {}, start {pos}: {e:?}", base + n, hex(&f.bytes))),
    }
    if max > 2 * f.bytes.len() + 65536 {
        return Err(format!("allocates {max} bytes for {} bytes of metadata", f.meta.len()));
    }
    Ok(())
}

/// metadata for which there is not enough memory, or not enough address space
fn c13_refused(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = match src.below(4) {
        0 => u32::MAX - src.below(12) as u32,
        1 => (1 << 31) - 8 + src.below(16) as u32,
        2 => (1 << 28) + 1 + src.below(1 << 20) as u32,
        _ => src.range((1 << 28) + 1, u32::MAX as u64) as u32,
    };
    let base = len as u64 + if src.flip() { src.below(12) } else { big(src, i64::MAX as u64 - len as u64 - 8) };
    let mut b = len.to_le_bytes().to_vec();
    b.extend(b"PAR1");
    let max = 1usize << src.below(25);
    ctx.fp(&b);
    ctx.fp(&base.to_le_bytes());
    ctx.fp(&max.to_le_bytes());
    ctx.nontrivial = true;
    ctx.repr(|| format!("file of {} bytes with {len} bytes of metadata, {max} bytes of memory", base + 8));
    let mut rd = SeekReader::new(&b, 0, Split::new(1, 0, false));
    rd.base = base;
    rd.total = base + 8;
    match limited(max, || get_metadata_chunk(&mut rd)) {
        Err(_) => Ok(()),
        Ok(m) => Err(format!("{len} bytes of metadata in {max} bytes of memory give {} bytes", m.len())),
    }
}

fn c13_damaged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = gen_file(src);
    let n = f.bytes.len();
    ctx.nontrivial = true;
    let want;
    match src.below(4) {
        0 => {
            let i = src.index(4);
            f.bytes[n - 4 + i] ^= match src.below(3) {
                0 => 0x20,
                1 => 1 << src.below(8),
                _ => src.range(1, 255) as u8,
            };
            want = "InvalidMagic";
            ctx.label("magic");
        }
        1 => {
            // shorter than a footer
            let keep = src.index(8);
            if src.flip() {
                f.bytes.drain(..n - keep);
            } else {
                f.bytes.truncate(keep);
            }
            want = "";
            ctx.label("too short");
        }
        2 => {
            let room = (n - 8) as u64;
            let over = match src.below(4) {
                0 => 1,
                1 => src.range(1, 16),
                2 => src.range(1, 70_000),
                _ => src.range(1, u32::MAX as u64 - room),
            };
            let l = if src.chance(1, 4) {
                u32::MAX - src.below(12) as u32
            } else if src.chance(1, 4) {
                (1u32 << 31) - 8 + src.below(16) as u32
            } else {
                (room + over) as u32
            };
            f.bytes[n - 8..n - 4].copy_from_slice(&l.to_le_bytes());
            want = "";
            ctx.label("announces too much");
        }
        _ => {
            // another length that still fits gives the bytes before the footer
            let l = src.below(n as u64 - 7) as usize;
            f.bytes[n - 8..n - 4].copy_from_slice(&(l as u32).to_le_bytes());
            f.meta = n - 8 - l..n - 8;
            want = "bytes";
            ctx.label("other length");
        }
    }
    let pos = start_pos(src, f.bytes.len());
    ctx.fp(&f.bytes);
    ctx.fp(&pos.to_le_bytes());
    ctx.repr(|| format!("{} of {}", ctx_label(want), hex(&f.bytes[f.bytes.len().saturating_sub(12)..])));
    let mut rd = SeekReader::new(&f.bytes, pos, Split::gen(src));
    let (r, max, _) = measure(|| get_metadata_chunk(&mut rd));
    if max > 2 * f.bytes.len() + 65536 {
        return Err(format!("allocates {max} bytes for a file of {} bytes ({})", f.bytes.len(), hex(&f.bytes)));
    }
    match (want, r) {
        ("InvalidMagic", Err(ParquetError::InvalidMagic)) => Ok(()),
        ("", Err(_)) => Ok(()),
        ("bytes", Ok(m)) if m == f.bytes[f.meta.clone()] => Ok(()),
        (w, r) => Err(format!("file {}: {:?}, expected {}", hex(&f.bytes), r.map(|x| hex(&x)), ctx_label(w))),
    }
}

fn ctx_label(w: &str) -> &str {
    if w.is_empty() {
        "an error"
    } else {
        w
    }
}

/// 40 MiB of noise
fn noise() -> &'static [u8] {
    static N: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let mut r = Rng::new(40);
        let mut v = Vec::with_capacity(40 << 20);
        while v.len() < 40 << 20 {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v
    })
}

/// a length of up to 36 MiB, often close to a power of two
fn long(src: &mut Src) -> usize {
    let k = src.range(16, 25);
    match src.below(3) {
        0 => (1 << k) + src.below(200) as usize - 100,
        1 => src.range(1 << 24, 36 << 20) as usize,
        _ => src.range(1 << (k - 1), 1 << k) as usize,
    }
}

/// transfers in large pieces
fn coarse(src: &mut Src) -> Split {
    let max = *src.pick(&[0usize, 4096, 65536, 1 << 20]);
    Split::new(src.below(1 << 32), max, src.flip())
}

fn c13_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = long(src);
    let skip = src.below(3000) as usize;
    let mut bytes = noise()[..skip + n].to_vec();
    bytes.extend_from_slice(&(n as u32).to_le_bytes());
    bytes.extend_from_slice(b"PAR1");
    ctx.nontrivial = true;
    ctx.fp(&(n as u64).to_le_bytes());
    ctx.fp(&(skip as u64).to_le_bytes());
    ctx.repr(|| format!("{skip} bytes, then {n} bytes of metadata"));
    let mut rd = SeekReader::new(&bytes, start_pos(src, bytes.len()), coarse(src));
    let (r, max, _) = measure(|| get_metadata_chunk(&mut rd));
    if max > 2 * n + 65536 {
        return Err(format!("allocates {max} bytes for {n} bytes of metadata"));
    }
    match r {
        Ok(m) if m == bytes[skip..skip + n] => Ok(()),
        Ok(m) => Err(format!("{skip} bytes, then {n} bytes of metadata: {} other bytes", m.len())),
        Err(e) => Err(format!("{skip} bytes, then {n} bytes of metadata: {e:?}")),
    }
}

fn c14_long(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = long(src);
    let at = src.below(3000) as usize;
    let end = at + n;
    // two entries at the ends of the range, any number of them in between
    let mut pieces = vec![(at, src.range(1, 50) as usize), (end - 40, 40)];
    let total = 2 * src.range(1, 4) as usize;
    while pieces.len() < total {
        let o = at + src.index(n);
        pieces.push((o, 1 + src.index(end - o)));
    }
    let pieces: Vec<(usize, usize)> = src.perm(total).into_iter().map(|i| pieces[i]).collect();
    let cols: Vec<Four> = pieces.chunks(2).map(|p| (Some(p[0].0 as i64), Some(p[0].1 as i32), Some(p[1].0 as i64), Some(p[1].1 as i32))).collect();
    let k = src.index(cols.len() + 1);
    let rgs = vec![cols[..k].to_vec(), cols[k..].to_vec()];
    let file = &noise()[..end + src.below(2000) as usize];
    ctx.nontrivial = true;
    ctx.fp(format!("{rgs:?}").as_bytes());
    ctx.repr(|| format!("file of {} bytes, columns {}", file.len(), clip(&format!("{rgs:?}"), 300)));
    let md = metadata(&rgs);
    let mut rd = SeekReader::new(file, start_pos(src, file.len()), coarse(src));
    let (r, max, _) = measure(|| get_page_index_chunk(&mut rd, &md));
    if max > 2 * n + 65536 {
        return Err(format!("allocates {max} bytes for a range of {n}"));
    }
    match r {
        Ok(Some((b, r))) if r == (at..end) && b == file[at..end] => Ok(()),
        Ok(Some((b, r))) => Err(format!("columns {rgs:?}: {} bytes for {r:?} instead of {at}..{end}", b.len())),
        Ok(None) => Err(format!("columns {rgs:?}: no range instead of {at}..{end}")),
        Err(e) => Err(format!("columns {rgs:?}: {e:?} instead of {at}..{end}")),
    }
}

/// the kind of the I/O error that is reported, in either of its forms
fn io_kind(e: &ParquetError) -> Option<std::io::ErrorKind> {
    match e {
        ParquetError::Io(e) => Some(e.kind()),
        ParquetError::Thrift(ThriftError::IO(k)) => Some(*k),
        _ => None,
    }
}

fn c13_faults(src: &mut Src, ctx: &mut Ctx) -> Res {
    let f = gen_file(src);
    let mut rd = SeekReader::new(&f.bytes, start_pos(src, f.bytes.len()), Split::gen(src));
    let kind = *src.pick(&KINDS);
    if src.flip() {
        let m = if src.flip() { 3 } else { 40 };
        rd.fail_read = Some((src.below(m) as usize, kind));
    } else {
        rd.fail_seek = Some((src.below(4) as usize, kind));
    }
    rd.once = src.flip();
    ctx.fp(&f.bytes);
    ctx.repr(|| format!("{} bytes, reads fail {:?}, seeks fail {:?}", f.bytes.len(), rd.fail_read, rd.fail_seek));
    let (r, max, _) = measure(|| get_metadata_chunk(&mut rd));
    if max > 2 * f.bytes.len() + 65536 {
        return Err(format!("allocates {max} bytes for a file of {}", f.bytes.len()));
    }
    match (rd.failed, r) {
        (None, Ok(m)) if m == f.bytes[f.meta.clone()] => Ok(()),
        (Some(k), Err(e)) if io_kind(&e) == Some(k) => {
            ctx.nontrivial = true;
            Ok(())
        }
        (failed, r) => Err(format!("file {}: fault {failed:?} gives {:?}", hex(&f.bytes), r.map(|x| hex(&x)))),
    }
}

// ---------------------------------------------------------------------------------------- C14

pub type Four = (Option<i64>, Option<i32>, Option<i64>, Option<i32>);

pub fn metadata(rgs: &[Vec<Four>]) -> p::FileMetaData {
    let mut f = p::FileMetaData::default();
    for rg in rgs {
        let mut g = p::RowGroup::default();
        for c in rg {
            let mut cc = p::ColumnChunk::default();
            cc.offset_index_offset = c.0;
            cc.offset_index_length = c.1;
            cc.column_index_offset = c.2;
            cc.column_index_length = c.3;
            g.columns.push(cc);
        }
        f.row_groups.push(g);
    }
    f
}

/// (range including empty entries, range without them) or the error
fn range_model(rgs: &[Vec<Four>]) -> Result<[Option<(u128, u128)>; 2], ()> {
    let mut r = [(u128::MAX, 0u128); 2];
    for c in rgs.iter().flatten() {
        if let (Some(oo), Some(ol), Some(co), Some(cl)) = *c {
            if oo < 0 || ol < 0 || co < 0 || cl < 0 {
                return Err(());
            }
            for (o, l) in [(oo, ol), (co, cl)] {
                for (i, r) in r.iter_mut().enumerate() {
                    if i == 0 || l > 0 {
                        r.0 = r.0.min(o as u128);
                        r.1 = r.1.max(o as u128 + l as u128);
                    }
                }
            }
        }
    }
    Ok(r.map(|r| (r.0 < r.1).then_some(r)))
}

/// whether something is beyond the addresses of this (32-bit) platform
fn too_far(rgs: &[Vec<Four>]) -> bool {
    rgs.iter().flatten().any(|c| match *c {
        (Some(oo), Some(ol), Some(co), Some(cl)) => [(oo, ol), (co, cl)].iter().any(|(o, l)| *o as i128 + *l as i128 > usize::MAX as i128),
        _ => false,
    })
}

fn gen_off(src: &mut Src, mode: u64) -> i64 {
    match mode {
        0 => src.below(300) as i64,
        1 => src.below(if usize::BITS > 32 { 1 << 40 } else { 3 << 30 }) as i64,
        _ => match src.below(6) {
            0 => i64::MAX - src.below(3) as i64,
            1 => -(src.below(5) as i64),
            2 => i64::MIN + src.below(2) as i64,
            3 => src.int(64),
            _ => src.below(1000) as i64,
        },
    }
}

fn gen_len(src: &mut Src, mode: u64) -> i32 {
    match mode {
        0 => src.range(1, 120) as i32,
        1 => match src.below(4) {
            0 => 0,
            _ => src.below(1 << 31) as i32,
        },
        _ => match src.below(5) {
            0 => i32::MAX,
            1 => -(src.below(3) as i32),
            2 => src.int(32) as i32,
            _ => src.below(500) as i32,
        },
    }
}

/// Now and then makes one row group wide or the file long: repeats a column (or an empty one) or a row group many times.
/// `cost` is the size of a column, which bounds how often.
fn widen<T: Clone>(src: &mut Src, every: u64, rgs: &mut Vec<Vec<T>>, empty: T, cost: impl Fn(&T) -> usize) -> bool {
    if !src.chance(1, every) {
        return false;
    }
    let n = *src.pick(&[100usize, 130, 200, 260, 300, 520, 1100, 1100, 2100, 4200, 9000, 17000, 33000, 66000]) + src.below(10) as usize;
    if rgs.is_empty() || src.chance(1, 4) {
        let filler = if rgs.is_empty() || src.flip() { vec![empty] } else { rgs[src.index(rgs.len())].clone() };
        let n = n.min(2_000_000 / (64 + filler.iter().map(&cost).sum::<usize>()));
        let at = src.index(rgs.len() + 1);
        rgs.splice(at..at, std::iter::repeat_n(filler, n));
    } else {
        let g = src.index(rgs.len());
        let filler = if rgs[g].is_empty() || src.flip() { empty } else { rgs[g][src.index(rgs[g].len())].clone() };
        let n = n.min(4_000_000 / (64 + cost(&filler)));
        let at = src.index(rgs[g].len() + 1);
        rgs[g].splice(at..at, std::iter::repeat_n(filler, n));
    }
    true
}

fn gen_fours(src: &mut Src) -> Vec<Vec<Four>> {
    let mut rgs = some_fours(src);
    widen(src, 500, &mut rgs, (None, None, None, None), |_| 0);
    rgs
}

fn some_fours(src: &mut Src) -> Vec<Vec<Four>> {
    let mode = src.below(3);
    let n = src.below(4);
    let absent = *src.pick(&[0u64, 1, 4]);
    (0..n)
        .map(|_| {
            let k = src.below(5);
            (0..k)
                .map(|_| {
                    // odd values only in some columns, so that one of them decides
                    let m = if mode == 2 && src.chance(2, 3) { 0 } else { mode };
                    let gone = |src: &mut Src| src.chance(absent, 8);
                    (
                        (!gone(src)).then(|| gen_off(src, m)),
                        (!gone(src)).then(|| gen_len(src, m)),
                        (!gone(src)).then(|| gen_off(src, m)),
                        (!gone(src)).then(|| gen_len(src, m)),
                    )
                })
                .collect()
        })
        .collect()
}

fn show(r: &Result<Option<std::ops::Range<usize>>, ParquetError>) -> String {
    format!("{r:?}")
}

fn c14_range(src: &mut Src, ctx: &mut Ctx) -> Res {
    let rgs = gen_fours(src);
    ctx.fp(format!("{rgs:?}").as_bytes());
    ctx.repr(|| clip(&format!("{rgs:?}"), 400));
    ctx.label_if(rgs.len() > 100 || rgs.iter().any(|g| g.len() > 100), "many columns or row groups");
    let complete = rgs.iter().flatten().filter(|c| c.0.is_some() && c.1.is_some() && c.2.is_some() && c.3.is_some()).count();
    ctx.nontrivial = complete > 0;
    ctx.label_if(complete > 1, "several complete columns");
    ctx.label_if(rgs.iter().flatten().count() > complete, "incomplete column");
    let md = metadata(&rgs);
    let r = get_page_index_range(&md);
    let ok = match (&r, range_model(&rgs)) {
        (Err(ParquetError::InvalidOffset), Ok(_)) => too_far(&rgs),
        (Err(ParquetError::InvalidOffset), Err(())) => {
            ctx.label("negative");
            true
        }
        (Ok(None), Ok(m)) => {
            ctx.label("none");
            m.contains(&None)
        }
        (Ok(Some(r)), Ok(m)) => {
            ctx.label("range");
            m.contains(&Some((r.start as u128, r.end as u128)))
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("columns {}: {} instead of {:?}", clip(&format!("{rgs:?}"), 4000), show(&r), range_model(&rgs)))
    }
}

fn c14_chunk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(0, 600) as usize;
    let x = src.byte();
    let file: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ x).collect();
    let mut rgs = vec![];
    for _ in 0..src.below(3) {
        let mut g = vec![];
        for _ in 0..src.range(1, 4) {
            let piece = |src: &mut Src| {
                let o = src.index(n + 1);
                (o as i64, src.index(n - o + 1) as i32)
            };
            let (o, c) = (piece(src), piece(src));
            let mut four = (Some(o.0), Some(o.1), Some(c.0), Some(c.1));
            if src.chance(1, 4) {
                // not indexed: whatever it says has no effect
                match src.below(4) {
                    0 => four.0 = None,
                    1 => four.1 = None,
                    2 => four.2 = None,
                    _ => four.3 = None,
                }
            }
            g.push(four);
        }
        rgs.push(g);
    }
    let md = metadata(&rgs);
    let mut rd = SeekReader::new(&file, start_pos(src, n), Split::gen(src));
    let fault = src.chance(1, 4);
    if fault {
        let kind = *src.pick(&KINDS);
        if src.flip() {
            rd.fail_read = Some((src.below(6) as usize, kind));
        } else {
            rd.fail_seek = Some((src.below(2) as usize, kind));
        }
        rd.once = src.flip();
    }
    ctx.fp(format!("{rgs:?}{n}").as_bytes());
    ctx.repr(|| format!("file of {n} bytes, columns {}", clip(&format!("{rgs:?}"), 300)));
    let (r, max, _) = measure(|| get_page_index_chunk(&mut rd, &md));
    if max > 2 * n + 65536 {
        return Err(format!("allocates {max} bytes for a file of {n}"));
    }
    let m = range_model(&rgs).map_err(|_| "HARNESS: negative".to_string())?;
    ctx.nontrivial = m[0].is_some();
    match r {
        Err(e) if rd.failed.is_some() && rd.failed == io_kind(&e) => {
            ctx.label("fault");
            Ok(())
        }
        Ok(None) if rd.failed.is_none() && m.contains(&None) => Ok(()),
        Ok(Some((b, r))) if rd.failed.is_none() && m.contains(&Some((r.start as u128, r.end as u128))) && r.end <= n && b == file[r.clone()] => Ok(()),
        r => Err(format!("file of {n} bytes, columns {rgs:?}, fault {:?}: {:?} instead of the bytes of {m:?}", rd.failed, r.map(|x| x.map(|(b, r)| (hex(&b), r))))),
    }
}

fn c14_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let room = if src.chance(1, 8) { src.range(100, 100_000) } else { src.range(4, 700) };
    // addresses of a 32-bit platform end earlier
    let base = big(src, (i64::MAX as u64).min(usize::MAX as u64) - room);
    let total = match src.below(3) {
        0 => base + room,
        1 => i64::MAX as u64,
        _ => base + room + src.below(i64::MAX as u64 - base - room + 1),
    };
    let mut rgs = vec![];
    for _ in 0..src.range(1, 2) {
        let mut g = vec![];
        for _ in 0..src.range(1, 3) {
            let piece = |src: &mut Src| {
                let o = src.below(room);
                (Some((base + o) as i64), Some(1 + src.below(room - o) as i32))
            };
            let (o, c) = (piece(src), piece(src));
            g.push((o.0, o.1, c.0, c.1));
        }
        rgs.push(g);
    }
    let md = metadata(&rgs);
    let mut rd = SeekReader::new(&[], if src.flip() { 0 } else { src.below(total) }, Split::gen(src));
    rd.total = total;
    ctx.nontrivial = true;
    ctx.fp(format!("{rgs:?}{total}").as_bytes());
    ctx.label_if(base > 1 << 31, "beyond 2 GiB");
    ctx.repr(|| format!("file of {total} bytes, columns {}", clip(&format!("{rgs:?}"), 300)));
    let Ok([_, Some((s, e))]) = range_model(&rgs) else { return Err("HARNESS: no range".into()) };
    let want: Vec<u8> = (s as u64..e as u64).map(virtual_byte).collect();
    let (r, max, _) = measure(|| get_page_index_chunk(&mut rd, &md));
    if max > 2 * want.len() + 65536 {
        return Err(format!("allocates {max} bytes for a range of {}", want.len()));
    }
    match r {
        Ok(Some((b, r))) if (r.start as u128, r.end as u128) == (s, e) && b == want => Ok(()),
        Ok(Some((b, r))) => Err(format!("file of {total} bytes, columns {rgs:?}: range {r:?} with {} bytes instead of those in {s}..{e}", b.len())),
        r => Err(format!("file of {total} bytes, columns {rgs:?}: {:?} instead of the bytes in {s}..{e}", r.map(|_| "no range"))),
    }
}

fn c14_beyond(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(0, 200) as usize;
    let file = vec![7u8; n];
    let mut rgs = gen_fours(src);
    if rgs.iter().flatten().count() == 0 || src.flip() {
        let m = src.below(3);
        let c = (Some(gen_off(src, m)), Some(gen_len(src, m)), Some(gen_off(src, m)), Some(gen_len(src, m)));
        rgs.push(vec![c]);
    }
    let m = match range_model(&rgs) {
        // empty entries leave it open which range is meant
        Ok(m) if m[0] == m[1] => m[0],
        Ok(_) => return Ok(()),
        Err(()) => None,
    };
    let md = metadata(&rgs);
    let mut rd = SeekReader::new(&file, 0, Split::gen(src));
    ctx.fp(format!("{rgs:?}{n}").as_bytes());
    ctx.repr(|| format!("file of {n} bytes, columns {}", clip(&format!("{rgs:?}"), 300)));
    let (r, _, _) = measure(|| get_page_index_chunk(&mut rd, &md));
    match (m, range_model(&rgs).is_err(), r) {
        (_, true, Err(ParquetError::InvalidOffset)) => {
            ctx.label("negative");
            Ok(())
        }
        (_, _, Err(ParquetError::InvalidOffset)) if too_far(&rgs) => Ok(()),
        (None, false, Ok(None)) => Ok(()),
        (Some((_, e)), false, Err(_)) if e > n as u128 => {
            ctx.nontrivial = true;
            ctx.label_if(e > 1 << 40, "far beyond");
            Ok(())
        }
        (Some((s, e)), false, Ok(Some((b, r)))) if e <= n as u128 && b.len() as u128 == e - s && r == (s as usize..e as usize) => Ok(()),
        (m, _, r) => Err(format!("file of {n} bytes, columns {rgs:?}, range {m:?}: {:?}", r.map(|x| x.map(|(b, r)| (b.len(), r))))),
    }
}

// ---------------------------------------------------------------------------------------- C15

pub struct Layout {
    pub chunk: Vec<u8>,
    pub base: i64,
    pub rgs: Vec<Vec<Four>>,
    /// debug forms of the two indexes of a complete column
    want: Vec<Vec<Option<(String, String)>>>,
}

pub fn layout(src: &mut Src, damaged: bool) -> Layout {
    let (ok, ck) = (Pick::named(parquet(), "OffsetIndex"), Pick::named(parquet(), "ColumnIndex"));
    let last = i64::try_from(usize::MAX).unwrap_or(i64::MAX) - (1 << 27);
    let base: i64 = match src.below(4) {
        0 => 0,
        1 => src.range(1, 1000) as i64,
        2 => (src.below(1 << 40) as i64).min(last),
        _ => last - src.below(1000) as i64,
    };
    let mut want = vec![];
    // pieces: (row group, column, is column index, bytes)
    let mut pieces: Vec<(usize, usize, bool, Vec<u8>)> = vec![];
    for g in 0..src.below(3) as usize + 1 {
        let mut w = vec![];
        for c in 0..src.below(4) as usize {
            let (o, k) = (ok.gen_fuel(src, 2), ck.gen_fuel(src, 2));
            for (col, mut wire) in [(false, ok.wire(&o)), (true, ck.wire(&k))] {
                if damaged && src.chance(1, 6) {
                    super::reference::damage(src, &mut wire);
                }
                pieces.push((g, c, col, canon(&wire)));
            }
            w.push(Some((ok.debug(&o), ck.debug(&k))));
        }
        want.push(w);
    }
    let mut rgs: Vec<Vec<Four>> = want.iter().map(|w| vec![(None, None, None, None); w.len()]).collect();
    let mut chunk = vec![];
    for i in src.perm(pieces.len()) {
        let (g, c, col, b) = &pieces[i];
        let gap = if src.chance(1, 3) { src.below(20) as usize } else { 0 };
        let fill = src.byte();
        chunk.extend(std::iter::repeat_n(fill, gap));
        let at = base + chunk.len() as i64;
        chunk.extend_from_slice(b);
        // the length may include bytes after the entry
        let extra = if src.chance(1, 8) { src.below(5) as usize } else { 0 };
        chunk.extend(std::iter::repeat_n(0u8, extra));
        let l = (b.len() + extra) as i32;
        let f = &mut rgs[*g][*c];
        if *col {
            (f.2, f.3) = (Some(at), Some(l));
        } else {
            (f.0, f.1) = (Some(at), Some(l));
        }
    }
    if src.chance(1, 4) {
        let n = src.below(30) as usize;
        chunk.extend(src.bytes(n));
    }
    // columns without an index keep some of the numbers, pointing anywhere
    for g in 0..rgs.len() {
        for c in 0..rgs[g].len() {
            if src.chance(1, 4) {
                want[g][c] = None;
                let f = &mut rgs[g][c];
                if src.flip() {
                    let m = 2 * src.below(2);
                    f.0 = Some(gen_off(src, m));
                    f.1 = Some(gen_len(src, m));
                }
                if src.flip() {
                    let m = 2 * src.below(2);
                    f.2 = Some(gen_off(src, m));
                    f.3 = Some(gen_len(src, m));
                }
                let drop = src.range(1, 15);
                if drop & 1 != 0 {
                    f.0 = None
                }
                if drop & 2 != 0 {
                    f.1 = None
                }
                if drop & 4 != 0 {
                    f.2 = None
                }
                if drop & 8 != 0 {
                    f.3 = None
                }
            }
        }
    }
    Layout { chunk, base, rgs, want }
}

type Index = Vec<Vec<Option<(p::OffsetIndex, p::ColumnIndex)>>>;

pub fn dbg_index(x: &Index) -> Vec<Vec<Option<(String, String)>>> {
    x.iter().map(|g| g.iter().map(|c| c.as_ref().map(|(o, c)| (format!("{o:?}"), format!("{c:?}")))).collect()).collect()
}

fn c15_fp(l: &Layout, ctx: &mut Ctx) {
    ctx.fp(&l.chunk);
    ctx.fp(format!("{:?}{}", l.rgs, l.base).as_bytes());
}

fn c15_valid(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = layout(src, false);
    let mut both: Vec<Vec<_>> = l.rgs.iter().zip(&l.want).map(|(g, w)| g.iter().copied().zip(w.iter().cloned()).collect()).collect();
    if widen(src, 40, &mut both, ((None, None, None, None), None), |c| c.1.as_ref().map_or(0, |(o, c)| o.len() + c.len())) {
        ctx.label("many columns or row groups");
        (l.rgs, l.want) = both.into_iter().map(|g| g.into_iter().unzip()).unzip();
    }
    c15_fp(&l, ctx);
    ctx.nontrivial = l.want.iter().flatten().flatten().count() > 0;
    ctx.label_if(l.want.iter().flatten().any(|x| x.is_none()), "column without index");
    ctx.repr(|| format!("chunk of {} bytes at {}, columns {}", l.chunk.len(), l.base, clip(&format!("{:?}", l.rgs), 300)));
    let md = metadata(&l.rgs);
    match read_page_index(&l.chunk, l.base as usize, &md) {
        Ok(x) if dbg_index(&x) == l.want => Ok(()),
        Ok(x) => Err(clip(&format!("chunk {} at {} columns {:?}\n got {:?}\n expected {:?}", hex(&l.chunk), l.base, l.rgs, dbg_index(&x), l.want), 20_000)),
        Err(e) => Err(clip(&format!("chunk {} at {} columns {:?}\n refused with {e:?}\n expected {:?}", hex(&l.chunk), l.base, l.rgs, l.want), 20_000)),
    }
}

fn c15_damaged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = layout(src, false);
    let complete: Vec<(usize, usize)> = (0..l.rgs.len())
        .flat_map(|g| (0..l.rgs[g].len()).map(move |c| (g, c)))
        .filter(|(g, c)| l.want[*g][*c].is_some())
        .collect();
    if complete.is_empty() {
        return Ok(());
    }
    let (g, c) = *src.pick(&complete);
    let end = l.base as i128 + l.chunk.len() as i128;
    let f = &mut l.rgs[g][c];
    let col = src.flip();
    let (off, len) = if col { (f.2.unwrap(), f.3.unwrap()) } else { (f.0.unwrap(), f.1.unwrap()) };
    let (mut noff, mut nlen) = (off, len);
    match src.below(8) {
        0 => nlen = 0,
        1 => nlen = -(src.range(1, i32::MAX as u64) as i32),
        2 => noff = -(src.range(1, 1 << 62) as i64),
        3 if l.base > 0 => {
            let m = if src.flip() { 3 } else { u64::MAX };
            noff = l.base - 1 - src.below((l.base as u64).min(m)) as i64
        }
        4 => {
            let room = (end - off as i128) as u64;
            let m = if src.flip() { 4 } else { i32::MAX as u64 - room };
            nlen = (room + src.range(1, m)).min(i32::MAX as u64) as i32;
        }
        5 => {
            // offset at or beyond the end
            let m = if src.flip() { 3 } else { 1 << 62 };
            let o = end + src.below(m) as i128;
            noff = o.min(i64::MAX as i128) as i64;
        }
        6 => {
            noff = *src.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 7, -1]);
            nlen = *src.pick(&[len, i32::MAX, i32::MIN, -1]);
        }
        _ => {
            // the entry is cut short: the canonical encoding has no valid proper prefix
            let k = if col { Pick::named(parquet(), "ColumnIndex") } else { Pick::named(parquet(), "OffsetIndex") };
            let at = (off as i128 - l.base as i128) as usize;
            let used = (k.ops.light_slice)(&l.chunk[at..at + len as usize]).unwrap_or(len as usize);
            if used > len as usize || used == 0 {
                return Ok(());
            }
            nlen = src.below(used as u64) as i32;
        }
    }
    ctx.nontrivial = true;
    if col {
        (f.2, f.3) = (Some(noff), Some(nlen));
    } else {
        (f.0, f.1) = (Some(noff), Some(nlen));
    }
    // base near the top: a moved offset may still be inside
    let inside = nlen > 0 && noff as i128 >= l.base as i128 && noff as i128 + nlen as i128 <= end;
    if inside && noff != off {
        return Ok(());
    }
    c15_fp(&l, ctx);
    ctx.repr(|| format!("chunk of {} bytes at {}, entry {off}+{len} moved to {noff}+{nlen}", l.chunk.len(), l.base));
    let md = metadata(&l.rgs);
    match read_page_index(&l.chunk, l.base as usize, &md) {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("chunk {} at {} columns {:?}: location {noff}+{nlen} is accepted: {:?}", hex(&l.chunk), l.base, l.rgs, dbg_index(&x))),
    }
}

/// What the entries of a chunk are according to the reference decoder: `Ok(None)` where it fixes no outcome.
fn index_model(chunk: &[u8], base: usize, rgs: &[Vec<Four>]) -> Result<Option<Vec<Vec<Option<(String, String)>>>>, String> {
    let types = [Pick::named(parquet(), "OffsetIndex"), Pick::named(parquet(), "ColumnIndex")];
    let mut open = false;
    let mut bad = None;
    let mut out = vec![];
    for g in rgs {
        let mut row = vec![];
        for f in g {
            let (Some(oo), Some(ol), Some(co), Some(cl)) = *f else {
                row.push(None);
                continue;
            };
            let mut texts = vec![];
            for (t, at, len) in [(types[0], oo, ol), (types[1], co, cl)] {
                let start = at as i128 - base as i128;
                let end = start + len as i128;
                if at < 0 || len <= 0 || start < 0 || end > chunk.len() as i128 {
                    bad = Some(format!("{at}+{len} is outside"));
                    continue;
                }
                let mut c = Cur::new(&chunk[start as usize..end as usize]);
                match crate::value::decode(t.schema, t.ty, &mut c) {
                    _ if c.unspec => open = true,
                    Err(PErr::Unspec) => open = true,
                    Ok(v) => texts.push(t.debug(&v)),
                    Err(e) => bad = Some(format!("{at}+{len} is malformed ({e:?})")),
                }
            }
            if texts.len() == 2 {
                let k = texts.pop().unwrap();
                row.push(Some((texts.pop().unwrap(), k)));
            }
        }
        out.push(row);
    }
    match bad {
        Some(b) => Err(b),
        None if open => Ok(None),
        None => Ok(Some(out)),
    }
}

/// Lets locations be those of other entries, also of the other kind, or overlap with them.
fn confuse(src: &mut Src, rgs: &mut [Vec<Four>]) {
    let all: Vec<(usize, usize)> = (0..rgs.len()).flat_map(|g| (0..rgs[g].len()).map(move |c| (g, c))).collect();
    if all.is_empty() {
        return;
    }
    for _ in 0..src.range(1, 3) {
        let (g, c) = *src.pick(&all);
        let f = rgs[g][c];
        let (mut off, mut len) = if src.flip() { (f.0, f.1) } else { (f.2, f.3) };
        match src.below(6) {
            0 => off = off.map(|o| o.saturating_add(src.below(3) as i64)),
            1 => len = len.map(|n| n.saturating_add(src.below(3) as i32 - 1)),
            _ => {}
        }
        let (g, c) = if src.flip() { (g, c) } else { *src.pick(&all) };
        let t = &mut rgs[g][c];
        let both = src.chance(1, 3);
        let first = src.flip();
        if first || both {
            (t.0, t.1) = (off, len);
        }
        if !first || both {
            (t.2, t.3) = (off, len);
        }
    }
}

fn c15_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = layout(src, true);
    match src.below(6) {
        5 => confuse(src, &mut l.rgs),
        0 => l.rgs = gen_fours(src),
        1 => mutate(src, &mut l.chunk),
        2 => {
            let n = src.len(100);
            l.chunk = src.bytes(n);
        }
        _ => {}
    }
    let base = match src.below(8) {
        0 => src.any_u64() as usize,
        1 => src.below(400) as usize,
        2 => usize::MAX - src.below(3) as usize,
        3 => (l.base as usize).saturating_add_signed(src.below(7) as isize - 3),
        _ => l.base as usize,
    };
    c15_fp(&l, ctx);
    ctx.nontrivial = true;
    ctx.repr(|| format!("chunk {} at {base}, columns {}", hex(&l.chunk[..l.chunk.len().min(60)]), clip(&format!("{:?}", l.rgs), 200)));
    let md = metadata(&l.rgs);
    let want = index_model(&l.chunk, base, &l.rgs);
    let what = || format!("chunk {} at {base} columns {:?}", hex(&l.chunk), l.rgs);
    match (want, read_page_index(&l.chunk, base, &md)) {
        (Ok(Some(w)), Ok(x)) => {
            ctx.label("accepted");
            let d = dbg_index(&x);
            if d != w {
                return Err(format!("{}\n got {d:?}\n expected {w:?}", what()));
            }
        }
        (Ok(Some(w)), Err(e)) => return Err(format!("{}\n refused with {e:?}\n expected {w:?}", what())),
        (Ok(None), _) => ctx.label("not specified"),
        (Err(_), Err(_)) => ctx.label("refused"),
        (Err(e), Ok(x)) => return Err(format!("{}: {e}, but it is read as {:?}", what(), dbg_index(&x))),
    }
    Ok(())
}

/// A file with data, indexes and footer: the functions of the library applied one after the other.
fn c15_file(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = layout(src, false);
    let data = if src.chance(1, 4) { src.size(5000, 1) } else { src.below(300) as usize };
    // the chunk moves to its place in the file
    let mut any = false;
    for f in l.rgs.iter_mut().flatten() {
        let complete = f.0.is_some() && f.1.is_some() && f.2.is_some() && f.3.is_some();
        any |= complete;
        if complete {
            f.0 = f.0.map(|o| o - l.base + data as i64);
            f.2 = f.2.map(|o| o - l.base + data as i64);
        }
    }
    let x = src.byte();
    let mut file: Vec<u8> = (0..data).map(|i| (i as u8).wrapping_mul(13) ^ x).collect();
    file.extend_from_slice(&l.chunk);
    let md = metadata(&l.rgs);
    let mut meta = vec![];
    md.write_thrift(&mut meta).map_err(|e| format!("metadata with columns {:?} cannot be written: {e:?}", l.rgs))?;
    file.extend_from_slice(&meta);
    file.extend_from_slice(&(meta.len() as u32).to_le_bytes());
    file.extend_from_slice(b"PAR1");
    ctx.fp(&file);
    ctx.nontrivial = any;
    ctx.label_if(!any, "no index");
    ctx.repr(|| format!("file of {} bytes, index at {data}, columns {}", file.len(), clip(&format!("{:?}", l.rgs), 200)));
    let what = || format!("file {} with columns {:?}", hex(&file), l.rgs);
    let mut rd = SeekReader::new(&file, start_pos(src, file.len()), Split::gen(src));
    let m = get_metadata_chunk(&mut rd).map_err(|e| format!("{}: footer: {e:?}", what()))?;
    if m != meta {
        return Err(format!("{}: footer {} instead of {}", what(), hex(&m), hex(&meta)));
    }
    let back = p::FileMetaData::read_thrift(&mut CompactThriftInputSlice::new(&m)).map_err(|e| format!("{}: metadata: {e:?}", what()))?;
    if back != md {
        return Err(format!("{}: metadata {back:?} instead of {md:?}", what()));
    }
    let empty: Vec<Vec<Option<(String, String)>>> = l.want.iter().map(|g| vec![None; g.len()]).collect();
    match get_page_index_chunk(&mut rd, &back).map_err(|e| format!("{}: index chunk: {e:?}", what()))? {
        Some((chunk, range)) => {
            let i = read_page_index(&chunk, range.start, &back).map_err(|e| format!("{}: index: {e:?}", what()))?;
            if dbg_index(&i) != l.want {
                return Err(format!("{}\n got {:?}\n expected {:?}", what(), dbg_index(&i), l.want));
            }
        }
        None if l.want == empty => {}
        None => return Err(format!("{}: no index instead of {:?}", what(), l.want)),
    }
    Ok(())
}

/// C23: the functions on whole files, succeeding or failing
pub fn c23_files(src: &mut Src, ctx: &mut Ctx) -> Res {
    let damaged = src.flip();
    let mut l = layout(src, damaged);
    if src.chance(1, 4) {
        mutate(src, &mut l.chunk);
    }
    let base = if src.chance(1, 8) { src.any_u64() } else { l.base as u64 } as usize;
    let md = metadata(&l.rgs);
    c15_fp(&l, ctx);
    ctx.nontrivial = true;
    ctx.repr(|| format!("chunk {} at {base}, columns {}", hex(&l.chunk[..l.chunk.len().min(60)]), clip(&format!("{:?}", l.rgs), 200)));
    super::reference::balanced("reading the page index", "of a chunk", &l.chunk, || drop(read_page_index(&l.chunk, base, &md)))?;
    let f = gen_file(src);
    let seed = src.below(1 << 32);
    let max = *src.pick(&[0usize, 1, 2, 7, 100]);
    let kind = *src.pick(&KINDS);
    let m = if src.flip() { 3 } else { 40 };
    let (reads, seeks) = (src.flip().then(|| (src.below(m) as usize, kind)), src.chance(1, 4).then(|| (src.below(4) as usize, kind)));
    let cut = if src.chance(1, 4) { src.index(f.bytes.len() + 1) } else { 0 };
    let bytes = &f.bytes[cut..];
    let reader = || {
        let mut rd = SeekReader::new(bytes, 0, Split::new(seed, max, false));
        rd.fail_read = reads;
        rd.fail_seek = seeks;
        rd
    };
    super::reference::balanced("reading the footer", "of a file", bytes, || drop(get_metadata_chunk(&mut reader())))?;
    let n = bytes.len();
    let at = |src: &mut Src| {
        let o = src.index(n + 1);
        (Some(o as i64), Some(src.index(n + 20 - o) as i32))
    };
    let (o, c) = (at(src), at(src));
    let md = metadata(&[vec![(o.0, o.1, c.0, c.1)]]);
    super::reference::balanced("reading the index chunk", "of a file", bytes, || drop(get_page_index_chunk(&mut reader(), &md)))
}
