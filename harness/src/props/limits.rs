//! C09: length limits.

use super::util::*;
use crate::alloc::measure;
use crate::engine::*;
use crate::io::*;
use crate::types::*;
use crate::wire::*;
use compact_thrift_runtime::*;
use std::io::Write;

const MAX_BIN: u64 = 16 * 1024 * 1024;
const MAX_COLL: u64 = 10_000_000;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        rule: "lengths around the limits and of every magnitude up to 2^64-1 are announced for binaries, strings, lists, sets, maps and encoding sets, read and skipped at top level, as list elements, map entries and fields, from a slice and a stream; values around the limits are written and read back; the largest allocation of every slice read is measured; non-trivial: announced length above the limit or above the available data, or value within 2 of a limit; distinct by length, shape and position",
        assumptions: &["the documented limits are 16 MiB and 10,000,000 elements"],
        subs: vec![
            Sub { name: "announced", quick: 60_000, thorough: 2_000_000, f: announced },
            Sub { name: "binary-boundary", quick: 60, thorough: 60, f: binary_boundary },
            Sub { name: "collection-boundary", quick: 36, thorough: 36, f: collection_boundary },
        ],
    }]
}

fn any_len(src: &mut Src, limit: u64) -> u64 {
    match src.below(6) {
        0 => limit + 1,
        1 => limit + src.range(2, 300),
        2 => *src.pick(&[
            1u64 << 31,
            (1 << 31) - 1,
            1 << 32,
            (1 << 32) - 1,
            (1 << 32) + 5,
            1 << 33,
            1 << 63,
            (1 << 63) - 1,
            u64::MAX,
            u64::MAX - 1,
            1 << 24 << 32,
            (1 << 32) + 10_000_000,
            (1 << 48) + 3,
        ]),
        3 => {
            let s = src.range(24, 63);
            (1u64 << s) + src.below(5)
        }
        4 => limit - src.below(3),
        _ => {
            let s = src.range(1, 40);
            src.any_u64() >> s
        }
    }
}

/// A container holding one announced length, and what must come of it.
fn announced(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.below(6);
    let limit = if kind <= 1 { MAX_BIN } else { MAX_COLL };
    let n = any_len(src, limit);
    let avail = src.len(60);
    let over = n > limit;
    let elem = *src.pick(&[5u8, 3, 8, 12, 6, 7, 2]);
    let mut head = vec![];
    // (field type, bytes of the value up to the data)
    let tag = match kind {
        0 | 1 => {
            varint(n, &mut head);
            8u8
        }
        2 | 5 => {
            head.push(0xf0 | elem);
            varint(n, &mut head);
            9
        }
        3 => {
            head.push(0xf0 | elem);
            varint(n, &mut head);
            10
        }
        _ => {
            varint(n, &mut head);
            head.push(elem << 4 | 3);
            11
        }
    };
    let fill = *src.pick(&[0u8, 0, 1, 0x41]);
    let data = vec![fill; avail];
    let mut b = head.clone();
    b.extend_from_slice(&data);
    ctx.nontrivial = over || n > avail as u64;
    ctx.label_if(over, "above the limit");
    ctx.label_if(!over && n > avail as u64, "allowed, but not available");
    ctx.fp(&b);
    ctx.fp(&[tag, kind as u8]);
    ctx.repr(|| format!("type {tag} of element type {elem}, announced length {n}, {avail} bytes available"));
    let expect = if kind <= 1 { format!("InvalidBinaryLen({})", n.min(usize::MAX as u64)) } else { "InvalidCollectionLen".to_string() };
    let small = 65536 + 16 * b.len();

    // read as a declared type
    let name = match (kind, tag, elem) {
        (0, ..) => Some("binary"),
        (1, ..) => Some("string"),
        (2, _, 5) => Some("Vec<i32>"),
        (2, _, 3) => Some("Vec<i8>"),
        (2, _, 8) => Some("Vec<string>"),
        (2, _, 12) => Some("Vec<Small>"),
        (2, _, 6) => Some("Vec<i64>"),
        (2, _, 7) => Some("Vec<double>"),
        (2, _, 2) => Some("Vec<bool>"),
        (5, _, 5) => Some("EncodingSet"),
        _ => None,
    };
    let mut pos = src.below(3);
    if let Some(name) = name {
        let p = Pick::named(if name == "EncodingSet" { parquet() } else { pool() }, name);
        let (r, max, _) = measure(|| (p.ops.light_slice)(&b));
        if over && err_str(&r) != expect {
            return Err(format!("reading {name} of announced length {n}: {}, expected {expect}", err_str(&r)));
        }
        if !over && n > avail as u64 && matches!(err_str(&r).as_str(), "InvalidCollectionLen") {
            return Err(format!("reading {name} of allowed length {n}: {}", err_str(&r)));
        }
        if !over && kind <= 1 && n > avail as u64 && err_str(&r) != eof() {
            return Err(format!("reading {name} of allowed length {n} with {avail} bytes: {}", err_str(&r)));
        }
        if (over || kind <= 1) && max > small {
            return Err(format!("reading {name} of announced length {n} with {avail} bytes from the slice allocated {max} bytes"));
        }
        let mut s = SplitReader::new(&b, Split::new(1, 0, false));
        let (r, max, _) = measure(|| (p.ops.light_stream)(&mut s));
        if over && err_str(&r) != expect {
            return Err(format!("reading {name} of announced length {n} from a stream: {}, expected {expect}", err_str(&r)));
        }
        if over && max > small {
            return Err(format!("reading {name} of announced length {n} from the stream allocated {max} bytes"));
        }
        if !over && n > avail as u64 && !matches!(err_str(&r).as_str(), "IO(UnexpectedEof)" | "ReserveError") && kind <= 2 && name != "Vec<Small>" && (kind <= 1 || fill == 0) {
            return Err(format!("reading {name} of allowed length {n} with {avail} bytes from a stream: {}", err_str(&r)));
        }
    } else {
        pos = pos.max(1);
    }

    // skip: alone, as an element of a list, as a map value, as a field of a struct
    let (t, m) = match pos {
        0 => (tag, b.clone()),
        1 => match src.below(3) {
            0 => (9u8, [&[0x10 | tag][..], &b].concat()),
            1 => (10, [&[0x10 | tag][..], &b].concat()),
            _ => (11, [&[1, 0x30 | tag, 7][..], &b].concat()),
        },
        _ => (12, [&[0x50 | tag][..], &b].concat()),
    };
    let (r, max, _) = measure(|| CompactThriftInputSlice::new(&m).skip_field(t));
    if over && err_str(&r) != expect {
        return Err(format!("skipping type {tag} of announced length {n} inside type {t}: {}, expected {expect}", err_str(&r)));
    }
    if max > small {
        return Err(format!("skipping type {tag} of announced length {n} inside type {t} allocated {max} bytes"));
    }
    if !over && n > avail as u64 {
        let e = err_str(&r);
        if e == "InvalidCollectionLen" || e.starts_with("InvalidBinaryLen") && tag == 8 {
            return Err(format!("skipping type {tag} of allowed length {n} inside type {t}: {e}"));
        }
        if tag == 8 && e != eof() {
            return Err(format!("skipping a binary of allowed length {n} with {avail} bytes: {e}"));
        }
    }
    let mut s = SplitReader::new(&m, Split::new(1, 0, false));
    let r = s.skip_field(t);
    if over && err_str(&r) != expect {
        return Err(format!("skipping type {tag} of announced length {n} inside type {t} from a stream: {}, expected {expect}", err_str(&r)));
    }
    // an unknown field of a declared struct
    if !m.is_empty() {
        let p = Pick::named(pool(), "Empty");
        let mut f = vec![t];
        varint(zigzag(77), &mut f);
        f.extend_from_slice(&m);
        let r = (p.ops.light_slice)(&f);
        if over && err_str(&r) != expect {
            return Err(format!("unknown field with announced length {n}: {}, expected {expect}", err_str(&r)));
        }
    }
    Ok(())
}

fn binary_boundary(src: &mut Src, ctx: &mut Ctx) -> Res {
    let d = [-2i64, -1, 0, 1, 2, 1 << 20][(ctx.idx % 6) as usize];
    let n = (MAX_BIN as i64 + d) as usize;
    let kind = ctx.idx / 6;
    let ok = d <= 0;
    ctx.nontrivial = true;
    ctx.fp(&ctx.idx.to_le_bytes());
    ctx.repr(|| format!("way {kind} with {n} bytes"));
    let fill = src.byte() & 0x7f;
    let data = vec![fill; n];
    let text = || String::from_utf8(data.clone()).unwrap();
    let refused = format!("InvalidBinaryLen({n})");
    let check = |what: &str, r: Result<(), ThriftError>| -> Res {
        match (ok, r) {
            (true, Ok(())) => Ok(()),
            (false, Err(e)) if format!("{e:?}") == refused => Ok(()),
            (_, r) => Err(format!("{what} with {n} bytes: {r:?}")),
        }
    };
    let mut enc = vec![];
    varint(n as u64, &mut enc);
    enc.extend_from_slice(&data);
    match kind {
        0 => {
            let mut o = vec![];
            check("write_binary", o.write_binary(&data))?;
            if ok && o != enc {
                return Err(format!("write_binary of {n} bytes wrote {}", hex(&o[..20])));
            }
            check("read_binary", CompactThriftInputSlice::new(&enc).read_binary().map(|b| assert_same(&b, &data)))
        }
        1 => {
            let t = text();
            let mut o = vec![];
            check("write_string", o.write_string(&t))?;
            if ok && o != enc {
                return Err(format!("write_string of {n} bytes wrote {}", hex(&o[..20])));
            }
            check("read_string", CompactThriftInputSlice::new(&enc).read_string().map(|b| assert_same(b.as_bytes(), &data)))
        }
        2 => {
            let mut r = SplitReader::new(&enc, Split::new(3, 100_000, false));
            check("read_binary from a stream", r.read_binary().map(|b| assert_same(&b, &data)))
        }
        3 => {
            let mut r = SplitReader::new(&enc, Split::new(3, 100_000, false));
            check("read_string from a stream", r.read_string().map(|b| assert_same(b.as_bytes(), &data)))
        }
        4 => {
            check("skipping a binary", CompactThriftInputSlice::new(&enc).skip_field(8))?;
            let mut r = &enc[..];
            check("skipping a binary from a stream", r.skip_field(8))
        }
        5 => {
            let mut o = vec![];
            check("writing a Vec<u8>", data.write_thrift(&mut o))?;
            if ok {
                let r = Vec::<u8>::read_thrift(&mut CompactThriftInputSlice::new(&o));
                check("reading a Vec<u8>", r.map(|b| assert_same(&b, &data)))?;
            }
            Ok(())
        }
        6 => {
            let v: std::sync::Arc<str> = text().into();
            let mut o = vec![];
            check("writing an Arc<str>", v.write_thrift(&mut o))?;
            if ok {
                let r = std::sync::Arc::<str>::read_thrift(&mut &o[..]);
                check("reading an Arc<str>", r.map(|b| assert_same(b.as_bytes(), &data)))?;
            }
            Ok(())
        }
        7 => {
            // inside a struct
            let v = pool::Opts { bin: Some(data.clone()), ..Default::default() };
            let mut o = vec![];
            check("writing a struct", v.write_thrift(&mut o))?;
            if ok {
                let r = pool::Opts::read_thrift(&mut CompactThriftInputSlice::new(&o));
                check("reading a struct", r.map(|b| assert_same(b.bin.as_deref().unwrap_or(&[]), &data)))?;
            }
            Ok(())
        }
        8 => {
            // as an unknown field
            let mut m = vec![8u8];
            varint(zigzag(99), &mut m);
            m.extend_from_slice(&enc);
            m.push(0);
            check("an unknown binary field", pool::Opts::read_thrift(&mut CompactThriftInputSlice::new(&m)).map(|_| ()))?;
            check("an unknown binary field in a stream", pool::Opts::read_thrift(&mut &m[..]).map(|_| ()))
        }
        _ => {
            let mut m = vec![0x18];
            m.extend_from_slice(&enc);
            check("a list element", Vec::<Vec<u8>>::read_thrift(&mut CompactThriftInputSlice::new(&m)).map(|_| ()))?;
            check("skipping a list element", CompactThriftInputSlice::new(&m).skip_field(9))?;
            let mut o = vec![];
            check("writing a list element", vec![data.clone()].write_thrift(&mut o))
        }
    }
}

fn assert_same(a: &[u8], b: &[u8]) {
    if a != b {
        std::panic::resume_unwind({
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(("result".into(), "data read back differs".into())));
            Box::new(())
        });
    }
}

/// counts what is written without keeping it
struct Count(u64);

impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn collection_boundary(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = [MAX_COLL - 1, MAX_COLL, MAX_COLL + 1, MAX_COLL + 2][(ctx.idx % 4) as usize] as usize;
    let kind = ctx.idx / 4;
    let ok = n as u64 <= MAX_COLL;
    ctx.nontrivial = true;
    ctx.fp(&ctx.idx.to_le_bytes());
    ctx.repr(|| format!("way {kind} with {n} elements"));
    let x = src.byte() & 0x7f;
    let check = |what: &str, r: Result<(), ThriftError>| -> Res {
        match (ok, r) {
            (true, Ok(())) => Ok(()),
            (false, Err(ThriftError::InvalidCollectionLen)) => Ok(()),
            (_, r) => Err(format!("{what} with {n} elements: {r:?}")),
        }
    };
    let list = |tag: u8, per: &[u8]| {
        let mut b = vec![0xf0 | tag];
        varint(n as u64, &mut b);
        for _ in 0..n {
            b.extend_from_slice(per);
        }
        b
    };
    match kind {
        0 => {
            let mut o = Count(0);
            check("writing a Vec<bool>", vec![true; n].write_thrift(&mut o))?;
            if ok && o.0 != n as u64 + 5 {
                return Err(format!("{} bytes written for {n} booleans", o.0));
            }
            Ok(())
        }
        1 => {
            let mut o = vec![];
            check("writing a Vec<i8>", vec![x as i8; n].write_thrift(&mut o))?;
            if ok {
                let v = Vec::<i8>::read_thrift(&mut CompactThriftInputSlice::new(&o));
                check("reading a Vec<i8>", v.map(|v| assert_same(&[(v.len() == n && v.iter().all(|i| *i == x as i8)) as u8], &[1])))?;
            }
            Ok(())
        }
        2 => {
            let b = list(2, &[1]);
            check("reading a Vec<bool>", Vec::<bool>::read_thrift(&mut CompactThriftInputSlice::new(&b)).map(|_| ()))?;
            check("skipping a list<bool>", CompactThriftInputSlice::new(&b).skip_field(9))?;
            check("skipping a set<bool>", CompactThriftInputSlice::new(&b).skip_field(10))
        }
        3 => {
            let b = list(5, &[2]);
            check("reading a Vec<i32> from a stream", Vec::<i32>::read_thrift(&mut &b[..]).map(|_| ()))?;
            check("skipping a list<i32>", CompactThriftInputSlice::new(&b).skip_field(9))
        }
        4 => {
            let mut b = vec![];
            varint(n as u64, &mut b);
            b.push(0x33);
            b.extend(std::iter::repeat_n(1u8, 2 * n));
            check("skipping a map<i8,i8>", CompactThriftInputSlice::new(&b).skip_field(11))?;
            let mut r = &b[..];
            check("skipping a map<i8,i8> from a stream", r.skip_field(11))
        }
        5 => {
            let b = list(12, &[0]);
            check("skipping a list of empty structs", CompactThriftInputSlice::new(&b).skip_field(9))?;
            check("reading a Vec<Empty>", Vec::<pool::Empty>::read_thrift(&mut CompactThriftInputSlice::new(&b)).map(|_| ()))
        }
        6 => {
            let b = list(5, &[4]);
            let r = compact_thrift_parquet::EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b));
            check("reading an EncodingSet", r.map(|s| assert_same(&[s.len() as u8], &[1])))
        }
        7 => {
            let mut o = Count(0);
            check("writing a Vec<Empty>", vec![pool::Empty {}; n].write_thrift(&mut o))
        }
        _ => {
            // as an unknown field, inside a list
            let mut m = vec![9u8];
            varint(zigzag(99), &mut m);
            m.push(0x19);
            m.extend(list(3, &[x]));
            m.push(0);
            check("an unknown list of a list", pool::Opts::read_thrift(&mut CompactThriftInputSlice::new(&m)).map(|_| ()))?;
            let mut r = &m[..];
            check("an unknown list of a list in a stream", pool::Opts::read_thrift(&mut r).map(|_| ()))
        }
    }
}
