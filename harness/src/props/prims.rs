//! C17: sequences of primitive operations.

use crate::engine::*;
use crate::io::*;
use crate::types::consumed;
use crate::value::{gen_double, gen_string};
use crate::wire::*;
use compact_thrift_runtime::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        rule: "random sequences of primitive writes are compared with the reference encoding of each value in turn; random sequences of primitive reads, header reads and skips run against a model of the encoded items, on the slice (with clones taken in between that must keep their own position) and on a split stream; non-trivial: at least 3 operations; distinct by bytes",
        assumptions: &["varints may be padded with redundant zero groups; numbers fit their type"],
        subs: vec![
            Sub { name: "write", quick: 60_000, thorough: 1_500_000, f: writes },
            Sub { name: "read", quick: 80_000, thorough: 2_000_000, f: reads },
        ],
    }]
}

fn writes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 14);
    let mut want = vec![];
    let mut out = SplitWriter { out: vec![], split: Split::gen(src), fault: None, once: false };
    let mut log = vec![];
    for k in 0..n {
        let r = match src.below(8) {
            0 => {
                let x = src.byte();
                want.push(x);
                log.push(format!("byte {x}"));
                out.write_byte(x)
            }
            1 => {
                let s = src.below(64);
                let x = if src.flip() { src.any_u64() >> s } else { (1u64 << s).wrapping_sub(src.below(2)) } as usize;
                varint(x as u64, &mut want);
                log.push(format!("len {x}"));
                out.write_len(x)
            }
            2 => {
                let x = src.int(16) as i16;
                varint(zigzag(x as i64), &mut want);
                log.push(format!("i16 {x}"));
                out.write_i16(x)
            }
            3 => {
                let x = src.int(32) as i32;
                varint(zigzag(x as i64), &mut want);
                log.push(format!("i32 {x}"));
                out.write_i32(x)
            }
            4 => {
                let x = src.int(64);
                varint(zigzag(x), &mut want);
                log.push(format!("i64 {x}"));
                out.write_i64(x)
            }
            5 => {
                let x = gen_double(src);
                want.extend(x.to_le_bytes());
                log.push(format!("double {x:x}"));
                out.write_double(f64::from_bits(x))
            }
            6 => {
                let n = src.size(400, 1);
                let x = src.content(n);
                varint(n as u64, &mut want);
                want.extend_from_slice(&x);
                log.push(format!("binary of {n}"));
                out.write_binary(&x)
            }
            _ => {
                let x = gen_string(src);
                varint(x.len() as u64, &mut want);
                want.extend_from_slice(x.as_bytes());
                log.push(format!("string {x:?}"));
                out.write_string(&x)
            }
        };
        if let Err(e) = r {
            return Err(format!("operation {k} of {log:?}: {e:?}"));
        }
        if out.out != want {
            return Err(format!("after {log:?}: expected {}, written {}", hex(&want), hex(&out.out)));
        }
    }
    ctx.nontrivial = n >= 3;
    ctx.fp(&want);
    ctx.repr(|| clip(&format!("{log:?}"), 500));
    Ok(())
}

#[derive(Debug, Clone)]
enum Item {
    Byte(u8),
    Len(usize),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bin(Vec<u8>),
    Str(String),
    SkipInt,
    SkipBin,
    SkipField(u8),
    Header(i16, u8, i16),
    Stop(i16),
    List(u32, u8),
    Map(u32, u8, u8),
}

fn pad(src: &mut Src, v: u64, b: &mut Vec<u8>) {
    varint(v, b);
    if src.chance(1, 6) {
        let n = src.range(1, 12);
        let l = b.len();
        b[l - 1] |= 0x80;
        for _ in 1..n {
            b.push(0x80);
        }
        b.push(0);
    }
}

fn item(src: &mut Src, b: &mut Vec<u8>) -> Item {
    match src.below(15) {
        0 => {
            let x = src.byte();
            b.push(x);
            Item::Byte(x)
        }
        1 => {
            let s = src.below(64);
            let x = (src.any_u64() >> s) as usize;
            pad(src, x as u64, b);
            Item::Len(x)
        }
        2 => {
            let x = src.int(16);
            pad(src, zigzag(x), b);
            Item::I16(x as i16)
        }
        3 => {
            let x = src.int(32);
            pad(src, zigzag(x), b);
            Item::I32(x as i32)
        }
        4 => {
            let x = src.int(64);
            pad(src, zigzag(x), b);
            Item::I64(x)
        }
        5 => {
            let x = gen_double(src);
            b.extend(x.to_le_bytes());
            Item::Double(x)
        }
        6 => {
            let n = src.size(300, 1);
            let x = src.content(n);
            pad(src, n as u64, b);
            b.extend_from_slice(&x);
            Item::Bin(x)
        }
        7 => {
            let x = gen_string(src);
            pad(src, x.len() as u64, b);
            b.extend_from_slice(x.as_bytes());
            Item::Str(x)
        }
        8 => {
            let s = src.below(64);
            let x = src.any_u64() >> s;
            pad(src, x, b);
            Item::SkipInt
        }
        9 => {
            let n = src.size(300, 1);
            let x = src.content(n);
            pad(src, n as u64, b);
            b.extend(x);
            Item::SkipBin
        }
        10 => {
            let t = src.range(1, 12) as u8;
            let w = gen_wire_of(src, t, 2);
            if !matches!(w, Wire::Bool(_)) {
                encode(&w, &mut Style::any(src), b);
            }
            Item::SkipField(w.tag())
        }
        11 => {
            // short header
            let d = src.range(1, 15) as i16;
            let t = src.range(1, 12) as u8;
            let last = if src.flip() { src.range(0, 100) as i16 } else { src.int(16) as i16 };
            let last = last.min(i16::MAX - d);
            b.push((d as u8) << 4 | t);
            Item::Header(last, t, last + d)
        }
        12 => {
            if src.chance(1, 4) {
                b.push(0);
                return Item::Stop(src.int(16) as i16);
            }
            let t = src.range(1, 12) as u8;
            let id = src.int(16) as i16;
            b.push(t);
            pad(src, zigzag(id as i64), b);
            Item::Header(src.int(16) as i16, t, id)
        }
        13 => {
            let t = src.range(1, 12) as u8;
            let n = match src.below(3) {
                0 => src.range(0, 20),
                1 => *src.pick(&[14u64, 15, 16, 127, 128, 10_000_000, 9_999_999, 16384]),
                _ => src.range(0, 10_000_000),
            };
            if n >= 15 || src.flip() {
                b.push(0xf0 | t);
                pad(src, n, b);
            } else {
                b.push((n as u8) << 4 | t);
            }
            Item::List(n as u32, t)
        }
        _ => {
            let (k, v) = (src.range(1, 12) as u8, src.range(1, 12) as u8);
            let n = match src.below(3) {
                0 => src.range(0, 3),
                1 => *src.pick(&[127u64, 128, 10_000_000, 9_999_999]),
                _ => src.range(0, 10_000_000),
            };
            pad(src, n, b);
            if n == 0 {
                return Item::Map(0, 0, 0);
            }
            b.push(k << 4 | v);
            Item::Map(n as u32, k, v)
        }
    }
}

/// performs the read of one item; true if it gave the expected result
fn read<'i, I: CompactThriftInput<'i>>(i: &mut I, it: &Item) -> Result<bool, ThriftError> {
    Ok(match it {
        Item::Byte(x) => i.read_byte()? == *x,
        Item::Len(x) => i.read_len()? == *x,
        Item::I16(x) => i.read_i16()? == *x,
        Item::I32(x) => i.read_i32()? == *x,
        Item::I64(x) => i.read_i64()? == *x,
        Item::Double(x) => i.read_double()?.to_bits() == *x,
        Item::Bin(x) => *i.read_binary()? == **x,
        Item::Str(x) => i.read_string()? == *x,
        Item::SkipInt => {
            i.skip_integer()?;
            true
        }
        Item::SkipBin => {
            i.skip_binary()?;
            true
        }
        Item::SkipField(t) => {
            i.skip_field(*t)?;
            true
        }
        Item::Header(last, t, id) => {
            let mut l = *last;
            i.read_field_header(&mut l)? == *t && l == *id
        }
        Item::Stop(last) => {
            let mut l = *last;
            i.read_field_header(&mut l)? == 0 && l == *last
        }
        Item::List(n, t) => read_collection_len_and_type(i)? == (*n, *t),
        Item::Map(n, k, v) => {
            let r = read_map_len_and_types(i)?;
            // an empty map has no types
            if *n == 0 { r.0 == 0 } else { r == (*n, *k, *v) }
        }
    })
}

fn reads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 12) as usize;
    let mut b = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let it = item(src, &mut b);
        items.push((it, b.len()));
    }
    let k = src.below(20) as usize;
    b.extend(src.bytes(k));
    ctx.nontrivial = n >= 3;
    ctx.fp(&b);
    ctx.repr(|| clip(&format!("{:?}", items.iter().map(|i| &i.0).collect::<Vec<_>>()), 500));
    let mut i = CompactThriftInputSlice::from(&b[..]);
    let mut clones: Vec<(CompactThriftInputSlice, usize)> = vec![];
    for (k, (it, end)) in items.iter().enumerate() {
        if src.chance(1, 3) {
            clones.push((i.clone(), k));
        }
        match read(&mut i, it) {
            Ok(true) if i.as_slice() == &b[*end..] && consumed(&b, i.as_slice()) == *end => {}
            r => return Err(format!("operation {k} of {items:?} on {}: {r:?}, position {}, expected {end}", hex(&b), b.len() - i.as_slice().len().min(b.len()))),
        }
    }
    // clones continue from where they were taken
    for (mut c, at) in clones {
        ctx.label("clone");
        for (k, (it, end)) in items.iter().enumerate().skip(at) {
            match read(&mut c, it) {
                Ok(true) if c.as_slice() == &b[*end..] => {}
                r => return Err(format!("clone taken before operation {at}, operation {k} of {items:?} on {}: {r:?}", hex(&b))),
            }
        }
    }
    let mut r = SplitReader::new(&b, Split::gen(src));
    for (k, (it, end)) in items.iter().enumerate() {
        match read(&mut r, it) {
            Ok(true) if r.pos == *end => {}
            x => return Err(format!("stream operation {k} of {items:?} on {}: {x:?}, position {}, expected {end}", hex(&b), r.pos)),
        }
    }
    Ok(())
}
