//! Reference model of the compact protocol: self-describing wire trees, an encoder that can use every
//! legal spelling, and an independent parser. Written from the protocol specification.

use crate::engine::Src;

pub const T_TRUE: u8 = 1;
pub const T_FALSE: u8 = 2;
pub const T_I8: u8 = 3;
pub const T_I16: u8 = 4;
pub const T_I32: u8 = 5;
pub const T_I64: u8 = 6;
pub const T_DOUBLE: u8 = 7;
pub const T_BINARY: u8 = 8;
pub const T_LIST: u8 = 9;
pub const T_SET: u8 = 10;
pub const T_MAP: u8 = 11;
pub const T_STRUCT: u8 = 12;

#[derive(Clone, Debug, PartialEq)]
pub enum Wire {
    Bool(bool),
    I8(u8),
    /// type tag 4..=6 and value
    Int(u8, i64),
    Double([u8; 8]),
    Bin(Vec<u8>),
    /// tag 9 or 10, element type, elements
    List(u8, u8, Vec<Wire>),
    Map(u8, u8, Vec<(Wire, Wire)>),
    Struct(Vec<(i16, Wire)>),
}

impl Wire {
    pub fn tag(&self) -> u8 {
        match self {
            Wire::Bool(true) => T_TRUE,
            Wire::Bool(false) => T_FALSE,
            Wire::I8(_) => T_I8,
            Wire::Int(t, _) => *t,
            Wire::Double(_) => T_DOUBLE,
            Wire::Bin(_) => T_BINARY,
            Wire::List(t, _, _) => *t,
            Wire::Map(..) => T_MAP,
            Wire::Struct(_) => T_STRUCT,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Wire::List(_, _, v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            Wire::Map(_, _, v) => 1 + v.iter().map(|(a, b)| a.depth().max(b.depth())).max().unwrap_or(0),
            Wire::Struct(v) => 1 + v.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// Which alternative spellings the encoder may use.
pub struct Style<'a> {
    pub src: Option<&'a mut Src>,
    pub permute: bool,
    pub long_header: bool,
    pub pad: bool,
    pub long_list: bool,
    pub bool_elem: bool,
}

impl<'a> Style<'a> {
    pub fn canon() -> Style<'static> {
        Style { src: None, permute: false, long_header: false, pad: false, long_list: false, bool_elem: false }
    }
    pub fn any(src: &'a mut Src) -> Style<'a> {
        Style { src: Some(src), permute: true, long_header: true, pad: true, long_list: true, bool_elem: true }
    }
    fn coin(&mut self, on: bool, num: u64, den: u64) -> bool {
        match (&mut self.src, on) {
            (Some(s), true) => s.chance(num, den),
            _ => false,
        }
    }
}

pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        (-(v as i128) * 2 - 1) as u64
    }
}

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let g = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(g);
            return;
        }
        out.push(g + 128);
    }
}

fn padded(v: u64, st: &mut Style, out: &mut Vec<u8>) {
    varint(v, out);
    if st.coin(st.pad, 1, 12) {
        let n = match st.src.as_mut() {
            Some(s) => {
                if s.chance(1, 4) {
                    if s.chance(1, 16) {
                        s.range(25, 300)
                    } else {
                        s.range(8, 24)
                    }
                } else {
                    s.range(1, 4)
                }
            }
            None => 0,
        };
        if n > 0 {
            let l = out.len();
            out[l - 1] |= 0x80;
            for _ in 1..n {
                out.push(0x80);
            }
            out.push(0);
        }
    }
}

pub fn encode(w: &Wire, st: &mut Style, out: &mut Vec<u8>) {
    match w {
        // only reached inside collections; in structs the header carries the value
        Wire::Bool(b) => encode_elem_bool(*b, st, out),
        Wire::I8(b) => out.push(*b),
        Wire::Int(_, v) => padded(zigzag(*v), st, out),
        Wire::Double(b) => out.extend_from_slice(b),
        Wire::Bin(b) => {
            padded(b.len() as u64, st, out);
            out.extend_from_slice(b);
        }
        Wire::List(_, elem, items) => {
            let mut elem = *elem;
            if elem == T_TRUE || elem == T_FALSE {
                elem = if st.coin(st.bool_elem, 1, 2) { T_TRUE } else { T_FALSE };
            }
            if items.len() >= 15 || st.coin(st.long_list, 1, 4) {
                out.push(0xF0 | elem);
                padded(items.len() as u64, st, out);
            } else {
                out.push((items.len() as u8) << 4 | elem);
            }
            for i in items {
                encode(i, st, out);
            }
        }
        Wire::Map(k, v, items) => {
            padded(items.len() as u64, st, out);
            if !items.is_empty() {
                out.push(k << 4 | v);
                for (a, b) in items {
                    encode(a, st, out);
                    encode(b, st, out);
                }
            }
        }
        Wire::Struct(fields) => {
            let order: Vec<usize> = if st.permute && st.coin(true, 1, 2) {
                st.src.as_mut().unwrap().perm(fields.len())
            } else {
                (0..fields.len()).collect()
            };
            let mut last = 0i16;
            for i in order {
                let (id, w) = &fields[i];
                let delta = *id as i32 - last as i32;
                if (1..=15).contains(&delta) && !st.coin(st.long_header, 1, 6) {
                    out.push((delta as u8) << 4 | w.tag());
                } else {
                    out.push(w.tag());
                    padded(zigzag(*id as i64), st, out);
                }
                last = *id;
                if !matches!(w, Wire::Bool(_)) {
                    encode(w, st, out);
                }
            }
            out.push(0);
        }
    }
}

fn encode_elem_bool(b: bool, st: &mut Style, out: &mut Vec<u8>) {
    if b {
        out.push(1)
    } else if st.coin(st.bool_elem, 1, 3) {
        out.push(0)
    } else {
        out.push(2)
    }
}

pub fn canon(w: &Wire) -> Vec<u8> {
    let mut o = vec![];
    encode(w, &mut Style::canon(), &mut o);
    o
}

/// Random well-formed wire value of any type, for unknown fields.
pub fn gen_wire(src: &mut Src, depth: usize) -> Wire {
    let t = if depth == 0 { src.range(1, 8) } else { src.range(1, 12) } as u8;
    gen_wire_of(src, t, depth)
}

pub fn gen_wire_of(src: &mut Src, t: u8, depth: usize) -> Wire {
    match t {
        1 => Wire::Bool(true),
        2 => Wire::Bool(src.flip()),
        3 => Wire::I8(src.byte()),
        4 => Wire::Int(4, src.int(16)),
        5 => Wire::Int(5, src.int(32)),
        6 => Wire::Int(6, src.int(64)),
        7 => {
            let b = src.bytes(8);
            Wire::Double(b.try_into().unwrap())
        }
        8 => {
            let n = src.size(200, 1);
            Wire::Bin(src.content(n))
        }
        9 | 10 => {
            let d = depth.saturating_sub(1);
            let e = if d == 0 { src.range(1, 8) } else { src.range(1, 12) } as u8;
            let n = src.size(if d == 0 { 40 } else { 17 }, if d == 0 && e != 8 { 8 } else { 50 });
            let part: Vec<Wire> = (0..if n > 140 { 5 } else { n }).map(|_| gen_wire_of(src, e, if n > 140 { d.min(1) } else { d })).collect();
            Wire::List(t, e, part.iter().cycle().take(n).cloned().collect())
        }
        11 => {
            let d = depth.saturating_sub(1);
            let hi = if d == 0 { 8 } else { 12 };
            let k = src.range(1, hi) as u8;
            let v = src.range(1, hi) as u8;
            let n = src.size(17, 50);
            let part: Vec<(Wire, Wire)> = (0..if n > 140 { 5 } else { n }).map(|_| (gen_wire_of(src, k, d), gen_wire_of(src, v, d))).collect();
            Wire::Map(k, v, part.iter().cycle().take(n).cloned().collect())
        }
        _ => {
            let d = depth.saturating_sub(1);
            let n = src.size(20, 50);
            let mut id = 0i16;
            let mut fields = vec![];
            for _ in 0..n {
                id = if src.chance(1, 8) { src.int(16) as i16 } else { id.wrapping_add(src.range(1, 20) as i16) };
                let w = if d == 0 {
                    let t = src.range(1, 8) as u8;
                    gen_wire_of(src, t, 0)
                } else {
                    gen_wire(src, d)
                };
                fields.push((id, w));
            }
            Wire::Struct(fields)
        }
    }
}

/// Result of the reference parser. `Unspec` marks input whose meaning neither the specification nor
/// the documentation of the library fixes; no expectation is derived from it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PErr {
    Eof,
    Bad,
    Unspec,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// set when some decoded number was out of the range of its type
    pub unspec: bool,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0, unspec: false }
    }
    pub fn byte(&mut self) -> Result<u8, PErr> {
        let r = self.b.get(self.pos).copied().ok_or(PErr::Eof)?;
        self.pos += 1;
        Ok(r)
    }
    /// varint of any length; significant bits beyond 64 make the value unspecified
    pub fn varint(&mut self) -> Result<u64, PErr> {
        let mut v = 0u128;
        let mut n = 0u32;
        loop {
            let x = self.byte()?;
            let g = (x & 0x7f) as u128;
            if g != 0 {
                if n >= 10 || (g << (7 * n)) >> 64 != 0 {
                    self.unspec = true;
                } else {
                    v |= g << (7 * n);
                }
            }
            n += 1;
            if x < 128 {
                return Ok(v as u64);
            }
        }
    }
    pub fn int(&mut self, bits: u32) -> Result<i64, PErr> {
        let u = self.varint()?;
        let v = (u >> 1) as i64 ^ -((u & 1) as i64);
        let s = 64 - bits;
        if (v << s) >> s != v {
            self.unspec = true;
        }
        Ok((v << s) >> s)
    }
    pub fn take(&mut self, n: u64) -> Result<&'a [u8], PErr> {
        if n > (self.b.len() - self.pos) as u64 {
            return Err(PErr::Eof);
        }
        let r = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    pub fn binary(&mut self) -> Result<&'a [u8], PErr> {
        let n = self.varint()?;
        if n > 16 * 1024 * 1024 {
            return Err(PErr::Bad);
        }
        self.take(n)
    }
    pub fn list_header(&mut self) -> Result<(u64, u8), PErr> {
        let h = self.byte()?;
        let n = if h >> 4 == 15 { self.varint()? } else { (h >> 4) as u64 };
        if n > 10_000_000 {
            return Err(PErr::Bad);
        }
        Ok((n, h & 15))
    }
    /// (type, id); type 0 = stop
    pub fn field_header(&mut self, last: &mut i16) -> Result<u8, PErr> {
        let h = self.byte()?;
        if h == 0 {
            return Ok(0);
        }
        if h >> 4 == 0 {
            *last = self.int(16)? as i16;
        } else {
            let id = *last as i32 + (h >> 4) as i32;
            if id > i16::MAX as i32 {
                return Err(PErr::Unspec);
            }
            *last = id as i16;
        }
        if h & 15 == 0 {
            return Err(PErr::Unspec);
        }
        Ok(h & 15)
    }
    pub fn skip(&mut self, t: u8, in_coll: bool, depth: usize) -> Result<(), PErr> {
        if depth > 48 {
            return Err(PErr::Unspec);
        }
        match t {
            1 | 2 => {
                if in_coll {
                    self.byte()?;
                }
            }
            3 => {
                self.byte()?;
            }
            4..=6 => {
                // the value is irrelevant
                let u = self.unspec;
                self.varint()?;
                self.unspec = u;
            }
            7 => {
                self.take(8)?;
            }
            8 => {
                self.binary()?;
            }
            9 | 10 => {
                let (n, e) = self.list_header()?;
                if !(1..=12).contains(&e) {
                    // an empty list of an invalid element type: unspecified
                    return Err(if n == 0 { PErr::Unspec } else { PErr::Bad });
                }
                for _ in 0..n {
                    self.skip(e, true, depth + 1)?;
                }
            }
            11 => {
                let n = self.varint()?;
                if n > 0 {
                    let t = self.byte()?;
                    if n > 10_000_000 {
                        return Err(PErr::Bad);
                    }
                    for _ in 0..n {
                        self.skip(t >> 4, true, depth + 1)?;
                        self.skip(t & 15, true, depth + 1)?;
                    }
                }
            }
            12 => {
                let mut last = 0;
                loop {
                    let t = self.field_header(&mut last)?;
                    if t == 0 {
                        break;
                    }
                    self.skip(t, false, depth + 1)?;
                }
            }
            _ => return Err(PErr::Bad),
        }
        Ok(())
    }
}
