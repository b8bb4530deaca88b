//! Choice-sequence property engine: every random decision of a case is a bounded integer drawn from
//! `Src`; the recorded sequence replays and shrinks the whole case, whatever structure it has.

use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0xcbf29ce484222325, s.as_bytes())
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// how much large content a case may have
const BIG: usize = if cfg!(miri) { 300 } else { 100_000 };
/// and how many elements a collection
const LONG: u64 = if cfg!(miri) { 24 } else { 140 };

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// how much large content this case may still have
    big: usize,
    /// every choice is also written here, for cases that end the process
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), rec: Vec::with_capacity(64), big: BIG, trace: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices), rec: Vec::with_capacity(64), big: BIG, trace: None }
    }
    pub fn trace_to(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }
    fn record(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// uniform in 0..n, shrinks towards 0
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if n == 0 { 0 } else { ((r.next() as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(c) => c.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.record(v);
        v
    }
    pub fn any_u64(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => r.next(),
            Mode::Replay(c) => c.get(self.rec.len()).copied().unwrap_or(0),
        };
        self.record(v);
        v
    }
    /// inclusive range, shrinks towards lo
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den, shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        // eight bytes per choice keeps the sequences short
        let mut out = Vec::with_capacity(len);
        while out.len() < len {
            let n = (len - out.len()).min(4);
            let v = self.below(1 << (8 * n));
            out.extend_from_slice(&v.to_le_bytes()[..n]);
        }
        out
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.index(xs.len());
        &xs[i]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    /// random permutation of 0..n (identity when every choice is 0)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.index(n - i);
            v.swap(i, j);
        }
        v
    }
    /// small collection sizes, occasionally larger, with the header boundary 14/15/16 favoured
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.weighted(&[12, 6, 2, 1]) {
            0 => self.range(0, 3),
            1 => self.range(4, 9),
            2 => self.range(13, 17),
            _ => self.range(0, LONG),
        };
        (n as usize).min(max)
    }
    /// `len(max)`, but once in a while a large number, where one unit takes up `cost` of what a case may have
    pub fn size(&mut self, max: usize, cost: usize) -> usize {
        match self.below(2100) {
            v @ 0..=1199 => (v / 300) as usize,
            v @ 1200..=1799 => 4 + (v - 1200) as usize / 100,
            v @ 1800..=1999 => 13 + (v - 1800) as usize / 40,
            2099 => {
                if cost == 1 && self.big >= 100_000 && self.chance(1, 16) {
                    self.big = 0;
                    return (1 << 20) + self.range(0, 2) as usize - 1;
                }
                let k = self.range(8, 16);
                let n = if self.flip() { (1 << k) + self.range(0, 4) - 2 } else { self.below(1 << k) };
                let n = (n as usize).min(self.big / cost);
                self.big -= n * cost;
                return n;
            }
            _ => self.range(0, LONG) as usize,
        }
        .min(max)
    }
    /// bytes for a length drawn by `size`
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        if n <= 400 {
            return self.bytes(n);
        }
        let mut r = Rng::new(self.below(1 << 32));
        (0..n).map(|_| r.next() as u8).collect()
    }
    /// integers with all magnitudes and the boundaries of varint groups
    pub fn int(&mut self, bits: u32) -> i64 {
        let v: i64 = match self.weighted(&[6, 3, 4, 3]) {
            0 => self.below(8) as i64,
            1 => self.below(200) as i64 - 100,
            2 => {
                let sh = self.below(bits as u64) as u32;
                let base = (1i128 << sh) as i64;
                base.wrapping_add(self.below(3) as i64 - 1)
            }
            _ => {
                let w = self.range(1, bits as u64) as u32;
                let r = self.any_u64();
                (r >> (64 - w)) as i64
            }
        };
        let v = if self.flip() { v.wrapping_neg() } else { v };
        let s = 64 - bits;
        (v << s) >> s
    }
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub fp: u64,
    pub want_repr: bool,
    /// for the description of a failing case
    pub full_repr: bool,
    pub repr: String,
    pub evals: u64,
    /// number of the case within its sub-check, for enumerations
    pub idx: u64,
    /// signatures of recorded findings that this case ran into
    pub known: Vec<(&'static str, String)>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// A deviation with an exact signature; a failure unless the findings file lists the signature.
    pub fn known(&mut self, sig: &'static str, what: String) {
        self.known.push((sig, what));
    }
    pub fn fp(&mut self, b: &[u8]) {
        self.fp = hash_bytes(self.fp ^ 0xcbf29ce484222325, b);
    }
    pub fn repr(&mut self, f: impl FnOnce() -> String) {
        if self.want_repr {
            if !self.repr.is_empty() {
                self.repr.push_str(" | ");
            }
            let s = f();
            self.repr.push_str(&s);
        }
    }
}

pub type Res = Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub cases: u64,
    pub per_sub: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub hashes: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    const MAX: usize = 400;
    let mut s = String::with_capacity(b.len().min(MAX) * 2 + 16);
    for x in &b[..b.len().min(MAX)] {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > MAX {
        let _ = write!(s, "...({} bytes)", b.len());
    }
    s
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

/// Runs one case, turning panics of the code under test into failures.
/// `Err((harness_error, message))`.
pub fn run_case(f: fn(&mut Src, &mut Ctx) -> Res, src: &mut Src, ctx: &mut Ctx) -> Result<(), (bool, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, ctx))) {
        Ok(Ok(())) => {
            for (sig, what) in &ctx.known {
                if !KNOWN.get().is_some_and(|k| k.iter().any(|x| x == sig)) {
                    return Err((false, format!("{sig}: {what}")));
                }
            }
            Ok(())
        }
        Ok(Err(m)) => {
            let h = m.starts_with("HARNESS:");
            Err((h, m))
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let harness = loc.starts_with("src/") || loc.starts_with("/verif/") || msg.starts_with("HARNESS:");
            Err((harness, format!("panic at {loc}: {msg}")))
        }
    }
}

/// signatures listed in the findings file
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Shrinks a failing choice sequence. `fails` re-runs a candidate and returns the (possibly shorter)
/// recorded sequence if it still fails.
pub fn shrink(mut best: Vec<u64>, mut budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 && budget > 0 {
                let start = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(start..i.min(cand.len()));
                budget -= 1;
                if let Some(r) = fails(&cand) {
                    if better(&r, &best) {
                        best = r;
                        improved = true;
                        i = i.min(best.len());
                        continue;
                    }
                }
                // deletion together with a decrement of an earlier size choice
                if start > 0 && budget > 0 && best[start - 1] > 0 {
                    let mut cand = best.clone();
                    cand.drain(start..i.min(cand.len()));
                    cand[start - 1] -= 1;
                    budget -= 1;
                    if let Some(r) = fails(&cand) {
                        if better(&r, &best) {
                            best = r;
                            improved = true;
                            i = i.min(best.len());
                            continue;
                        }
                    }
                }
                i = start;
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] > 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                let mut cand = best.clone();
                cand[i] = 0;
                budget -= 1;
                if let Some(r) = fails(&cand) {
                    if better(&r, &best) {
                        best = r;
                        improved = true;
                        i += 1;
                        continue;
                    }
                }
                while hi - lo > 1 && budget > 0 && i < best.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    budget -= 1;
                    match fails(&cand) {
                        Some(r) if better(&r, &best) => {
                            best = r;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
    }
    best
}
