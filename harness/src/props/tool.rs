//! C18: the schema program, run as a black box on generated files.

use super::util::*;
use crate::engine::*;
use crate::types::parquet;
use crate::value::gen_string;
use crate::wire::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "Parquet files with generated schema trees (all physical, converted and logical types, valid and invalid annotations, nesting to the limit) and damaged element lists (child counts, missing or trailing elements, leaf types, root repetition) are given to the unmodified program; stdout is compared with a reference printer, rejections must be schema errors without a signal; non-trivial: at least two elements; distinct by the metadata bytes",
        assumptions: &["unknown repetition numbers and unknown members of the logical type union are not generated"],
        subs: vec![
            Sub { name: "tree", quick: 12_000, thorough: 250_000, f: tree },
            Sub { name: "damaged", quick: 10_000, thorough: 200_000, f: damaged },
            Sub { name: "wide", quick: 150, thorough: 2_500, f: wide },
            Sub { name: "nesting", quick: 600, thorough: 8_000, f: nesting },
        ],
    }]
}

pub fn work_dir() -> PathBuf {
    let d = std::env::var("CTV_DIR").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(d).join("work")
}

/// removes the scratch directories of processes that are gone
pub fn cleanup() {
    if let Ok(rd) = std::fs::read_dir(work_dir()) {
        for e in rd.flatten() {
            if let Some(pid) = e.file_name().to_str().and_then(|n| n.strip_prefix("tool-")) {
                if !std::path::Path::new(&format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Unit {
    Millis,
    Micros,
    Nanos,
}

#[derive(Clone, Debug)]
enum Logical {
    /// union member without content
    Plain(i16),
    Decimal { scale: i32, precision: i32 },
    Time(bool, Unit),
    Timestamp(bool, Unit),
    Integer(i8, bool),
    Variant(Option<i8>),
    Geometry(Option<String>),
    Geography(Option<String>, Option<i32>),
}

impl Logical {
    fn gen(src: &mut Src) -> Logical {
        let unit = |src: &mut Src| src.pick(&[Unit::Millis, Unit::Micros, Unit::Nanos]).clone();
        let crs = |src: &mut Src| src.flip().then(|| "OGC:CRS84".to_string());
        match src.below(10) {
            0..=3 => Logical::Plain(*src.pick(&[1, 2, 3, 4, 6, 11, 12, 13, 14, 15])),
            4 => {
                let (scale, precision) = gen_decimal(src);
                Logical::Decimal { scale, precision }
            }
            5 => Logical::Time(src.flip(), unit(src)),
            6 => Logical::Timestamp(src.flip(), unit(src)),
            7 => Logical::Integer(if src.chance(2, 3) { *src.pick(&[8, 16, 32, 64]) } else { src.int(8) as i8 }, src.flip()),
            8 => Logical::Variant(src.flip().then(|| src.int(8) as i8)),
            _ => {
                if src.flip() {
                    Logical::Geometry(crs(src))
                } else {
                    Logical::Geography(crs(src), src.flip().then(|| src.below(5) as i32))
                }
            }
        }
    }
    fn wire(&self) -> Wire {
        let st = |w: Vec<(i16, Wire)>| Wire::Struct(w);
        let unit = |u: &Unit| Wire::Struct(vec![(1 + (*u == Unit::Micros) as i16 + 2 * (*u == Unit::Nanos) as i16, Wire::Struct(vec![]))]);
        let s = |x: &Option<String>| x.iter().map(|x| (1i16, Wire::Bin(x.as_bytes().to_vec()))).collect::<Vec<_>>();
        let (id, w) = match self {
            Logical::Plain(id) => (*id, st(vec![])),
            Logical::Decimal { scale, precision } => {
                (5, st(vec![(1, Wire::Int(T_I32, *scale as i64)), (2, Wire::Int(T_I32, *precision as i64))]))
            }
            Logical::Time(utc, u) => (7, st(vec![(1, Wire::Bool(*utc)), (2, unit(u))])),
            Logical::Timestamp(utc, u) => (8, st(vec![(1, Wire::Bool(*utc)), (2, unit(u))])),
            Logical::Integer(w, s) => (10, st(vec![(1, Wire::I8(*w as u8)), (2, Wire::Bool(*s))])),
            Logical::Variant(v) => (16, st(v.iter().map(|v| (1, Wire::I8(*v as u8))).collect())),
            Logical::Geometry(c) => (17, st(s(c))),
            Logical::Geography(c, a) => {
                let mut f = s(c);
                f.extend(a.iter().map(|a| (2, Wire::Int(T_I32, *a as i64))));
                (18, st(f))
            }
        };
        Wire::Struct(vec![(id, w)])
    }
    fn leaf(&self) -> Option<String> {
        Some(match self {
            Logical::Plain(1) => "String".into(),
            Logical::Plain(4) => "Enum".into(),
            Logical::Plain(6) => "Date".into(),
            Logical::Plain(11) => "Unknown".into(),
            Logical::Plain(12) => "Json".into(),
            Logical::Plain(13) => "Bson".into(),
            Logical::Plain(14) => "UUID".into(),
            Logical::Plain(15) => "Float16".into(),
            Logical::Plain(_) => return None,
            Logical::Decimal { scale, precision } => decimal(*scale, *precision)?,
            Logical::Time(utc, u) => time("Time", *utc, u),
            Logical::Timestamp(utc, u) => time("Timestamp", *utc, u),
            Logical::Integer(w, s) => {
                if *w <= 0 {
                    return None;
                }
                format!("Integer({}{w})", if *s { 'i' } else { 'u' })
            }
            Logical::Variant(_) => return None,
            Logical::Geometry(_) => "Geometry".into(),
            Logical::Geography(..) => "Geography".into(),
        })
    }
    fn group(&self) -> Option<String> {
        match self {
            Logical::Plain(2) => Some("Map".into()),
            Logical::Plain(3) => Some("List".into()),
            Logical::Variant(v) => Some(format!("Variant {{ specification_version: {v:?} }}")),
            _ => None,
        }
    }
}

fn gen_decimal(src: &mut Src) -> (i32, i32) {
    let p = match src.below(4) {
        0 => *src.pick(&[1, 127, 128, 0, -1, 255, 256, 257, i32::MAX, i32::MIN]),
        1 => src.int(32) as i32,
        _ => src.range(1, 127) as i32,
    };
    let s = match src.below(4) {
        0 => *src.pick(&[0, -128, -129, 127, i32::MIN, i32::MAX, 128, 256]),
        1 => p.saturating_add(src.below(3) as i32 - 1),
        2 => -(src.below(130) as i32),
        _ => src.below(p.max(1) as u64) as i32,
    };
    (s, p)
}

fn decimal(scale: i32, precision: i32) -> Option<String> {
    if !(1..=127).contains(&precision) || scale < -128 || scale > precision {
        return None;
    }
    Some(format!("Decimal(DecimalOptions {{ precision: {precision}, scale: {scale} }})"))
}

fn time(n: &str, utc: bool, u: &Unit) -> String {
    format!("{n}(TimeOptions {{ is_adjusted_to_utc: {utc}, time_unit: {u:?} }})")
}

fn converted_leaf(c: i32, scale: Option<i32>, precision: Option<i32>) -> Option<String> {
    Some(match c {
        0 => "String".into(),
        4 => "Enum".into(),
        5 => decimal(scale?, precision?)?,
        6 => "Date".into(),
        7 => time("Time", true, &Unit::Millis),
        8 => time("Time", true, &Unit::Micros),
        9 => time("Timestamp", true, &Unit::Millis),
        10 => time("Timestamp", true, &Unit::Micros),
        11..=14 => format!("Integer(u{})", 8 << (c - 11)),
        15..=18 => format!("Integer(i{})", 8 << (c - 15)),
        19 => "Json".into(),
        20 => "Bson".into(),
        21 => "Interval".into(),
        _ => return None,
    })
}

fn converted_group(c: i32) -> Option<String> {
    Some(match c {
        1 => "Map".into(),
        2 => "MapKeyValue".into(),
        3 => "List".into(),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
struct El {
    name: String,
    rep: Option<i32>,
    kind: Option<i32>,
    len: Option<i32>,
    children: Option<i32>,
    converted: Option<i32>,
    logical: Option<Logical>,
    scale: Option<i32>,
    precision: Option<i32>,
    field_id: Option<i32>,
}

impl El {
    fn wire(&self) -> Wire {
        let mut f = vec![];
        let mut int = |id: i16, v: Option<i32>| {
            if let Some(v) = v {
                f.push((id, Wire::Int(T_I32, v as i64)))
            }
        };
        int(1, self.kind);
        int(2, self.len);
        int(3, self.rep);
        int(5, self.children);
        int(6, self.converted);
        int(7, self.scale);
        int(8, self.precision);
        int(9, self.field_id);
        f.push((4, Wire::Bin(self.name.as_bytes().to_vec())));
        if let Some(l) = &self.logical {
            f.push((10, l.wire()));
        }
        f.sort_by_key(|f| f.0);
        Wire::Struct(f)
    }
}

fn gen_name(src: &mut Src) -> String {
    match src.below(6) {
        0 => String::new(),
        1 => src.pick(&["list", "element", "key_value", "a b", "ä→🦀", "x{", "};", "\"q\"", "(String)", " ", "a ", " a", "a\n", "\tb", "a\u{0}", "\u{a0}x\u{2003}", "A_b", "ſ", "required", "\u{1b}[1m", "\\n", "{}"]).to_string(),
        2 => gen_string(src),
        _ => {
            let n = src.range(1, 12) as usize;
            (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect()
        }
    }
}

fn annotate(src: &mut Src, e: &mut El, group: bool) {
    if src.flip() {
        e.logical = Some(Logical::gen(src));
        if group && src.flip() {
            e.logical = Some(if src.chance(1, 3) { Logical::Variant(Some(1)) } else { Logical::Plain(2 + src.below(2) as i16) });
        }
    }
    if src.flip() {
        e.converted = Some(match src.below(8) {
            0 => src.int(32) as i32,
            1 | 2 => 1 + src.below(3) as i32,
            3 => 5,
            _ => src.below(23) as i32,
        });
    }
    if src.flip() {
        let (s, p) = gen_decimal(src);
        e.scale = src.chance(7, 8).then_some(s);
        e.precision = src.chance(7, 8).then_some(p);
    }
    if src.chance(1, 4) {
        e.field_id = Some(src.int(32) as i32);
    }
}

fn gen_tree(src: &mut Src, out: &mut Vec<El>, depth: usize, budget: &mut usize) {
    let group = depth == 0 && src.chance(15, 16) || depth > 0 && depth < 12 && *budget > 0 && src.chance(1, 3);
    let mut e = El {
        name: gen_name(src),
        rep: Some(src.below(3) as i32),
        kind: None,
        len: None,
        children: None,
        converted: None,
        logical: None,
        scale: None,
        precision: None,
        field_id: None,
    };
    if src.chance(1, 6) {
        e.rep = None;
    }
    if depth == 0 {
        e.rep = if src.flip() { None } else { Some(0) };
    }
    annotate(src, &mut e, group);
    if !group {
        e.kind = Some(src.below(8) as i32);
        if e.kind == Some(7) {
            e.len = Some(if src.flip() { src.range(1, 40) as i32 } else { src.range(1, i32::MAX as u64) as i32 });
        } else if src.chance(1, 8) {
            e.len = Some(src.int(32) as i32);
        }
        if src.chance(1, 6) {
            e.children = Some(0);
        }
        out.push(e);
        return;
    }
    let n = 1 + match src.below(4) {
        0 => 0,
        1 | 2 => src.below(4) as usize,
        _ => src.below(9) as usize,
    };
    let n = n.min(*budget + 1);
    *budget -= n.min(*budget);
    e.children = Some(n as i32);
    if src.chance(1, 16) {
        // a group with a physical type is still a group
        e.kind = Some(src.below(8) as i32);
    }
    out.push(e);
    for _ in 0..n {
        gen_tree(src, out, depth + 1, budget);
    }
}

/// Reference reading of the element list: the printed tree, or None if it must be rejected.
fn print_tree(els: &[El], i: &mut usize, depth: usize, out: &mut String) -> Option<()> {
    let e = els.get(*i)?;
    *i += 1;
    for _ in 0..depth {
        out.push_str("  ");
    }
    out.push_str(["REQUIRED", "OPTIONAL", "REPEATED"][e.rep.unwrap_or(0) as usize]);
    out.push(' ');
    let n = e.children.unwrap_or(0);
    if n < 0 {
        return None;
    }
    if n == 0 {
        match e.kind? {
            7 => {
                let l = e.len?;
                if l <= 0 {
                    return None;
                }
                out.push_str(&format!("FIXED_LEN_BYTE_ARRAY({l})"));
            }
            k => out.push_str(["BOOLEAN", "INT32", "INT64", "INT96", "FLOAT", "DOUBLE", "BYTE_ARRAY"].get(usize::try_from(k).ok()?)?),
        }
        out.push(' ');
        out.push_str(&e.name);
        let l = e.logical.as_ref().and_then(|l| l.leaf()).or_else(|| e.converted.and_then(|c| converted_leaf(c, e.scale, e.precision)));
        if let Some(l) = l {
            out.push_str(&format!(" ({l})"));
        }
        out.push_str(";\n");
    } else {
        // depth counts the groups above
        if depth + 1 >= 128 {
            return None;
        }
        out.push_str("group ");
        out.push_str(&e.name);
        let l = e.logical.as_ref().and_then(|l| l.group()).or_else(|| e.converted.and_then(converted_group));
        if let Some(l) = l {
            out.push_str(&format!(" ({l})"));
        }
        out.push_str(" {\n");
        for _ in 0..n {
            print_tree(els, i, depth + 1, out)?;
        }
        for _ in 0..depth {
            out.push_str("  ");
        }
        out.push_str("}\n");
    }
    Some(())
}

fn expected(els: &[El]) -> Option<String> {
    let mut out = String::new();
    let mut i = 0;
    print_tree(els, &mut i, 0, &mut out)?;
    if i != els.len() || els[0].rep.unwrap_or(0) != 0 {
        return None;
    }
    Some(out)
}

struct Out {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}

fn run_tool(file: &[u8]) -> Result<Out, String> {
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
    let tool = exe.with_file_name("schema-under-test");
    let dir = work_dir().join(format!("tool-{}", std::process::id()));
    let data = dir.join("parquet/data");
    std::fs::create_dir_all(&data).map_err(|e| format!("HARNESS: {e}"))?;
    std::fs::write(data.join("alltypes_tiny_pages.parquet"), file).map_err(|e| format!("HARNESS: {e}"))?;
    let o = Command::new(&tool)
        .current_dir(&dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("HARNESS: {}: {e}", tool.display()))?;
    Ok(Out { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn check(src: &mut Src, ctx: &mut Ctx, els: &[El]) -> Res {
    let version = if src.chance(3, 4) { src.range(1, 2) as i32 } else { src.int(32) as i32 };
    let rows = src.int(64);
    let created = src.flip().then(|| gen_name(src));
    // everything else in the metadata is irrelevant
    let k = Pick::named(parquet(), "FileMetaData");
    let v = k.gen_fuel(src, 1);
    let Wire::Struct(mut f) = k.wire(&v) else { return Err("HARNESS: metadata".into()) };
    f.retain(|f| ![1, 2, 3, 6].contains(&f.0));
    f.push((1, Wire::Int(T_I32, version as i64)));
    f.push((2, Wire::List(T_LIST, T_STRUCT, els.iter().map(|e| e.wire()).collect())));
    f.push((3, Wire::Int(T_I64, rows)));
    if let Some(c) = &created {
        f.push((6, Wire::Bin(c.as_bytes().to_vec())));
    }
    f.sort_by_key(|f| f.0);
    let meta = canon(&Wire::Struct(f));
    let n = src.below(30) as usize;
    let mut file = src.bytes(n);
    file.extend_from_slice(&meta);
    file.extend_from_slice(&(meta.len() as u32).to_le_bytes());
    file.extend_from_slice(b"PAR1");
    ctx.fp(&meta);
    ctx.nontrivial = els.len() > 1;

    let mut head = format!("version: {version}\nnum of rows: {rows}\n");
    if let Some(c) = &created {
        head.push_str(&format!("created by: {c}\n"));
    }
    let o = run_tool(&file)?;
    let show = || format!("elements {}\n exit {:?}\n stdout {}\n stderr {}", clip(&format!("{els:?}"), 20_000), o.code, clip(&String::from_utf8_lossy(&o.stdout), 3000), clip(&o.stderr, 600));
    match expected(els) {
        Some(t) => {
            ctx.label("accepted");
            ctx.label_if(t.contains(" ("), "logical type printed");
            ctx.repr(|| clip(&t, 400));
            if o.code != Some(0) || o.stdout != format!("{head}{t}").as_bytes() {
                return Err(format!("{}\n expected {}", show(), clip(&format!("{head}{t}"), 20_000)));
            }
        }
        None => {
            ctx.label("rejected");
            ctx.repr(|| format!("rejected: {}", clip(&o.stderr, 200)));
            let schema_error = o.stderr.contains("Schema(") || o.stderr.contains("UnknownType(");
            if o.code.is_none() || o.code == Some(0) || !schema_error {
                return Err(format!("{}\n expected a schema error", show()));
            }
            if !head.as_bytes().starts_with(&o.stdout) {
                return Err(format!("{}\n expected a schema error and no tree", show()));
            }
        }
    }
    Ok(())
}

fn gen_els(src: &mut Src) -> Vec<El> {
    let mut els = vec![];
    let mut budget = src.range(1, 40) as usize;
    gen_tree(src, &mut els, 0, &mut budget);
    els
}

fn tree(src: &mut Src, ctx: &mut Ctx) -> Res {
    let els = gen_els(src);
    check(src, ctx, &els)
}

fn damaged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut els = gen_els(src);
    let i = src.index(els.len());
    let groups: Vec<usize> = (0..els.len()).filter(|i| els[*i].children.unwrap_or(0) > 0).collect();
    let leaves: Vec<usize> = (0..els.len()).filter(|i| els[*i].children.unwrap_or(0) == 0).collect();
    let leaf = if leaves.is_empty() { 0 } else { *src.pick(&leaves) };
    match src.below(9) {
        0 => els.clear(),
        1 => {
            els.remove(i);
        }
        2 => {
            let mut e = els[leaf].clone();
            e.children = None;
            let at = if src.flip() { els.len() } else { i };
            els.insert(at, e);
        }
        3 if !groups.is_empty() => {
            let g = *src.pick(&groups);
            let c = els[g].children.unwrap();
            els[g].children = Some(match src.below(4) {
                0 => c + 1,
                1 => c - 1,
                2 => c + src.range(1, 30) as i32,
                _ => *src.pick(&[i32::MAX, 1 << 24, 65536, 256 + c]),
            });
        }
        4 => els[i].children = Some(-(src.range(1, 1 << 31) as i64) as i32),
        5 => els[leaf].kind = None,
        6 => els[leaf].kind = Some(if src.flip() { 8 + src.below(3) as i32 } else { (src.int(32) as i32).min(-1) }),
        7 => {
            els[leaf].kind = Some(7);
            els[leaf].len = match src.below(3) {
                0 => None,
                1 => Some(0),
                _ => Some(-(src.range(1, 1 << 31) as i64) as i32),
            };
        }
        _ => els[0].rep = Some(src.range(1, 2) as i32),
    }
    check(src, ctx, &els)
}

/// a group with hundreds or more of equal children, or of equal subtrees
fn wide(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut els = gen_els(src);
    let groups: Vec<usize> = (0..els.len()).filter(|i| els[*i].children.unwrap_or(0) > 0).collect();
    if groups.is_empty() {
        return Ok(());
    }
    let g = *src.pick(&groups);
    let mut part = vec![];
    gen_tree(src, &mut part, 8, &mut { 3 });
    let n = *src.pick(&[90usize, 100, 125, 128, 200, 250, 256, 300, 500, 1000, 1024, 2000, 4000, 8000, 16000, 32760, 33000, 65530, 66000]) + src.below(10) as usize;
    let cost: usize = part.iter().map(|e| e.name.len() + 60).sum();
    let n = n.min(6_000_000 / cost);
    // the new children come first
    els[g].children = Some(els[g].children.unwrap() + n as i32);
    let run: Vec<El> = part.iter().cycle().take(part.len() * n).cloned().collect();
    els.splice(g + 1..g + 1, run);
    if src.chance(1, 4) {
        els[g].children = Some(els[g].children.unwrap() + if src.flip() { 1 } else { -1 });
    }
    ctx.label_if(n > 255, "more than 255 children");
    ctx.label_if(n > 65535, "more than 65535 children");
    check(src, ctx, &els)
}

fn nesting(src: &mut Src, ctx: &mut Ctx) -> Res {
    // a chain of groups around the limit, with leaves at random places
    let d = match src.below(4) {
        0 => src.range(60, 126),
        1 => src.range(126, 129),
        2 => src.range(129, 300),
        _ => src.range(2_000, 60_000),
    } as usize;
    let plain = El { name: "g".into(), rep: Some(0), kind: None, len: None, children: Some(1), converted: None, logical: None, scale: None, precision: None, field_id: None };
    let leaf = El { name: "l".into(), kind: Some(1), children: None, ..plain.clone() };
    let mut els = vec![];
    let mut tail = 0;
    let rep = src.below(4) as i32;
    for i in 0..d {
        let mut e = plain.clone();
        if i > 0 {
            e.rep = Some(if rep == 3 { i as i32 % 3 } else { rep });
        }
        if d < 1000 && src.chance(1, 8) {
            e.children = Some(2);
            if src.flip() {
                els.push(e);
                els.push(leaf.clone());
            } else {
                els.push(e);
                tail += 1;
            }
        } else {
            els.push(e);
        }
    }
    els.push(leaf.clone());
    for _ in 0..tail {
        els.push(leaf.clone());
    }
    ctx.label_if((126..=129).contains(&d), "around the limit");
    check(src, ctx, &els)
}
