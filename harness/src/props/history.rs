//! C25: operations do not influence each other. C26: effort grows in proportion to the input.

use super::parquet::{dbg_index, gen_file, layout, metadata, Four};
use super::reference::{count, input, nth, strip};
use super::util::*;
use crate::alloc::measure;
use crate::engine::*;
use crate::io::*;
use crate::value;
use crate::wire::*;
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_range, read_page_index};
use compact_thrift_runtime::*;
use std::cell::{Cell, RefCell};
use std::io::{ErrorKind, Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "up to 10 random operations (reading, filling, writing, skipping, footers, page indexes; with valid, damaged and random input, failing and splitting readers and writers) are first carried out each on a thread of its own, where reading and skipping must give what the reference decoder says; then they are repeated in random sequences on one thread or on several at a time, some of them carried out by the reader or writer of another operation in the middle of it, some ended by a panic of their reader or writer: every outcome must be the same as before; in a fresh process, operations are carried out on several threads at a time first, and alone afterwards; non-trivial: at least 4 operations of at least 2 kinds in the sequences; distinct by inputs and sequences",
            assumptions: &["readers and writers panic by unwinding"],
            subs: vec![
                Sub { name: "sequences", quick: 2_500, thorough: 60_000, f: c25_sequences },
                Sub { name: "first", quick: 250, thorough: 6_000, f: c25_first },
            ],
        },
        Prop {
            id: "C26",
            rule: "one part of a random message (list, map, binary, unknown field, nesting, padding of a number) or of a file (columns, preceding content) is repeated up to some 32 KiB and up to 16 times as much, and both are read from a slice and a stream, written and skipped: the second must not take more than 96 times the processor time (best of up to 7 measurements) or requested memory of the first; non-trivial: both are accepted and the larger has at least 16 KiB (for nesting: 24 levels); distinct by message and part",
            assumptions: &["the processor time of a thread, which the kernel accounts, is not disturbed sixfold in seven measurements in a row"],
            subs: vec![
                Sub { name: "messages", quick: 100, thorough: 3_000, f: c26_messages },
                Sub { name: "unknown", quick: 70, thorough: 2_000, f: c26_unknown },
                Sub { name: "numbers", quick: 20, thorough: 500, f: c26_numbers },
                Sub { name: "files", quick: 20, thorough: 500, f: c26_files },
            ],
        },
    ]
}

/// what a reader or writer ends an operation with
pub struct Bang;

pub type Hook<'a> = (usize, &'a dyn Fn());

pub struct HookReader<'a> {
    pub r: SplitReader<'a>,
    pub hook: Option<Hook<'a>>,
}

impl Read for HookReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.hook.is_some_and(|h| self.r.pos >= h.0) {
            (self.hook.take().unwrap().1)();
        }
        self.r.read(buf)
    }
}

pub struct HookWriter<'a> {
    pub w: SplitWriter,
    pub hook: Option<Hook<'a>>,
}

impl Write for HookWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.hook.is_some_and(|h| self.w.out.len() >= h.0) {
            (self.hook.take().unwrap().1)();
        }
        self.w.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Transfer {
    seed: u64,
    max: usize,
    interrupts: bool,
    fault: Option<(usize, ErrorKind)>,
    once: bool,
}

impl Transfer {
    fn gen(src: &mut Src, len: usize) -> Transfer {
        Transfer {
            seed: src.below(1 << 32),
            max: *src.pick(&[0usize, 1, 2, 7, 100]),
            interrupts: src.chance(1, 4),
            fault: src.chance(1, 4).then(|| (src.index(len + 1), *src.pick(&KINDS))),
            once: src.flip(),
        }
    }
    fn split(&self) -> Split {
        Split::new(self.seed, self.max, self.interrupts)
    }
    fn reader<'a>(&self, b: &'a [u8], hook: Option<Hook<'a>>) -> HookReader<'a> {
        let mut r = SplitReader::new(b, self.split());
        r.fault = self.fault;
        r.once = self.once;
        HookReader { r, hook }
    }
}

enum Op {
    Slice(Pick, Vec<u8>),
    Stream(Pick, Vec<u8>, Transfer),
    Fill(Pick, Vec<u8>, Vec<u8>),
    Write(Pick, Vec<u8>, Transfer),
    SkipSlice(u8, Vec<u8>),
    SkipStream(u8, Vec<u8>, Transfer),
    Footer(Vec<u8>, Transfer),
    Index(Vec<u8>, usize, Vec<Vec<Four>>),
}

impl Op {
    fn gen(src: &mut Src, ctx: &mut Ctx) -> Op {
        let k = src.below(12);
        if k == 11 {
            let f = gen_file(src);
            let cut = if src.chance(1, 4) { src.index(f.bytes.len() + 1) } else { 0 };
            let t = Transfer::gen(src, 20);
            return Op::Footer(f.bytes[cut..].to_vec(), t);
        }
        if k == 10 {
            let damaged = src.chance(1, 3);
            let l = layout(src, damaged);
            return Op::Index(l.chunk, l.base as usize, l.rgs);
        }
        if k == 8 || k == 9 {
            let t = *src.pick(&[12u8, 12, 11, 10, 9, 8, 7, 6, 3]);
            let d = src.range(1, 4) as usize;
            let w = gen_wire_of(src, t, d);
            let mut b = vec![];
            encode(&w, &mut Style::any(src), &mut b);
            if src.chance(1, 3) {
                mutate(src, &mut b);
            }
            return if k == 8 { Op::SkipSlice(t, b) } else { Op::SkipStream(t, b.clone(), Transfer::gen(src, b.len())) };
        }
        let p = pick_any(src, ctx);
        if k == 7 {
            let v = p.gen_fuel(src, 3);
            let b = if src.flip() { canon(&p.wire(&value::tweak(p.schema, p.ty, &v, src))) } else { input(src, p, ctx) };
            return Op::Fill(p, canon(&p.wire(&v)), b);
        }
        if k >= 5 {
            let v = p.gen_fuel(src, 3);
            let b = canon(&p.wire(&v));
            let t = Transfer::gen(src, b.len());
            return Op::Write(p, b, t);
        }
        let b = if src.flip() {
            input(src, p, ctx)
        } else {
            let v = p.gen_fuel(src, 3);
            canon(&p.wire(&v))
        };
        if k < 2 {
            Op::Slice(p, b)
        } else {
            let t = Transfer::gen(src, b.len());
            Op::Stream(p, b, t)
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Op::Slice(..) => "read from a slice",
            Op::Stream(..) => "read from a stream",
            Op::Fill(..) => "fill",
            Op::Write(..) => "write",
            Op::SkipSlice(..) => "skip in a slice",
            Op::SkipStream(..) => "skip in a stream",
            Op::Footer(..) => "footer",
            Op::Index(..) => "page index",
        }
    }
    /// has a reader or writer of the caller
    fn hookable(&self) -> bool {
        matches!(self, Op::Stream(..) | Op::Write(..) | Op::SkipStream(..))
    }
    fn bytes(&self) -> &[u8] {
        match self {
            Op::Slice(_, b) | Op::Stream(_, b, _) | Op::Write(_, b, _) | Op::Fill(_, _, b) | Op::SkipSlice(_, b) | Op::SkipStream(_, b, _) | Op::Footer(b, _) | Op::Index(b, ..) => b,
        }
    }
    fn show(&self) -> String {
        let name = match self {
            Op::Slice(p, _) | Op::Stream(p, ..) | Op::Fill(p, ..) | Op::Write(p, ..) => p.ops.name,
            _ => "",
        };
        format!("{} {name} {}", self.kind(), hex(&self.bytes()[..self.bytes().len().min(120)]))
    }
    fn run(&self, hook: Option<Hook>) -> String {
        fn out(r: Result<crate::types::Dec, ThriftError>, used: usize) -> String {
            match r {
                Ok(d) => format!("{used} bytes: {} = {}", d.debug, d.reenc.map_or_else(|e| format!("{e}"), |b| hex_all(&b))),
                Err(e) => format!("refused: {e}"),
            }
        }
        match self {
            Op::Slice(p, b) => {
                let (r, rest) = (p.ops.dec_slice)(b);
                out(r, b.len() - rest)
            }
            Op::Stream(p, b, t) => {
                let mut rd = t.reader(b, hook);
                let r = (p.ops.dec_stream)(&mut rd);
                out(r, rd.r.pos)
            }
            Op::Fill(p, a, b) => match (p.ops.fill2)(a, b, false) {
                Ok(f) => match f.res {
                    Ok(()) => f.after,
                    Err(e) => format!("refused: {e}"),
                },
                Err(e) => format!("refused: {e}"),
            },
            Op::Write(p, b, t) => {
                let w = SplitWriter { out: vec![], split: t.split(), fault: t.fault.map(|(at, k)| (at, Fault::Kind(k))), once: t.once };
                let mut w = HookWriter { w, hook };
                let r = (p.ops.write_to)(b, &mut w);
                format!("{} {}", r.map_or_else(|e| format!("{e}"), |r| err_str(&r)), hex_all(&w.w.out))
            }
            Op::SkipSlice(t, b) => {
                let mut i = CompactThriftInputSlice::new(b);
                match i.skip_field(*t) {
                    Ok(()) => format!("skipped {}", b.len() - i.as_slice().len()),
                    Err(e) => format!("refused: {e}"),
                }
            }
            Op::SkipStream(t, b, tr) => {
                let mut rd = tr.reader(b, hook);
                match rd.skip_field(*t) {
                    Ok(()) => format!("skipped {}", rd.r.pos),
                    Err(e) => format!("refused: {e}"),
                }
            }
            Op::Footer(b, t) => {
                let mut rd = SeekReader::new(b, 0, t.split());
                rd.fail_read = t.fault;
                rd.once = t.once;
                match get_metadata_chunk(&mut rd) {
                    Ok(m) => hex_all(&m),
                    Err(e) => format!("refused: {e:?}"),
                }
            }
            Op::Index(b, base, rgs) => match read_page_index(b, *base, &metadata(rgs)) {
                Ok(x) => format!("{:?}", dbg_index(&x)),
                Err(e) => format!("refused: {e:?}"),
            },
        }
    }
    /// what the reference decoder says, if it decides
    fn reference(&self) -> Option<String> {
        let stream_ok = |t: &Transfer| t.fault.is_none();
        match self {
            Op::Stream(_, _, t) | Op::SkipStream(_, _, t) if !stream_ok(t) => None,
            Op::Slice(p, b) | Op::Stream(p, b, _) => {
                let mut c = Cur::new(b);
                let r = value::decode(p.schema, p.ty, &mut c);
                match r {
                    _ if c.unspec => None,
                    Err(PErr::Unspec) => None,
                    Err(_) => Some("refused: ".into()),
                    Ok(v) => Some(format!("{} bytes: {} = {}", c.pos, p.debug(&v), hex_all(&canon(&p.wire(&v))))),
                }
            }
            Op::SkipSlice(t, b) | Op::SkipStream(t, b, _) => {
                let mut c = Cur::new(b);
                let r = c.skip(*t, false, 0);
                match r {
                    _ if c.unspec => None,
                    Err(PErr::Unspec) => None,
                    Err(_) => Some("refused: ".into()),
                    Ok(()) => Some(format!("skipped {}", c.pos)),
                }
            }
            _ => None,
        }
    }
}

fn hex_all(b: &[u8]) -> String {
    if b.len() > 2000 {
        return format!("{} bytes, hash {:x}", b.len(), hash_bytes(1, b));
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Runs `f`, whose reader or writer may panic with `Bang`; true if it did.
pub fn with_bang(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) if e.is::<Bang>() => true,
        Err(e) => resume_unwind(e),
    }
}

/// what it panics with
pub fn bang() {
    resume_unwind(Box::new(Bang))
}

/// Runs `f` on a thread of its own; a panic other than `Bang` comes back as an error.
fn on_thread<'s, 'e, T: Send>(s: &'s std::thread::Scope<'s, 'e>, f: impl FnOnce() -> T + Send + 's) -> std::thread::ScopedJoinHandle<'s, Result<T, String>>
where
    T: 's,
{
    s.spawn(move || {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("HARNESS:") {
                msg
            } else {
                format!("panic at {loc}: {msg}")
            }
        })
    })
}

/// One step of a sequence: the operation, and what happens in the middle of it.
#[derive(Clone, Copy, Debug)]
enum Step {
    Plain(usize),
    /// the second operation is carried out by the reader or writer of the first at this byte
    Inside(usize, usize, usize),
    /// the reader or writer panics at this byte
    Panic(usize, usize),
}

fn run_steps(ops: &[Op], want: &[String], steps: &[Step]) -> Result<(), String> {
    for (n, st) in steps.iter().enumerate() {
        let wrong = |k: usize, got: &str| format!("{}\n gives {got}\n after {:?}, alone it gives {}", ops[k].show(), &steps[..=n], want[k]);
        match *st {
            Step::Plain(k) => {
                let got = ops[k].run(None);
                if got != want[k] {
                    return Err(wrong(k, &got));
                }
            }
            Step::Inside(k, j, at) => {
                let inner = RefCell::new(None);
                let hook = || *inner.borrow_mut() = Some(ops[j].run(None));
                let got = ops[k].run(Some((at, &hook)));
                if let Some(i) = inner.take() {
                    if i != want[j] {
                        return Err(wrong(j, &i));
                    }
                }
                if got != want[k] {
                    return Err(wrong(k, &got));
                }
            }
            Step::Panic(k, at) => {
                let hook = || resume_unwind(Box::new(Bang));
                match catch_unwind(AssertUnwindSafe(|| ops[k].run(Some((at, &hook))))) {
                    Ok(got) if got != want[k] => return Err(wrong(k, &got)),
                    Ok(_) => {}
                    Err(e) if e.is::<Bang>() => {}
                    Err(e) => resume_unwind(e),
                }
            }
        }
    }
    Ok(())
}

// operations hold references to the static schemas, whose lazily built parts are not marked as shareable
struct Share<'a>(&'a [Op]);
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}

fn c25_sequences(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 10) as usize;
    let ops: Vec<Op> = (0..n).map(|_| Op::gen(src, ctx)).collect();
    let threads = if src.chance(1, 4) { src.range(2, 4) as usize } else { 1 };
    let plans: Vec<Vec<Step>> = (0..threads)
        .map(|_| {
            let m = src.range(1, 2 * n as u64 + 2);
            (0..m)
                .map(|_| {
                    let k = src.index(n);
                    let how = src.below(8);
                    if !ops[k].hookable() || how >= 4 {
                        return Step::Plain(k);
                    }
                    let at = src.index(ops[k].bytes().len() + 1);
                    if how < 2 {
                        Step::Inside(k, src.index(n), at)
                    } else {
                        Step::Panic(k, at)
                    }
                })
                .collect()
        })
        .collect();
    let mut kinds: Vec<&str> = vec![];
    for o in &ops {
        ctx.fp(o.kind().as_bytes());
        ctx.fp(o.bytes());
        kinds.push(o.kind());
        ctx.label(o.kind());
    }
    ctx.fp(format!("{plans:?}").as_bytes());
    kinds.sort_unstable();
    kinds.dedup();
    let total: usize = plans.iter().map(|p| p.len()).sum();
    ctx.nontrivial = kinds.len() >= 2 && total >= 4;
    ctx.evals = total as u64;
    ctx.label_if(threads > 1, "several threads");
    ctx.label_if(plans.iter().flatten().any(|s| matches!(s, Step::Inside(..))), "operation within an operation");
    ctx.label_if(plans.iter().flatten().any(|s| matches!(s, Step::Panic(..))), "panic of a reader or writer");
    ctx.repr(|| format!("{:?}; sequences {plans:?}", ops.iter().map(|o| clip(&o.show(), 120)).collect::<Vec<_>>()));
    let ops = Share(&ops);
    let ops = &ops;
    let mut want = vec![];
    for k in 0..n {
        want.push(std::thread::scope(|s| {
            let o = on_thread(s, move || {
                let ops = ops;
                ops.0[k].run(None)
            });
            o.join().map_err(|_| "HARNESS: thread".to_string())?
        })?);
    }
    let want = &want;
    std::thread::scope(|s| {
        for (o, w) in ops.0.iter().zip(want) {
            if let Some(r) = o.reference() {
                let same = if r == "refused: " { w.starts_with("refused: ") } else { r == *w };
                if !same {
                    return Err(format!("{}\n gives {w}\n instead of {r}", o.show()));
                }
            }
        }
        let handles: Vec<_> = plans
            .iter()
            .map(|p| {
                on_thread(s, move || {
                    let ops = ops;
                    run_steps(ops.0, want, p)
                })
            })
            .collect();
        let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
        for r in results {
            r.map_err(|_| "HARNESS: thread")???;
        }
        Ok(())
    })
}

#[cfg(not(miri))]
extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut [i32; 2]) -> i32;
    fn read(fd: i32, p: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn alarm(secs: u32) -> u32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

#[cfg(miri)]
fn in_child(f: impl FnOnce() -> Res) -> Res {
    f()
}

/// Runs `f` in a child process, which starts with what this process has done so far.
#[cfg(not(miri))]
fn in_child(f: impl FnOnce() -> Res) -> Res {
    unsafe {
        let mut fds = [0; 2];
        if pipe(&mut fds) != 0 {
            return Err("HARNESS: pipe".into());
        }
        let pid = fork();
        if pid == 0 {
            alarm(60);
            let m = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(())) => _exit(0),
                Ok(Err(m)) => m,
                Err(_) => "HARNESS: panic in the child process".into(),
            };
            write(fds[1], m.as_ptr().cast(), m.len().min(4000));
            _exit(1)
        }
        close(fds[1]);
        if pid < 0 {
            close(fds[0]);
            return Err("HARNESS: fork".into());
        }
        let mut text = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        if waitpid(pid, &mut status, 0) != pid {
            return Err("HARNESS: waitpid".into());
        }
        match status {
            0 => Ok(()),
            0x100 if !text.is_empty() => Err(String::from_utf8_lossy(&text).into_owned()),
            s => Err(format!("the process ended by {}", if s & 0x7f != 0 { format!("signal {}", s & 0x7f) } else { format!("exit code {}", s >> 8) })),
        }
    }
}

fn c25_first(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(2, 6) as usize;
    let ops: Vec<Op> = (0..n).map(|_| Op::gen(src, ctx)).collect();
    let threads = src.range(2, 4) as usize;
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..src.range(1, 3)).map(|_| src.index(n)).collect()).collect();
    for o in &ops {
        ctx.fp(o.kind().as_bytes());
        ctx.fp(o.bytes());
        ctx.label(o.kind());
    }
    ctx.fp(format!("{plans:?}").as_bytes());
    ctx.nontrivial = true;
    ctx.repr(|| format!("{:?}; on {threads} threads {plans:?}", ops.iter().map(|o| clip(&o.show(), 120)).collect::<Vec<_>>()));
    let ops = Share(&ops);
    let ops = &ops;
    in_child(|| {
        let start = std::sync::Barrier::new(threads);
        let start = &start;
        let got = std::thread::scope(|s| -> Result<Vec<Vec<String>>, String> {
            let handles: Vec<_> = plans
                .iter()
                .map(|p| {
                    on_thread(s, move || {
                        let ops = ops;
                        start.wait();
                        p.iter().map(|k| ops.0[*k].run(None)).collect::<Vec<_>>()
                    })
                })
                .collect();
            let results: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
            results.into_iter().map(|r| r.map_err(|_| "HARNESS: thread".to_string())?).collect()
        })?;
        for (p, g) in plans.iter().zip(&got) {
            for (k, o) in p.iter().zip(g) {
                let alone = ops.0[*k].run(None);
                if *o != alone {
                    return Err(format!("{}\n gives {o}\n on one of several threads, afterwards {alone}", ops.0[*k].show()));
                }
                if let Some(r) = ops.0[*k].reference() {
                    let same = if r == "refused: " { o.starts_with("refused: ") } else { r == *o };
                    if !same {
                        return Err(format!("{}\n gives {o}\n instead of {r}", ops.0[*k].show()));
                    }
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------- C26

extern "C" {
    fn clock_gettime(id: i32, t: *mut [isize; 2]) -> i32;
}

/// processor time of this thread in ns
fn cpu() -> u64 {
    let mut t = [0isize; 2];
    // CLOCK_THREAD_CPUTIME_ID
    assert!(unsafe { clock_gettime(3, &mut t) } == 0, "HARNESS: no clock");
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

const SMALL: usize = 32 << 10;
const FACTOR: usize = 16;
const LIMIT: u64 = 96;

/// `f(false)` works on the small input, `f(true)` on the one that is FACTOR times as large.
fn proportional(what: &str, mut f: impl FnMut(bool) -> bool) -> Result<bool, String> {
    let mut once = |large: bool| {
        let t = cpu();
        let (ok, _, mem) = measure(|| f(large));
        (ok, cpu() - t, mem)
    };
    let (ok, mut small, mem) = once(false);
    let (ok2, mut large, mem2) = once(true);
    if !ok || !ok2 {
        return Ok(false);
    }
    if mem2 as u64 > LIMIT * (mem as u64).max(4096) {
        return Err(format!("{what}: requests {mem} bytes of memory, and {mem2} for {FACTOR} times the input"));
    }
    // small times are within the noise
    for _ in 0..6 {
        if large <= LIMIT * small.max(500_000) {
            return Ok(true);
        }
        // the best of the large, the worst of the small ones
        small = small.max(once(false).1);
        large = large.min(once(true).1);
    }
    if large <= LIMIT * small.max(500_000) {
        return Ok(true);
    }
    Err(format!("{what}: takes {} us, and {} us for {FACTOR} times the input", small / 1000, large / 1000))
}

/// repeats the content of a node
fn pump(w: &Wire, node: usize, k: usize) -> Wire {
    let mut w = w.clone();
    match nth(&mut w, &mut { node }) {
        Some(Wire::List(_, _, v)) => {
            let n = v.len() * k;
            let x = std::mem::take(v);
            v.extend(x.iter().cycle().take(n).cloned());
        }
        Some(Wire::Map(_, _, v)) => {
            let n = v.len() * k;
            let x = std::mem::take(v);
            v.extend(x.iter().cycle().take(n).cloned());
        }
        Some(Wire::Bin(b)) => *b = b.repeat(k),
        _ => {}
    }
    w
}

fn operations(name: &str, ops: &'static crate::types::Ops, a: &[u8], b: &[u8], tag: u8) -> Result<bool, String> {
    let pick = |large: bool| if large { b } else { a };
    let mut ok = proportional(&format!("reading {name} from a slice"), |l| (ops.light_slice)(pick(l)).is_ok())?;
    ok &= proportional(&format!("reading {name} from a stream"), |l| {
        let mut r = pick(l);
        (ops.light_stream)(&mut r).is_ok()
    })?;
    if ok {
        proportional(&format!("reading {name} and writing it"), |l| {
            let mut n = Sink(0);
            matches!((ops.write_to)(pick(l), &mut n), Ok(Ok(()))) && n.0 > 0
        })?;
        proportional(&format!("filling {name} twice"), |l| (ops.fill_twice)(pick(l), pick(l)).is_ok())?;
    }
    skips(tag, a, b)?;
    Ok(ok)
}

struct Sink(usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn skips(tag: u8, a: &[u8], b: &[u8]) -> Result<bool, String> {
    let pick = |large: bool| if large { b } else { a };
    let x = proportional(&format!("skipping type {tag} in a slice"), |l| CompactThriftInputSlice::new(pick(l)).skip_field(tag).is_ok())?;
    let y = proportional(&format!("skipping type {tag} in a stream"), |l| {
        let mut r = pick(l);
        r.skip_field(tag).is_ok()
    })?;
    Ok(x && y)
}

fn pumped(w: &Wire, grow: impl Fn(&Wire, usize) -> Wire) -> Option<(Vec<u8>, Vec<u8>)> {
    let one = canon(w).len();
    let unit = canon(&grow(w, 2)).len().checked_sub(one)?;
    if unit == 0 {
        return None;
    }
    let k = (SMALL / unit).max(1);
    Some((canon(&grow(w, k)), canon(&grow(w, k * FACTOR))))
}

fn c26_messages(src: &mut Src, ctx: &mut Ctx) -> Res {
    // a message and a node in it whose content can be repeated
    let mut found = None;
    for _ in 0..8 {
        let p = pick_any(src, ctx);
        let v = p.gen_fuel(src, 4);
        let mut w = p.wire(&v);
        if src.chance(1, 4) {
            add_unknown(p.schema, p.ty, &mut w, src, 2);
        }
        let n = count(&w);
        let start = src.index(n);
        let node = (0..n).map(|i| (start + i) % n).find(|&i| match nth(&mut w, &mut { i }) {
            Some(Wire::List(_, _, v)) => !v.is_empty(),
            Some(Wire::Map(_, _, v)) => !v.is_empty(),
            Some(Wire::Bin(b)) => !b.is_empty(),
            _ => false,
        });
        if let Some(node) = node {
            found = Some((p, w, node));
            break;
        }
    }
    let Some((p, w, node)) = found else {
        ctx.label("nothing to repeat");
        return Ok(());
    };
    let mut probe = w.clone();
    ctx.fp(p.ops.name.as_bytes());
    ctx.fp(&canon(&w));
    ctx.fp(&node.to_le_bytes());
    let kind = match nth(&mut probe, &mut { node }) {
        Some(Wire::List(..)) => "list",
        Some(Wire::Map(..)) => "map",
        _ => "binary",
    };
    ctx.label(kind);
    ctx.repr(|| format!("{} {}, node {node} ({kind}) repeated", p.ops.name, hex(&canon(&w)[..canon(&w).len().min(100)])));
    let Some((a, b)) = pumped(&w, |w, k| pump(w, node, k)) else { return Ok(()) };
    let ok = operations(p.ops.name, p.ops, &a, &b, p.schema.wire_type(strip(p.ty)))?;
    ctx.nontrivial = ok && b.len() >= 16 << 10;
    ctx.evals = 6;
    Ok(())
}

/// unknown content within a struct: many fields, or deep nesting
fn c26_unknown(src: &mut Src, ctx: &mut Ctx) -> Res {
    let p = pick_struct(src, ctx);
    let v = p.gen_fuel(src, 2);
    let w = p.wire(&v);
    let crate::idl::Ty::Named(name) = strip(p.ty) else { return Ok(()) };
    let d = p.schema.strukt(name);
    let Wire::Struct(fields) = w else { return Ok(()) };
    if d.is_union {
        return Ok(());
    }
    let id = unknown_id(src, d);
    let at = src.index(fields.len() + 1);
    let depth = src.range(1, 3) as usize;
    let x = gen_wire(src, depth);
    let nest = src.chance(1, 3);
    ctx.fp(name.as_bytes());
    ctx.fp(&canon(&Wire::Struct(fields.clone())));
    ctx.fp(&canon(&Wire::List(9, x.tag(), vec![x.clone()])));
    let with = |list: Vec<Wire>| {
        let mut f = fields.clone();
        f.splice(at..at, list.into_iter().map(|x| (id, x)));
        Wire::Struct(f)
    };
    if nest {
        // each level holds the same content twice: next to the nested one
        let form = src.below(4);
        let build = |levels: usize| {
            let mut c = x.clone();
            for _ in 0..levels {
                c = match form {
                    0 => Wire::Struct(vec![(1, c), (2, Wire::I8(1))]),
                    1 => Wire::List(9, c.tag(), vec![c]),
                    2 => Wire::Map(3, c.tag(), vec![(Wire::I8(1), c)]),
                    _ => Wire::Struct(vec![(1, Wire::List(10, c.tag(), vec![c]))]),
                };
            }
            c
        };
        let per = if form == 3 { 2 } else { 1 };
        let (lo, hi) = (4 / per, 40 / per);
        let (a, b) = (canon(&with(vec![build(lo)])), canon(&with(vec![build(hi)])));
        ctx.label("nesting");
        ctx.repr(|| format!("{name} with {lo} and {hi} levels of form {form} around {}", clip(&format!("{x:?}"), 100)));
        // grows with the nesting step by step, so that an exponential effort is met early
        for l in lo + 1..=hi {
            let c = canon(&with(vec![build(l)]));
            proportional(&format!("reading {name} from a slice, {l} levels"), |large| (p.ops.light_slice)(if large { &c } else { &a }).is_ok())?;
            skips(12, &a, &c)?;
        }
        let ok = operations(p.ops.name, p.ops, &a, &b, 12)?;
        ctx.nontrivial = ok;
        return Ok(());
    }
    ctx.label("many fields");
    let unit = canon(&with(vec![x.clone(), x.clone()])).len() - canon(&with(vec![x.clone()])).len();
    let k = (SMALL / unit).max(1);
    ctx.repr(|| format!("{name} with {k} and {} times {} as field {id}", k * FACTOR, clip(&format!("{x:?}"), 100)));
    let (a, b) = (canon(&with(vec![x.clone(); k])), canon(&with(vec![x.clone(); k * FACTOR])));
    let ok = operations(p.ops.name, p.ops, &a, &b, 12)?;
    ctx.nontrivial = ok && b.len() >= 16 << 10;
    ctx.evals = 6;
    Ok(())
}

/// numbers padded with redundant groups
fn c26_numbers(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = src.below(1 << 20);
    let what = src.below(4);
    let build = |n: usize| {
        let mut b = vec![];
        varint(v, &mut b);
        let l = b.len();
        b[l - 1] |= 0x80;
        b.resize(n, 0x80);
        b.push(0);
        b.resize(n + 20, 1);
        b
    };
    let (a, b) = (build(SMALL), build(SMALL * FACTOR));
    ctx.fp(&v.to_le_bytes());
    ctx.fp(&[what as u8]);
    ctx.nontrivial = true;
    ctx.evals = 8;
    ctx.repr(|| format!("number {v} padded to {} and {} bytes, read in way {what}", a.len(), b.len()));
    let pick = |large: bool| if large { &b[..] } else { &a[..] };
    fn number<'i, I: CompactThriftInput<'i>>(i: &mut I, what: u64) -> bool {
        match what {
            0 => i.read_i16().is_ok(),
            1 => i.read_i32().is_ok(),
            2 => i.read_i64().is_ok(),
            _ => i.read_len().is_ok(),
        }
    }
    let mut ok = proportional("reading a number from a slice", |l| number(&mut CompactThriftInputSlice::new(pick(l)), what))?;
    ok &= proportional("reading a number from a stream", |l| number(&mut pick(l), what))?;
    ok &= skips(4 + (what as u8).min(2), &a, &b)?;
    if !ok {
        return Err(format!("a number padded to {} bytes is refused", a.len()));
    }
    Ok(())
}

fn c26_files(src: &mut Src, ctx: &mut Ctx) -> Res {
    let what = src.below(2);
    ctx.fp(&[what as u8]);
    ctx.nontrivial = true;
    if what == 0 {
        // columns of the page index, in one or in many row groups
        let l = layout(src, false);
        let (g, many, shared) = (l.rgs.iter().map(|g| g.len()).sum::<usize>().max(1), src.flip(), src.chance(1, 4));
        let k = (400 / g).min((1 << 19) / (l.chunk.len() + 1)).max(1);
        // the entries are shared by all columns, or each column has its own in a chunk that is as many times as long
        let build = |k: usize| {
            let at = |c: &Four, i: usize| {
                let d = if shared { 0 } else { (i * l.chunk.len()) as i64 };
                (c.0.map(|o| o.saturating_add(d)), c.1, c.2.map(|o| o.saturating_add(d)), c.3)
            };
            let rgs: Vec<Vec<Four>> = if many {
                (0..k).flat_map(|i| l.rgs.iter().map(move |g| (i, g))).map(|(i, g)| g.iter().map(|c| at(c, i)).collect()).collect()
            } else {
                l.rgs.iter().map(|g| (0..k).flat_map(|i| g.iter().map(move |c| (i, c))).map(|(i, c)| at(c, i)).collect()).collect()
            };
            (metadata(&rgs), if shared { l.chunk.clone() } else { l.chunk.repeat(k) })
        };
        let (a, b) = (build(k), build(k * FACTOR));
        ctx.fp(&l.chunk);
        ctx.fp(format!("{:?}{many}{shared}", l.rgs).as_bytes());
        ctx.label(if shared { "page index, shared entries" } else { "page index" });
        ctx.evals = 4;
        ctx.repr(|| format!("page index of {g} columns repeated {k} and {} times", k * FACTOR));
        let base = l.base as usize;
        proportional("reading the page index", |large| {
            let (m, c) = if large { &b } else { &a };
            read_page_index(c, base, m).is_ok()
        })?;
        proportional("finding the page index", |large| get_page_index_range(if large { &b.0 } else { &a.0 }).is_ok())?;
        return Ok(());
    }
    // content before a footer of constant size is not touched
    let f = gen_file(src);
    ctx.fp(&f.bytes);
    let build = |n: usize| {
        let mut v = vec![7u8; n];
        v.extend(&f.bytes);
        v
    };
    let (a, b) = (build(SMALL), build(SMALL << 10));
    ctx.label("footer");
    ctx.evals = 2;
    ctx.repr(|| format!("footer of {} bytes behind {} and {} bytes", f.meta.len(), SMALL, SMALL << 10));
    let reads = Cell::new((0, 0));
    let ok = proportional("extracting the footer", |large| {
        let mut rd = SeekReader::new(if large { &b } else { &a }, 0, Split::new(1, 0, false));
        let r = get_metadata_chunk(&mut rd).is_ok();
        reads.set(if large { (reads.get().0, rd.reads) } else { (rd.reads, reads.get().1) });
        r
    })?;
    let (x, y) = reads.get();
    if ok && y > x + 8 {
        return Err(format!("extracting the footer of {} bytes: {x} read calls, {y} in a file of {} bytes", f.meta.len(), b.len()));
    }
    Ok(())
}
