//! Process-level driver: worker processes, attribution of crashes and hangs, shrinking, replay files,
//! evidence.

use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn hang() -> Duration {
    Duration::from_secs(if interpreted() { 150 } else { 60 })
}
const STACK: usize = 64 << 20;

extern "C" {
    fn setrlimit(res: i32, lim: *const [usize; 2]) -> i32;
}

fn limit_memory(id: &str) {
    if cfg!(any(miri, ctv_sanitize)) {
        return;
    }
    if std::env::var_os("CTV_NO_AS_LIMIT").is_none() {
        // hostile sizes in file metadata must not be able to exhaust the machine
        let n = if matches!(id, "C14" | "C15" | "C13") { 1536u64 << 20 } else { 20 << 30 };
        let l = [usize::try_from(n).unwrap_or(usize::MAX); 2];
        unsafe { setrlimit(9, &l) };
    }
    let core = [0usize, 0];
    unsafe { setrlimit(4, &core) };
}

fn verif_dir() -> PathBuf {
    std::env::var_os("CTV_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known(id: &str) {
    let text = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.split_whitespace();
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let s = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("");
            if p == id {
                v.push(s.to_string());
            }
        }
    }
    let _ = KNOWN.set(v);
}

struct Args(Vec<String>);

impl Args {
    fn pos(&self, i: usize) -> &str {
        self.0.get(i).map(|s| s.as_str()).unwrap_or_else(|| die("missing argument"))
    }
    fn opt(&self, name: &str) -> Option<&str> {
        self.0.iter().position(|a| a == name).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.opt(name).map(|s| s.parse().unwrap_or_else(|_| die("bad number"))).unwrap_or(default)
    }
}

fn die(m: &str) -> ! {
    eprintln!("ctverify: {m}");
    std::process::exit(2)
}

pub fn main(props: Vec<Prop>) -> i32 {
    let args = Args(std::env::args().skip(1).collect());
    let cmd = args.pos(0).to_string();
    if cmd == "list" {
        for p in &props {
            for s in &p.subs {
                println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
            }
        }
        return 0;
    }
    if cmd == "programs" {
        return crate::props::programs::drive(&|n| args.opt(n).map(|s| s.to_string()));
    }
    if cmd == "child" {
        limit_memory("");
        return crate::props::child(args.pos(1), &args.0[2..]);
    }
    let (id, replay) = if cmd == "replay" {
        let r = Replay::load(Path::new(args.pos(1)));
        (r.property.clone(), Some(r))
    } else {
        (args.pos(1).to_string(), None)
    };
    let prop = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| die("unknown property"));
    load_known(&id);
    match cmd.as_str() {
        "run" => parent(&prop, &args),
        "worker" => worker(&prop, &args),
        "one" => one(&prop, &args),
        "shrink" => shrink_child(&prop, &args),
        "replay" => {
            let r = replay.unwrap();
            let sub = find_sub(&prop, &r.sub);
            limit_memory(&id);
            let (out, repr) = on_big_stack(move || run_choices(sub, r.choices, r.idx, true, None));
            println!("case: {}", clip(&repr, 20000));
            match out {
                Outcome::Pass => {
                    println!("holds");
                    0
                }
                Outcome::Fail(m, _) => {
                    println!("fails: {m}");
                    1
                }
                Outcome::Harness(m) => {
                    println!("harness error: {m}");
                    2
                }
            }
        }
        _ => die("unknown command"),
    }
}

fn find_sub<'a>(p: &'a Prop, name: &str) -> &'a Sub {
    p.subs.iter().find(|s| s.name == name).unwrap_or_else(|| die("unknown sub-check"))
}

enum Outcome {
    Pass,
    Fail(String, Vec<u64>),
    Harness(String),
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    install_panic_hook();
    // ThreadSanitizer sees nothing after a fork of a process with several threads
    if std::env::var_os("CTV_MAIN").is_some() {
        return f();
    }
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| die("case thread panicked"))
    })
}

fn run_src(sub: &Sub, mut src: Src, idx: u64, want_repr: bool, trace: Option<&Path>) -> (Outcome, String) {
    if let Some(t) = trace {
        src.trace_to(fs::File::create(t).unwrap_or_else(|_| die("trace file")));
    }
    let mut ctx = Ctx { idx, want_repr, full_repr: want_repr, ..Ctx::default() };
    let o = match run_case(sub.f, &mut src, &mut ctx) {
        Ok(()) => Outcome::Pass,
        Err((false, m)) => Outcome::Fail(m, src.rec),
        Err((true, m)) => Outcome::Harness(m),
    };
    (o, ctx.repr)
}

fn run_choices(sub: &Sub, c: Vec<u64>, idx: u64, want_repr: bool, trace: Option<&Path>) -> (Outcome, String) {
    run_src(sub, Src::replay(c), idx, want_repr, trace)
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), mix(hash_str(sub), idx))
}

fn sub_count(s: &Sub, args: &Args) -> u64 {
    let n = if args.opt("--tier") == Some("thorough") { s.thorough } else { s.quick };
    let scale = args.num("--percent", 100);
    if n <= 64 { n } else { (n * scale / 100).max(1) }
}

// ---------------------------------------------------------------- worker

fn worker(p: &Prop, args: &Args) -> i32 {
    limit_memory(p.id);
    let dir = PathBuf::from(args.opt("--dir").unwrap());
    let shard = args.num("--shard", 0);
    let jobs = args.num("--jobs", 1);
    let seed = args.num("--seed", 1);
    let secs = args.num("--secs", 300);
    let start = Instant::now();
    let journal = fs::File::create(dir.join(format!("journal.{shard}"))).unwrap();
    let only = args.opt("--sub");
    on_big_stack(move || {
        let mut t = Tally::default();
        let mut code = 0;
        let mut tick = 0u64;
        let mut saved = Instant::now();
        'subs: for (si, sub) in p.subs.iter().enumerate() {
            if only.is_some_and(|o| o != sub.name) {
                continue;
            }
            let n = sub_count(sub, args);
            let mut samples = 0;
            let mut idx = shard;
            while idx < n {
                if (tick % 16 == 0 || cfg!(miri)) && start.elapsed().as_secs() >= secs {
                    break 'subs;
                }
                tick += 1;
                let mut j = [0u8; 24];
                j[..8].copy_from_slice(&(si as u64).to_le_bytes());
                j[8..16].copy_from_slice(&idx.to_le_bytes());
                j[16..].copy_from_slice(&tick.to_le_bytes());
                journal.write_all_at(&j, 0).unwrap();
                let mut src = Src::random(case_seed(seed, p.id, sub.name, idx));
                let mut ctx = Ctx { idx, want_repr: samples < 2, ..Ctx::default() };
                let r = run_case(sub.f, &mut src, &mut ctx);
                if std::env::var_os("CTV_TIMES").is_some() {
                    eprintln!("TIME {:.2} {:?}", start.elapsed().as_secs_f64(), ctx.labels);
                }
                t.cases += 1;
                *t.per_sub.entry(sub.name.to_string()).or_default() += 1;
                t.evals += ctx.evals.max(1);
                for l in &ctx.labels {
                    *t.labels.entry(format!("{}: {}", sub.name, l)).or_default() += 1;
                }
                for (s, w) in ctx.known {
                    t.known.entry(s.to_string()).or_insert(w);
                }
                if ctx.nontrivial {
                    if t.hashes.len() < 4_000_000 {
                        t.hashes.insert(mix(ctx.fp, si as u64));
                    }
                    if ctx.want_repr && !ctx.repr.is_empty() {
                        samples += 1;
                        t.samples.push(format!("{}: {}", sub.name, clip(&ctx.repr, 600)));
                    }
                }
                if let Err((harness, msg)) = r {
                    let f = Replay {
                        property: p.id.into(),
                        sub: sub.name.into(),
                        idx,
                        choices: src.rec,
                        message: msg,
                        case: String::new(),
                    };
                    f.save(&dir.join(format!("fail.{shard}")));
                    code = if harness { 2 } else { 1 };
                            break 'subs;
                }
                idx += jobs;
                if cfg!(miri) && saved.elapsed().as_secs() > 15 {
                    // the last case may take long and be given up
                    saved = Instant::now();
                    save_tally(&t, &dir.join(format!("tally.{shard}")));
                }
            }
        }
        save_tally(&t, &dir.join(format!("tally.{shard}")));
        code
    })
}

fn save_tally(t: &Tally, path: &Path) {
    let mut o = String::new();
    o += &format!("C {}\nE {}\n", t.cases, t.evals);
    for (k, v) in &t.per_sub {
        o += &format!("S {v} {k}\n");
    }
    for (k, v) in &t.labels {
        o += &format!("L {v} {k}\n");
    }
    for (k, v) in &t.known {
        o += &format!("K {k} {}\n", v.replace('\n', " "));
    }
    for s in &t.samples {
        o += &format!("X {}\n", s.replace('\n', "\\n").replace('\r', "\\r"));
    }
    fs::write(path, o).unwrap();
    let mut b = Vec::with_capacity(t.hashes.len() * 8);
    for h in &t.hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(path.with_file_name(format!("{}.hashes", path.file_name().unwrap().to_string_lossy())), b).unwrap();
}

fn merge_tally(t: &mut Tally, path: &Path) {
    let Ok(s) = fs::read_to_string(path) else { return };
    for l in s.lines() {
        let (k, r) = l.split_at(2);
        let (a, b) = r.split_once(' ').unwrap_or((r, ""));
        let n: u64 = a.parse().unwrap_or(0);
        match k {
            "C " => t.cases += n,
            "E " => t.evals += n,
            "S " => *t.per_sub.entry(b.into()).or_default() += n,
            "L " => *t.labels.entry(b.into()).or_default() += n,
            "K " => {
                t.known.entry(a.into()).or_insert(b.into());
            }
            "X " => t.samples.push(r.to_string()),
            _ => {}
        }
    }
    if let Ok(b) = fs::read(path.with_file_name(format!("{}.hashes", path.file_name().unwrap().to_string_lossy()))) {
        for c in b.chunks_exact(8) {
            t.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

// ---------------------------------------------------------------- replay files

#[derive(Clone)]
struct Replay {
    property: String,
    sub: String,
    idx: u64,
    choices: Vec<u64>,
    message: String,
    case: String,
}

impl Replay {
    fn save(&self, p: &Path) {
        let c: Vec<String> = self.choices.iter().map(|x| x.to_string()).collect();
        let o = format!(
            "{{\"property\": {},\n\"sub\": {},\n\"idx\": {},\n\"choices\": [{}],\n\"message\": {},\n\"case\": {}}}\n",
            json_str(&self.property),
            json_str(&self.sub),
            self.idx,
            c.join(","),
            json_str(&clip(&self.message, 20000)),
            json_str(&clip(&self.case, 20000)),
        );
        fs::write(p, o).unwrap();
    }
    fn load(p: &Path) -> Replay {
        let s = fs::read_to_string(p).unwrap_or_else(|_| die("cannot read replay file"));
        // one key per line
        let get = |k: &str| -> String {
            let pat = format!("\"{k}\": ");
            s.lines()
                .find_map(|l| l.trim_start_matches('{').strip_prefix(&pat))
                .map(|v| v.trim_end_matches('}').trim_end_matches(',').to_string())
                .unwrap_or_default()
        };
        let st = |k: &str| get(k).trim_matches('"').to_string();
        Replay {
            property: st("property"),
            sub: st("sub"),
            idx: get("idx").parse().unwrap_or(0),
            choices: get("choices")
                .trim_matches(|c| c == '[' || c == ']')
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| x.trim().parse().unwrap_or(0))
                .collect(),
            message: st("message"),
            case: String::new(),
        }
    }
}

// ---------------------------------------------------------------- single cases in a child

/// one <ID> --sub S (--seed N --idx I | --choices FILE) --trace FILE --msg FILE
fn one(p: &Prop, args: &Args) -> i32 {
    limit_memory(p.id);
    let sub = find_sub(p, args.opt("--sub").unwrap());
    let idx = args.num("--idx", 0);
    let trace = args.opt("--trace").map(PathBuf::from);
    let src = match args.opt("--choices") {
        Some(f) => Src::replay(read_u64s(Path::new(f))),
        None => Src::random(case_seed(args.num("--seed", 1), p.id, sub.name, idx)),
    };
    let (o, repr) = on_big_stack(move || run_src(sub, src, idx, true, trace.as_deref()));
    let (code, msg) = match o {
        Outcome::Pass => (0, String::new()),
        Outcome::Fail(m, _) => (1, m),
        Outcome::Harness(m) => (2, m),
    };
    if let Some(f) = args.opt("--msg") {
        fs::write(f, format!("{msg}\u{0}{repr}")).unwrap();
    }
    code
}

fn shrink_child(p: &Prop, args: &Args) -> i32 {
    limit_memory(p.id);
    let sub = find_sub(p, args.opt("--sub").unwrap());
    let idx = args.num("--idx", 0);
    let file = PathBuf::from(args.opt("--choices").unwrap());
    let best = read_u64s(&file);
    let end = Instant::now() + Duration::from_secs(if cfg!(miri) { 60 } else { 20 });
    on_big_stack(move || {
        shrink(best, 20000, |c| {
            if Instant::now() > end {
                return None;
            }
            match run_choices(sub, c.to_vec(), idx, false, None).0 {
                Outcome::Fail(_, rec) => {
                    write_u64s(&file, &rec);
                    Some(rec)
                }
                _ => None,
            }
        });
    });
    0
}

fn read_u64s(p: &Path) -> Vec<u64> {
    let b = fs::read(p).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn write_u64s(p: &Path, v: &[u64]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let tmp = p.with_extension("tmp");
    fs::write(&tmp, b).unwrap();
    fs::rename(&tmp, p).unwrap();
}

/// The program for child processes; CTV_CHILD names another one that runs this one under an interpreter.
fn exe() -> PathBuf {
    match std::env::var_os("CTV_CHILD") {
        Some(p) => PathBuf::from(p),
        None => std::env::current_exe().unwrap_or_else(|_| die("current_exe")),
    }
}

fn interpreted() -> bool {
    std::env::var_os("CTV_CHILD").is_some()
}

/// whether an interpreter gave up on what it does not support
fn cannot(stderr: &Path) -> bool {
    let e = fs::read(stderr).unwrap_or_default();
    let e = String::from_utf8_lossy(&e);
    interpreted() && ["unsupported operation", "resource exhaustion", "exhausted"].iter().any(|m| e.contains(m))
}

/// with a process group of its own, so that `stop` reaches what the interpreter's driver has started
fn command() -> Command {
    let mut c = Command::new(exe());
    if interpreted() {
        c.process_group(0);
    }
    c
}

fn stop(c: &mut Child) {
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    if interpreted() {
        unsafe { kill(-(c.id() as i32), 9) };
    }
    let _ = c.kill();
    let _ = c.wait();
}

fn wait_limited(mut c: Child, limit: Duration) -> Result<std::process::ExitStatus, ()> {
    let end = Instant::now() + limit;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Ok(s),
            _ if Instant::now() > end => {
                stop(&mut c);
                return Err(());
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

/// Outcome of a case run in a child: None = passes, Some(message) otherwise.
fn run_child(p: &Prop, sub: &str, idx: u64, how: &[String], dir: &Path, limit: Duration) -> (Option<String>, Vec<u64>, String) {
    let trace = dir.join("trace");
    let msg = dir.join("msg");
    let _ = fs::remove_file(&trace);
    let _ = fs::remove_file(&msg);
    let c = command()
        .args(["one", p.id, "--sub", sub, "--idx", &idx.to_string()])
        .args(how)
        .arg("--trace")
        .arg(&trace)
        .arg("--msg")
        .arg(&msg)
        .stdout(Stdio::null())
        .stderr(fs::File::create(dir.join("stderr")).map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
        .spawn()
        .unwrap_or_else(|_| die("cannot start child"));
    let st = wait_limited(c, limit);
    let rec = read_u64s(&trace);
    let text = fs::read_to_string(&msg).unwrap_or_default();
    let (m, repr) = text.split_once('\u{0}').unwrap_or(("", ""));
    let out = match st {
        Err(()) if interpreted() => None,
        Err(()) => Some("does not terminate".to_string()),
        Ok(s) => match (s.code(), s.signal()) {
            (Some(0), _) => None,
            (Some(1), _) if msg.exists() => Some(m.to_string()),
            (Some(2), _) => None,
            _ if cannot(&dir.join("stderr")) => None,
            (c, s) => Some(format!(
                "process ended by {}: {}",
                s.map(|s| format!("signal {s}")).unwrap_or(format!("exit code {c:?}")),
                clip(&fs::read_to_string(dir.join("stderr")).unwrap_or_default(), 1500)
            )),
        },
    };
    (out, rec, repr.to_string())
}

// ---------------------------------------------------------------- parent

fn parent(p: &Prop, args: &Args) -> i32 {
    let start = Instant::now();
    let tier = args.opt("--tier").unwrap_or("quick").to_string();
    let seed = args.num("--seed", 1);
    let jobs = args.num("--jobs", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(16));
    let secs = args.num("--secs", if tier == "quick" { 420 } else { 5400 });
    let variant = args.opt("--variant").unwrap_or("").to_string();
    let work = verif_dir().join("work");
    let dir = work.join(format!("run-{}-{}{}", p.id, std::process::id(), variant));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap_or_else(|_| die("work directory"));
    crate::props::prepare(p.id);
    if interpreted() {
        if std::env::var_os("CTV_TOKENS").is_none() {
            std::env::set_var("CTV_TOKENS", &dir);
        }
        crate::types::save_tokens();
    }

    let mut kids: Vec<(u64, Option<Child>, u64, Instant)> = vec![];
    for shard in 0..jobs {
        let mut c = command();
        c.args(["worker", p.id, "--tier", &tier, "--seed", &seed.to_string()]);
        c.args(["--shard", &shard.to_string(), "--jobs", &jobs.to_string(), "--secs", &secs.to_string()]);
        c.args(["--percent", &args.num("--percent", 100).to_string()]);
        if let Some(s) = args.opt("--sub") {
            c.args(["--sub", s]);
        }
        if interpreted() && std::env::var_os("CTV_BORROWS").is_none() {
            // Stacked Borrows is twice as fast as Tree Borrows, which forbids less and decides
            c.env("CTV_BORROWS", "");
        }
        c.arg("--dir").arg(&dir).stdout(Stdio::null());
        c.stderr(fs::File::create(dir.join(format!("stderr.{shard}"))).map(Stdio::from).unwrap());
        kids.push((shard, Some(c.spawn().unwrap_or_else(|_| die("cannot start worker"))), 0, Instant::now()));
    }
    let read_journal = |shard: u64| -> Option<(usize, u64, u64)> {
        let v = read_u64s(&dir.join(format!("journal.{shard}")));
        (v.len() == 3).then(|| (v[0] as usize, v[1], v[2]))
    };
    // (shard, kind)
    let mut bad: Option<(u64, String)> = None;
    let mut last_check = Instant::now();
    while bad.is_none() && kids.iter().any(|k| k.1.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        if interpreted() && start.elapsed().as_secs() > secs + 40 {
            break;
        }
        let check = last_check.elapsed() > Duration::from_secs(1);
        if check {
            last_check = Instant::now();
        }
        for (shard, slot, tick, since) in kids.iter_mut() {
            let Some(c) = slot else { continue };
            if let Ok(Some(st)) = c.try_wait() {
                *slot = None;
                match (st.code(), st.signal()) {
                    (Some(0), _) => {}
                    (Some(1), _) if dir.join(format!("fail.{shard}")).exists() => bad = Some((*shard, "fail".into())),
                    (Some(2), _) => bad = Some((*shard, "harness".into())),
                    _ if cannot(&dir.join(format!("stderr.{shard}"))) => eprintln!("ctverify: worker {shard} met something the interpreter cannot do"),
                    (c, s) => bad = Some((*shard, format!("{}", s.map(|s| format!("signal {s}")).unwrap_or(format!("exit code {c:?}"))))),
                }
                if bad.is_some() {
                    break;
                }
            } else if check {
                let t = read_journal(*shard).map(|j| j.2).unwrap_or(0);
                if t != *tick {
                    *tick = t;
                    *since = Instant::now();
                } else if since.elapsed() > hang() {
                    stop(c);
                    *slot = None;
                    if !interpreted() {
                        bad = Some((*shard, "hang".into()));
                        break;
                    }
                }
            }
        }
    }
    for k in kids.iter_mut() {
        if let Some(c) = &mut k.1 {
            stop(c);
        }
    }

    let mut t = Tally::default();
    for shard in 0..jobs {
        merge_tally(&mut t, &dir.join(format!("tally.{shard}")));
    }

    let mut code = 0;
    let mut violations = 0;
    let mut violation_line = None;
    if let Some((shard, kind)) = bad {
        let fail = dir.join(format!("fail.{shard}"));
        if kind == "harness" || kind == "exit code Some(2)" {
            if fail.exists() {
                eprintln!("ctverify: harness error: {}", fs::read_to_string(&fail).unwrap_or_default());
            }
            eprintln!("{}", fs::read_to_string(dir.join(format!("stderr.{shard}"))).unwrap_or_default());
            code = 2;
        } else {
            let limit = hang();
            let (sub, idx, choices, message) = if kind == "fail" {
                let r = Replay::load(&fail);
                (r.sub, r.idx, r.choices, r.message)
            } else {
                let (si, idx, _) = read_journal(shard).unwrap_or((0, 0, 0));
                let sub = p.subs[si].name.to_string();
                let (out, rec, _) = run_child(p, &sub, idx, &["--seed".into(), seed.to_string()], &dir, limit);
                match out {
                    Some(m) => (sub, idx, rec, m),
                    None if interpreted() => {
                        // under other rules than the workers
                        eprintln!("ctverify: worker {shard} ended by {kind}, not confirmed by {sub} case {idx}");
                        eprintln!("{}", clip(&fs::read_to_string(dir.join(format!("stderr.{shard}"))).unwrap_or_default(), 4000));
                        code = 3;
                        (sub, idx, vec![], String::new())
                    }
                    None if kind == "signal 9" || kind == "hang" => {
                        eprintln!("ctverify: worker {shard} ended by {kind}, not reproduced by {sub} case {idx}");
                        code = 2;
                        (sub, idx, vec![], String::new())
                    }
                    None => {
                        let m = format!(
                            "worker ended by {kind}: {}",
                            clip(&fs::read_to_string(dir.join(format!("stderr.{shard}"))).unwrap_or_default(), 1500)
                        );
                        (sub, idx, rec, m)
                    }
                }
            };
            if code == 0 {
                let mut rep = Replay { property: p.id.into(), sub: sub.clone(), idx, choices, message, case: String::new() };
                let hang = rep.message == "does not terminate";
                if !hang {
                    minimise(p, &mut rep, &dir);
                }
                let rdir = work.join("replays");
                let _ = fs::create_dir_all(&rdir);
                let path = rdir.join(format!("{}-{}{}.json", p.id, sub.replace('/', "_"), variant));
                rep.save(&path);
                println!("sub-check {sub}: {}", clip(&rep.message, 3000));
                println!("case: {}", clip(&rep.case, 3000));
                violation_line = Some(format!("VIOLATION property={} replay={}", p.id, path.display()));
                violations = 1;
                code = 1;
            }
        }
    }
    for (sig, what) in &t.known {
        println!("KNOWN-FINDING: property={} {}: {}", p.id, sig, clip(what, 500));
    }
    if let Some(l) = violation_line {
        println!("{l}");
    }
    let wall = start.elapsed().as_secs_f64();
    if let Some(e) = args.opt("--evidence") {
        write_evidence(p, &t, &tier, seed, wall, violations, Path::new(e), args.opt("--merge"));
    }
    println!(
        "{} {}{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id,
        tier,
        if variant.is_empty() { String::new() } else { format!(" ({variant})") },
        t.cases,
        t.evals,
        t.hashes.len(),
        wall
    );
    let _ = fs::remove_dir_all(&dir);
    code
}

fn minimise(p: &Prop, rep: &mut Replay, dir: &Path) {
    let file = dir.join("best");
    write_u64s(&file, &rep.choices);
    // in one child process; if the case ends the process, candidate by candidate
    let st = command()
        .args(["shrink", p.id, "--sub", &rep.sub, "--idx", &rep.idx.to_string()])
        .arg("--choices")
        .arg(&file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map(|c| wait_limited(c, Duration::from_secs(if interpreted() { 120 } else { 40 })));
    let clean = matches!(st, Ok(Ok(s)) if s.code() == Some(0));
    let mut best = read_u64s(&file);
    let run = |c: &[u64]| -> (Option<String>, Vec<u64>, String) {
        let f = dir.join("cand");
        write_u64s(&f, c);
        run_child(p, &rep.sub, rep.idx, &["--choices".into(), f.display().to_string()], dir, Duration::from_secs(if interpreted() { 120 } else { 20 }))
    };
    if !clean && !interpreted() {
        let end = Instant::now() + Duration::from_secs(30);
        best = shrink(best, 2000, |c| {
            if Instant::now() > end {
                return None;
            }
            let (out, rec, _) = run(c);
            out.map(|_| rec)
        });
    }
    let (out, rec, repr) = run(&best);
    if let Some(m) = out {
        rep.choices = if rec.is_empty() { best } else { rec };
        rep.message = m;
        rep.case = repr;
    }
}

fn write_evidence(p: &Prop, t: &Tally, tier: &str, seed: u64, wall: f64, violations: u32, path: &Path, merge: Option<&str>) {
    let mut samples = vec![];
    let mut seen: BTreeMap<&str, u32> = BTreeMap::new();
    let mut dup = HashSet::new();
    for s in &t.samples {
        let sub = s.split(": ").next().unwrap_or("");
        let n = seen.entry(sub).or_default();
        if *n < 2 && dup.insert(s) {
            *n += 1;
            samples.push(json_str(s));
        }
    }
    let map = |m: &BTreeMap<String, u64>| -> String {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    // with the counts of the builds before: a case of one build is not the same as a case of another
    let other = merge.and_then(|m| fs::read_to_string(m).ok());
    let before = |key: &str| -> u64 {
        let text = other.as_deref().and_then(|m| m.split_once(&format!("\"{key}\": "))).map_or("", |(_, r)| r);
        text.split(|c: char| !c.is_ascii_digit()).next().and_then(|n| n.parse().ok()).unwrap_or(0)
    };
    let extra = match &other {
        Some(m) => format!(",\n  \"this_build\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}}},\n  \"other_build\": {m}", t.evals, t.hashes.len()),
        None => String::new(),
    };
    let o = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"cases\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases_per_subcheck\": {},\n  \"labels\": {},\n  \"samples\": [\n   {}\n  ]{extra}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        t.evals + before("evaluations"),
        t.cases,
        t.hashes.len() as u64 + before("distinct_nontrivial"),
        json_str(p.rule),
        map(&t.per_sub),
        map(&t.labels),
        samples.join(",\n   "),
        assumptions.join(", "),
        wall,
        violations
    );
    if let Some(d) = path.parent() {
        let _ = fs::create_dir_all(d);
    }
    let mut f = fs::File::create(path).unwrap_or_else(|_| die("evidence file"));
    f.write_all(o.as_bytes()).unwrap();
}
