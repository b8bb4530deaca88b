#!/usr/bin/env python3
"""Mutation run over the repository: tools/mutate.py [--sample N] [--workers W] [--percent P] FILE...

Makes one-token changes to copies of /repo (under /tmp/mut), keeps those that compile and pass the existing
tests, and runs all checks on them with a fraction of the cases. Prints the survivors; log in work/mutants.txt.
"""
import argparse, os, queue, random, re, shutil, subprocess, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--workers', type=int, default=3)
ap.add_argument('--percent', type=int, default=300)
ap.add_argument('--out', default=ROOT + '/work/mutants.txt')
ap.add_argument('--props', default='')
ap.add_argument('files', nargs='+')
A = ap.parse_args()
OPS = [('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
       (' + ', ' - '), (' - ', ' + '), ('<<', '>>'), ('>>', '<<'), ('true', 'false'), ('false', 'true'), ('.is_some()', '.is_none()'),
       ('.is_none()', '.is_some()'), ('.is_empty()', '.len() == 1'), ('min(', 'max('), ('max(', 'min('), (' as u8', ' as u8 & 0x7f'),
       ('required', 'optional'), ('optional', 'required'), ('i64 ', 'i32 '), ('i32 ', 'i64 '), ('binary', 'string'), ('i8 ', 'i16 '),
       ('OPTIONAL', 'REPEATED'), ('trailing_zeros', 'leading_zeros'), ('UnexpectedEof', 'Other'), ('clear()', 'len()'), ('!', ''),
       ('read_byte', 'read_i64'), ('wrapping_add', 'saturating_sub'), ('|=', '='), ('+=', '-='), ('MILLIS', 'MICROS'), ('Micros', 'Millis'), ('Millis', 'Nanos')]

def mutants(path):
    text = open('/repo/' + path).read()
    stop = text.find('mod tests')
    if stop < 0: stop = len(text)
    out, pos, comment = [], 0, False
    for line in text.splitlines(keepends=True):
        start, pos = pos, pos + len(line)
        if start >= stop: break
        s = line.strip()
        if comment:
            if '*/' in s: comment = False
            continue
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if s.startswith('//') or s.startswith('#') or s.startswith('use ') or not s or s.startswith('($') and 'macro' in path: continue
        code = line.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code):
                if a == '!' and code[m.start():m.start()+2] == '!=': continue
                if a == '!' and re.search(r'\w!$', code[:m.end()]): continue
                out.append((path, text[:start+m.start()].count('\n')+1, code[:m.start()] + b + code[m.end():].rstrip('\n') + '\n'))
        for m in re.finditer(r'\b(0x[0-9A-Fa-f]+|\d[\d_]*)(_?(?:i16|u8|u32|u64|usize|u16))?\b', code):
            for d in (1, -1):
                v = int(m.group(1).replace('_', ''), 0) + d
                if v < 0: continue
                if code[max(0,m.start()-1)] in '."': continue
                out.append((path, text[:start].count('\n')+1, code[:m.start()] + str(v) + (m.group(2) or '') + code[m.end():].rstrip('\n') + '\n'))
        if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and not s.startswith('}') and s.count('(') == s.count(')') and 'format.rs' not in path:
            out.append((path, text[:start].count('\n')+1, '\n'))
        if re.match(r'return Err\(.*\);?$', s):
            out.append((path, text[:start].count('\n')+1, '{}\n'))
    seen, r = set(), []
    for m in out:
        if m not in seen and m[2] != text.splitlines(keepends=True)[m[1]-1]:
            seen.add(m); r.append(m)
    return r

work = [m for f in A.files for m in mutants(f)]
random.Random(A.seed).shuffle(work)
if A.sample: work = work[:A.sample]
q = queue.Queue()
for m in work: q.put(m)
print(len(work), 'mutants', flush=True)
lock = threading.Lock()
PROPS = A.props.split(',') if A.props else ['C%02d' % i for i in range(1, 25) if i not in (20, 21)]
def sh(cmd, cwd, env, timeout=600):
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 20000000; ' + cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def worker(n):
    base = f'/tmp/mut/{n}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    subprocess.run(['cp', '-a', ROOT + '/harness', base + '/harness'], check=True)
    t = open(base + '/harness/Cargo.toml').read().replace('"/repo/', f'"{base}/repo/')
    open(base + '/harness/Cargo.toml', 'w').write(t)
    os.makedirs(base + '/work'); os.makedirs(base + '/evidence')
    shutil.copy(ROOT + '/known-findings.txt', base)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CTV_DIR=base, CARGO_INCREMENTAL='0', CARGO_BUILD_JOBS='3')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR'): env.pop(k, None)
    while True:
        try: f, line, new = q.get_nowait()
        except queue.Empty: break
        p = f'{base}/repo/{f}'
        orig = open(p).read()
        L = orig.splitlines(keepends=True)
        old = L[line-1]
        L[line-1] = new
        open(p, 'w').write(''.join(L))
        res = None
        try:
            rc, o = sh('cargo test --workspace --all-targets --no-run --offline -q', base + '/repo', env)
            if rc: res = 'does not compile'; continue
            rc, o = sh('timeout 60 cargo test --workspace --no-fail-fast --offline -q', base + '/repo', env)
            if rc: res = 'fails the tests'; continue
            rc, o = sh(f'cargo build --manifest-path harness/Cargo.toml --offline --target-dir {base}/target', base, env)
            if rc: res = 'CAUGHT harness does not build'; continue
            res = 'SURVIVED'
            for c in PROPS:
                rc, o = sh(f'./target/debug/ctverify run {c} --tier quick --seed 1 --jobs 3 --percent {A.percent if c not in ("C15","C18","C05") else A.percent//3} --evidence {base}/evidence/{c}.json', base, env, 300)
                if rc:
                    res = f'CAUGHT {c} rc={rc}'; break
        finally:
            open(p, 'w').write(orig)
            with lock:
                s = f'{res} | {f}:{line} | {old.strip()} -> {new.strip()}'
                if res and res[0] in 'SC': print(s, flush=True)
                open(A.out, 'a').write(s + '\n')
    shutil.rmtree(base, ignore_errors=True)
T = [threading.Thread(target=worker, args=(i,)) for i in range(A.workers)]
[t.start() for t in T]; [t.join() for t in T]
