#!/usr/bin/env python3
"""Creates and validates planted bugs: tools/plant.py DEFINITIONS.py [ID...]

DEFINITIONS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
For each: a scratch copy of /repo is changed, built and tested, the demonstration is run on the changed
and on the unchanged tree; only if everything is as it should be, seeded/<id>/ is written.
"""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = a checkout of the repository; exit 0: behaves as it should
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
compact-thrift-runtime = { path = "$repo/runtime" }
compact-thrift-parquet = { path = "$repo/parquet" }
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$d" || exit 3
cargo build -q --offline || exit %s
%s
'''
SCHEMA_BIN = '''[[bin]]
name = "schema"
path = "$repo/parquet/src/bin/schema.rs"
'''
SCHEMA = '''
/// runs the schema program on a file with these elements: exit code (None: killed) and output
fn schema(elements: Vec<SchemaElement>) -> (Option<i32>, String, String) {
    let mut md = FileMetaData::default();
    md.version = 2;
    md.schema = elements;
    let mut file = b"PAR1".to_vec();
    md.write_thrift(&mut file).unwrap();
    let n = file.len() as u32 - 4;
    file.extend(n.to_le_bytes());
    file.extend(b"PAR1");
    // the program opens a fixed path below its working directory
    std::fs::create_dir_all("scratch/parquet/data").unwrap();
    std::fs::write("scratch/parquet/data/alltypes_tiny_pages.parquet", file).unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("schema");
    let o = std::process::Command::new(exe).current_dir("scratch").output().unwrap();
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
fn group(name: &str, children: i32) -> SchemaElement {
    SchemaElement { name: name.into(), num_children: Some(children), repetition_type: Some(FieldRepetitionType::REQUIRED), ..Default::default() }
}
fn leaf(name: &str) -> SchemaElement {
    SchemaElement { name: name.into(), type_: Some(Type::INT32), repetition_type: Some(FieldRepetitionType::OPTIONAL), ..Default::default() }
}
'''
RUN = 'timeout 60 ./target/debug/demo'
HEAD = '''#![allow(unused)]
use compact_thrift_runtime::*;
use compact_thrift_parquet::{*, format::*};
use std::io::{self, Read, Write, Seek, SeekFrom, ErrorKind};
use std::rc::Rc;
use std::sync::Arc;

'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def tests(cwd):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=cwd + '/target')
    b = sh('cargo test --workspace --all-targets --no-run --offline', cwd, env=env)
    t = sh('cargo test --workspace --no-fail-fast --offline', cwd, env=env)
    n = t.stdout.count(' ... ok')
    return b.returncode == 0 and t.returncode == 0, n, b.stderr[-2000:] + t.stdout[-3000:]

def main():
    defs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    tmp = '/tmp/plant'
    if not os.path.isdir(tmp):
        subprocess.run(['cp', '-a', '/repo', tmp], check=True)
    sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', tmp)
    for b in defs:
        if want and b['id'] not in want:
            continue
        sh('git checkout -q -- .', tmp)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f'{f}: text occurs {s.count(old)} times: {old[:60]}'
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'NOT APPLIED', bad)
            continue
        diff = sh('git diff', tmp).stdout
        ok, n, log = tests(tmp)
        if not ok:
            print(b['id'], 'TESTS FAIL', log)
            continue
        d = f'/tmp/plant-demo'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write((DEMO.replace('[dependencies]', SCHEMA_BIN + '[dependencies]') if b.get('schema') else DEMO) % (b.get('nobuild', 3), b.get('run', RUN)))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(HEAD + (SCHEMA if b.get('schema') else '') + b['demo'].lstrip('\n'))
        r1 = sh(d + '/demo.sh', tmp)
        sh('git checkout -q -- .', tmp)
        r0 = sh(d + '/demo.sh', tmp)
        if r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 3:
            print(b['id'], 'DEMO', 'clean', r0.returncode, r0.stderr[-1500:], 'changed', r1.returncode, r1.stderr[-1500:])
            continue
        out = os.path.join(ROOT, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(b['id'], 'ok', n, 'tests pass; demo:', r1.stderr.strip().splitlines()[:2])
main()
