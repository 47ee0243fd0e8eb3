#!/usr/bin/env python3
"""Planted changes: (id, property, file, old, new, needs, breaks, demo.rs).  Writes /verif/seeded/<id>/.
usage: seeds.py            regenerate every folder from /repo's HEAD
       seeds.py test [ID]  in a scratch copy: build, stable tests, demo without and with the change
       seeds.py check [ID] apply to /repo, run the property's quick check, undo"""
import os, sys, json, subprocess, shutil, tempfile
V = '/verif'
S = []
def s(id, prop, edits, needs, breaks, demo): S.append((id, prop, edits, needs, breaks, demo))
PYLOCK, JSLOCK = (open(f'{V}/{x}/Cargo.lock').read() for x in ('harness_py', 'tools/js_demo'))
HEAD = """#!/bin/bash
# run with cwd /repo; builds the binding from its sources in a scratch folder and uses it
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d="$(cd "$(dirname "$0")" && pwd)"; r="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/c/src" && cp "$d"/Cargo.lock "$t/c/" && sed "s#@REPO@#$r#g" "$d/Cargo.toml.in" > "$t/c/Cargo.toml" || exit 3
export CARGO_TARGET_DIR="$t/target"
"""
PYDEMO = HEAD + """cargo build --offline --manifest-path "$t/c/Cargo.toml" > "$t/log" 2>&1 || { tail -5 "$t/log"; exit 3; }
cp "$t/target/debug/libms_toollib.so" "$t/ms_toollib.so" && cp "$d/demo.py" "$t/" && cd "$t" && timeout 60 python3 demo.py
"""
PYTOML = """[package]
name = "bind_py"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
name = "ms_toollib"
crate-type = ["cdylib"]
path = "@REPO@/python_package/src/lib.rs"
[dependencies]
pyo3 = { version = "0.20.2", features = ["abi3-py37", "extension-module"] }
ms_toollib_original = { path = "@REPO@/base", features = ["py"], package = "ms_toollib" }
itertools = "0.6.0"
[profile.dev]
debug = false
incremental = false
"""
JSDEMO = HEAD + """sed "s#@REPO@#$r#g" "$d/demo.rs" > "$t/c/src/main.rs"
cargo build --offline --manifest-path "$t/c/Cargo.toml" > "$t/log" 2>&1 || { tail -5 "$t/log"; exit 3; }
cd "$t" && timeout 60 "$t/target/debug/demo"
"""
JSTOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wasm-bindgen = "0.2.90"
serde_json = "1.0.59"
serde = "1.0.130"
ms_toollib = { path = "@REPO@/base", default-features = false, features = ["js"] }
[profile.dev]
debug = false
incremental = false
"""
def py(code): return {'demo.sh': PYDEMO, 'Cargo.toml.in': PYTOML, 'Cargo.lock': PYLOCK, 'demo.py': code}
def js(code): return {'demo.sh': JSDEMO, 'Cargo.toml.in': JSTOML, 'Cargo.lock': JSLOCK, 'demo.rs': code}
exec(open(V + '/tools/seed_defs.py').read())
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build; links a small program against the library that the build left behind
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
lib="$(ls -t base/target/debug/deps/libms_toollib-*.rlib | head -1)"
rustc --edition 2021 -A warnings -C debug-assertions "$d/demo.rs" --extern ms_toollib="$lib" -L dependency=base/target/debug/deps -o "$t/demo" || exit 3
export REPO="$PWD"; cd "$t" && exec_out="$(timeout 250 ./demo 2>&1)"; r=$?
echo "$exec_out" | tail -5
exit $r
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def gen():
    t = tempfile.mkdtemp()
    sh(f'git -C /repo worktree prune; git clone -q /repo {t}/r')
    for (i, p, edits, needs, breaks, demo) in S:
        for f, old, new in edits:
            q = f'{t}/r/base/src/{f}'
            b = open(q, 'rb').read().decode('utf8')
            nl = '\r\n' if '\r\n' in b else '\n'
            o, n = old.replace('\n', nl), new.replace('\n', nl)
            if b.count(o) != 1: print('!!', i, f, b.count(o)); break
            open(q, 'wb').write(b.replace(o, n).encode('utf8'))
        else:
            d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', t + '/r', 'diff', '--binary'], capture_output=True).stdout)
            files = demo if isinstance(demo, dict) else {'demo.sh': DEMO, 'demo.rs': demo}
            for fn, txt in files.items(): open(f'{d}/{fn}', 'w').write(txt)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        sh(f'git -C {t}/r checkout -q -- .')
    shutil.rmtree(t)
def ids(): return [x for x in S if len(sys.argv) < 3 or x[0] in sys.argv[2:]]
def test():
    t = '/tmp/seedrepo'
    if not os.path.exists(t): sh(f'mkdir {t}; cp -a /repo/. {t}/')
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'git -C {t} fetch -q /repo HEAD; git -C {t} checkout -qf {head}')
    # builds and tests use /repo paths, so a bind is impossible: run the cargo commands here
    env = 'export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=; '
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    def build(): return sh(env + f'cd {t}/base && cargo test --no-run --offline 2>&1 | tail -3; exit ${{PIPESTATUS[0]}}', executable='/bin/bash')
    build()
    for x in ids():
        i = x[0]; d = f'{V}/seeded/{i}'
        r0 = sh(f'bash {d}/demo.sh', cwd=t)
        a = sh(f'git -C {t} apply {d}/patch.diff')
        b = build()
        tt = sh(env + f'cd {t}/base && timeout 300 cargo test --offline --no-fail-fast -- --test-threads 1 --skip laymine_solvable_adjust_works 2>&1', executable='/bin/bash').stdout
        bad = [n for n in st if not n.startswith('doc') and (n.split('::')[-1] + ' ... ok') not in tt] + (['doc'] if 'cal_is_op_possibility_cells (line' not in tt else [])
        r1 = sh(f'bash {d}/demo.sh', cwd=t)
        sh(f'git -C {t} checkout -q -- .'); build()
        print(i, x[1], 'demo', r0.returncode, r1.returncode, 'apply', a.returncode, 'build', b.returncode, 'tests', bad or 'ok', '' if r0.returncode == 0 and r1.returncode not in (0, 3) and not bad else '<<<<<<  ' + r0.stdout[-300:] + r1.stdout[-300:] + b.stdout[-300:], flush=True)
def check():
    for x in ids():
        i = x[0]
        a = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
        r = sh(f'timeout 900 {V}/run.sh {x[1]} quick')
        sh(f'git -C /repo apply -R {V}/seeded/{i}/patch.diff')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, x[1], 'apply', a.returncode, 'rc', r.returncode, v[:1], (r.stdout + r.stderr)[-200:].strip() if not v else '', flush=True)
if __name__ == '__main__':
    m = sys.argv[1] if len(sys.argv) > 1 else 'gen'
    {'gen': gen, 'test': test, 'check': check}[m]()
