#!/usr/bin/env python3
"""seed.py <id> [--nocheck]: given seeded/<id>/{patch.diff|working tree change in /repo, demo.rs, meta.json},
completes the planted bug (demo.sh, Cargo.lock), confirms it (applies, builds, passes the stable tests, the
demonstration passes without it and fails with it) and reports whether the property's check catches it.
If /repo has uncommitted changes, they become patch.diff."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
bid = sys.argv[1]
D = f"{V}/seeded/{bid}"
DEPS = {"costs": "grovedb-costs", "path": "grovedb-path", "grovedb-version": "grovedb-version",
        "grovedb-epoch-based-storage-flags": "grovedb-epoch-based-storage-flags", "storage": "grovedb-storage",
        "grovedb-dense-fixed-sized-merkle-tree": "grovedb-dense-fixed-sized-merkle-tree"}
FEAT = {"grovedb-element": '"serde"', "grovedb-query": '"serde","blockchain"', "grovedb-merkle-mountain-range": '"mem_store"',
        "grovedb-bulk-append-tree": '"mem_store"'}
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def git(*a):
    return sh("git -C /repo " + " ".join(a)).stdout
meta = json.load(open(D + "/meta.json"))
diff = git("diff")
if diff.strip():
    open(D + "/patch.diff", "w").write(diff)
    git("checkout -- .")
if not os.path.exists(D + "/demo.sh"):
    kind = meta.get("demo", "lite")
    if kind == "lite":
        deps = "".join(f'{n} = {{ path = \\"$repo/{p}\\" }}\\n' for p, n in DEPS.items())
        deps += "".join(f'{n} = {{ path = \\"$repo/{n}\\", features = [{f}] }}\\n'.replace('"serde"', '\\"serde\\"').replace('"blockchain"', '\\"blockchain\\"').replace('"mem_store"', '\\"mem_store\\"') for n, f in FEAT.items())
    else:
        deps = '''grovedb = { path = \\"$repo/grovedb\\", default-features = false, features = [\\"verify\\"] }\\ngrovedb-merk = { path = \\"$repo/merk\\", default-features = false, features = [\\"verify\\"] }\\n'''
        deps += "".join(f'{n} = {{ path = \\"$repo/{p}\\" }}\\n' for n, p in (("grovedb-costs", "costs"), ("grovedb-version", "grovedb-version"), ("grovedb-element", "grovedb-element"), ("grovedb-query", "grovedb-query")))
    extra = 'bincode = \\"=2.0.1\\"\\nblake3 = \\"1\\"\\nintmap = \\"3.1.3\\"\\nindexmap = \\"2\\"\\nhex = \\"0.4\\"\\nrand = \\"0.8\\"\\n'
    open(D + "/demo.sh", "w").write(f'''#!/bin/bash
# A small program against the crates in the current directory (the repository).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/vh-demo-{bid}/target
rm -rf /tmp/vh-demo-{bid}
mkdir -p /tmp/vh-demo-{bid}/src
cp "$here"/*.rs /tmp/vh-demo-{bid}/src/
cp "$here/Cargo.lock" /tmp/vh-demo-{bid}/ 2>/dev/null
printf "[package]\\nname = \\"demo\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2024\\"\\n[[bin]]\\nname = \\"demo\\"\\npath = \\"src/demo.rs\\"\\n[workspace]\\n[profile.dev]\\ndebug = false\\nincremental = false\\n[dependencies]\\n{deps}{extra}" > /tmp/vh-demo-{bid}/Cargo.toml
(cd /tmp/vh-demo-{bid} && timeout 280 cargo run -q --offline)
rc=$?
cp /tmp/vh-demo-{bid}/Cargo.lock "$here/Cargo.lock.new" 2>/dev/null
rm -rf /tmp/vh-demo-{bid}
exit $rc
'''.replace('cp /tmp/vh-demo-%s/Cargo.lock "$here/Cargo.lock.new" 2>/dev/null\n' % bid, ''))
    if not os.path.exists(D + "/Cargo.lock"):
        shutil.copy(V + "/tools/demo-" + kind + ".lock", D + "/Cargo.lock") if os.path.exists(V + "/tools/demo-" + kind + ".lock") else None
def demo():
    t = time.time(); r = sh(f"bash {D}/demo.sh", cwd=R); return r.returncode, r.stdout[-1500:], time.time() - t
ok = True
rc, out, t = demo()
print("demo on tree:", rc, f"{t:.0f}s", out if rc else "")
ok &= rc == 0
r = sh(f"git -C {R} apply {D}/patch.diff")
if r.returncode:
    sys.exit("patch does not apply " + r.stdout)
try:
    rc, out, t = demo()
    print("demo with bug:", rc, out)
    ok &= rc != 0
    r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-o.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed-o.json"))
    missing = set(b["stable"]) - set(o["passed"])
    print("stable tests missing:", missing)
    ok &= not missing
    if "--nocheck" not in sys.argv:
        t = time.time()
        r = sh(f"python3 check.py {meta['property']}", cwd=V)
        print("check:", r.returncode, f"{time.time()-t:.0f}s", r.stdout[-900:])
finally:
    git("checkout -- .")
print("CONFIRMED" if ok else "NOT CONFIRMED", bid)
