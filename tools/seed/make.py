"""make.py ID: seeded/ID/{edit.py,demo.rs,meta.json} -> patch.diff, demo.sh, confirmed in a scratch copy"""
import json, os, re, shutil, subprocess, sys
V = "/verif/seeded"; W = "/tmp/seedrepo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD")
    assert sh(f"git -C {W} rev-parse HEAD").stdout == sh("git -C /repo rev-parse HEAD").stdout
def tests():
    r = sh(f". /opt/vp/env.sh; cd {W}; CARGO_TARGET_DIR={W}/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    return "\n".join(x for x in (r.stdout + r.stderr).split("\n") if re.search(r"FAILED|^error|panicked", x)), r.returncode
def main(i):
    fresh()
    d = os.path.join(V, i)
    shutil.copy("/verif/tools/seed/demo.sh", d)
    r0 = sh(f"bash {d}/demo.sh", cwd=W)
    assert r0.returncode == 0, (i, "demo fails on the unchanged tree", r0.stderr[-2000:], r0.stdout[-500:])
    if os.path.exists(os.path.join(d, "edit.py")):
        r = sh(f"python3 {d}/edit.py", cwd=W); assert r.returncode == 0, (i, r.stderr)
        diff = sh(f"git -C {W} diff").stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        os.remove(os.path.join(d, "edit.py"))
    else:
        assert sh(f"git -C {W} apply {d}/patch.diff").returncode == 0
    t, rc = tests()
    r1 = sh(f"bash {d}/demo.sh", cwd=W)
    ok = rc == 0 and r1.returncode != 0
    print(i, "OK" if ok else "BAD", "tests rc", rc, t[:600], "| demo", r1.returncode, (r1.stderr or r1.stdout)[-300:].replace("\n", " "))
    sh(f"git -C {W} checkout -q -- .")
for i in sys.argv[1:]: main(i)
