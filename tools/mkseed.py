#!/usr/bin/env python3
"""Make planted bugs from tools/seedlib/bugs_*.py: confirm each in a scratch copy and write /verif/seeded/<id>/.
usage: mkseed.py [id ...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys
L = "/verif/tools/seedlib"
bugs = {}
def bug(id, prop, edits, needs, breaks, demo):
    assert id not in bugs, id
    bugs[id] = (prop, edits, needs, breaks, demo)
for f in sorted(glob.glob(L + "/bugs_*.py")):
    exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
W = "/tmp/mkseed"
def sh(c, cwd, t=400, env=None):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
base = json.load(open("/opt/vp/BASELINE.json"))
want = sys.argv[1:] or [b for b in bugs if not os.path.exists("/verif/seeded/%s/patch.diff" % b)]
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", W])
if os.path.exists("/repo/Cargo.lock") and not os.path.exists(W + "/Cargo.lock"):
    shutil.copy("/repo/Cargo.lock", W)
for b in want:
    prop, edits, needs, breaks, demo = bugs[b]
    sh("git checkout -q -- .", W)
    d = "/tmp/mkseed-demo"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copy(L + "/demo.sh", d); shutil.copy(L + "/util.rs", d)
    open(d + "/demo.rs", "w").write("mod util;\nuse util::*;\n\n" + demo.strip() + "\n")
    if "// release build" in demo:
        t = open(d + "/demo.sh").read()
        open(d + "/demo.sh", "w").write(t.replace("opt-level = 1\\n", "opt-level = 1\\ndebug-assertions = false\\noverflow-checks = false\\n"))
    p = sh("bash %s/demo.sh" % d, W)
    if p.returncode != 0:
        print(b, "DEMO FAILS ON CLEAN TREE", p.returncode, p.stdout[-1500:]); continue
    bad = False
    for f, old, new in edits:
        s = open(W + "/" + f).read()
        if s.count(old) != 1:
            print(b, "EDIT MATCHES", s.count(old), old[:80]); bad = True; break
        open(W + "/" + f, "w").write(s.replace(old, new))
    if bad: continue
    e = dict(os.environ, CARGO_TARGET_DIR="/tmp/mkseed-target")
    p = sh("cargo test --offline 2>&1", W, env=e)
    if "error" in p.stdout and "could not compile" in p.stdout:
        print(b, "DOES NOT COMPILE", "\n".join(l for l in p.stdout.split("\n") if l.startswith("error"))[:1500]); continue
    if p.returncode != 0:
        print(b, "TESTS FAIL", p.stdout[-800:]); continue
    p = sh("bash %s/demo.sh" % d, W)
    if p.returncode in (0, 8, 9):
        print(b, "DEMO DOES NOT FAIL", p.returncode, p.stdout[-800:]); continue
    o = "/verif/seeded/" + b
    shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
    open(o + "/patch.diff", "w").write(sh("git diff", W).stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    print(b, "ok:", p.stdout.strip()[-150:])
shutil.rmtree(W, ignore_errors=True); shutil.rmtree("/tmp/mkseed-demo", ignore_errors=True); shutil.rmtree("/tmp/mkseed-target", ignore_errors=True)
