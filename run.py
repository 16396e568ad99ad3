#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one property's monitors over their
workloads, and reports.

  run.py check C01      quick or thorough, by VERIF_TIER; random choices from VERIF_SEED
  run.py replay FILE    runs one recorded case again
  run.py setup          builds everything once (nothing later depends on it)

Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
"""
import array, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
SHARDS = 8
TARGET = "x86_64-unknown-linux-gnu"
BIGSTACK = str(64 << 20)  # sanitizers need more stack per frame

# what each build is made with: directory, toolchain, flags, environment
BUILDS = {
    "main": dict(dir="target", cargo=["cargo", "build", "--release", "--offline"], bin="target/release/mf", flags=""),
    "asan": dict(dir="target/asan", cargo=["cargo", "+nightly", "build", "--release", "--offline", "--target", TARGET],
                 bin="target/asan/%s/release/mf" % TARGET, flags="-Zsanitizer=address"),
    "tsan": dict(dir="target/tsan", cargo=["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std", "--target", TARGET],
                 bin="target/tsan/%s/release/mf" % TARGET, flags="-Zsanitizer=thread"),
    # without overflow checks and debug assertions, as users ship it
    "bare": dict(dir="target", cargo=["cargo", "build", "--profile", "bare", "--offline"], bin="target/bare/mf", flags=""),
    # the library not optimised at all: work whose result is not used is still done
    "plain": dict(dir="target", cargo=["cargo", "build", "--profile", "plain", "--offline"], bin="target/plain/mf", flags=""),
}
# further runs of a property under a sanitizer or Miri: (tool, families, cases per family quick, thorough)
EXTRA = {
    "C11": [("asan", None, 4000, 60000), ("miri", "bytes", 8, 48), ("miri", "graphs", 8, 48), ("miri", "lists", 0, 16)],
    "C13": [("tsan", "threads", 800, 8000), ("miri", "threads", 8, 32)],
    "C15": [("asan", None, 1500, 30000), ("miri", "each", 64, 600), ("miri", "ext", 8, 16)],
    "C19": [("plain", None, 5000, 10000)],
}
# and every property in a build without debug assertions: one case in so many of each large family
BARE = (6, 6)
sys.path.insert(0, os.path.join(HERE, "tools"))
from rules import RULES  # noqa: E402


def say(*a):
    print(*a, flush=True)


def env_for(build):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "MF_STACK", "MF_PLAIN"):
        e.pop(k, None)
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    if build in ("asan", "tsan", "miri"):
        e["MF_STACK"] = BIGSTACK
    if build == "plain":
        e["MF_PLAIN"] = "1"
    e["ASAN_OPTIONS"] = "exitcode=86:detect_leaks=1:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return e


def build(kind):
    """(ok, seconds, output)"""
    b = BUILDS[kind]
    t0 = time.time()
    # never trust time stamps: /repo may have been restored or patched with old ones
    for d in glob.glob(os.path.join(HARNESS, b["dir"], "**", ".fingerprint", "magmaflow-*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)
    e = env_for(kind)
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, b["dir"])
    if b["flags"]:
        e["RUSTFLAGS"] = b["flags"]
    try:
        p = subprocess.run(b["cargo"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    except subprocess.TimeoutExpired:
        return False, time.time() - t0, "build timed out"
    ok = p.returncode == 0 and os.path.exists(os.path.join(HARNESS, b["bin"]))
    return ok, time.time() - t0, p.stdout


class Job:
    """One process running one shard of a property's families"""

    def __init__(self, tool, prop, seed, tier, shard, n, out, only=None, max_=None, wall=None, cpu=30):
        self.tool, self.shard, self.out, self.prop, self.only = tool, shard, out, prop, only
        a = ["run", "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (shard, n), "--out", out, "--cpu-limit", str(cpu)]
        if only:
            a += ["--only", only]
        if max_ is not None:
            a += ["--frac" if tool == "bare" else "--max", str(max_)]
        if wall:
            a += ["--wall", str(wall)]
        self.cmd = command(tool) + a
        self.err = out + ".err"
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, cwd=HARNESS, env=env_for(self.tool), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(self.err, "wb"), start_new_session=True)

    def kill(self):
        if self.p and self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()

    def stderr(self):
        try:
            return open(self.err, errors="replace").read()
        except OSError:
            return ""


def command(tool):
    if tool == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(HARNESS, "target/miri"), "--"]
    return [os.path.join(HARNESS, BUILDS[tool]["bin"])]


def run_jobs(jobs, wall, width=SHARDS):
    """Run at most `width` at a time, for at most `wall` seconds; each job gets .timed_out"""
    t0 = time.time()
    wait, live = list(jobs), []
    for j in jobs:
        j.timed_out = False
    while wait or live:
        while wait and len(live) < width and time.time() - t0 < wall:
            j = wait.pop(0)
            j.start()
            live.append(j)
        if time.time() - t0 >= wall:
            for j in live + wait:
                j.timed_out = True
                j.kill()
            break
        for j in list(live):
            if j.p.poll() is not None:
                live.remove(j)
        time.sleep(0.02)


SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|overflowed its stack|HANG: [^\n]*|memory allocation of [^\n]*)")


def read_out(j):
    """Lines of the shard's report"""
    r = dict(viol=[], evals=0, count={}, samples=[], known=[], done=False)
    try:
        lines = open(j.out + ".txt", errors="replace").read().split("\n")
    except OSError:
        return r
    for l in lines:
        k, _, v = l.partition(" ")
        if k == "violation":
            f, i, d = v.split(" ", 2)
            r["viol"].append((f, int(i), d))
        elif k == "evals":
            r["evals"] = int(v)
        elif k == "count":
            n, x = v.rsplit(" ", 1)
            r["count"][n.replace("_", " ")] = int(x)
        elif k == "sample":
            r["samples"].append(v)
        elif k == "known":
            r["known"].append(v)
        elif k == "done":
            r["done"] = True
    return r


def cur(j):
    try:
        f, i = open(j.out + ".cur").read().split()
        return f, int(i)
    except (OSError, ValueError):
        return None


def one(tool, prop, seed, tier, fam, idx, cpu=60, timeout=400):
    """Rerun one case: (verdict, text) with verdict held, violated, crashed, hung, harness"""
    cmd = command(tool) + ["one", "--prop", prop, "--family", fam, "--idx", str(idx), "--seed", str(seed), "--tier", tier, "--cpu-limit", str(cpu)]
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env_for(tool), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, start_new_session=True)
    except subprocess.TimeoutExpired:
        return "hung", "no end after %d s" % timeout
    m = SAN.search(p.stderr)
    txt = (p.stdout.strip() + (" | " + m.group(1) if m else "")).strip()
    if p.returncode == 97:
        return "hung", txt or "more CPU time than any case needs"
    if p.returncode == 0:
        return "held", txt
    if p.returncode == 1 and "violated:" in p.stdout:
        return "violated", txt
    if p.returncode == 2:
        return "harness", txt + p.stderr[-300:]
    if m or p.returncode < 0 or p.returncode in (86, 66, 134, 139):
        return "crashed", txt or "exit code %d" % p.returncode
    return "harness", txt + p.stderr[-300:]


def known_file():
    k = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                k[(m.group(1), m.group(2))] = m.group(3)
    return k


def check(prop):
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    t0 = time.time()
    quick = tier == "quick"
    budget = 600 if quick else 6 * 3600
    os.makedirs(EVID, exist_ok=True)
    rep_dir = os.path.join(EVID, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, prop + "-*")):
        os.remove(f)
    ok, bt, out = build("main")
    if not ok:
        say(out[-4000:])
        say("no answer: the harness does not build against /repo")
        return 2
    tmp = tempfile.mkdtemp(prefix="mf-")
    try:
        return checked(prop, tier, seed, t0, quick, budget, rep_dir, bt, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def checked(prop, tier, seed, t0, quick, budget, rep_dir, bt, tmp):
    found = []  # (tool, family, idx, how, detail)
    notes, broken = [], []
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[prop][0], samples=[], observed={}, families={}, seconds={})
    distinct = set()
    known = {}
    complete = True

    def gather(j, main, retried=False):
        nonlocal complete
        r = read_out(j)
        for f, i, d in r["viol"]:
            found.append((j.tool, f, i, "violated", d))
        rc = j.p.returncode if j.p else None
        tool_fail = None
        if j.timed_out:
            notes.append("%s shard %d stopped at the time limit" % (j.tool, j.shard))
            complete = False
        elif not r["done"] or rc not in (0, 1):
            err = j.stderr()
            m = SAN.search(err)
            at = cur(j)
            if j.tool == "miri":
                if m:
                    found.append((j.tool, j.only, j.shard, "crashed", m.group(1)))
                elif "violation" not in err:
                    tool_fail = err[-400:]
            elif at:
                how = "hung" if rc == 97 else "crashed"
                found.append((j.tool, at[0], at[1], how, (m.group(1) if m else "exit code %s" % rc)))
            else:
                tool_fail = "exit %s before the first case: %s" % (rc, err[-400:])
        if main:
            cov["evaluations"] += r["evals"]
            for k, v in r["count"].items():
                d, kk = cov["observed"], k
                if k.startswith("evaluations."):
                    d, kk = cov["families"], k[12:]
                elif k.startswith("ms."):
                    d, kk, v = cov["seconds"], k[3:], v / 1000.0
                if k.startswith("max "):
                    d[kk] = max(d.get(kk, 0), v)
                else:
                    d[kk] = round(d.get(kk, 0) + v, 3)
            for s in r["samples"]:
                cov["samples"].append(s)
            for k in r["known"]:
                known.setdefault(k.split(":", 1)[0], k)
            try:
                a = array.array("Q")
                with open(j.out + ".bin", "rb") as f:
                    a.frombytes(f.read())
                distinct.update(a)
            except (OSError, ValueError):
                pass
        return r, tool_fail

    jobs = [Job("main", prop, seed, tier, i, SHARDS, os.path.join(tmp, "m%d" % i), wall=int(budget * 0.75)) for i in range(SHARDS)]
    run_jobs(jobs, budget)
    for j in jobs:
        _, tf = gather(j, True)
        if tf:
            broken.append(tf)
    cov["tools"] = {}
    if not found:
        for tool, only, nq, nt in [("bare", None) + BARE] + EXTRA.get(prop, []):
            n = nq if quick else nt
            if n == 0 or found:
                continue
            ts = time.time()
            left = (420 if quick else 3 * 3600) - (0 if not quick else (time.time() - t0) * 0.7)
            name = tool + (":" + only if only else "")
            if left < 30:
                cov["tools"][name] = "skipped: no time left"
                continue
            if tool != "miri":
                ok, tb, out = build(tool)
                if not ok:
                    cov["tools"][name] = "not available: " + out[-300:]
                    continue
            else:
                p = miri_ready()
                if p is not None:
                    cov["tools"][name] = "not available: " + p
                    continue
            js = [Job(tool, prop, seed, tier, i, SHARDS, os.path.join(tmp, "%s%s%d" % (tool, only or "", i)), only=only, max_=n, cpu={"bare": 30, "plain": 60}.get(tool, 600),
                      wall=int(left * 0.8)) for i in range(SHARDS)]
            run_jobs(js, min(left, 200 if quick and tool == "miri" else left))
            ev, stopped, tfs = 0, 0, []
            for j in js:
                r, tf = gather(j, False)
                ev += r["evals"]
                stopped += j.timed_out
                if tf:
                    tfs.append(tf)
            cov["tools"][name] = dict(evaluations=ev, seconds=round(time.time() - ts, 1), shards_stopped_at_time_limit=stopped)
            if tfs:
                cov["tools"][name]["tool_errors"] = tfs[:2]
    cov["distinct_nontrivial"] = len(distinct)

    # decide
    viols, seen = [], set()
    for tool, fam, idx, how, detail in found:
        if how == "hung" and any(v["how"] == "hung" for v in viols):
            continue
        if (fam, how) in seen and len(viols) >= 3:
            continue
        seen.add((fam, how))
        if "harness:" in detail:
            broken.append("%s/%s: %s" % (fam, idx, detail))
            continue
        again = None
        if tool != "miri" and len(viols) < 3:
            v, txt = one(tool, prop, seed, tier, fam, idx)
            again = v
            if v == "harness":
                broken.append("%s/%s: %s" % (fam, idx, txt))
                continue
            if v in ("crashed", "hung") or (v == "violated" and not detail):
                detail = detail + " | again: " + txt
            if v == "held":
                if how in ("crashed", "hung"):
                    # may be the machine: memory, load. Once more, else no answer
                    v2, t2 = one(tool, prop, seed, tier, fam, idx)
                    if v2 == "held":
                        broken.append("%s/%s %s once (%s) but not when run again" % (fam, idx, how, detail))
                        continue
                notes.append("%s/%s not seen again when rerun alone: depends on timing or history" % (fam, idx))
        viols.append(dict(property=prop, tool=tool, family=fam, idx=idx, seed=seed, tier=tier, how=how, detail=detail, when_rerun=again))
    listed = known_file()
    for k, text in sorted(known.items()):
        if (prop, k) in listed:
            say("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            viols.append(dict(property=prop, tool="main", family=k, idx=0, seed=seed, tier=tier, how="violated", detail=text, when_rerun=None))
    s = cov["samples"]
    cov["samples"] = s[:: max(1, len(s) // 6)][:8]
    cov["notes"] = notes
    cov["completed_all_cases"] = complete and "shards that ran out of time" not in cov["observed"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=RULES[prop][1],
              build_s=round(bt, 1), wall_s=round(time.time() - t0, 1), violations=len(viols))
    tmpf = os.path.join(EVID, prop + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, prop + ".json"))
    if viols:
        for n, v in enumerate(viols[:5]):
            path = os.path.join(rep_dir, "%s-%d.json" % (prop, n))
            v["again"] = "python3 run.py replay " + os.path.relpath(path, HERE)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            say("%s %s/%s (%s): %s" % (v["how"], v["family"], v["idx"], v["tool"], v["detail"][:1500]))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        for b in broken[:5]:
            say("no answer: " + b[:1500])
        return 2
    if cov["evaluations"] == 0 or len(distinct) == 0:
        say("no answer: nothing was observed")
        return 2
    say("%s held: %d evaluations, %d distinct, %.1f s (%s, seed %d)%s" % (
        prop, cov["evaluations"], len(distinct), time.time() - t0, tier, seed,
        "; " + json.dumps({k: (v if isinstance(v, str) else v["evaluations"]) for k, v in cov["tools"].items()}) if cov["tools"] else ""))
    return 0


_miri = []


def miri_ready():
    """None if Miri can run the harness, else why not"""
    if not _miri:
        for d in glob.glob(os.path.join(HARNESS, "target/miri", "**", ".fingerprint", "magmaflow-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        try:
            p = subprocess.run(command("miri") + ["ping"], cwd=HARNESS, env=env_for("miri"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=240)
            _miri.append(None if "pong" in p.stdout else p.stdout[-300:])
        except (subprocess.TimeoutExpired, OSError) as e:
            _miri.append(str(e)[:200])
    return _miri[0]


def replay(path):
    v = json.load(open(path))
    if v["tool"] != "miri":
        ok, _, out = build(v["tool"])
        if not ok:
            say(out[-2000:])
            return 2
    r, txt = one(v["tool"], v["property"], v["seed"], v["tier"], v["family"], v["idx"], timeout=900)
    say(r + ": " + txt)
    return {"held": 0, "violated": 1, "crashed": 1, "hung": 1}.get(r, 2)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check" and sys.argv[2] in RULES:
        return check(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        ok, t, out = build("main")
        say(out[-1500:] if not ok else "built in %.1f s" % t)
        return 0 if ok else 2
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
