"""Building blocks of the checks: build, generate, compile, run, shrink."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "t")
NCPU = min(8, os.cpu_count() or 8)
FEATURES = {"std": ["--features", "std"], "all": ["--features", "all"], "nostd": [],
            "tpl": ["--features", "tpl"], "cg": ["--features", "cg"]}


class CheckError(Exception):
    """The check could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("DEBUG_TEMPLATE", None)
    return e


def same_sources():
    """Cargo goes by times; what was built from other sources is forgotten, whatever their times"""
    h = hashlib.sha256()
    for top in ("/repo/binread", "/repo/binread_derive", HARNESS):
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "tests", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".md")):
                    h.update(os.path.join(root, f).encode() + b"\0" + open(os.path.join(root, f), "rb").read() + b"\0")
    stamp = os.path.join(TARGET, "sources")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    for d in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "b*")):
        if re.match(r"(binread|bxrt|bx)[-_]", os.path.basename(d)):
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TARGET, exist_ok=True)
    open(stamp, "w").write(h.hexdigest())


class Libs:
    def __init__(self, feat, what=("--lib",)):
        self.feat = feat
        same_sources()
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json", "-p", "bxrt"] + list(what) + FEATURES[feat]
        p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            msgs = []
            for l in p.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    msgs.append(m["message"]["rendered"])
            raise CheckError("building the library (%s) failed:\n%s\n%s" % (feat, p.stderr[-3000:], "\n".join(msgs)[:6000]))
        self.bins = {}
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-artifact":
                continue
            name = m["target"]["name"]
            rlib = [f for f in m["filenames"] if f.endswith(".rlib")]
            if name == "binread" and rlib:
                self.binread = rlib[0]
            if name == "bxrt" and rlib:
                # the uplifted copy is overwritten by the next feature set
                rmeta = [f for f in m["filenames"] if f.endswith(".rmeta")][0]
                hashed = rmeta[:-6] + ".rlib"
                self.bxrt = hashed if os.path.exists(hashed) else rlib[0]
            if m.get("executable"):
                self.bins[name] = m["executable"]
        self.deps = os.path.dirname(self.binread)

    def rustc(self, src, out, extra=()):
        return ["rustc", "--edition", "2021", src, "-o", out, "-C", "opt-level=0", "-C", "debuginfo=0",
                "-C", "overflow-checks=on", "-C", "debug-assertions=on",
                "--extern", "bxrt=" + self.bxrt, "--extern", "binread=" + self.binread,
                "-L", "dependency=" + self.deps, "--cap-lints", "allow"] + list(extra)


def build_bx():
    """bxgen"""
    same_sources()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "bx"], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building bxgen failed:\n" + p.stdout[-4000:])
    return os.path.join(TARGET, "debug", "bxgen")


def fresh(d):
    assert d.startswith(BUILD + "/")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def gen(bxgen, prof, seed, n, styles, shards, d, tapes=None):
    cmd = [bxgen, prof, str(seed), str(n), str(styles), str(shards), d] + ([tapes] if tapes else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("bxgen failed:\n" + p.stdout[-3000:])
    out = {}
    for l in open(os.path.join(d, "tapes.txt")):
        i, rest = l.rstrip("\n").split(" ", 1)
        out[int(i)] = rest
    return out


PROG = re.compile(r"(?:^|/)p(\d+)\.rs$")


def blamed(diag, acc):
    for s in diag.get("spans", []):
        while s:
            m = PROG.search(s["file_name"])
            if m:
                acc.add(int(m.group(1)))
            s = (s.get("expansion") or {}).get("span")


def compile_shard(libs, d, drop=True):
    """Compiles d/main.rs. Programs that do not compile are taken out and reported:
    returns {program: rendered diagnostics}."""
    main = os.path.join(d, "main.rs")
    bad = {}
    for attempt in range(40):
        p = subprocess.run(libs.rustc(main, os.path.join(d, "bin"), ["--error-format=json"]),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        if p.returncode == 0:
            return bad
        who = {}
        other = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                other.append(l)
                continue
            if m.get("level") != "error" and not m.get("level", "").startswith("error"):
                continue
            acc = set()
            blamed(m, acc)
            for k in acc:
                who.setdefault(k, []).append(m.get("rendered", ""))
            if not acc and not m.get("message", "").startswith("aborting"):
                other.append(m.get("rendered", ""))
        if not who or not drop:
            raise CheckError("compiling %s failed:\n%s" % (d, "\n".join(other)[:3000] or p.stderr[:3000]))
        src = open(main).read()
        for k, v in who.items():
            bad[k] = "\n".join(v)[:6000]
            src = src.replace("mod p%d;\n" % k, "")
            src = re.sub(r"    bxrt::Entry \{ id: %d, .*\n" % k, "", src)
        open(main, "w").write(src)
    raise CheckError("compiling %s failed repeatedly" % d)


def compile_all(libs, dirs):
    bad = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for b in ex.map(lambda d: compile_shard(libs, d), dirs):
            bad.update(b)
    return bad


def shard_cmd(d, prof, seed, cases, out, extra):
    return [os.path.join(d, "bin"), "--id", prof, "--seed", str(seed), "--cases", str(cases), "--out", out,
            "--progress", os.path.join(d, "progress")] + list(extra)


STALL = 60


def run_shard(d, prof, seed, cases, timeout, extra=()):
    """Returns (result or None, crash description or None)"""
    out = os.path.join(d, "out.json")
    if os.path.exists(out):
        os.remove(out)
    stderr = os.path.join(d, "stderr")
    prog = os.path.join(d, "progress")
    if os.path.exists(prog):
        os.remove(prog)
    with open(stderr, "wb") as e:
        p = subprocess.Popen(shard_cmd(d, prof, seed, cases, out, extra), stdout=subprocess.DEVNULL, stderr=e, env=env())
    start = time.time()
    why = None
    while True:
        try:
            p.wait(1)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            # the file is written before each case
            last = max(start, os.path.getmtime(prog) if os.path.exists(prog) else start)
            if now - start > timeout or now - last > STALL:
                p.kill()
                p.wait()
                why = "no answer within %d s" % (min(timeout, STALL) if now - last > STALL else timeout)
                break
    if why is None:
        err = open(stderr, errors="replace").read()
        if "MODEL-PANIC" in err:
            log("note:", d, err[:600])
        if p.returncode == 0 and os.path.exists(out):
            return json.load(open(out)), None
        why = "ended with status %s: %s" % (p.returncode, err[-300:])
    try:
        pr = open(os.path.join(d, "progress")).read().split()
        where = (int(pr[0]), int(pr[1]))
    except (OSError, ValueError, IndexError):
        raise CheckError("%s: %s, before any case" % (d, why))
    if where[0] == 0xFFFFFFFF:
        raise CheckError("%s: %s, after the last case" % (d, why))
    return None, (where, why)


def run_all(dirs, prof, seed, cases, timeout, extra=()):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda d: run_shard(d, prof, seed, cases, timeout, extra), dirs))


def merge(rs):
    t = {"evaluations": 0, "cases": 0, "skipped": 0, "nontrivial": 0, "distinct": 0, "max_mem": 0, "events": {}, "extra": {}, "samples": []}
    for r in rs:
        for k in ("evaluations", "cases", "skipped", "nontrivial", "distinct"):
            t[k] += r[k]
        t["max_mem"] = max(t["max_mem"], r["max_mem"])
        for k in ("events", "extra"):
            for a, b in r[k].items():
                t[k][a] = t[k].get(a, 0) + b
        t["samples"] += r["samples"]
    return t


def case_arg(c, sub):
    return "%s,%d,%d,%d,%s,%d,%s;%d" % (c["data"], c["base"], c["pos"], c["e"], "-" if c["count"] is None else c["count"],
                                       c["off"], ":".join(str(a) for a in c["args"]), sub)


def candidates(words, rnd):
    """Smaller tapes"""
    n = len(words)
    out = []
    w = n // 2
    while w >= 1:
        for i in range(0, n, w):
            out.append(words[:i] + words[i + w:])
        w //= 2
        if len(out) > 150:
            break
    for i in range(n):
        if words[i]:
            out.append(words[:i] + [0] + words[i + 1:])
    rnd.shuffle(out)
    return out


def shrink_program(bxgen, libs, prof, tape, style, fail, seed, work, secs, src_len):
    """Smaller programs that fail too. Returns (tape, style, failure)"""
    import random
    rnd = random.Random(seed)
    end = time.time() + secs
    words = [int(w) for w in tape.split()]
    best = (words, style, fail, src_len)
    # the plainest spelling first
    tried = set()
    stale = 0
    first = True
    while time.time() < end and stale < 3:
        words, style, fail, size = best
        cands = []
        if first and style != 0:
            cands.append((words, 0))
        for c in candidates(words, rnd):
            if len(cands) >= 24:
                break
            k = tuple(c)
            if k in tried:
                continue
            tried.add(k)
            cands.append((c, style if not first else 0))
        first = False
        if not cands:
            break
        d = fresh(os.path.join(work, "shrink"))
        tf = os.path.join(d, "in.txt")
        with open(tf, "w") as f:
            for c, s in cands:
                f.write("%d:%s\n" % (s, " ".join(map(str, c))))
        try:
            # one program per crate would be slow; failures to compile are dropped
            gen(bxgen, prof, 0, 0, 1, NCPU, d, tf)
        except CheckError:
            break
        sizes = {}
        for i in range(len(cands)):
            for k in range(NCPU):
                f = os.path.join(d, "s%d" % k, "p%d.rs" % i)
                if os.path.exists(f):
                    sizes[i] = os.path.getsize(f)
        dirs = [os.path.join(d, "s%d" % k) for k in range(NCPU) if os.path.exists(os.path.join(d, "s%d" % k, "main.rs"))]
        try:
            bad = compile_all(libs, dirs)
        except CheckError:
            break
        res = run_all(dirs, prof, seed, 250, 30, ["--case", case_arg(fail["case"], fail["sub"])])
        found = None
        for r, crash in res:
            for f in (r or {}).get("failures", []):
                i = f["prog"]
                if i in bad:
                    continue
                if sizes[i] < (found[3] if found else size):
                    found = (cands[i][0], cands[i][1], f, sizes[i])
        if found:
            best = found
            stale = 0
        else:
            stale += 1
    return best[0], best[1], best[2]


def save_replay(prop, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p
