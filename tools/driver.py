"""The checks: what runs for each property, and how the outcome is reported."""
import json
import os
import subprocess
import sys
import time
import traceback

from bxlib import (BUILD, NCPU, VERIF, CheckError, Libs, build_bx, case_arg, compile_all, env, fresh, gen, log, merge,
                   run_all, run_shard, save_replay, shrink_program)
import plans

HELD, VIOLATED, ERROR = 0, 1, 2


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.parts = []          # coverage of each part
        self.samples = []
        self.violations = []     # (replay path, message)
        self.start = time.time()
        self.quick = tier == "quick"

    def elapsed(self):
        return time.time() - self.start

    def violation(self, obj, msg):
        obj = dict(obj, property=self.prop, message=msg, seed=self.seed, tier=self.tier)
        path = save_replay(self.prop, obj)
        self.violations.append((path, msg))

    def part(self, name, evaluations, distinct, samples, **more):
        self.parts.append(dict(name=name, evaluations=evaluations, distinct_nontrivial=distinct, **more))
        self.samples += samples[:6]


# ---------------------------------------------------------------- programs

def programs(run, part):
    """Generated definitions, compiled and run on generated inputs next to the model."""
    prof = part.get("profile", run.prop) + ("+" if part.get("plus") else "")
    feat = part["feat"]
    n = part["programs"][0 if run.quick else 1]
    cases = part["cases"][0 if run.quick else 1]
    styles = part.get("styles", 1)
    seed = run.seed * 1000003 + part.get("salt", 0)
    bxgen = build_bx()
    libs = Libs(feat)
    todo = n
    batch = 0
    tot = None
    nprogs = 0
    while todo > 0 and not run.violations:
        k = min(todo, 2000)
        todo -= k
        d = fresh(os.path.join(BUILD, "w", "%s-%s-%d" % (run.prop, feat, os.getpid())))
        try:
            tapes = gen(bxgen, prof, seed + 7919 * batch, k, styles, NCPU, d)
            dirs = [os.path.join(d, "s%d" % i) for i in range(NCPU)]
            dirs = [x for x in dirs if os.path.exists(os.path.join(x, "main.rs"))]
            bad = compile_all(libs, dirs)
            nprogs += len(tapes)
            for i, diag in sorted(bad.items())[:3]:
                src = open(os.path.join(d, "s%d" % (i % NCPU), "p%d.rs" % i)).read() if os.path.exists(
                    os.path.join(d, "s%d" % (i % NCPU), "p%d.rs" % i)) else ""
                run.violation({"kind": "compile", "profile": prof, "feat": feat, "tape": tapes[i], "source": src},
                              "a valid definition does not compile:\n" + diag[:3000])
            if run.violations:
                break
            res = run_all(dirs, prof, seed + batch, cases, 600)
            for i, (r, crash) in enumerate(res):
                if crash:
                    (prog, case), why = crash
                    # once more, alone
                    r2, c2 = run_shard(dirs[i], prof, seed + batch, 1, 60, ["--only", str(prog), "--from", str(case)])
                    if c2:
                        style, words = tapes[prog].split(":", 1)
                        run.violation({"kind": "crash", "profile": prof, "feat": feat, "tape": tapes[prog], "case_no": case,
                                       "run_seed": seed + batch, "prog": prog,
                                       "source": source(dirs, prog)}, "%s\ncase %d of this program: %s" % (source(dirs, prog), case, c2[1]))
                    else:
                        raise CheckError("%s: %s; not reproducible alone" % (dirs[i], why))
            fails = [f for r, _ in res if r for f in r["failures"]]
            m = merge([r for r, _ in res if r])
            if tot is None:
                tot = m
            else:
                m["samples"] = []
                tot = merge([tot, m])
            if fails:
                fails.sort(key=lambda f: os.path.getsize(src_path(dirs, f["prog"])))
                f = fails[0]
                src_len = os.path.getsize(src_path(dirs, f["prog"]))
                style, words = tapes[f["prog"]].split(":", 1)
                tape, st, small = shrink_program(bxgen, libs, prof, words, int(style), f, seed, d,
                                                 60 if run.quick else 240, src_len)
                spec = "%d:%s" % (st, " ".join(map(str, tape)))
                dd = fresh(os.path.join(d, "final"))
                tf = os.path.join(dd, "t.txt")
                open(tf, "w").write(spec + "\n")
                gen(bxgen, prof, 0, 0, 1, 1, dd, tf)
                src = open(os.path.join(dd, "s0", "p0.rs")).read()
                obj = {"kind": "program", "profile": prof, "feat": feat, "tape": spec, "case": small["case"],
                       "sub": small["sub"], "source": src, "failing_programs": len(fails)}
                if not replay_program(obj, True):
                    # it takes earlier cases
                    fails.sort(key=lambda f: (f["case_no"], f["prog"]))
                    f = fails[0]
                    small = dict(f, message=f["first_message"])
                    src = source(dirs, f["prog"])
                    obj = history(dirs, prof, feat, seed + batch, f, tapes) or {"kind": "rerun"}
                    obj.update(source=src, failing_programs=len(fails))
                    small["message"] += "\n(only after other reads: see the replay file)"
                run.violation(obj,
                              "features %s; %d of %d programs fail; smallest:\n%s\ninput %s\n%s" % (
                                  feat, len(fails), k, src, json.dumps(small["case"]), small["message"]))
        finally:
            subprocess.run(["rm", "-rf", d])
        batch += 1
    if tot:
        run.part("programs/" + feat + ("" if prof == run.prop else "/" + prof), tot["evaluations"], tot["distinct"], tot["samples"],
                 programs=nprogs, styles=styles, features=feat, cases=tot["cases"], skipped=tot["skipped"],
                 nontrivial=tot["nontrivial"], events=tot["events"], faults_and_checks=tot["extra"], max_memory=tot["max_mem"])
        for need in part.get("need", []):
            if tot["events"].get(need, 0) + tot["extra"].get(need, 0) == 0 and not run.violations:
                raise CheckError("no case with %s was generated" % need)


def history(dirs, prof, feat, seed, f, tapes):
    """The shortest run of cases of the program that fails, if its own cases suffice"""
    d = next(x for x in dirs if os.path.exists(os.path.join(x, "p%d.rs" % f["prog"])))
    last = f["case_no"]

    def fails(first):
        r, crash = run_shard(d, prof, seed, last + 1 - first, 120, ["--only", str(f["prog"]), "--from", str(first)])
        return bool(crash or r["failures"])
    if not fails(0):
        return None
    lo, hi = 0, last      # fails from lo; the latest such is looked for
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if fails(mid):
            lo = mid
        else:
            hi = mid - 1
    return {"kind": "history", "profile": prof, "feat": feat, "tape": tapes[f["prog"]], "prog": f["prog"], "run_seed": seed,
            "from": lo, "cases": last + 1 - lo}


def src_path(dirs, i):
    for d in dirs:
        p = os.path.join(d, "p%d.rs" % i)
        if os.path.exists(p):
            return p


def source(dirs, i):
    p = src_path(dirs, i)
    return open(p).read() if p else ""


# ---------------------------------------------------------------- fixed types, generated inputs

def static(run, part):
    feat = part["feat"]
    libs = Libs(feat, ["--bin", part["bin"]])
    exe = libs.bins[part["bin"]]
    n = part["n"][0 if run.quick else 1]
    out = os.path.join(BUILD, "static-%s-%d.json" % (run.prop, os.getpid()))
    prog = out + ".progress"
    cmd = [exe, run.prop, "--seed", str(run.seed + part.get("salt", 0)), "--n", str(n), "--out", out, "--progress", prog, "--threads", str(NCPU)]
    try:
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=700, env=env())
        except subprocess.TimeoutExpired:
            raise CheckError("%s: no answer" % " ".join(cmd))
        if p.returncode < 0 or p.returncode in (134, 139):
            last = open(prog).read() if os.path.exists(prog) else ""
            run.violation({"kind": "static-crash", "feat": feat, "bin": part["bin"], "n": n, "salt": part.get("salt", 0)},
                          "the process died (status %d) in %s: %s" % (p.returncode, last, p.stderr[-600:]))
            return
        if p.returncode != 0 or not os.path.exists(out):
            raise CheckError("%s: status %d\n%s" % (" ".join(cmd), p.returncode, p.stderr[-2000:]))
        r = json.load(open(out))
    finally:
        for f in (out, prog):
            if os.path.exists(f):
                os.remove(f)
    run.part("fixed types/" + feat, r["evaluations"], r["distinct"], r["samples"], features=feat, groups=r["by"])
    for f in r["failures"]:
        obj = {"kind": "static", "feat": feat, "bin": part["bin"], "group": f["group"], "tape": f["tape"]}
        if not f.get("stuck") and not replay_static(obj, run.prop, True):
            # it takes earlier cases
            obj = {"kind": "static-history", "feat": feat, "bin": part["bin"], "group": f["group"], "run_seed": f["seed"], "n": f["n"]}
            if not replay_static(obj, run.prop, True):
                obj = {"kind": "rerun"}
        run.violation(obj, "features %s, %s: %s" % (feat, f["group"], f["message"]))


# ---------------------------------------------------------------- replay

def replay_static(o, prop, quiet=False):
    libs = Libs(o["feat"], ["--bin", o["bin"]])
    exe = libs.bins[o["bin"]]
    if o["kind"] == "static":
        try:
            p = subprocess.run([exe, prop, "--replay", o["group"] + ":" + " ".join(map(str, o["tape"]))],
                               stdout=subprocess.PIPE, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            print("no answer within 120 s")
            return True
        if not quiet:
            print(p.stdout)
        return p.returncode != 0
    out = os.path.join(BUILD, "replay-%d.json" % os.getpid())
    try:
        p = subprocess.run([exe, prop, "--seed", str(o["run_seed"]), "--n", str(o["n"]), "--out", out, "--threads", "1",
                            "--group", o["group"], "--raw", "yes"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode != 0 or not os.path.exists(out):
            return True
        fs = json.load(open(out))["failures"]
    finally:
        if os.path.exists(out):
            os.remove(out)
    if not quiet:
        print("after %d cases of %s:" % (o["n"], o["group"]), "\n".join(f["message"] for f in fs))
    return bool(fs)


def replay_program(o, quiet=False):
    kind = o["kind"]
    say = (lambda *a: None) if quiet else print
    bxgen = build_bx()
    libs = Libs(o["feat"])
    d = fresh(os.path.join(BUILD, "w", "replay-%d" % os.getpid()))
    try:
        tf = os.path.join(d, "t.txt")
        open(tf, "w").write(o["tape"] + "\n")
        gen(bxgen, o["profile"], 0, 0, 1, 1, d, tf)
        s = os.path.join(d, "s0")
        say(open(os.path.join(s, "p0.rs")).read())
        bad = compile_all(libs, [s])
        if bad:
            say("does not compile:\n" + bad[0])
            return True
        if kind == "compile":
            return False
        if kind == "program":
            r, crash = run_shard(s, o["profile"], 1, 1, 60, ["--case", case_arg(o["case"], o["sub"])])
        elif kind == "history":
            r, crash = run_shard(s, o["profile"], o["run_seed"], o["cases"], 300, ["--as", str(o["prog"]), "--from", str(o["from"])])
        else:
            r, crash = run_shard(s, o["profile"], o["run_seed"], 1, 60, ["--as", str(o["prog"]), "--from", str(o["case_no"])])
        if crash:
            say(crash[1])
            return True
        for f in r["failures"]:
            say("input:", json.dumps(f["case"]))
            say(f["first_message"] if kind == "history" else f["message"])
        return bool(r["failures"])
    finally:
        subprocess.run(["rm", "-rf", d])


def replay(path):
    o = json.load(open(path))
    kind = o["kind"]
    if kind in ("static", "static-history"):
        return replay_static(o, o["property"])
    if kind == "static-crash":
        libs = Libs(o["feat"], ["--bin", o["bin"]])
        p = subprocess.run([libs.bins[o["bin"]], o["property"], "--seed", str(o["seed"] + o["salt"]), "--n", str(o["n"]), "--threads", str(NCPU)])
        return p.returncode < 0
    if kind in ("program", "compile", "crash", "history"):
        return replay_program(o)
    if kind == "rerun":
        # the whole check, as it was run
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), o["property"]],
                           env=dict(os.environ, VERIF_SEED=str(o["seed"]), VERIF_TIER=o["tier"]))
        return p.returncode == VIOLATED
    return plans.replay(o)


# ---------------------------------------------------------------- known findings

def known(prop):
    """Entries of known_findings.txt that are not repaired: [(id, text)]"""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    for l in open(f):
        l = l.strip()
        if l.startswith("finding:"):
            w = l.split(None, 3)
            if w[1] == "property=" + prop:
                out.append((w[2].split("=", 1)[1], w[3]))
    return out


def main(argv):
    if len(argv) >= 3 and argv[1] == "--replay":
        try:
            bad = replay(argv[2])
        except CheckError as e:
            print("ERROR", e)
            return ERROR
        print("VIOLATION property=%s replay=%s" % (argv[0], argv[2]) if bad else "held: %s" % argv[2])
        return VIOLATED if bad else HELD
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    run = Run(prop, tier, seed)
    plan = plans.PLANS[prop]
    os.makedirs(BUILD, exist_ok=True)
    error = None
    findings = []
    try:
        for part in plan["parts"]:
            try:
                {"programs": programs, "static": static}.get(part["kind"], part.get("run"))(run, part)
            except CheckError as e:
                error = error or str(e)
            if run.violations:
                break
        if not run.violations and not error:
            for fid, text in known(prop):
                if plans.PROBES[fid]():
                    findings.append((fid, text))
    except CheckError as e:
        error = str(e)
    except Exception:
        error = traceback.format_exc()
    evs = sum(p["evaluations"] for p in run.parts)
    dist = sum(p["distinct_nontrivial"] for p in run.parts)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {"evaluations": evs, "distinct_nontrivial": dist, "rule": plan["rule"],
                     "samples": run.samples[:16], "parts": run.parts},
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(run.elapsed(), 2), "violations": len(run.violations),
        "known_findings": [f[0] for f in findings],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if run.violations:
        for path, msg in run.violations:
            print(msg[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return VIOLATED
    if error:
        print("ERROR property=%s %s" % (prop, error))
        return ERROR
    for fid, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("held: property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, evs, dist, run.elapsed()))
    return HELD
