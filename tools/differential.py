"""C21 and C25: the same definition, built or spelled differently, must do the same."""
import json
import os
import random
import struct
import subprocess

from bxlib import (BUILD, NCPU, CheckError, Libs, build_bx, candidates, case_arg, compile_all, fresh, gen, merge, run_all, run_shard)


def shards(d):
    return [x for x in (os.path.join(d, "s%d" % i) for i in range(NCPU)) if os.path.exists(os.path.join(x, "main.rs"))]


def outcomes(dirs, prof, seed, cases, extra):
    """{(program, case): hash}, merged counters"""
    for d in dirs:
        f = os.path.join(d, "dump")
        if os.path.exists(f):
            os.remove(f)
    res = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda d: run_shard(d, prof, seed, cases, 600, list(extra) + ["--dump", os.path.join(d, "dump")]), dirs))
    out = {}
    died = None
    for d, (r, crash) in zip(dirs, res):
        if crash:
            died = (d, crash)
            continue
        with open(os.path.join(d, "dump"), "rb") as f:
            for i, c, h in struct.iter_unpack("<IIQ", f.read()):
                out[(i, c)] = h
    return out, merge([r for r, _ in res if r]), died


def show(dirs, prof, seed, extra):
    for d in dirs:
        p = subprocess.run([os.path.join(d, "bin"), "--id", prof, "--seed", str(seed), "--cases", "1", "--out", "/dev/null", "--show", "yes"] + extra,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                return json.loads(l)
    return {"outcome": "the process died"}


class Sides:
    """What is compared: builds of one spelling, or spellings in one build"""

    def __init__(self, run, part):
        self.prof = part.get("profile", run.prop)
        self.feats = part["feats"]
        self.styles = part.get("styles", 1)
        self.bxgen = build_bx()
        # one after another: they share a target directory
        self.libs = [Libs(f) for f in self.feats]

    def build(self, d, seed, n, tapes=None):
        """tapes: [(words, [style per side])]; returns tapes, per-side failures to compile"""
        out = []
        for k, (f, lib) in enumerate(zip(self.feats, self.libs)):
            dd = fresh(os.path.join(d, f))
            tf = None
            if tapes is not None:
                tf = os.path.join(d, "in.txt")
                with open(tf, "w") as fh:
                    for words, styles in tapes:
                        for s in styles:
                            fh.write("%d:%s\n" % (s, " ".join(map(str, words))))
            t = gen(self.bxgen, self.prof, seed, n, self.styles, NCPU, dd, tf)
            bad = compile_all(lib, shards(dd))
            out.append((dd, bad))
        return t, out

    def compare(self, built, seed, cases, extra=()):
        """[(program, case, side a, side b)] where sides are (feature index, spelling)"""
        sides = {}
        tot = None
        died = []
        for k, (dd, _) in enumerate(built):
            o, m, crash = outcomes(shards(dd), self.prof, seed, cases, list(extra) + ["--styles", str(self.styles)])
            tot = m if tot is None else merge([tot, dict(m, samples=[])])
            if crash:
                died.append((self.feats[k], crash))
            for (i, c), h in o.items():
                sides.setdefault((i // self.styles, c), {})[(k, i % self.styles)] = h
        diffs = []
        for (i, c), hs in sides.items():
            items = sorted(hs.items())
            for s, h in items[1:]:
                if h != items[0][1]:
                    diffs.append((i, c, items[0][0], s))
                    break
        return diffs, tot, died, len(sides)


def spec(tapes, i, styles):
    return [tapes[i * styles + s] for s in range(styles)]


def check(run, part):
    s = Sides(run, part)
    n = part["programs"][0 if run.quick else 1]
    cases = part["cases"][0 if run.quick else 1]
    seed = run.seed * 1000003 + part.get("salt", 0)
    pairs = 0
    done = 0
    batch = 0
    tot = None
    while done < n and not run.violations:
        k = min(n - done, 1200)
        d = fresh(os.path.join(BUILD, "w", "%s-%d" % (run.prop, os.getpid())))
        try:
            tapes, built = s.build(d, seed + 7919 * batch, k)
            # a definition must compile everywhere or nowhere (it is valid: everywhere)
            for side, (dd, bad) in enumerate(built):
                for i, diag in sorted(bad.items())[:1]:
                    run.violation({"kind": "diff-compile", "plan": plan_of(part), "tapes": spec(tapes, i // s.styles, s.styles),
                                   "side": [side, i % s.styles]},
                                  "features %s, spelling %d: does not compile, though valid:\n%s\n%s" % (
                                      s.feats[side], i % s.styles, src(dd, i), diag[:3000]))
            if run.violations:
                break
            diffs, m, died, npairs = s.compare(built, seed + batch, cases)
            if died:
                raise CheckError("a run ended early: %r" % (died,))
            pairs += npairs
            tot = m if tot is None else merge([tot, dict(m, samples=[])])
            if diffs:
                report(run, s, part, d, tapes, built, seed + batch, diffs)
        finally:
            subprocess.run(["rm", "-rf", d])
        done += k
        batch += 1
    if tot:
        run.part("differential/" + "/".join(s.feats), tot["evaluations"], tot["distinct"], tot["samples"], programs=done, features=s.feats, spellings=s.styles,
                 comparisons=pairs, events=tot["events"], skipped=tot["skipped"])


def src(dd, i):
    for x in shards(dd):
        f = os.path.join(x, "p%d.rs" % i)
        if os.path.exists(f):
            return open(f).read()
    return ""


def plan_of(part):
    return {k: part[k] for k in ("profile", "feats", "styles") if k in part}


def report(run, s, part, d, tapes, built, seed, diffs):
    diffs.sort(key=lambda x: len(src(built[0][0], x[0] * s.styles)))
    i, c, a, b = diffs[0]
    first = show(shards(built[a[0]][0]), s.prof, seed, ["--only", str(i * s.styles + a[1]), "--from", str(c), "--styles", str(s.styles)])
    words = [int(w) for w in tapes[i * s.styles].split(":", 1)[1].split()]
    styles = [int(tapes[i * s.styles + k].split(":", 1)[0]) for k in range(s.styles)]
    best = (words, styles, first["case"], first["sub"], len(src(built[0][0], i * s.styles)))
    rnd = random.Random(seed)
    import time
    end = time.time() + 60
    stale = 0
    while time.time() < end and stale < 3:
        words, styles, case, sub, size = best
        cands = []
        for x in candidates(words, rnd):
            cands.append((x, styles))
            if len(cands) >= 16:
                break
        if not cands:
            break
        dd = fresh(os.path.join(d, "shrink"))
        found = None
        try:
            t2, built2 = s.build(dd, 0, 0, cands)
            ds, _, died, _ = s.compare(built2, seed, 120, ["--case", case_arg(case, sub)])
            for (j, c2, a2, b2) in ds:
                size2 = len(src(built2[0][0], j * s.styles))
                if size2 < (found[4] if found else size) and not any(b for _, b in built2):
                    o = show(shards(built2[a2[0]][0]), s.prof, seed, ["--only", str(j * s.styles + a2[1]), "--from", str(c2), "--styles", str(s.styles)]
                             + (["--case", case_arg(case, sub)] if c2 == 0 else []))
                    if "case" in o:
                        found = (cands[j][0], styles, o["case"], o["sub"], size2)
        except CheckError:
            pass
        if found:
            best, stale = found, 0
        else:
            stale += 1
    words, styles, case, sub, size = best
    dd = fresh(os.path.join(d, "final"))
    obj = {"kind": "diff", "plan": plan_of(part), "tapes": ["%d:%s" % (st, " ".join(map(str, words))) for st in styles],
           "case": case, "sub": sub}
    text = run_one(s, dd, obj)[1]
    run.violation(obj, "%d programs differ; smallest found:\n%s" % (len(diffs), text))


def run_one(s, dd, obj):
    words = [int(w) for w in obj["tapes"][0].split(":", 1)[1].split()]
    styles = [int(t.split(":", 1)[0]) for t in obj["tapes"]]
    _, built = s.build(dd, 0, 0, [(words, styles)])
    out = []
    seen = set()
    for k, (x, bad) in enumerate(built):
        for st in range(s.styles):
            if st in bad:
                out.append("features %s, spelling %d: does not compile\n%s\n%s" % (s.feats[k], st, src(x, st), bad[st][:2000]))
                seen.add("does not compile")
                continue
            extra = ["--only", str(st), "--styles", str(s.styles)]
            if obj.get("case"):
                extra += ["--case", case_arg(obj["case"], obj["sub"])]
            o = show(shards(x), s.prof, 1, extra)
            seen.add(o["outcome"])
            out.append("features %s, spelling %d:\n%s\n%s" % (s.feats[k], st, src(x, st) if s.styles > 1 or k == 0 else "", o["outcome"]))
    return len(seen) > 1 or "does not compile" in seen, "input %s\n%s" % (json.dumps(obj.get("case")), "\n".join(out))


def replay(o):
    class R:
        prop = o["property"]
    s = Sides(R, o["plan"])
    d = fresh(os.path.join(BUILD, "w", "replay-%d" % os.getpid()))
    try:
        bad, text = run_one(s, d, o)
        print(text)
        return bad
    finally:
        subprocess.run(["rm", "-rf", d])
