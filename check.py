#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's working tree."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
from vlib import build, spec

VERIF = build.VERIF
t0 = time.time()


def note(*a):
    print("[%6.1fs]" % (time.time() - t0), *a, flush=True)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


class Replayer:
    """runs recorded inputs on natively compiled code"""

    def __init__(self, harness, work):
        self.harness, self.work, self.exe = harness, work, {}
        self.n = 0

    def binary(self, variant):
        if variant not in self.exe:
            self.exe[variant] = build.native(self.harness, variant)
        return self.exe[variant]

    def write(self, inputs, path):
        with open(path, "w") as f:
            for n, h in inputs:
                f.write("%s\t%s\n" % (n, h))

    def run(self, entry, inputs, params, variant="asan", timeout=30, tool=(), extra=(), path=None, stack_kb=None):
        self.n += 1
        if path is None:
            path = os.path.join(self.work, "in%d.txt" % self.n)
            self.write(inputs, path)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:hard_rss_limit_mb=6000:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_bugs=1:report_thread_leaks=0"
        cmd = list(tool) + [self.binary(variant), entry, path] + ["%s=%d" % kv for kv in params.items()] + list(extra)
        if stack_kb:
            cmd = ["bash", "-c", "ulimit -s %d; exec \"$@\"" % stack_kb, "bash"] + cmd
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
            return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")


def reproduces(rp, entry, v, params, path=None):
    """does the native program show the violation? returns (bool, how)"""
    kind, inp = v["kind"], v["inputs"]
    # threads: a build in which atomic accesses are scheduling points as in the explorer
    plain = "sched" if "preempt" in params else "plain"
    switches = any(n == "atomic" and h.strip("0") for n, h in inp)
    if kind == "race":
        rc, out, err = rp.run(entry, inp, params, "tsan", path=path)
        if rc == 66 and "data race" in err:
            return True, "ThreadSanitizer reports the race on this schedule:\n" + err[:1500]
        for i in range(20):
            rc, out, err = rp.run(entry, inp, params, "tsan", extra=["free=1"], path=path)
            if rc == 66:
                return True, "ThreadSanitizer reports the race:\n" + err[:1500]
        return False, "no race reported by ThreadSanitizer"
    if kind in ("uninit", "uninit-assert"):
        rc, out, err = rp.run(entry, inp, params, plain, timeout=120, path=path,
                              tool=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--track-origins=no"])
        if rc == 77:
            return True, "valgrind memcheck:\n" + err[:1500]
        rc2, out2, _ = rp.run(entry, inp, params, plain if switches else "asan", path=path)
        if rc2 == 10:
            return True, out2[-500:]
        return False, "valgrind exit %s" % rc
    rc, out, err = rp.run(entry, inp, params, "sched" if switches else "asan", path=path)
    if rc == 13 and plain == "sched":
        rc, out, err = rp.run(entry, inp, params, "sched", path=path)
    tail = out[-300:] + err[:1500]
    if kind == "assert":
        if rc == 10:
            return True, out[-400:]
        # a different failure on the same input is still a failure of the real code
        if rc in (99, 14, 15, 16, -6, -11, "timeout", 1):
            return True, "native exit %s: %s" % (rc, tail)
    elif kind == "nontermination":
        if rc == "timeout":
            return True, "native run does not finish within 30 s"
        if rc in (99, -11, -6, 14):
            return True, "native exit %s: %s" % (rc, tail)
    elif kind == "stack":
        for kb in (None, 8192):
            if rc in (99, -11):
                return True, "native stack overflow: " + tail
            rc, out, err = rp.run(entry, inp, params, plain, path=path, stack_kb=1024)
            tail = out[-300:] + err[:1500]
        if rc == -11:
            return True, "native stack overflow with a 1 MiB stack"
    else:
        if rc in (99, 10, 14, 15, 16, -6, -11, 1, "timeout"):
            return True, "native exit %s: %s" % (rc, tail)
        if kind == "memory":
            rc, out, err = rp.run(entry, inp, params, plain, timeout=120, path=path,
                                  tool=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes"])
            if rc == 77:
                return True, "valgrind memcheck:\n" + err[:1500]
    return False, "native exit %s: %s" % (rc, tail)


def explore(ent, tier, log, jobs, smt_dir=None):
    params = ent.quick if tier == "quick" else ent.thorough
    tl = ent.time if tier == "quick" else ent.ttime
    mod = build.module(ent.harness)
    cmd = [build.SYMX, mod, ent.entry, "--out", log, "--time", str(tl), "--jobs", str(jobs), "--repo", build.REPO + "/src",
           "--max-insts", str(ent.max_insts), "--max-mem", str(ent.max_mem), "--max-frames", str(ent.max_frames), "--samples", "30"]
    if ent.preempt is not None:
        cmd += ["--preempt", str(params.get("preempt", ent.preempt))]
    if ent.races:
        cmd += ["--races"]
    if smt_dir:
        cmd += ["--smt-dir", smt_dir, "--smt-max", "200"]
    for k, v in params.items():
        if k != "preempt":
            cmd += ["--param", "%s=%d" % (k, v)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 120,
                       start_new_session=True)
    recs = []
    for l in open(log, errors="replace"):
        try:
            recs.append(json.loads(l))
        except ValueError:
            recs.append({"t": "error", "msg": "unreadable log line"})
    if p.returncode != 0 or not any(r["t"] == "summary" for r in recs):
        recs.append({"t": "error", "msg": "symx failed (%s): %s" % (p.returncode, p.stdout[-1000:])})
    return recs


def native_params(ent, tier):
    params = dict(ent.quick if tier == "quick" else ent.thorough)
    if ent.preempt is not None and "preempt" not in params:
        params["preempt"] = ent.preempt
    return params


def validate(rp, ent, tier, recs, limit):
    """sampled explored paths are run natively: observations must agree byte for byte"""
    params = native_params(ent, tier)
    paths = [r for r in recs if r["t"] == "path" and r["status"] == "ok"]
    if len(paths) > limit:
        step = len(paths) / float(limit)
        paths = [paths[int(i * step)] for i in range(limit)]
    bad = []
    plain = "sched" if "preempt" in params else "plain"

    def one(r):
        rc, out, err = rp.run(ent.entry, r["inputs"], params, "tsan" if ent.races and tier == "thorough" else plain, timeout=60)
        if rc != 0:
            return "native run of an explored path ended with %s: %s" % (rc, (out[-300:] + err[-600:]))
        got = [tuple(l.split(" ")[1:3]) for l in out.split("\n") if l.startswith("obs ")]
        want = [(n, h) for n, h in r["obs"]]
        if len(got) != len(want):
            return "native run made %d observations, the explored path %d" % (len(got), len(want))
        for (gn, gh), (wn, wh) in zip(got, want):
            if gn != wn or (wh != "??" and gh != wh):
                return "observation %s: native %s, explored %s" % (wn, gh[:200], wh[:200])
        m = re.search(r"left (\d+)", out)
        if m and m.group(1) != "0":
            return "native run used fewer inputs"
        return None
    rp.binary(plain)
    with ThreadPoolExecutor(8) as ex:
        for r, e in zip(paths, ex.map(one, paths)):
            if e:
                bad.append((e, r))
    return len(paths), bad


def cross_check(smt_dir):
    """the same queries, decided by cvc5"""
    files = sorted(os.listdir(smt_dir))[:150] if os.path.isdir(smt_dir) else []

    def one(f):
        exp = f.split(".")[-2]
        try:
            p = subprocess.run(["cvc5", "--tlimit=20000", os.path.join(smt_dir, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
        except subprocess.TimeoutExpired:
            return "timeout"
        o = p.stdout.strip().split("\n")[0]
        return "agree" if o == exp else "disagree" if o in ("sat", "unsat") else "undecided"
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, files))
    return {k: rs.count(k) for k in ("agree", "disagree", "undecided", "timeout")}


def finding_matches(f, pid, ent, v):
    return f.get("kind") == "finding" and f.get("property") == pid and f.get("entry") == ent.entry and re.search(f["match"], v["msg"]) is not None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", help="run a recorded violation natively")
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        r = json.load(open(a.replay))
        work = tempfile.mkdtemp(prefix="verif-")
        rp = Replayer(r["harness"], work)
        ok, how = reproduces(rp, r["entry"], r["violation"], r["params"])
        print(how)
        print("reproduced" if ok else "not reproduced")
        shutil.rmtree(work)
        return 1 if ok else 0
    c = spec.CHECKS[pid]
    entries = [e for e in c["entries"] if not a.entry or e.entry == a.entry]
    if tier == "quick":
        entries = [e for e in entries if e.time > 0]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    errors, viol, known, files = [], [], [], []
    stats, functions, reaches, samples = {}, set(), {}, []
    per_entry = []
    validated = 0
    exhaustive = True
    cross = None
    try:
        try:
            with ThreadPoolExecutor(2) as ex:
                fe = ex.submit(build.build_engine)
                hs = sorted(set(e.harness for e in entries))
                for h in hs:
                    build.module(h)
                fe.result()
        except build.BuildError as e:
            note("build failed:\n" + str(e))
            return 2
        note("built")
        # native builds go on while the solver works
        nat = ThreadPoolExecutor(1)
        natv = sorted(set((e.harness, "plain" if e.preempt is None else "sched") for e in entries))
        natf = {hv: nat.submit(build.native, *hv) for hv in natv}
        results = []
        par = min(len(entries), 4) if tier == "quick" else min(len(entries), 2)
        jobs = max(2, 8 // max(1, par)) if par > 1 else 8

        def work_on(i):
            e = entries[i]
            sd = None
            if tier == "thorough":
                sd = os.path.join(work, "smt%d" % i)
                os.makedirs(sd)
            r = explore(e, tier, os.path.join(work, "log%d" % i), jobs if e.share <= 1 else min(8, jobs * e.share), sd)
            s = [x for x in r if x["t"] == "summary"]
            note(e.entry, "paths=%d wall=%.1f" % (s[0]["paths"], s[0]["wall"]) if s else "no summary")
            return r
        order = sorted(range(len(entries)), key=lambda i: -entries[i].time)
        with ThreadPoolExecutor(par) as ex:
            futs = {i: ex.submit(work_on, i) for i in order}
            results = [futs[i].result() for i in range(len(entries))]
        for i, (e, recs) in enumerate(zip(entries, results)):
            params = native_params(e, tier)
            rp = Replayer(e.harness, work)
            s = ([x for x in recs if x["t"] == "summary"] or [{}])[0]
            for x in recs:
                if x["t"] == "error":
                    errors.append("%s: %s at %s\n%s" % (e.entry, x.get("msg"), x.get("where"), x.get("trace", "")))
            for x in recs:
                if x["t"] == "functions":
                    functions.update(x["l"])
            rl = {}
            for x in recs:
                if x["t"] == "reach":
                    for l in x["l"]:
                        rl[l] = rl.get(l, 0) + 1
            reaches[e.entry] = sorted(rl)
            vs = [x for x in recs if x["t"] == "violation"]
            if s and not vs and not errors:
                missing = [l for l in e.reach if l not in rl]
                if missing and s.get("stop") != 2:
                    errors.append("%s: never reached %s (vacuous harness)" % (e.entry, ", ".join(missing)))
            if s.get("stop") == 2 or s.get("inconclusive") or s.get("killed"):
                exhaustive = False
            for k in s:
                if isinstance(s[k], (int, float)) and k not in ("stop",):
                    stats[k] = max(stats.get(k, 0), s[k]) if k.startswith("max") or k == "qmaxms" else stats.get(k, 0) + s[k]
            # violations: reported only if the natively compiled real code shows them
            seen = set()
            for v in vs:
                key = (v["kind"], v["msg"], v["where"])
                if key in seen:
                    continue
                seen.add(key)
                try:
                    ok, how = reproduces(rp, e.entry, v, params)
                except build.BuildError as be:
                    errors.append("native build failed: " + str(be))
                    continue
                f = [k for k in known_findings() if finding_matches(k, pid, e, v)]
                if not ok:
                    errors.append("%s: counterexample does not reproduce natively (%s: %s at %s)\n%s\n%s\ninputs %s" % (
                        e.entry, v["kind"], v["msg"], v["where"], how, v.get("trace", "")[:1500], json.dumps(v["inputs"])[:1500]))
                elif f:
                    known.append((f[0], v))
                else:
                    os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
                    path = os.path.join(VERIF, "build", "replay", "%s-%s-%d.json" % (pid, e.entry, len(viol)))
                    json.dump({"property": pid, "harness": e.harness, "entry": e.entry, "params": params, "violation": v, "native": how},
                              open(path, "w"), indent=1)
                    viol.append((path, e, v, how))
            # the encoding is compared with the real code on sampled paths
            if not errors:
                try:
                    natf[(e.harness, "plain" if e.preempt is None else "sched")].result()
                    n, bad = validate(rp, e, tier, recs, max(6, 60 // len(entries)) if tier == "quick" else 60)
                    validated += n
                    for b, r in bad[:3]:
                        if not vs and not viol:
                            errors.append("%s: encoding and native code disagree: %s\ninputs %s" % (e.entry, b, json.dumps(r["inputs"])[:1500]))
                except build.BuildError as be:
                    errors.append("native build failed: " + str(be))
            ps = [x for x in recs if x["t"] == "path" and x["status"] == "ok"]
            for x in ps[:2]:
                samples.append({"entry": e.entry, "inputs": x["inputs"][:12], "observed": [[n, h[:80]] for n, h in x["obs"][:6]]})
            b = e.bounds
            try:
                b = b.format(**params)
            except (KeyError, IndexError):
                pass
            per_entry.append({"entry": e.entry, "bounds": b, "params": params, "paths": s.get("paths"), "complete": s.get("stop") == 0 and not s.get("inconclusive"),
                              "assertions": s.get("asserts"), "assertions_by_solver": s.get("assertsSolver"), "queries": s.get("queries"),
                              "solver_ms": s.get("qms"), "inconclusive": s.get("inconclusive"), "reached": reaches[e.entry],
                              "wall_s": s.get("wall"), "instructions": s.get("insts")})
        nat.shutdown()
        if tier == "thorough":
            cross = {"agree": 0, "disagree": 0, "undecided": 0, "timeout": 0}
            for i in range(len(entries)):
                for k, v in cross_check(os.path.join(work, "smt%d" % i)).items():
                    cross[k] += v
            if cross["disagree"]:
                errors.append("Z3 and cvc5 disagree on %d queries" % cross["disagree"])
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            note("kept", work)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(stats.get("paths", 0)), "transitions": int(stats.get("branches", 0) + stats.get("forks", 0)),
            "traces_validated_against_impl": validated, "samples": samples[:10],
            "exhaustive": bool(exhaustive and not errors),
            "rule": "a state is one explored path (a distinct path condition or schedule), a transition one decided branch",
            "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
            "entries": per_entry, "assertions": int(stats.get("asserts", 0)), "assertions_by_solver": int(stats.get("assertsSolver", 0)),
            "queries": int(stats.get("queries", 0)), "queries_unsat": int(stats.get("qunsat", 0)), "queries_sat": int(stats.get("qsat", 0)),
            "queries_unknown": int(stats.get("qunknown", 0)), "queries_answered_from_cache": int(stats.get("qcached", 0)),
            "branches_decided_over_the_whole_byte_domain": int(stats.get("qdomain", 0)), "solver_s": round(stats.get("qms", 0) / 1000.0, 2),
            "outside_the_bounds": c["outside"], "cvc5_cross_check": cross,
        },
        "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    done = set()
    for f, v in known:
        if f["what"] not in done:
            done.add(f["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for path, e, v, how in viol:
        print("%s: %s: %s\n  at %s\n%s\n  native: %s" % (e.entry, v["kind"], v["msg"], v["where"], v.get("trace", ""), how))
        print("  inputs: " + json.dumps(v["inputs"])[:2000])
    for x in errors:
        print("ERROR " + x)
    if viol:
        for path, e, v, how in viol:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 2
    note("%s holds: %d paths, %d assertions, %d queries, %.1f s of solver time%s" % (
        pid, stats.get("paths", 0), stats.get("asserts", 0), stats.get("queries", 0), stats.get("qms", 0) / 1000.0,
        "" if exhaustive else " (bounds not exhausted)"))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)
