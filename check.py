#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide one property
   check.py --setup                      build everything once

Exit 0: the property held on everything explored.  Exit 1, with a line
VIOLATION property=<id> replay=<path>: it is broken, and the counterexample
was replayed against the real code.  Exit 2: no answer.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(HERE, "target")
H = os.path.join(HERE, "harness")
SX = os.path.join(HERE, "symex")
EV = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
import jobs as table  # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 8))
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO"))}
ENV.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTUP_HOME", "CARGO_HOME"):
    if k in os.environ:
        ENV[k] = os.environ[k]


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def sh(cmd, cwd, what, timeout=800, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        say(p.stdout.decode(errors="replace")[-4000:])
        raise NoAnswer("cannot build " + what)
    return p.stdout.decode(errors="replace")


def source_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(H, "src"), os.path.join(H, "Cargo.toml")):
        files = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def fresh(target, stamp):
    """cargo goes by timestamps; make it go by contents"""
    sf = os.path.join(target, "stamp")
    try:
        old = open(sf).read()
    except OSError:
        old = None
    if old != stamp:
        for prof in os.listdir(target) if os.path.isdir(target) else []:
            fp = os.path.join(target, prof, ".fingerprint")
            if os.path.isdir(fp):
                for e in os.listdir(fp):
                    if e.startswith(("lazy-clone", "lcc-harness")):
                        shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
        os.makedirs(target, exist_ok=True)
    return sf


def build(what):
    """what: set of 'symex', 'ir', 'replay', 'release', 'asan'"""
    os.makedirs(T, exist_ok=True)
    lock = open(os.path.join(T, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = source_hash()
        out = {}

        def symex():
            sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(T, "symex")], SX, "the symbolic executor")
            out["symex"] = os.path.join(T, "symex", "release", "symex")

        def ir():
            t = os.path.join(T, "ir")
            sf = fresh(t, stamp)
            deps = os.path.join(t, "debug", "deps")
            lls = lambda: [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("lcc_harness-") and f.endswith(".ll")] if os.path.isdir(deps) else []
            if not (os.path.exists(sf) and open(sf).read() == stamp and len(lls()) == 1):
                for f in lls():
                    os.remove(f)
            sh(
                ["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib", "--target-dir", t, "--"]
                + ["--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                H,
                "the code under test (LLVM IR)",
            )
            if len(lls()) != 1:
                raise NoAnswer("no LLVM IR was made")
            out["ir"] = lls()[0]
            open(sf, "w").write(stamp)

        def native(name, profile):
            t = os.path.join(T, name)
            sf = fresh(t, stamp)
            sh(["cargo", "build", "--offline", "--profile", profile, "--bin", "replay", "--target-dir", t], H, "the code under test (native, %s)" % profile)
            out[name] = os.path.join(t, profile, "replay")
            open(sf, "w").write(stamp)

        def asan():
            t = os.path.join(T, "asan")
            sf = fresh(t, stamp)
            env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
            sh(
                ["cargo", "build", "--offline", "--profile", "replay", "--bin", "replay", "--target-dir", t, "--target", "x86_64-unknown-linux-gnu"],
                H,
                "the code under test (address sanitizer)",
                env=env,
            )
            out["asan"] = os.path.join(t, "x86_64-unknown-linux-gnu", "replay", "replay")
            open(sf, "w").write(stamp)

        todo = {"symex": symex, "ir": ir, "replay": lambda: native("replay", "replay"), "release": lambda: native("release", "release"), "asan": asan}
        with ThreadPoolExecutor(5) as ex:
            for f in [ex.submit(todo[w]) for w in what]:
                f.result()
        return out
    finally:
        lock.close()


def run1(exe, harness, params, inputs, timeout=60):
    """(code, output): code None on a timeout, negative on a signal"""
    cmd = exe + ["one", harness, ",".join(map(str, params)), ",".join(map(str, inputs))]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, "timed out after %d s\n%s" % (timeout, (e.stdout or b"").decode(errors="replace")[-300:])


def reproduce(bins, v):
    """Replay a counterexample against the real code; None if it does not show."""
    h, ps, ins, kind = v["harness"], v["params"], v["inputs"], v["kind"]
    for name in ("replay", "release"):
        code, out = run1([bins[name]], h, ps, ins)
        if code is None:
            # nothing here takes long: it does not end
            return name, out
        if code == 1 or code < 0:
            return name, out
    if h.startswith("th"):
        return with_threads(bins, v)
    if kind not in ("memory", "uninit", "ub", "leak"):
        return None
    if shutil.which("valgrind"):
        vg = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no"]
        code, out = run1(vg + [bins["replay"]], h, ps, ins, 180)
        if code == 99 or code is not None and code < 0:
            return "valgrind", out
    try:
        b = build({"asan"})
        code, out = run1([b["asan"]], h, ps, ins, 120)
        if code not in (0, 4, None):
            return "address sanitizer", out
    except (NoAnswer, subprocess.TimeoutExpired):
        pass
    m = miri(h, ps, ins)
    if m:
        return "miri", m
    return None


def with_threads(bins, v):
    """The schedule that was found cannot be imposed on real threads: many
    runs natively, and under miri, which chooses schedules by a seed and
    recognises data races."""
    h, ps, ins = v["harness"], ",".join(map(str, v["params"])), ",".join(map(str, v["inputs"]))
    if v["kind"] != "race":
        for name in ("release", "replay"):
            try:
                p = subprocess.run([bins[name], "threads", h, ps, ins, "20000"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=ENV)
            except subprocess.TimeoutExpired:
                continue
            if p.returncode == 1 or p.returncode < 0:
                return name + ", with real threads", p.stdout.decode(errors="replace")
    m = miri(h, v["params"], v["inputs"], ["threads"], ["3"], "-Zmiri-many-seeds=0..48 -Zmiri-preemption-rate=0.1")
    return ("miri", m) if m else None


def miri(h, ps, ins, how=["one"], times=[], flags=""):
    """Stacked borrows off: only what is undefined under any model counts."""
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags)
    try:
        p = subprocess.run(
            ["cargo", "miri", "run", "--offline", "--profile", "replay", "--bin", "replay", "--target-dir", os.path.join(T, "miri"), "--"]
            + how + [h, ",".join(map(str, ps)), ",".join(map(str, ins))] + times,
            cwd=H,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=240,
        )
    except (subprocess.TimeoutExpired, OSError):
        return None
    out = p.stdout.decode(errors="replace")
    i = out.find("Undefined Behavior")
    if i < 0 and times:
        # a failed assertion or a panic counts as well
        i = max(out.find(x) for x in ("ASSERTION FAILS", "PANIC", "deadlock"))
    return out[max(0, i - 100) :][:3000] if i >= 0 else None


def batch(exe, lines, tmp, timeout, loose=False):
    """Replay completed paths natively.  Returns what went wrong, how it showed, and
    the offending line if known -- or None, how many paths made the same
    observations, and how many did not (only if loose)."""
    n = max(1, min(NCPU, len(lines) // 2000 + 1))
    chunks = [lines[i::n] for i in range(n)]

    def one(i):
        f = "%s.%d" % (tmp, i)
        with open(f, "w") as fh:
            fh.writelines(chunks[i])
        try:
            start, misfits = 0, 0
            while True:
                p = subprocess.run([exe] + (["loose", f, str(start)] if loose else ["batch", f]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
                out = p.stdout.decode(errors="replace")[-3000:]
                if p.returncode == 5 and misfits < 20:
                    misfits += 1
                    start = int(re.search(r"MISFIT (\d+)", out).group(1)) + 1
                    continue
                if p.returncode == 5:
                    return 0, "BATCH OK 0 %d" % len(chunks[i])
                return p.returncode, out
        except subprocess.TimeoutExpired:
            return None, "timed out"
        finally:
            os.remove(f)

    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    same = other = 0
    for i, (code, out) in enumerate(rs):
        if code == 0:
            m = re.search(r"BATCH OK (\d+) (\d+)", out)
            same, other = same + int(m.group(1)), other + int(m.group(2))
            continue
        if code is not None and code >= 0:
            return "differs", out, None
        # crashed or hung: find the path
        lo, hi = 0, len(chunks[i])
        c = chunks[i]

        def bad(k):
            f = "%s.b" % tmp
            with open(f, "w") as fh:
                fh.writelines(c[:k])
            try:
                p = subprocess.run([exe] + (["loose", f, "0"] if loose else ["batch", f]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=ENV)
                return p.returncode < 0
            except subprocess.TimeoutExpired:
                return True
            finally:
                os.remove(f)

        if not bad(hi):
            return "flaky", out, None
        while lo + 1 < hi:
            mid = (lo + hi) // 2
            if bad(mid):
                hi = mid
            else:
                lo = mid
        return "crash", out, c[hi - 1]
    return None, same, other


LINE = re.compile(r"^(\w+) ([\d,]+) : ([\d,]*) : ")


def parse_path(line):
    m = LINE.match(line)
    if not m:
        return None
    return {
        "harness": m.group(1),
        "params": [int(x) for x in m.group(2).split(",")],
        "inputs": [int(x) for x in m.group(3).split(",") if x],
    }


def known_findings():
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        l = l.strip()
        if l.startswith("known:"):
            out.append(json.loads(l[6:]))
    return out


def is_known(prop, v):
    for k in known_findings():
        if k["property"] == prop and re.fullmatch(k["harness"], v["harness"]) and k["msg"] in v["msg"] and ("params" not in k or k["params"] == v["params"]):
            return k
    return None


def pretty(f):
    """A readable name of a mangled function, as far as that is cheap."""
    return f


def report(prop, n, v, how, out):
    d = os.path.join(EV, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (prop, n))
    ps, ins = ",".join(map(str, v["params"])), ",".join(map(str, v["inputs"]))
    with open(p, "w") as fh:
        fh.write("property %s\n%s: %s\n" % (prop, v["kind"], v["msg"]))
        fh.write("harness %s  parameters %s  inputs %s\n" % (v["harness"], ps, ins))
        fh.write("(inputs in the order the harness asks for them; see /verif/harness/src)\n\n")
        fh.write("reproduced with: %s\n%s\n\n" % (how, out[-3000:]))
        fh.write("to replay: %s one %s %s %s\n\n" % (os.path.join(T, "replay", "replay", "replay"), v["harness"], ps, ins))
        fh.write("call stack in the symbolic execution:\n" + "\n".join("  " + s for s in v.get("stack", [])) + "\n")
    return p


def check(prop, tier):
    t0 = time.time()
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    js = table.jobs(prop, deep)
    # Expensive jobs first, so that none is left running alone at the end.
    js.sort(key=lambda j: -table.weight(j))
    os.makedirs(EV, exist_ok=True)
    bins = build({"symex", "ir", "replay", "release"})
    t_build = time.time() - t0
    tmp = os.path.join(T, "run-%s-%d" % (prop, os.getpid()))
    jf, rf, pf = tmp + ".jobs", tmp + ".json", tmp + ".paths"
    with open(jf, "w") as fh:
        fh.writelines(" ".join(map(str, j)) + "\n" for j in js)
    limit = 3600 if deep else 400

    def explore(extra):
        p = subprocess.run(
            [bins["symex"], "--ll", bins["ir"], "--jobs", jf, "--out", rf, "--paths", pf, "--threads", str(NCPU)] + extra,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=limit + 300,
        )
        if p.returncode != 0:
            say(p.stdout.decode(errors="replace")[-3000:])
            raise NoAnswer("the symbolic executor failed")
        return json.load(open(rf))

    try:
        res = explore(["--time", str(limit)])
        viols = [dict(v, harness=j["harness"], params=j["params"]) for j in res["jobs"] for v in j.get("violations", [])]
        confirmed, unconfirmed, known = [], [], []

        def confirm(viols):
            for v in viols:
                k = is_known(prop, v)
                if k:
                    known.append((k, v))
                    continue
                r = reproduce(bins, v)
                if r:
                    confirmed.append((v, r[0], r[1]))
                    return
                unconfirmed.append(v)

        confirm(viols)
        if viols and not confirmed:
            # go on past what was found
            left = limit - (time.time() - t0 - t_build)
            res = explore(["--time", str(max(60, left)), "--all"])
            seen = [(v["harness"], v["params"], v["inputs"]) for v in viols]
            more = [dict(v, harness=j["harness"], params=j["params"]) for j in res["jobs"] for v in j.get("violations", [])]
            more = [v for v in more if (v["harness"], v["params"], v["inputs"]) not in seen]
            more.sort(key=lambda v: v["kind"] in ("memory", "uninit", "ub", "leak"))
            confirm(more[:12])
        paths = open(pf).readlines()
        validated = other = 0
        differs = None
        if not confirmed:
            for name in ("replay", "release"):
                kind, out, line = batch(bins[name], paths, tmp, 300 if not deep else 1200, name == "release")
                if kind is None:
                    validated += out
                    other += line
                    continue
                if kind == "crash":
                    v = dict(parse_path(line), kind="crash", msg="native execution (%s) of a path that is fine symbolically crashes or hangs" % name)
                elif "ASSERTION FAILS" in out or "PANICS" in out:
                    m = re.search(r"\[(\w+) ([\d,]+)(?: : .*)? inputs \[([\d, ]*)\]\]", out)
                    v = {"kind": "native", "msg": "native execution (%s): %s" % (name, out.strip()[:300]), "harness": "?", "params": [], "inputs": []}
                    if m:
                        v.update(harness=m.group(1), params=[int(x) for x in m.group(2).split(",")], inputs=[int(x) for x in m.group(3).replace(" ", "").split(",") if x])
                else:
                    differs = out
                    continue
                confirmed.append((v, name, out))
                break
        verdict = finish(prop, tier, seed, t0, t_build, js, res, paths, (validated, other), confirmed, unconfirmed, known, differs)
        return verdict
    finally:
        for f in (jf, rf, pf):
            if os.path.exists(f):
                os.remove(f)


def finish(prop, tier, seed, t0, t_build, js, res, paths, validated, confirmed, unconfirmed, known, differs):
    J = res["jobs"]
    done = [j for j in J if j["status"] == "ok"]
    undecided = [j for j in J if j["status"] in ("error", "time")]
    tot = lambda k: sum(j.get(k, 0) for j in J)
    npaths = tot("paths")
    funcs = sorted(f for f in res["functions"] if "lazy_clone_collections" in f)
    per = {}
    for j in J:
        d = per.setdefault(j["harness"], [0, 0])
        d[0] += 1
        d[1] += j.get("paths", 0)
    samples = []
    step = max(1, len(paths) // 5)
    for l in paths[::step][:5]:
        samples.append(l.strip())
    empty = [j for j in done if j.get("paths", 0) == 0]
    no_end = sorted(h for h in per if per[h][1] and not res["covers"].get(h + ":end"))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": npaths,
            "transitions": tot("forks") + tot("choice_forks"),
            "traces_validated_against_impl": validated[0],
            "release_traces_with_other_observations": validated[1],
            "samples": samples,
            "method": "symbolic execution of the LLVM IR of /repo and the harnesses, branch feasibility and assertions decided by z3; states = complete paths (classes of inputs), transitions = forks",
            "jobs": len(J),
            "jobs_decided": len(done),
            "jobs_undecided": len(undecided),
            "jobs_not_run": sum(j["status"] == "skipped" for j in J),
            "infeasible_or_out_of_bounds_paths": tot("pruned"),
            "schedule_choices": tot("syncs"),
            "instructions_executed": tot("steps"),
            "longest_path_instructions": max([j.get("max_steps", 0) for j in J] or [0]),
            "symbolic_inputs_at_most": max([j.get("max_inputs", 0) for j in J] or [0]),
            "queries": tot("queries"),
            "queries_sat": tot("sat"),
            "queries_unsat": tot("unsat"),
            "branches_decided_by_order_closure": tot("by_order"),
            "solver_s": round(tot("solver_s"), 2),
            "assertions_decided_by_solver": tot("asserts_solver"),
            "assertions_constant_on_their_path": tot("asserts_concrete"),
            "harnesses": {h: {"jobs": a, "paths": b} for h, (a, b) in sorted(per.items())},
            "functions_encoded": len(funcs),
            "functions": funcs,
            "covers": res["covers"],
            "exhaustive": False,
        },
        "assumptions": [
            "bounds: prestates, numbers of operations and of symbolic inputs are those of the job list (jobs.py %s %s); nothing is claimed outside" % (prop, tier),
            "element types: 16-bit keys and values with instrumented Clone, Drop and comparisons (harness/src/elem.rs); all their values are covered where they are symbolic",
            "allocation succeeds; " + ("two threads, sequentially consistent schedules with a bounded number of preemptions at atomic accesses; races by happens-before" if prop == "C23" else "one thread"),
            "trusted: rustc's LLVM IR at opt-level 1 with debug assertions, the executor in symex/, z3; every completed path was replayed natively in a build with debug assertions, and made the same observations, and in a release build, where it held as well",
        ],
        "build_s": round(t_build, 1),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    say("%s %s: %d jobs, %d decided, %d paths, %d queries (%.1f s in the solver), %d replays of them in native builds agree, %d differ for debug assertions; %.0f s (build %.0f s)" % (prop, tier, len(J), len(done), npaths, tot("queries"), tot("solver_s"), validated[0], validated[1], time.time() - t0, t_build))
    for k, v in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, (v, how, out) in enumerate(confirmed):
        p = report(prop, n, v, how, out)
        say("%s [%s; harness %s %s, inputs %s; reproduced with %s]" % (v["msg"], v["kind"], v["harness"], v["params"], v["inputs"], how))
        say("VIOLATION property=%s replay=%s" % (prop, p))
    if confirmed:
        return 1
    for v in unconfirmed:
        say("UNCONFIRMED (does not show natively): %s: %s [%s %s %s] at %s" % (v["kind"], v["msg"], v["harness"], v["params"], v["inputs"], v["stack"][:4]))
    for j in undecided[:10]:
        say("UNDECIDED: %s %s: %s" % (j["harness"], j["params"], "; ".join(j.get("errors", [j["status"]]))[:300]))
    if differs:
        say("the encoding and the native code differ: " + differs[:500])
        return 2
    if unconfirmed:
        return 2
    if empty or no_end:
        say("vacuous: %s %s" % (no_end, [(j["harness"], j["params"]) for j in empty[:5]]))
        return 2
    if len(undecided) * 10 > len(J):
        say("too many undecided: %d of %d" % (len(undecided), len(J)))
        return 2
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build({"symex", "ir", "replay", "release"})
        say("built")
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(prop, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        say("no answer: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        say("no answer: %s" % e)
        sys.exit(2)
