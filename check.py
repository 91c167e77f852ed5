#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [quick|thorough]

Builds the contract translation units that mention the property against the
headers of /repo's working tree, runs every contract symbolically (each
obligation discharged or not), replays counterexamples on the real code, runs
the same contracts on generated concrete inputs as a bounded stand-in, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ECV_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = min(8, os.cpu_count() or 4)

TRUSTED = [
    "real-number semantics: the scalar type of the templates is instantiated with exact reals (machine arithmetic treated as mathematical); numeric_limits<Real>::max()/lowest() act as +-infinity",
    "decimal and small-fraction floating literals, multiples of pi and square roots of small fractions stand for those exact reals",
    "g++ and the C++ standard library (std::vector, std::map, std::set, std::string) and Eigen containers, executed as compiled",
    "ECV engine (ecv/ecv.cpp): path enumeration by re-execution, rational-function normal form over GMP",
    "z3 (nlsat, smt) and cvc5: unsat answers are trusted; sat answers are replayed on the real code",
    "operations of the scalar that the engine declares: + - * / sqrt fabs min max floor sin cos exp acos pow with half-integer exponents; other functions are uninterpreted; other powers of numerals are evaluated in double",
]


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def incdirs():
    out = []
    for d, sub, files in os.walk(os.path.join(REPO, "trunk/src")):
        out.append("-I" + d)
    return ["-I" + VERIF + "/ecv/shim", "-I" + VERIF + "/ecv", "-I/usr/include/eigen3"] + sorted(out) + [
        "-I" + REPO + "/trunk/dependencies/exprtk", "-I" + REPO + "/trunk/dependencies/rtree", "-I" + REPO + "/trunk/dependencies"]


def engine(build):
    """engine objects; cached by content of the engine sources only (never of /repo)."""
    srcs = [VERIF + "/ecv/" + f for f in ("ecv.cpp", "ecv.hpp", "ecv_engine.hpp", "contract.hpp", "ecv_main.cpp")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()[:16]
    cache = VERIF + "/.build/" + h
    objs = [cache + "/ecv.o", cache + "/ecv_main.o"]
    if all(os.path.exists(o) for o in objs):
        return [], objs
    for d in glob.glob(VERIF + "/.build/*"):
        if d != cache: shutil.rmtree(d, ignore_errors=True)
    os.makedirs(cache, exist_ok=True)
    tag = ".%d.tmp" % os.getpid()
    jobs = []
    for o in objs:
        src = VERIF + "/ecv/" + os.path.basename(o)[:-2] + ".cpp"
        jobs.append((["g++", "-std=c++17", "-O2", "-w", "-I/usr/include/eigen3", "-I" + Z3 + "/include", "-c", src, "-o", o + tag], o + tag, o))
    return jobs, objs


def build(prop, tus, bdir):
    jobs, eobjs = engine(bdir)
    info = {}

    def eng(j):
        rc, o, e = sh(j[0], 600)
        if rc: raise SystemExit("engine build failed:\n" + e)
        os.replace(j[1], j[2])

    def tu(path):
        name = os.path.basename(path)[:-4]
        log = ""
        for fl in ([], ["-DECV_NO_LD"], ["-DECV_CONCRETE_ONLY"], ["-DECV_CONCRETE_ONLY", "-DECV_NO_LD"]):
            obj = "%s/%s.o" % (bdir, name)
            cmd = ["g++", "-std=c++14", "-O1", "-fno-access-control", "-ftrivial-auto-var-init=pattern", "-w", "-DECV_PROP_" + prop + "=1", "-DECV_ONLY=1", "-DENIGMA_ECV"] + fl + incdirs() + ["-c", path, "-o", obj]
            rc, o, e = sh(cmd, 600)
            if rc == 0:
                info[name] = {"flags": fl, "obj": obj, "log": log}
                return
            log += e[:3000]
        info[name] = {"flags": None, "obj": None, "log": log}

    with ThreadPoolExecutor(JOBS) as ex:
        a = [ex.submit(eng, j) for j in jobs]
        b = [ex.submit(tu, t) for t in tus]
        for f in a + b: f.result()

    def link(name):
        i = info[name]
        if not i["obj"]: return
        i["bin"] = bdir + "/" + name
        rc, o, e = sh(["g++", i["obj"]] + eobjs + ["-o", i["bin"], "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp"], 300)
        if rc: raise SystemExit("link failed: " + e)
        os.unlink(i["obj"])

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, list(info)))
    return info


def jlines(text):
    out = []
    for l in text.splitlines():
        if l.startswith("{"):
            try: out.append(json.loads(l))
            except ValueError: pass
    return out


def known(prop):
    kf = {}
    f = VERIF + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) contract=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: kf[m.group(2)] = m.group(3)
    return kf


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        bdir = tempfile.mkdtemp(prefix="ecv-setup-")
        try: build("none", [], bdir)
        finally: shutil.rmtree(bdir, ignore_errors=True)
        print("engine built"); return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tus = [f for f in sorted(glob.glob(VERIF + "/contracts/c_*.cpp")) if '"%s"' % prop in open(f).read()]
    bdir = tempfile.mkdtemp(prefix="ecv-%s-" % prop)
    try:
        rc = run(prop, tier, seed, t0, tus, bdir, only)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, t0, tus, bdir, only):
    info = build(prop, tus, bdir)
    t_build = time.time() - t0
    quick = tier != "thorough"
    kf = known(prop)
    contracts, violations, knownlines, notes = [], [], [], []
    for name, i in sorted(info.items()):
        if not i["obj"]:
            violations.append({"contract": name, "obligation": "the contracts of %s compile against the current sources" % name, "input": None, "detail": i["log"]})
            continue
        rc, o, e = sh([i["bin"], "--list"], 60)
        for c in jlines(o):
            if c["property"] == prop and (not only or only == c["name"]):
                c["tu"] = name; c["bin"] = i["bin"]; c["flags"] = i["flags"]
                contracts.append(c)
    pbudget = 420 if quick else 1500
    ptimeout = 40 if quick else 120
    sbudget = float(os.environ.get("ECV_SEARCH", 4 if quick else 60))
    if not quick and contracts: sbudget = max(10, min(60, 1200.0 * JOBS / len(contracts) / 8))
    env = dict(os.environ)

    def prove(c):
        if not c["symbolic"]: return
        c["f"].result()
        t = time.time()
        hit = any(x.get("event") in ("violation", "crash") for x in c.get("search", []))  # an input fails already: what else fails matters little
        budget = 60 if hit and quick else pbudget
        rc, o, e = sh(["timeout", "-s", "KILL", str(budget + 60), c["bin"], "--prove", c["name"], "--budget", str(budget), "--prove-timeout", str(ptimeout)], env=env)
        c["prove"] = jlines(o); c["prove_rc"] = rc; c["prove_err"] = e[-500:]; c["prove_t"] = time.time() - t

    def search(c):
        rc, o, e = sh(["timeout", "-s", "KILL", str(int(sbudget) + 100), c["bin"], "--search", c["name"], "--seed", str(seed), "--budget", str(sbudget)], env=env)
        c["search"] = jlines(o); c["search_rc"] = rc

    def replay(c, model):
        rc, o, e = sh([c["bin"], "--replay", c["name"]] + ["%s=%r" % kv for kv in model.items()], 100)
        return jlines(o)

    with ThreadPoolExecutor(JOBS) as ex:
        for c in contracts: c["f"] = ex.submit(search, c)
        fs = [c["f"] for c in contracts] + [ex.submit(prove, c) for c in sorted(contracts, key=lambda c: bool(c["bound"]))]
        for f in fs: f.result()

    n_obl = n_dis = n_bobl = n_bdis = 0
    backends, solver_time, evals, distinct, samples = {}, 0.0, 0, 0, []
    ev_contracts = []
    for c in contracts:
        ev = {"contract": c["name"], "tu": c["tu"], "covers": c["covers"], "bound": c["bound"] or None}
        bad = None
        finding = c["name"] in kf
        # --- obligations
        if c["symbolic"]:
            obls = [x for x in c.get("prove", []) if x.get("event") == "obligation"]
            summ = [x for x in c.get("prove", []) if x.get("event") == "summary"]
            crash = [x for x in c.get("prove", []) if x.get("event") == "crash"]
            dis = [x for x in obls if x["status"] == 1]
            if c["bound"]: n_bobl += len(obls); n_bdis += len(dis)
            else: n_obl += len(obls); n_dis += len(dis)
            for x in obls:
                k = x["backend"] if x["status"] == 1 else "undischarged"
                backends[k] = backends.get(k, 0) + 1
            s = summ[0] if summ else {}
            solver_time += s.get("solverTime", 0)
            names = sorted(set(x["name"] for x in obls))
            ev.update(obligations=len(obls), discharged=len(dis), distinct_obligations=names, paths=s.get("paths"), infeasible_paths=s.get("infeasible"),
                      solver_time=s.get("solverTime"), cover_satisfiable=s.get("cover"), slowest=max([x["time"] for x in obls], default=0), prove_wall=round(c.get("prove_t", 0), 1))
            fails = [x for x in obls if x["status"] != 1]
            fails.sort(key=lambda x: -x["status"])  # refuted (0) before undecided (-1)
            tried = 0
            for x in fails:
                if x["status"] != 0 or tried > 12: continue
                tried += 1
                for r in replay(c, x.get("model", {})):
                    if r.get("event") == "crash" or r.get("failed"):
                        bad = {"contract": c["name"], "obligation": r["failed"][0] if r.get("failed") else "terminates without crashing", "input": r.get("inputs"), "detail": "counterexample of obligation '%s' replayed on the real code" % x["name"]}
                        break
                if bad: break
            if not bad and fails:
                x = fails[0]
                bad = {"contract": c["name"], "obligation": x["name"], "input": None, "model": x.get("model"), "detail": ("refuted: " if x["status"] == 0 else "undecided: ") + x.get("detail", "")}
            if not bad and (not summ or s.get("incomplete")):
                bad = {"contract": c["name"], "obligation": "every path of the contract is explored", "input": None, "detail": "incomplete: %s %s %s" % (s.get("incomplete"), crash, c.get("prove_err"))}
            ran = any(x.get("event") == "search" and x.get("accepted", 0) > 0 for x in c.get("search", []))
            if not bad and not finding and (not obls or not (s.get("cover") or ran)):
                bad = {"contract": c["name"], "obligation": "precondition is satisfiable (vacuity)", "input": None, "detail": "no satisfiable path reaches an obligation"}
        elif "-DECV_CONCRETE_ONLY" in c["flags"] and not c["bound"]:
            bad = {"contract": c["name"], "obligation": "the function compiles with an exact scalar", "input": None, "detail": "current sources do not compile with the verifier's scalar; obligations could not be generated\n" + info[c["tu"]]["log"]}
        # --- concrete stand-in
        ss = [x for x in c.get("search", []) if x.get("event") == "search"]
        vv = [x for x in c.get("search", []) if x.get("event") == "violation"]
        cc = [x for x in c.get("search", []) if x.get("event") == "crash"]
        if ss:
            evals += ss[0]["accepted"]; distinct += ss[0]["distinct"]
            ev.update(concrete_runs=ss[0]["accepted"], concrete_distinct=ss[0]["distinct"])
            if len(samples) < 4: samples += [{"contract": c["name"], "input": z} for z in ss[0]["samples"][:1]]
        if vv: bad = {"contract": c["name"], "obligation": vv[0]["name"], "input": vv[0]["inputs"], "detail": "generated input, real code (double and long double)"}
        elif cc and (not bad or not bad.get("input")): bad = {"contract": c["name"], "obligation": "terminates without crashing", "input": cc[0]["inputs"], "detail": "signal %s" % cc[0].get("signal")}
        elif not ss and not cc and not bad: bad = {"contract": c["name"], "obligation": "concrete run completes", "input": None, "detail": "search ended with %s" % c.get("search_rc")}
        elif ss and ss[0]["accepted"] == 0 and not c["symbolic"]: notes.append("no generated input satisfied the precondition of " + c["name"])
        if bad:
            if finding: knownlines.append("KNOWN-FINDING: property=%s %s" % (prop, kf[c["name"]])); ev["known_finding"] = kf[c["name"]]
            else: violations.append(bad); ev["violation"] = bad["obligation"]
        ev_contracts.append(ev)

    for l in knownlines: print(l)
    rdir = VERIF + "/replays"
    for v in violations:
        os.makedirs(rdir, exist_ok=True)
        path = "%s/%s-%s.json" % (rdir, prop, v["contract"])
        v["property"] = prop
        tu = [c["tu"] for c in contracts if c["name"] == v["contract"]]
        v["replay_cmd"] = "python3 %s/replay.py %s" % (VERIF, path)
        v["tu"] = tu[0] if tu else None
        json.dump(v, open(path, "w"), indent=1)
        print("  failed: %s / %s : %s" % (v["contract"], v["obligation"], (v.get("detail") or "")[:300].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v.get("input") is not None else " no-failing-input-found"))
    proofs = [c for c in contracts if c["symbolic"] and not c["bound"]]
    level = "proof" if proofs else ("exploration")
    cov = {"obligations": n_obl, "discharged": n_dis, "checker_cmd": "python3 check.py %s %s" % (prop, tier), "trusted_base": TRUSTED,
           "bounded_obligations": n_bobl, "bounded_discharged": n_bdis, "backends": backends, "solver_time_s": round(solver_time, 2),
           "functions_under_contract": sorted(set(c["covers"] for c in contracts)),
           "bounded_functions": sorted(set("%s [bound: %s]" % (c["covers"], c["bound"]) for c in contracts if c["bound"])),
           "evaluations": evals, "distinct_nontrivial": distinct, "rule": "concrete stand-in: contract inputs drawn from 7 generators (small integers, quarters, unit/scaled reals, degenerate grids); non-trivial = precondition accepted; distinct by hash of all inputs",
           "samples": samples, "contracts": ev_contracts, "build_s": round(t_build, 1), "known_findings": knownlines}
    ass = ["contracts marked with a bound are proved or evaluated only within that bound and are not counted in obligations/discharged"] + notes
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump({"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    slow = sorted(ev_contracts, key=lambda e: -(e.get("prove_wall") or 0))[:3]
    print("%s: %d contracts, %d/%d obligations discharged (+%d/%d bounded), %d concrete runs, %d violations, %.1f s (build %.1f; slowest %s)" % (
        prop, len(contracts), n_dis, n_obl, n_bdis, n_bobl, evals, len(violations), time.time() - t0, t_build, ", ".join("%s %.0fs/%.1fs" % (e["contract"], e.get("prove_wall") or 0, e.get("slowest") or 0) for e in slow)))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
