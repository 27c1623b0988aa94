#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--thorough]   decide one property on /repo's current working tree.
exit 0: every obligation generated from the current source was discharged (or the function left the verifier's
fragment and its labelled bounded stand-in found nothing); exit 1: VIOLATION line."""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "vc"), os.path.join(HERE, "specs")]
sys.setrecursionlimit(20000)
import build                                    # noqa: E402
import contract                                 # noqa: E402
from contract import Lemma, verify, counterexample   # noqa: E402
import props                                    # noqa: E402

G = {}


def job(i):
    """verify one function or lemma in a child process; returns plain data"""
    it = G['items'][i]
    try:
        if isinstance(it, Lemma):
            r = it.run(G['deadline'], G['collect'])
        else:
            r = verify(it, G['modules'], G['contracts'], G['deadline'], G['collect'])
    except Exception as e:      # noqa
        return {"title": it.title, "status": "undecided", "why": "verifier error " + repr(e) + traceback.format_exc()[-600:],
                "obligations": [], "failures": [], "time": 0, "solver": 0, "queries": 0, "paths": 0, "models": {},
                "contracts": {}, "inlined": {}, "loops": {}, "recheck": {}}
    fails = []
    for o in r.failures:
        ce = None
        if len(fails) < 6:
            try:
                ce = counterexample(r, o)
            except Exception as e:      # noqa
                ce = None
        fails.append({"name": o.name, "where": str(o.where), "kind": o.kind, "inputs": ce,
                      "solver": "z3: sat (" + str(o.why) + ")", "model": str(o.model)[:2000] if o.model is not None else None})
    hints = []
    try:
        hints = r.ex.hints
    except AttributeError:
        pass
    rechecked = {}
    if G['collect']:
        from engine import cvc5_check
        n = {"unsat": 0, "other": 0, "sat": 0}
        t0 = time.time()
        for name, smt in r.smt:
            if time.time() - t0 > 240:
                break
            a = cvc5_check(smt, 10)
            n["unsat" if a == "unsat" else "sat" if a == "sat" else "other"] += 1
            if a == "sat":
                fails.append({"name": name, "where": "", "kind": "disagreement", "inputs": None,
                              "solver": "z3 unsat, cvc5 sat", "model": None})
        rechecked = n
    return {"title": it.title, "status": r.status, "why": r.why,
            "obligations": [(o.name, o.kind, o.status, o.backend, o.where) for o in r.obligations],
            "failures": fails, "time": r.time, "solver": r.solver_time, "queries": r.queries, "paths": r.paths,
            "models": r.models, "contracts": r.contracts, "inlined": r.inlined, "loops": r.loops, "recheck": rechecked, "hints": hints}


def replay_hints(drv, cmd, r):
    for h in r.get("hints") or ():
        x = drv.replay(cmd, fmt_inputs(h))
        if x:
            f = r["failures"][0] if r["failures"] else {"name": "", "where": ""}
            return dict(x, obligation=f["name"], where=f["where"], source="verifier counterexample to the induction step")
    return None


def fmt_inputs(ce):
    out = []
    for n, v in ce:
        if v is None:
            out.append("n")
        elif isinstance(v, list):
            out.append("s:" + ",".join(format(x, "x") for x in v))
        else:
            out.append("i:%d" % v)
    return out


class Driver:
    """native executable oracle built from /repo's current sources (address + undefined sanitizers)"""

    def __init__(self, p):
        self.p, self.exe, self.err = p, None, None

    def get(self):
        if self.exe is None and self.err is None:
            try:
                self.exe = build.native(os.path.join(HERE, "replay", self.p.driver), self.p.libs)
            except build.BuildError as e:
                self.err = str(e)
        return self.exe

    def run(self, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0")
        try:
            r = subprocess.run([self.exe] + args, capture_output=True, text=True, errors="replace", timeout=timeout, env=env,
                               cwd=build.tmpdir())
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

    def replay(self, cmd, inputs):
        if not cmd or self.get() is None:
            return None
        rc, out, err = self.run(["check", cmd] + inputs, 60)
        if rc == 0 or rc == 3:
            return None
        return {"cmd": ["check", cmd] + inputs, "rc": rc, "stdout": out[-2000:], "stderr": err[-2000:]}

    def search(self, cmd, seed, secs):
        """returns (result, tries)"""
        if not cmd or self.get() is None:
            return None, 0
        rc, out, err = self.run(["search", cmd, str(seed), str(secs)], secs + 120)
        m = re.search(r"^TRIED (\d+)", out, re.M)
        tries = int(m.group(1)) if m else 0
        if rc == 0 or rc == 3:
            return None, tries
        m = re.search(r"^FAIL (.*)$", out + "\n" + err, re.M)
        line = m.group(1) if m else "(no input recorded)"
        return {"cmd": ["search", cmd, str(seed), str(secs)], "failing": line, "rc": rc, "stdout": out[-2000:],
                "stderr": err[-2000:]}, tries


def main():
    t0 = time.time()
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = props.PROPS[pid]
    out_dir = os.path.join(HERE, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(out_dir, "replay"), exist_ok=True)
    build_err = None
    mods = []
    try:
        mods = build.modules(p.all_srcs())
    except build.BuildError as e:
        build_err = str(e)
    items = p.items()
    G.update(items=items, modules=mods, contracts=p.contracts(), collect=thorough,
             deadline=time.time() + (3000 if thorough else 300))
    res = []
    if build_err is None:
        order = sorted(range(len(items)), key=lambda i: -getattr(items[i], 'cost', 1))
        ctx = mp.get_context("fork")
        with ctx.Pool(min(8, max(1, len(items))), maxtasksperchild=4) as pool:
            got = pool.map_async(job, order, chunksize=1)
            try:
                rs = got.get(timeout=3600 if thorough else 400)
            except mp.TimeoutError:
                pool.terminate()
                rs = None
        if rs is None:
            res = [{"title": it.title, "status": "undecided", "why": "time budget", "obligations": [], "failures": [], "time": 0,
                    "solver": 0, "queries": 0, "paths": 0, "models": {}, "contracts": {}, "inlined": {}, "loops": {},
                    "recheck": {}} for it in items]
        else:
            m = dict(zip(order, rs))
            res = [m[i] for i in range(len(items))]
    drv = Driver(p)
    known = props.known_findings(pid)
    violations, notes, bounded = [], [], []
    cmds = {it.title: getattr(it, 'cmd', None) for it in items}
    if build_err is not None:
        notes.append("current sources do not compile to bitcode: " + build_err[:500])
        res = [{"title": it.title, "status": "undecided", "why": "no bitcode", "obligations": [], "failures": [], "time": 0,
                "solver": 0, "queries": 0, "paths": 0, "models": {}, "contracts": {}, "inlined": {}, "loops": {},
                "recheck": {}} for it in items]
    nfail = sum(1 for r in res if r["status"] in ("failed", "undecided") or r["failures"])
    budget = (240 if thorough else 60) if nfail <= 2 else (120 if thorough else 20)
    search_cache = {}
    t_search = time.time()

    def do_search(cmd, secs):
        if time.time() - t_search > (1500 if thorough else 220):
            secs = 3
        if cmd not in search_cache:
            search_cache[cmd] = drv.search(cmd, seed, secs)
        return search_cache[cmd]

    for r in res:
        cmd = cmds.get(r["title"])
        if r["status"] == "failed" or r["failures"]:
            rep = replay_hints(drv, cmd, r)
            for f in [] if rep else r["failures"]:
                if f["inputs"] is not None:
                    x = drv.replay(cmd, fmt_inputs(f["inputs"]))
                    if x:
                        rep = dict(x, obligation=f["name"], where=f["where"], source="verifier counterexample")
                        break
            if rep is None:
                x, n = do_search(cmd, budget)
                if x:
                    rep = dict(x, obligation=r["failures"][0]["name"], where=r["failures"][0]["where"],
                               source="search after the failed obligation")
            violations.append((r, rep))
        elif r["status"] == "undecided":
            rep = replay_hints(drv, cmd, r)
            if rep:
                violations.append((r, dict(rep, obligation="(undecided) " + r["why"][:300])))
                continue
            x, n = do_search(cmd, budget)
            bounded.append({"function": r["title"], "reason": r["why"][:600], "bounded_search_inputs": n, "command": cmd,
                            "search_seconds": budget})
            if x:
                violations.append((r, dict(x, obligation="(undecided) " + r["why"][:300], source="bounded stand-in search")))
    # thorough: cross-check the contracts against the running code as well
    cross = []
    if thorough and build_err is None:
        done = set(search_cache)
        for c in sorted(set(c for c in cmds.values() if c) - done):
            if time.time() - t0 > 3300:
                break
            x, n = drv.search(c, seed, 15)
            cross.append({"command": c, "inputs": n, "failed": bool(x)})
            if x:
                rr = {"title": c, "failures": [], "why": ""}
                violations.append((rr, dict(x, obligation="contract and running code disagree", source="cross-check")))
    # ---------------------------------------------------------------- report
    printed = []
    nviol = 0
    for r, rep in violations:
        kf = None
        for k in known:
            if k.get("function") == r["title"] and all(any(s in f["name"] for s in k["obligations"]) for f in r["failures"]) and \
                    r["failures"]:
                kf = k
        if kf:
            printed.append(f"KNOWN-FINDING: property={pid} {kf['what']}")
            continue
        nviol += 1
        path = os.path.join(out_dir, "replay", f"{pid}_{nviol}.json")
        doc = {"property": pid, "function": r["title"], "failed_obligations": r["failures"][:10], "reproduction": rep,
               "undecided_reason": r.get("why", ""),
               "how": "build replay/%s with the current sources of /repo (see vc/build.py native()), run it with the arguments in "
                      "reproduction.cmd" % p.driver if rep else "no failing input found; the verifier's output is in failed_obligations"}
        json.dump(doc, open(path, "w"), indent=1, ensure_ascii=False)
        tail = "" if rep else " no-failing-input-found"
        nm = (r["failures"][0]["name"] if r["failures"] else (rep or {}).get("obligation", ""))
        printed.append(f"# {r['title']}: {nm[:200]}" + (f" [{(rep.get('failing') or ' '.join(rep['cmd']))[:160]}]" if rep else ""))
        printed.append(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}{tail}")
    bounds = {it.title: it.bound for it in items if getattr(it, 'bound', None)}
    for r in res:
        if r["title"] in bounds:
            bounded.append({"function": r["title"], "bound": bounds[r["title"]], "status": r["status"],
                            "obligations_not_counted": len(r["obligations"])})
    obl = [o for r in res if r["title"] not in bounds for o in r["obligations"]]
    kinds, backs = {}, {}
    for n, k, s, b, w in obl:
        kinds[k] = kinds.get(k, 0) + 1
        backs[b or "none"] = backs.get(b or "none", 0) + 1
    models = sorted(set(m for r in res for m in r["models"]))
    inl = sorted(set(m for r in res for m in r["inlined"] if m.startswith("kanji_tools::")))
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof",
          "coverage": {
              "obligations": len(obl) + sum(1 for r in res if r["status"] == "undecided" and r["title"] not in bounds),
              "discharged": sum(1 for o in obl if o[2] == "proved"),
              "checker_cmd": f"python3-vt check.py {pid}" + (" --thorough" if thorough else ""),
              "trusted_base": ["clang 18 front end and LLVM 18 passes sroa, instsimplify, simplifycfg (C++ -> LLVM IR)",
                               "/verif/vc symbolic executor / VC generator (engine.py, values.py, contract.py)",
                               "z3 and cvc5", "contracts of the C++ standard library in vc/stl.py: " + ", ".join(models)],
              "functions_under_contract": [
                  {"function": r["title"], "status": r["status"], "why": r["why"][:300], "obligations": len(r["obligations"]),
                   "discharged": sum(1 for o in r["obligations"] if o[2] == "proved"), "paths": r["paths"],
                   "solver_s": round(r["solver"], 2), "callee_contracts": sorted(r["contracts"]), "loops": r["loops"]}
                  for r in res if r["title"] not in bounds],
              "inlined_helpers": inl,
              "obligations_by_kind": kinds, "discharged_by_back_end": backs,
              "solver_time_s": round(sum(r["solver"] for r in res), 2), "solver_queries": sum(r["queries"] for r in res),
              "cvc5_recheck": {k: sum(r["recheck"].get(k, 0) for r in res) for k in ("unsat", "sat", "other")} if thorough else None,
              "bounded": bounded, "cross_check": cross,
              "samples": [f"{o[0]} [{o[2]} by {o[3]}] at {o[4]}" for o in obl if o[1] == "postcondition"][:8]},
          "assumptions": p.assumptions + props.COMMON_ASSUMPTIONS + notes,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    json.dump(ev, open(os.path.join(out_dir, pid + ".json"), "w"), indent=1, ensure_ascii=False)
    for l in printed:
        print(l)
    und = [r for r in res if r["status"] == "undecided"]
    print(f"{pid}: {len(obl)} obligations, {ev['coverage']['discharged']} discharged, {len(res)} functions/lemmas, "
          f"{len(und)} undecided, {nviol} violations, {ev['wall_s']} s")
    for r in und:
        print(f"  undecided (bounded stand-in used): {r['title']}: {r['why'][:300]}")
    sys.exit(1 if nviol else 0)


if __name__ == "__main__":
    main()
