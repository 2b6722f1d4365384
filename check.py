#!/usr/bin/env python3
"""Decide one property by static analysis of the source under /repo (see DESIGN.md).

usage: check.py <property id> [--pair NAME] [--debug]
"""
from __future__ import annotations

import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def big_stack(fn):
    out = {}

    def run():
        try:
            out["r"] = fn()
        except BaseException as e:  # noqa: BLE001
            out["e"] = e
            out["tb"] = traceback.format_exc()

    sys.setrecursionlimit(60000)
    threading.stack_size(900 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if "e" in out:
        print(out["tb"], file=sys.stderr)
        raise out["e"]
    return out["r"]


def decide_pair(args):
    """Analyse one code/reference pair. Runs in a worker process."""
    mod_name, pair, debug = args
    try:
        return big_stack(lambda: _decide_pair(mod_name, pair, debug))
    except Exception as e:  # noqa: BLE001
        return {"pair": pair, "status": "crash", "reason": f"{type(e).__name__}: {e}"[:200], "wall": 0}


def _decide_pair(mod_name, pair, debug):
    from vfa import evalr
    from vfa.compare import Compare, blame, entry
    from vfa.interp import AnalysisError, Analyzer

    t0 = time.time()
    m = importlib.import_module("checks." + mod_name)
    spec = m.PAIRS[pair]
    an = Analyzer(REPO, cut=spec.get("cut", ()), opaque=spec.get("opaque", ()), max_rec=spec.get("max_rec", 4), heap=spec.get("heap", False),
                  raising=spec.get("raising", ()), hobj=spec.get("hobj", ()), memo=spec.get("memo", False), diverge=spec.get("ends", False))
    an.deadline = time.time() + (600 if TIER == "thorough" else 300)
    out = {"pair": pair}
    try:
        h = an.load_source(f"harness_{mod_name}", os.path.join(HERE, "checks", mod_name + ".py"), m.HARNESS)
        missing = [v.a[0] for v in h.env.values() if v.op == "top"]
        if missing:
            raise AnalysisError("; ".join(missing))
        before = set(an.stats["tops"])
        code = entry(an, h, "code_" + pair)
        tops = {k: v for k, v in an.stats["tops"].items() if k not in before}
        funcs = sorted(f for f in an.funcs if f.startswith("dissect."))
        stats = {k: (len(v) if isinstance(v, set) else v) for k, v in an.stats.items() if k != "tops"}
        raise_sites = sorted(an.stats["raise_sites"])
        reads = sorted(an.read_sites)
        refs = [] if spec.get("ends") else [entry(an, h, "ref_" + pair)]
        devs = spec.get("known", {})
        for d in devs:
            refs.append(entry(an, h, d))
    except AnalysisError as e:
        out.update(status="error", reason=str(e), wall=time.time() - t0)
        return out
    evalr.MAXIT = spec.get("maxit", 48)
    n = spec.get("samples", 200) * (40 if TIER == "thorough" else int(os.environ.get("VFA_EFFORT", "8")))
    cmp_ = Compare(an, code, refs, getattr(m, "DOMAINS", {}) | spec.get("domains", {}), n, SEED, excmap=spec.get("excmap"),
                   budget=spec.get("budget", 40) * (4 if TIER == "thorough" else 1))
    r = cmp_.run_ends() if spec.get("ends") else cmp_.run()
    out.update(status=r.status, stats=r.stats, funcs=funcs, analysis=stats, tops=tops, raise_sites=raise_sites, reads=reads,
               congruent=r.all_congruent, decided=r.n_decided)
    if r.status == "deviation":
        k = list(devs)[r.dev - 1]
        out["known"] = devs[k]
    if r.status in ("differs", "deviation"):
        s, (label, got, want) = r.first[0] if r.first[0] else (None, (None, None, None))
        if r.status == "differs" and len(refs) > 1:
            # report against the alternative that survived longest
            s, (label, got, want) = max((f for f in r.first if f), key=lambda f: f[0])
        out["witness"] = {"sample": s, "label": str(label), "code": repr(got)[:1500], "expected": repr(want)[:1500]}
        out["blame"] = [got] if spec.get("ends") else blame(an, code, refs[0], label, REPO)
    if debug:
        from vfa import terms as tm
        from vfa.compare import reach

        ct, _ = reach(an, code.roots(), code.st)
        un = []
        for i, c in r.conds.items():
            if len(c) < 2 and i in ct:
                p = tm.prov.get(i)
                un.append((f"{p[0].qual}:{p[1]}" if p and p[0] else "?", sorted(c), tm.show(ct[i])[:160]))
        out["uncovered"] = un
    out["wall"] = time.time() - t0
    return out


def run_pairs(mod_name, pairs, debug=False):
    import multiprocessing as mp

    jobs = [(mod_name, p, debug) for p in pairs]
    if len(jobs) == 1:
        return [decide_pair(jobs[0])]
    with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        return pool.map(decide_pair, jobs, chunksize=1)


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    out.append(line)
    return out


def main(argv):
    pid = argv[1]
    debug = "--debug" in argv
    only = argv[argv.index("--pair") + 1] if "--pair" in argv else None
    t0 = time.time()
    mod_name = pid.lower()
    m = importlib.import_module("checks." + mod_name)
    findings, notes, errors, undecided, known = [], [], [], [], []
    cov: dict = {}
    results = []
    pairs = [p for p in getattr(m, "PAIRS", {}) if only is None or p == only]
    if pairs:
        results = run_pairs(mod_name, pairs, debug)
    listed = known_findings()
    for r in results:
        p = r["pair"]
        spec = m.PAIRS[p]
        if r["status"] == "error":
            errors.append(f"{p}: {r['reason']}")
            continue
        if r["status"] == "crash":
            # beyond what the engine can analyse; the other pairs still count
            undecided.append(f"{p}: not analysed, {r['reason']}")
            continue
        if debug:
            st = r["stats"]
            print(f"--- {p}: {r['status']} congruent={r['congruent']} {json.dumps({k: v for k, v in st.items()})} tops={r['tops']} wall={r['wall']:.1f}")
            for u in r.get("uncovered", []):
                print("   uncovered", u)
        if r["status"] == "differs":
            findings.append({"rule": f"{p} ends" if spec.get("ends") else f"{p} equals its specification", "where": r["blame"], "witness": r["witness"]})
        elif r["status"] == "deviation":
            key, text = r["known"]
            if any(l.startswith(f"known: property={pid} {key}") for l in listed):
                known.append(f"{key}: {text}")
            else:
                findings.append({"rule": f"{p} equals its specification", "where": r["blame"], "witness": r["witness"]})
        elif r["status"] == "undecided":
            undecided.append(f"{p}: {r['stats'].get('unknown_reasons')}")
        if r["tops"]:
            notes.append(f"{p}: imprecise at {list(r['tops'])[:3]}")
        if not r["funcs"] and not spec.get("nofuncs"):
            errors.append(f"{p}: no function of the library was analysed")
    if hasattr(m, "rules") and only is None:
        rr = m.rules(REPO, TIER)
        findings += rr.get("findings", [])
        errors += rr.get("errors", [])
        undecided += rr.get("undecided", [])
        known += rr.get("known", [])
        cov.update(rr.get("coverage", {}))
    ok = [r for r in results if r["status"] not in ("error", "crash")]
    if results and not ok and not errors:
        errors.append("nothing could be analysed: " + "; ".join(undecided)[:300])
    if ok:
        cov.update({
            "pairs": len(ok),
            "functions_analysed": len({f for r in ok for f in r["funcs"]}),
            "functions": sorted({f for r in ok for f in r["funcs"]})[:80],
            "inlined_calls": sum(r["analysis"]["calls"] for r in ok),
            "branches": sum(r["analysis"]["branches"] for r in ok),
            "stream_read_sites": len({x for r in ok for x in r["reads"]}),
            "refusal_sites": sorted({x for r in ok for x in r["raise_sites"]})[:60],
            "value_graph_terms": sum(r["stats"]["terms"] for r in ok),
            "recurrences": sum(r["stats"]["loops"] for r in ok),
            "obligations": sum(max(len(r["stats"]["distinct"]), 1) + 1 for r in ok),
            "obligations_congruent": sum(r["stats"]["congruent_labels"] + bool(r["stats"]["congruent_exits"]) for r in ok),
            "worlds_valued": sum(r["stats"]["samples"] for r in ok),
            "worlds_decided": sum(r["decided"] for r in ok),
            "conditions": sum(r["stats"]["conditions"] for r in ok),
            "conditions_both_ways": sum(r["stats"]["both_ways"] for r in ok),
            "per_pair": {r["pair"]: {"status": r["status"], "decided": r["decided"], "unknown": r["stats"]["unknown"],
                                     "reasons": {k[:80]: v for k, v in (r["stats"].get("unknown_reasons") or {}).items()}, "congruent": r["congruent"], "imprecise": len(r["tops"])} for r in ok},
        })
        passes: dict = {}
        for r in ok:
            for k, v in r["stats"].get("passes", {}).items():
                passes[k] = max(v, passes.get(k, 0))
        if passes:
            cov["loops_followed"] = passes
    cov["explanation"] = m.EXPLAIN
    cov["undecided"] = undecided[:20]
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3),
          "assumptions": getattr(m, "ASSUME", []) + ["dissect.cstruct and dissect.util.stream behave as modelled in vfa/cdef.py and vfa/builtins_.py"],
          "violations": [{"rule": f["rule"], "where": f["where"]} for f in findings][:20]}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: analysed {cov.get('functions_analysed', cov.get('functions_scanned', '?'))} functions, "
          f"{cov.get('pairs', 0)} pairs, {cov.get('obligations', 0)} obligations in {ev['wall_s']}s")
    for u in undecided:
        print(f"UNDECIDED property={pid} {u}")
    for n in notes:
        print(f"note: {n}")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if findings:
        rp = os.path.join(EVID, f"{pid}.violation.json")
        with open(rp, "w") as f:
            json.dump(findings, f, indent=1)
        for x in findings:
            w = x["where"] if isinstance(x["where"], list) else [x["where"]]
            print(f"  {x['rule']}: {'; '.join(w[:6])}")
            if x.get("witness"):
                wt = x["witness"]
                print(f"    {wt.get('label')}: code {str(wt.get('code'))[:300]} expected {str(wt.get('expected'))[:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        for e in errors:
            print(f"ERROR property={pid} {e}")
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.exit(code)
