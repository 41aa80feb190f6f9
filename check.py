#!/usr/bin/env python3
"""Run the static check of one property:  check.py --property C02 [--tier quick|thorough]

The check parses the current sources under /repo, interprets them over abstract values (absint/) and compares
what every abstract path does with the property's rule.  Nothing from /repo is imported or executed.
"""
import argparse
import importlib
import json
import os
import pickle
import re
import select
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(256 * 1024 * 1024)

LEVEL = "other"


def in_thread(fn):
    box = {}

    def run():
        try:
            box["r"] = fn()
        except BaseException as e:   # noqa
            import traceback
            box["e"] = "".join(traceback.format_exception(e)[-12:])
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if "e" in box:
        raise RuntimeError(box["e"])
    return box["r"]


def run_one(I, prop, sc, tier):
    from absint.world import explore
    rule, name, fn = sc[:3]
    opt = sc[3] if len(sc) > 3 else {}
    lim = opt.get("paths", 6000 if tier == "quick" else 60000)
    tl = opt.get("time", 40 if tier == "quick" else 400)
    for k, v in opt.get("set", {}).items():
        setattr(I, k, v)
    try:
        rep = explore(I, prop, rule, name, fn, lim, tl)
    finally:
        for k in opt.get("set", {}):
            if k in I.__dict__:
                delattr(I, k)
    return rep


def pack(rep):
    return {"rule": rep.rule, "name": rep.name, "paths": rep.paths, "infeasible": rep.infeasible,
            "obligations": rep.obligations, "undecided": rep.undecided, "violations": list(rep.violations.values()),
            "samples": rep.samples, "complete": rep.complete, "wall": rep.wall, "notes": rep.notes,
            "sites": sorted(rep.sites)}


def worker(I, prop, scs, tier, rfd, wfd, deadline):
    """Read scenario indices, write pickled results."""
    def loop():
        rd = os.fdopen(rfd, "rb", 0)
        while True:
            b = rd.read(4)
            if not b or len(b) < 4:
                return
            i = int.from_bytes(b, "little")
            try:
                r = pack(run_one(I, prop, scs[i], tier))
            except Exception as e:   # noqa
                import traceback
                r = {"rule": scs[i][0], "name": scs[i][1], "crash": "".join(traceback.format_exception(e)[-6:])}
            data = pickle.dumps((i, r))
            buf = len(data).to_bytes(8, "little") + data
            while buf:
                n = os.write(wfd, buf)
                buf = buf[n:]
    in_thread(loop)


def read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def run_pool(I, prop, scs, tier, jobs, deadline):
    if jobs <= 1 or len(scs) == 1:
        res = []
        for i, s in enumerate(scs):
            if time.time() > deadline:
                res.append({"rule": s[0], "name": s[1], "skipped": True})
                continue
            try:
                res.append(pack(in_thread(lambda: run_one(I, prop, s, tier))))
            except Exception as e:   # noqa
                res.append({"rule": s[0], "name": s[1], "crash": str(e)[-3000:]})
        return res
    ws = []
    for _ in range(min(jobs, len(scs))):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in ws:
                    os.close(w["w"])
                    os.close(w["r"])
                worker(I, prop, scs, tier, r1, w2, deadline)
            except BaseException:   # noqa
                os._exit(3)
            os._exit(0)
        os.close(r1)
        os.close(w2)
        ws.append({"pid": pid, "w": w1, "r": r2, "cur": None})
    results = [None] * len(scs)
    order = sorted(range(len(scs)), key=lambda i: -(scs[i][3].get("weight", 1) if len(scs[i]) > 3 else 1))
    nxt = 0

    def feed(w):
        nonlocal nxt
        if nxt < len(order) and time.time() < deadline:
            os.write(w["w"], order[nxt].to_bytes(4, "little"))
            w["cur"] = order[nxt]
            nxt += 1
        else:
            w["cur"] = None
    for w in ws:
        feed(w)
    while any(w["cur"] is not None for w in ws):
        fds = [w["r"] for w in ws if w["cur"] is not None]
        ready, _, _ = select.select(fds, [], [], 5.0)
        for w in ws:
            if w["cur"] is None or w["r"] not in ready:
                continue
            h = read_exact(w["r"], 8)
            if h is None:
                i = w["cur"]
                results[i] = {"rule": scs[i][0], "name": scs[i][1], "crash": "worker ended"}
                w["cur"] = None
                continue
            i, r = pickle.loads(read_exact(w["r"], int.from_bytes(h, "little")))
            results[i] = r
            feed(w)
        if time.time() > deadline + 60:
            break
    for w in ws:
        try:
            os.close(w["w"])
        except OSError:
            pass
        if w["cur"] is not None:
            try:
                os.kill(w["pid"], 9)
            except OSError:
                pass
        try:
            os.waitpid(w["pid"], 0)
        except OSError:
            pass
    for i, r in enumerate(results):
        if r is None:
            results[i] = {"rule": scs[i][0], "name": scs[i][1], "skipped": True}
    return results


def load_known():
    """The recorded, unrepaired findings: lines "known: property=<id> id=<slug> match=<regex> what=<text>"."""
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) id=(\S+) match=(.*?) what=(.*)$", line)
                if m:
                    out.append(dict(zip(("property", "id", "match", "what"), m.groups())))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--repo", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--slow", type=int, default=0, help="print the slowest scenarios")
    a = ap.parse_args()
    if a.repo:
        os.environ["VERIF_REPO"] = a.repo
    prop = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    from absint.world import Interp, REPO
    from absint.core import PyExc
    from absint.state import Undecided
    try:
        I = in_thread(Interp)
    except RuntimeError as e:
        print(f"NO-ANSWER property={prop}: the sources under {REPO} could not be loaded abstractly")
        print(e)
        return 2
    mod = importlib.import_module(f"rules.{prop.lower()}")
    scs = mod.scenarios(tier)
    if a.replay:
        with open(a.replay) as f:
            rj = json.load(f)
        scs = [s for s in scs if s[1] == rj["scenario"] and s[0] == rj["rule"]]
    if a.only:
        scs = [s for s in scs if re.search(a.only, s[0] + " " + s[1])]
    names = [(s[0], s[1]) for s in scs]
    assert len(set(names)) == len(names), "duplicate scenario names"
    results = run_pool(I, prop, scs, tier, a.jobs, deadline)
    # functions executed while loading are in I.functions
    known = [k for k in load_known() if k["property"] == prop]
    paths = infeasible = obligations = und = incomplete = skipped = crashed = 0
    undec = {}
    viols = []
    knownhits = {}
    sites = set()
    notes = {}
    samples = []
    per = {}
    for r in results:
        if r.get("skipped"):
            skipped += 1
            undec[f"{r['rule']} / {r['name']}: not analysed (time budget)"] = 1
            continue
        if "crash" in r:
            crashed += 1
            undec[f"{r['rule']} / {r['name']}: analyser error {r['crash'].strip().splitlines()[-1]}"] = 1
            if a.v:
                print("CRASH", r["name"], r["crash"])
            continue
        paths += r["paths"]
        infeasible += r["infeasible"]
        obligations += r["obligations"]
        incomplete += 0 if r["complete"] else 1
        sites |= {tuple(s) for s in r["sites"]}
        d = per.setdefault(r["rule"], {"scenarios": 0, "paths": 0, "obligations": 0, "undecided": 0})
        d["scenarios"] += 1
        d["paths"] += r["paths"]
        d["obligations"] += r["obligations"]
        for k, n in r["undecided"].items():
            und += n
            d["undecided"] += n
            undec[f"{r['rule']} / {r['name']}: {k}"] = n
        if not r["complete"]:
            undec[f"{r['rule']} / {r['name']}: path budget reached after {r['paths']} paths"] = 1
        for k, n in r["notes"].items():
            notes[f"{r['name']}: {k}"] = n
        if r["samples"] and len(samples) < 12:
            samples.append({"rule": r["rule"], "scenario": r["name"], "path": r["samples"][0]})
        for v in r["violations"]:
            sig = f"{v['rule']} :: {v['scenario']} :: {v['what']}"
            hit = None
            for k in known:
                if re.search(k["match"], sig):
                    hit = k
                    break
            if hit is not None:
                knownhits.setdefault(hit["id"], []).append(sig)
            else:
                viols.append((sig, v))
        if a.v:
            print(f"{r['rule']:10s} {r['name']:50s} paths={r['paths']} inf={r['infeasible']} ob={r['obligations']} "
                  f"und={sum(r['undecided'].values())} viol={len(r['violations'])} {r['wall']:.1f}s"
                  f"{'' if r['complete'] else ' INCOMPLETE'}")
    rc = 0
    outdir = os.path.join(ROOT, "replay", prop)
    if viols:
        os.makedirs(outdir, exist_ok=True)
    seen = {}
    for sig, v in viols:
        k = (v["what"], v.get("construct"))
        seen[k] = seen.get(k, 0) + 1
        v["nth"] = seen[k]
    viols.sort(key=lambda x: x[1]["nth"])
    for n, (sig, v) in enumerate(viols):
        p = os.path.join(outdir, f"{n}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=str)
        if n < 40 and (v["nth"] < 3 or n < 10):
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  rule:      {v['rule']}\n  scenario:  {v['scenario']}\n  broken:    {v['what']}")
            if v.get("detail"):
                print(f"  detail:    {v['detail']}")
            if v.get("construct"):
                print(f"  construct: {v['construct']}")
            for k, x in v["inputs"].items():
                print(f"  input:     {k} = {x}")
            for t in v["trace"][-10:]:
                print(f"  path:      {t}")
        rc = 1
    for k in known:
        if k["id"] in knownhits:
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} ({len(knownhits[k['id']])} scenario(s))")
        elif not a.only and not a.replay and a.v:
            print(f"(listed finding {k['id']} was not observed on this tree)")
    shown = 0
    for k, n in sorted(undec.items(), key=lambda x: -x[1]):
        if shown < (200 if a.v else 8):
            print(f"UNDECIDED property={prop} {k[:300]} (x{n})")
            shown += 1
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": LEVEL,
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip(),
            "scenarios": len(results), "abstract_paths": paths, "empty_paths": infeasible,
            "obligations": obligations, "undecided_paths": und, "incomplete_scenarios": incomplete,
            "skipped_scenarios": skipped, "analyser_errors": crashed,
            "rules": {k: {**v, "statement": mod.RULES.get(k, "")} for k, v in per.items()},
            "functions_analysed": sorted({f"{m}:{q}" for m, q in sites if m.startswith("d42")}),
            "source_files": sorted(p for p in I.sources_read if p.startswith(I.repo)),
            "undecided": dict(sorted(undec.items(), key=lambda x: -x[1])[:60]),
            "known_findings_observed": knownhits, "samples": samples,
            "notes": dict(list(notes.items())[:40]),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    if not a.no_evidence and not a.replay and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {len(results)} scenarios, {paths} abstract paths, {obligations} obligations, "
          f"{len(viols)} violations, {und} undecided paths, {incomplete} incomplete, {skipped} skipped, "
          f"{crashed} errors, {time.time() - t0:.1f}s")
    for r in sorted((r for r in results if r and "wall" in r), key=lambda r: -r["wall"])[:a.slow]:
        print(f"slow: {r['wall']:.1f}s {r['paths']} paths {r['rule']} :: {r['name']}")
    if rc == 0 and results and obligations == 0:
        print(f"NO-ANSWER property={prop}: no obligation could be generated")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
