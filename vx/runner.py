"""Runs the cases of one property, replays candidates, writes the evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import numpy as np          # noqa: E402

from . import env as envm   # noqa: E402
from . import sr, shim      # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)


# ---- which functions of the repository were executed symbolically ---------
class Coverage:
    def __init__(self):
        self.funcs = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(4, "vx")
        except ValueError:
            return

        def cb(code, off, pre=REPO + "/extensisq", add=self.funcs.add,
               off_=mon.DISABLE):
            f = code.co_filename
            if f.startswith(pre):
                add(f.rsplit("/", 1)[1] + ":" + code.co_qualname)
            elif "_ivp/base.py" in f:
                add("scipy/_ivp/base.py:" + code.co_qualname)
            return off_
        mon.register_callback(4, mon.events.PY_START, cb)
        mon.set_events(4, mon.events.PY_START)


def in_repo(exc):
    """does the exception come out of the code under test?"""
    last = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO + "/"):
            last = "repo"
        elif fr.filename.startswith(VERIF + "/"):
            last = "verif"
    return last == "repo"


def concrete(mod, case, values):
    """run the harness on doubles with the real, unpatched code"""
    e = envm.ConcEnv(values, case)
    res = {"failed": [], "note": "", "nclaims": 0}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            with shim.stubbed(case.get("stub")):
                mod.run(e, case)
        except envm.Skip as x:
            res["note"] = f"skipped: {x}"
        except Exception as x:
            res["note"] = f"{type(x).__name__}: {x}"
            if in_repo(x):
                e.failed.append(f"raises {type(x).__name__}")
    res["failed"] = e.failed
    res["nclaims"] = e.nclaims
    return res


def run_case(mod, case, tier, seed):
    cov = Coverage()
    cov.start()
    t0 = time.time()
    out = {"name": case["name"], "confirmed": [], "inconclusive": [],
           "obligations": 0, "discharged": 0, "paths": 0, "queries": 0}
    if hasattr(mod, "custom") and case.get("custom"):
        # a harness with its own solver encoding
        mod.custom(case, tier, seed, out)
        for cand in out.pop("cands", []):
            confirm(mod, case, cand["label"], cand["values"], out, seed)
        out["functions"] = sorted(cov.funcs)
        out["wall"] = time.time() - t0
        return out
    sr.reset_store()
    opts = dict(max_paths=60, budget=60, branch_ms=300, claim_ms=3000)
    opts.update(getattr(mod, "OPTS", {}))
    opts.update(case.get("opts", {}))
    if case.get("concolic"):
        opts["sample"] = {}
    eng = sr.Engine(seed=seed, **opts)
    errors = []

    def body(en):
        if en.sample is not None:
            en.sample.clear()
        try:
            with shim.stubbed(case.get("stub")):
                mod.run(envm.SymEnv(en, case), case)
        except sr.Unsupported as x:
            errors.append(("unsupported", str(x), path_values(en), False))
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
            raise sr.PathAbort("unsupported: " + str(x)[:80])
        except Exception as x:
            errors.append((type(x).__name__, str(x)[:200], path_values(en),
                           in_repo(x)))
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
            raise sr.PathAbort("exception: " + type(x).__name__)

    with shim.symbolic(case.get("extra")):
        eng.explore(body)

    seen = set()
    nrep = 0
    for c in eng.cands:
        key = c["label"]
        if key in seen or nrep > 12:
            continue
        nrep += 1
        if confirm(mod, case, key, c["values"], out, seed):
            seen.add(key)
    if eng.cands and not out["confirmed"] and eng.sample is not None:
        vals = dict(eng.sample)
        for lab in sorted({c["label"] for c in eng.cands}):
            if confirm(mod, case, lab, vals, out, seed):
                break
    if eng.cands and not out["confirmed"]:
        for lab in sorted({c["label"] for c in eng.cands}):
            out["inconclusive"].append(
                (lab, "counterexample does not reproduce"))
    for kind, msg, vals, inside in errors:
        if vals is not None and not out["confirmed"]:
            confirm(mod, case, "raises", vals, out, seed)
        out["inconclusive"].append((kind, msg))
    out["inconclusive"] += eng.inconclusive
    out["inconclusive"] = out["inconclusive"][:20]
    st = eng.stats
    out.update(obligations=eng.obligations, discharged=eng.discharged,
               paths=eng.paths, aborted=eng.aborted, truncated=eng.truncated,
               labels=eng.labels, queries=st.queries, unsat=st.unsat,
               sat=st.sat, unknown=st.unknown, solver_s=round(st.time, 2),
               linear=st.linear, nonlinear=st.nonlinear,
               functions=sorted(cov.funcs), wall=time.time() - t0)
    if eng.sample is not None:
        out["sample"] = dict(list(eng.sample.items())[:12])
    return out


def path_values(eng):
    """some input values that follow the current path"""
    if eng.sample is not None:
        return dict(eng.sample)
    pins = {a: sr.STORE.atoms[a].pin[0] for a in eng.inputs.values()
            if sr.STORE.atoms[a].pin is not None}
    r, m = sr.run_z3(list(eng.pc), False, 2000, eng.stats, pins=pins,
                     want_model=True)
    if m is None:
        r, m = sr.run_z3(list(eng.pc), False, 2000, eng.stats,
                         want_model=True)
    if m is None:
        return None
    return eng._candidate("", m)["values"]


def confirm(mod, case, label, values, out, seed):
    res = concrete(mod, case, values)
    if res["failed"]:
        out["confirmed"].append({"label": res["failed"][0], "claimed": label,
                                 "values": values, "note": res["note"]})
        return True
    return False


# ---- scheduling ------------------------------------------------------------
def worker(conn, mod, case, tier, seed):
    try:
        import resource
        lim = case.get("mem_gb", 6) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        r = run_case(mod, case, tier, seed)
    except BaseException as x:
        r = {"name": case["name"], "error": f"{type(x).__name__}: {x}",
             "trace": traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    except Exception as x:
        conn.send({"name": case["name"], "error": "send: " + str(x)})
    conn.close()


def schedule(mod, cases, tier, seed, deadline, stop_at_violation=True):
    ctx = mp.get_context("fork")
    pending = list(cases)
    running = []
    results = []
    stop = False
    while pending or running:
        now = time.time()
        while pending and len(running) < NCPU and not stop \
                and now < deadline:
            case = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, mod, case, tier, seed))
            p.start()
            b.close()
            hard = case.get("hard", 2.5*case.get("opts", {}).get(
                "budget", getattr(mod, "OPTS", {}).get("budget", 60)) + 45)
            running.append((p, a, case, now, min(now + hard, deadline + 45)))
        if (stop or now >= deadline) and pending:
            if not stop:
                for c in pending:
                    results.append({"name": c["name"], "error": "not started: "
                                    "out of time"})
            pending = []
        keep = []
        for p, a, case, ts, hard in running:
            got = False
            try:
                if a.poll(0):
                    results.append(a.recv())
                    got = True
            except (EOFError, OSError):
                results.append({"name": case["name"],
                                "error": "worker ended"})
                got = True
            if got:
                p.join(5)
                if p.is_alive():
                    p.kill()
                if results[-1].get("confirmed") and stop_at_violation:
                    if not known_match(mod.ID, results[-1]):
                        stop = True
            elif stop or time.time() > hard:
                p.kill()
                p.join()
                results.append({"name": case["name"],
                                "error": "stopped" if stop
                                else "time limit"})
            else:
                keep.append((p, a, case, ts, hard))
        running = keep
        time.sleep(0.02)
    return results


# ---- known findings --------------------------------------------------------
def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:"):]))
    return out


def known_match(pid, res):
    """True when every confirmed violation of this result is listed"""
    fs = [f for f in known() if f["property"] == pid]
    return all(any(f["case"] == res["name"] and f["label"] == c["label"]
                   for f in fs) for c in res.get("confirmed", []))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("vx.props." + a.property.lower())
    pid = mod.ID
    if a.replay:
        d = json.load(open(a.replay))
        case = find_case(mod, d["case"], seed)
        r = concrete(mod, case, d["values"])
        print(json.dumps(r))
        if r["failed"]:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    limit = getattr(mod, "LIMIT", {}).get(
        tier, 420 if tier == "quick" else 2400)
    cases = mod.cases(tier, seed)
    if a.only:
        cases = [c for c in cases if a.only in c["name"]]
    import extensisq                                      # noqa: F401
    results = schedule(mod, cases, tier, seed, t0 + limit)
    code = 0
    rdir = os.path.join(VERIF, "replays")
    fs = [f for f in known() if f["property"] == pid]
    printed = set()
    for r in results:
        for c in r.get("confirmed", []):
            hit = [f for f in fs if f["case"] == r["name"]
                   and f["label"] == c["label"]]
            if hit:
                if hit[0]["what"] not in printed:
                    printed.add(hit[0]["what"])
                    print(f"KNOWN-FINDING: property={pid} {hit[0]['what']}")
                continue
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1((r["name"] + c["label"]).encode()).hexdigest()[:8]
            path = os.path.join(rdir, f"{pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": r["name"],
                           "label": c["label"], "values": c["values"],
                           "note": c["note"]}, f, indent=1, default=float)
            print(f"{r['name']}: {c['label']} {c['note']}")
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
            break
    write_evidence(mod, tier, seed, results, time.time() - t0, code)
    tot = {k: sum(r.get(k, 0) for r in results)
           for k in ("obligations", "discharged", "queries", "paths")}
    bad = [r for r in results if r.get("error") or r.get("inconclusive")
           or not r.get("obligations")]
    print(f"{pid} {tier}: {len(results)} cases, {tot['paths']} paths, "
          f"{tot['obligations']} obligations, {tot['discharged']} discharged, "
          f"{tot['queries']} queries, {len(bad)} cases with open points, "
          f"{time.time() - t0:.1f} s")
    if a.v:
        for r in results:
            if r.get("error"):
                print("  ERR", r["name"], r["error"], r.get("trace", ""))
            else:
                print("  ", r["name"], "ob", r["obligations"], "ok",
                      r["discharged"], "paths", r["paths"], "q", r["queries"],
                      f"{r.get('wall', 0):.1f}s",
                      "TRUNC" if r.get("truncated") else "",
                      r.get("aborted") or "", r["inconclusive"][:3])
    return code


def find_case(mod, name, seed):
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier, seed):
            if c["name"] == name:
                return c
    raise SystemExit("unknown case " + name)


def write_evidence(mod, tier, seed, results, wall, code):
    tot = {k: sum(r.get(k, 0) or 0 for r in results) for k in (
        "obligations", "discharged", "queries", "unsat", "sat", "unknown",
        "linear", "nonlinear", "paths")}
    tot["solver_s"] = round(sum(r.get("solver_s", 0) for r in results), 2)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    inc = []
    for r in results:
        if r.get("error"):
            inc.append({"case": r["name"], "why": r["error"][:200]})
        elif not r.get("obligations"):
            inc.append({"case": r["name"], "why": "no obligation reached"})
        for x in r.get("inconclusive", [])[:4]:
            inc.append({"case": r["name"], "why": " ".join(map(str, x))[:200]})
        if r.get("truncated"):
            inc.append({"case": r["name"],
                        "why": "path or time bound reached; the paths "
                               "explored so far were decided"})
    samples = [{"case": r["name"], "labels": r.get("labels"),
                "aborted": r.get("aborted"), "sample": r.get("sample")}
               for r in results if r.get("obligations")][:6]
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "other",
        "wall_s": round(wall, 1),
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "method": "symbolic execution of the code in /repo (imported and "
                      "run on symbolic reals), every branch and every claim "
                      "decided by z3; counterexamples are replayed on the "
                      "unpatched code before they are reported",
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "cases": len(results),
            **tot,
            "functions_encoded": funcs,
            "open_points": inc[:60],
            "open_points_total": len(inc),
            "samples": samples,
        },
        "verdict": "violation" if code else "no violation",
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
