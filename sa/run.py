"""Decides one property: runs its obligations on the current source tree and reports."""
import argparse
import json
import os
import pickle
import resource
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Job:
    """One obligation: run(seconds) gives a check.Result or a rules.Finding list."""

    def __init__(self, name, thunk, cost=10, budget=420):
        self.name, self.thunk, self.cost, self.budget = name, thunk, cost, budget


def outcome(r):
    """Plain data of a check.Result."""
    return {"name": r.name, "status": r.status, "why": r.why, "witness": r.witness, "alarms": r.alarms,
            "exits": r.exits, "stats": r.stats, "wall": round(r.wall, 2), "refined": r.refined,
            "items": getattr(r, "items", 0), "findings": getattr(r, "findings", []), "known": getattr(r, "known", False)}


def child(job, fd, budget):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from . import check
    try:
        res = outcome(job.thunk(budget))
    except check.AnchorLost as e:
        res = {"name": job.name, "status": "anchor", "why": str(e)}
    except MemoryError:
        res = {"name": job.name, "status": "undecided", "why": "memory"}
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res = {"name": job.name, "status": "undecided",
               "why": "analyser: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)}
    with os.fdopen(fd, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def run_jobs(jobs, total, workers, stop_on_violation=True):
    t0 = time.time()
    todo = sorted(jobs, key=lambda j: -j.cost)
    live = {}                # fd -> [pid, job, deadline, buffer]
    done = []
    stop = False
    while (todo and not stop) or live:
        while todo and not stop and len(live) < workers:
            j = todo.pop(0)
            left = total - (time.time() - t0)
            if left < 15:
                done.append({"name": j.name, "status": "undecided", "why": "no time left"})
                continue
            b = min(j.budget, max(10, left - 20))
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    child(j, w, b)
                finally:
                    os._exit(3)
            os.close(w)
            live[r] = [pid, j, time.time() + min(b * 1.6 + 20, left), b""]
        rd, _, _ = select.select(list(live), [], [], 1.0)
        now = time.time()
        for fd in list(live):
            rec = live[fd]
            if fd in rd:
                x = os.read(fd, 1 << 16)
                if x:
                    rec[3] += x
                    continue
                os.close(fd)
                os.waitpid(rec[0], 0)
                del live[fd]
                try:
                    res = pickle.loads(rec[3])
                except Exception:
                    res = {"name": rec[1].name, "status": "undecided", "why": "analysis ended early (memory?)"}
                done.append(res)
                if res["status"] == "violation" and stop_on_violation and not res.get("known"):
                    stop = True
            elif now > rec[2] or stop:
                os.kill(rec[0], signal.SIGKILL)
                os.waitpid(rec[0], 0)
                os.close(fd)
                del live[fd]
                done.append({"name": rec[1].name, "status": "undecided",
                             "why": "stopped" if stop else "time budget"})
    for j in todo:
        done.append({"name": j.name, "status": "undecided", "why": "not started"})
    return done


def known_findings(prop):
    """Keys of findings recorded and not repaired."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for l in f:
                if l.startswith("known: property=%s " % prop):
                    key, _, text = l[len("known: property=%s " % prop):].strip().partition(" | ")
                    out[key] = text
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    repo = os.environ.get("VP_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    from . import props, check
    try:
        jobs, meta = props.obligations(a.prop, repo, tier, seed)
    except check.AnchorLost as e:
        print("ERROR: the code this check is anchored in is gone: %s" % e)
        return 2
    if a.only:
        jobs = [j for j in jobs if a.only in j.name]
    total = 780 if tier == "quick" else 3300
    done = run_jobs(jobs, total, min(8, os.cpu_count() or 4), not a.all)
    done.sort(key=lambda r: r["name"])
    known = known_findings(a.prop)
    viol, seen_known = [], []
    for r in done:
        fs = r.get("findings") or []
        if r["status"] == "violation" and fs and not r.get("witness") and all((f.get("key") or f.get("text", "")) in known for f in fs):
            r["status"] = "known"
    for r in done:
        fs = r.get("findings") or []
        if r.get("witness"):
            fs = fs + [r["witness"]]
        for f in fs:
            k = f.get("key") or f.get("text", "")
            if k in known:
                if k not in seen_known:
                    seen_known.append(k)
            else:
                viol.append((r, f))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
    st = {}
    for r in done:
        st[r["status"]] = st.get(r["status"], 0) + 1
        if a.v or r["status"] != "proved":
            print("%-10s %-44s %6.1fs  %s" % (r["status"], r["name"], r.get("wall", 0), r.get("why", "")[:200]))
    gone = [r for r in done if r["status"] == "anchor"]
    fns = sorted({f for r in done for f in r.get("stats", {}).get("functions", ())})
    cov = {
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "obligations": len(done),
        "discharged": st.get("proved", 0),
        "undecided": [{"obligation": r["name"], "reason": r.get("why", "")} for r in done
                      if r["status"] == "undecided"],
        "violated": [r["name"] for r in done if r["status"] == "violation"],
        "items_checked": sum(r.get("items", 0) for r in done),
        "functions_analysed": fns,
        "loops_solved": sum(r.get("stats", {}).get("loops", 0) for r in done),
        "loop_states": sum(r.get("stats", {}).get("loop_states", 0) for r in done),
        "statements_interpreted": sum(r.get("stats", {}).get("statements", 0) for r in done),
        "exits_judged": sum(r.get("exits", 0) for r in done),
        "samples": [{"obligation": r["name"], "status": r["status"], "exits": r.get("exits", 0),
                     "items": r.get("items", 0), "wall_s": r.get("wall", 0)} for r in done],
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, a.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if viol:
        path = os.path.join(evd, "replay-%s.json" % a.prop)
        with open(path, "w", encoding="utf-8") as f:
            json.dump([{"obligation": r["name"], "rule": r.get("why", ""), "finding": w} for r, w in viol], f,
                      indent=1, ensure_ascii=False, default=str)
            f.write("\n")
        for r, w in viol[:5]:
            print("  %s: %s" % (r["name"], json.dumps(w, ensure_ascii=False, default=str)[:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if gone:
        print("ERROR: the code this check is anchored in is gone: %s" % gone[0]["why"])
        return 2
    print("%s: %d obligations, %d proved, %d undecided, %.0f s" % (
        a.prop, len(done), st.get("proved", 0), st.get("undecided", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
