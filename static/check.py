#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root /repo] [--only OBLIGATION] [-v]

Summarises the current source of /repo (nothing of it is executed), compares it with the reference
definitions of the property and reports every observable that differs, with the source lines."""
import argparse
import glob
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def spec_sources():
    return {os.path.basename(f)[:-3]: open(f).read() for f in sorted(glob.glob(os.path.join(HERE, "specs", "*.py")))}


def run_one(job):
    prop, idx, root, samples, seed, limit, deadline, memory = job
    limit = max(5, min(limit, deadline - time.time()))
    import resource
    import threading

    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def work():
        import obligations
        from vg.compare import Decider
        from vg.query import Query

        o = obligations.OBLS[prop][idx]
        t0 = time.time()
        try:
            if isinstance(o, Query):
                out.update(o.decide(root))
            else:
                d = Decider(o, root, spec_sources(), samples=samples, seed=seed).run()
                out.update(
                    name=o.name, code=o.code, spec=o.spec, stats=d.stats, bounded=getattr(d, "bounded", None),
                    functions=sorted(d.code.ip.functions) if hasattr(d, "code") else [],
                    loops=d.code.ip.loops if hasattr(d, "code") else 0,
                    notes=[list(n) for n in (d.code.ip.notes if hasattr(d, "code") else [])][:20],
                    sources={k: v for k, v in d.code.ip.loader.consulted.items()} if hasattr(d, "code") else {},
                    results=[dict(label=r.label, status=r.status, detail=r.detail, witness=r.witness, lines=list(r.lines)) for r in d.results])
        except BaseException as e:  # noqa
            out.update(name=getattr(o, "name", "?"), error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        out["wall"] = round(time.time() - t0, 2)

    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(limit)
    if t.is_alive():
        import obligations

        return dict(name=obligations.OBLS[prop][idx].name, timeout=True, wall=limit, results=[])
    return out


def child(conn, job):
    try:
        conn.send(run_one(job))
        conn.close()
    finally:
        os._exit(0)


def run_jobs(ctx, jobs, width=8, grace=20):
    """One process per obligation: one that dies (out of memory) or does not answer leaves its obligation
    undecided and never holds up the others."""
    import obligations
    from multiprocessing.connection import wait

    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    running = {}
    while todo or running:
        while todo and len(running) < width:
            k = todo.pop(0)
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(there, jobs[k]), daemon=True)
            p.start()
            there.close()
            running[here] = (k, p, min(time.time() + jobs[k][5], max(jobs[k][6], time.time() + 5)) + grace)
        for c in wait(list(running), timeout=1):
            k, p, _ = running.pop(c)
            try:
                res[k] = c.recv()
            except (EOFError, OSError):
                pass
            c.close()
            p.join(grace)
        for c, (k, p, end) in list(running.items()):
            if time.time() > end:
                del running[c]
                p.kill()
                p.join(grace)
                c.close()
    for k, r in enumerate(res):
        if not r:
            res[k] = dict(name=obligations.OBLS[jobs[k][0]][jobs[k][1]].name, error="the analysis process ended without an answer", results=[])
    return res


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                head, _, desc = line[6:].partition("::")
                kv = dict(x.split("=", 1) for x in head.split())
                kv["desc"] = desc.strip()
                out.append(kv)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import obligations

    obls = obligations.OBLS.get(a.property)
    if not obls:
        print("no obligations for", a.property)
        return 3
    thorough = a.tier == "thorough"
    samples = 600 if thorough else 100
    limit = 3000 if thorough else 400
    deadline = time.time() + (20000 if thorough else 780)
    chosen = [i for i, o in enumerate(obls) if not a.only or a.only == o.name]
    memory = int(max(3.5, 26 / max(1, min(8, len(chosen)))) * 2**30)
    jobs = [(a.property, i, a.root, samples, seed, limit, deadline, memory) for i in chosen]
    ctx = mp.get_context("fork")
    res = run_jobs(ctx, jobs)
    known = [k for k in known_findings() if k.get("property") == a.property]
    violations, undecided, errors, known_hit = [], [], [], []
    for r in res:
        if r.get("error"):
            errors.append(r)
            undecided.append((r["name"], "", "analysis error: " + r["error"].splitlines()[0]))
            continue
        if r.get("timeout"):
            undecided.append((r["name"], "", "time limit"))
            continue
        for x in r["results"]:
            if x["status"] == "DIFF":
                hit = [k for k in known if k.get("obligation") == r["name"] and k.get("observable") == x["label"]]
                if hit:
                    known_hit.append((r, x, hit[0]))
                else:
                    violations.append((r, x))
            elif x["status"] == "UNKNOWN":
                undecided.append((r["name"], x["label"], x["detail"]))
    for r, x, k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["desc"]))
    for n, l, d in undecided:
        print("undecided: %s %s %s" % (n, l, str(d)[:200]))
    if a.v:
        for r in res:
            print(r["name"], r.get("stats"), r.get("wall"), r.get("notes"))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    vout = []
    for i, (r, x) in enumerate(violations):
        path = os.path.join(rdir, "%s-%d.json" % (a.property, i))
        path_s = r.get("sources", {}).get((r.get("code") or "").split(":")[0], r.get("code") or "")
        rep = dict(property=a.property, obligation=r["name"], function=r.get("code"), reference=r.get("spec"), file=path_s,
                   lines=x["lines"], observable=x["label"], difference=x["detail"], witness=x["witness"],
                   functions_on_path=r.get("functions"))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        vout.append(rep)
        print("%s:%s: %s: observable %s of %s differs from its reference: %s" % (
            path_s, ",".join(map(str, x["lines"][:6])), r["name"], x["label"], r.get("code"), x["detail"]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    ok = [r for r in res if not r.get("error") and not r.get("timeout")]
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) or 0 for r in ok)
    ev = dict(
        property=a.property, tier="thorough" if thorough else "quick", seed=seed, level="other",
        coverage=dict(
            explanation="Static analysis of the current source: every listed function is summarised (with everything it "
            "calls) into a gated value graph over symbolic inputs of any size in its domain; each observable is an obligation, "
            "discharged when its normal form is identical to that of the reference definition ('identical'), and otherwise by "
            "random interpretation of the two terms ('fingerprint'; 'bounded': loops without a closed form, for fixed small "
            "sizes). Queries inspect the syntax tree and the call graph.",
            obligations=tot("obligations"), identical=tot("identical"), fingerprint=tot("fingerprint"),
            bounded=tot("bounded"), undecided=len(undecided), valuations=tot("valuations"),
            functions_analysed=sorted(set(f for r in ok for f in r.get("functions", []))),
            loops_summarised=sum(r.get("loops", 0) or 0 for r in ok),
            per_obligation=[dict(name=r["name"], code=r.get("code"), reference=r.get("spec"), stats=r.get("stats"),
                                 bounded_sizes=r.get("bounded"), wall_s=r.get("wall"), sites=r.get("sites"), notes=r.get("notes")) for r in ok],
            undecided_list=[list(map(str, u)) for u in undecided][:50],
            known_findings=[k["desc"] for _, _, k in known_hit],
        ),
        assumptions=obligations.ASSUMPTIONS.get(a.property, []) + obligations.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    if violations:
        ev["coverage"]["violations_list"] = [dict(obligation=v["obligation"], observable=v["observable"], file=v["file"], lines=v["lines"], difference=v["difference"]) for v in vout]
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for r in errors:
        print("ERROR in obligation %s (undecided): %s" % (r["name"], r["error"]))
    if violations:
        return 1
    print("%s: %d obligations (%d identical, %d by fingerprint, %d bounded, %d undecided), %.1fs" % (
        a.property, tot("obligations"), tot("identical"), tot("fingerprint"), tot("bounded"), len(undecided), time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
