"""Verify the functions a property depends on, one process per function, and write the outcome as JSON.
   python3-vt -m pyvc.driver --prop C16 --out f.json [--limit 120] [--jobs 8]"""
import argparse, ast, json, os, sys, time, hashlib, signal, resource
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)


# proved again in the quick checks of other properties (create_diagram: C07, C08; circle events: C05, C07, C08): here in the thorough check only
THOROUGH = {("C09", "Algorithm.create_diagram"), ("C10", "Algorithm.create_diagram"), ("C13", "Algorithm.create_diagram"), ("C03", "Algorithm.handle_circle_event")}


def load():
    import contracts
    from pyvc.program import Program
    return Program(os.environ.get("REPO", "/repo")), contracts.build()


def loops_of(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.For):
            out.append("for " + ast.unparse(n.target) + " in " + ast.unparse(n.iter))
        elif isinstance(n, ast.While):
            out.append("while " + ast.unparse(n.test))
    return out


def job(prog, reg, fn, limit, q, workers=1, sem=None):
    import z3
    from pyvc.engine import verify
    from pyvc import solve
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    c = reg.contracts[fn]
    rec = dict(fn=fn, status="error", obligations=[])
    try:
        rep = verify(prog, reg, fn, max_seconds=limit, workers=workers, sem=sem)
        fi = prog.funcs.get(fn)
        rec.update(status=rep.status, error=rep.error, paths=rep.paths, seconds=round(rep.seconds, 2), callees=sorted(map(str, rep.callees)),
                   inlined=sorted(map(str, rep.inlined)), exts=sorted(map(str, rep.exts)), dropped=rep.dropped)
        inl = [prog.funcs[f] for f in rec["inlined"] if f in prog.funcs]
        rec["loops"] = [loops_of(f.node) for f in ([fi] if fi else []) + inl]
        for o in rep.obls:
            r = o.result
            d = dict(name=o.name, kind=o.kind, line=o.line, status=r.status if r else "not reached", backend=r.backend if r else None, seconds=round(r.seconds, 3) if r else 0)
            if r is not None and r.status != "proved":
                d["detail"] = str(r.detail)[:300]
                d["goal"] = str(o.goal)[:1500]
                if r.model is not None:
                    d["model"] = str(r.model)[:3000]
            rec["obligations"].append(d)
        rec["solver_seconds"] = {k: round(v, 2) for k, v in solve.TIME.items()}
    except BaseException as e:
        rec.update(status="unsupported", error=f"{type(e).__name__}: {e}"[:300])
    q.put(rec)


def scope(prog, reg, prop):
    """functions whose contract serves the property"""
    slow = THOROUGH if os.environ.get("VERIF_TIER", "quick") != "thorough" else ()
    return [f for f, c in reg.contracts.items() if prop in c.props and not c.trusted and (prop, f) not in slow]


def run_all(prog, reg, fns, limit, jobs, hint=None):
    """-> {fn: record}; follows the contracts the functions rely on"""
    hint = hint or {}
    sem = mp.get_context("fork").Semaphore(jobs)
    ctx = mp.get_context("fork")
    todo = sorted(fns, key=lambda f: -hint.get(f, 1))
    seen, out, live = set(todo), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            f = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=job, args=(prog, reg, f, limit, q, max(1, min(8, int(hint.get(f, 1) / 8))), sem))
            p.start()
            live[f] = (p, q, time.time())
        time.sleep(.02)
        for f, (p, q, t) in list(live.items()):
            rec = None
            if not q.empty():
                rec = q.get()
                p.join(5)
            elif not p.is_alive():
                rec = q.get() if not q.empty() else dict(fn=f, status="error", error=f"verifier process ended with code {p.exitcode}", obligations=[])
            elif time.time() - t > limit * 1.5 + 20:
                p.kill()
                rec = dict(fn=f, status="timeout", error=f"no answer in {limit} s", obligations=[])
            if rec is None:
                continue
            if p.is_alive():
                p.kill()
            del live[f]
            out[f] = rec
            for g in rec.get("callees", []):
                if g in reg.contracts and not reg.contracts[g].trusted and g not in seen:
                    seen.add(g)
                    todo.append(g)
            todo.sort(key=lambda f: -hint.get(f, 1))
    return out


def run_lemmas(reg, prop):
    from pyvc.solve import prove
    res = []
    for name, props, mk in reg.lemmas:
        if prop is not None and prop not in props:
            continue
        for nm, facts, goal in mk():
            t = time.time()
            r = prove(facts, goal, 2)
            res.append(dict(name=f"lemma {name}: {nm}", kind="lemma", line=None, status=r.status, backend=r.backend, seconds=round(time.time() - t, 3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=120)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--hint")
    a = ap.parse_args()
    prog, reg = load()
    hint = json.load(open(a.hint)) if a.hint and os.path.exists(a.hint) else {}
    fns = scope(prog, reg, a.prop) if a.prop else [f for f, c in reg.contracts.items() if not c.trusted]
    t0 = time.time()
    out = run_all(prog, reg, fns, a.limit, a.jobs, {k: v.get("seconds", 1) for k, v in hint.get("functions", {}).items()})
    res = dict(functions=out, lemmas=run_lemmas(reg, a.prop), seconds=round(time.time() - t0, 1), direct=fns,
               trusted=[f"{f}: {c.note}" for f, c in reg.contracts.items() if c.trusted], assumptions=reg.assumptions)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        for f, r in sorted(out.items()):
            print(r["status"], f, len(r["obligations"]), r.get("seconds"), r.get("error") or "")


if __name__ == "__main__":
    main()
