#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current tree.
 stage V  contracts of the functions the property depends on, proved function by function from /repo's source
 stage R  the real code executed on generated inputs against independent oracles (labelled bounded; also replays)
exit 0 held / 1 VIOLATION"""
import json, os, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", REPO=REPO, FORONOI_REPO=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

# what stays outside the contracts, per property (printed into the evidence)
from properties_meta import META, COMMON


def concrete(prop, tier, seed, budget, out, cases=None):
    cmd = [PY, f"{HERE}/concrete/run.py", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out]
    for c in cases or []:
        cmd += ["--case", c]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=ENV, capture_output=True, text=True, timeout=budget * 1.5 + 180)
    except subprocess.TimeoutExpired:
        return None, "the concrete stage did not end in time"
    if p.returncode != 0 or not os.path.exists(out):
        return None, (p.stderr or p.stdout)[-1500:]
    return json.load(open(out)), None


def verifier(prop, limit, out):
    cmd = ["python3-vt", "-m", "pyvc.driver", "--prop", prop, "--out", out, "--limit", str(limit), "--hint", f"{HERE}/expected.json"]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=ENV, capture_output=True, text=True, timeout=limit * 5 + 120)
    except subprocess.TimeoutExpired:
        return None, "the verifier did not end in time"
    if p.returncode != 0 or not os.path.exists(out):
        return None, (p.stderr or p.stdout)[-1500:]
    return json.load(open(out)), None


def replay_file(prop, tag, obj):
    d = f"{HERE}/replays"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}-{tag}.json"
    json.dump(obj, open(p, "w"), indent=1, default=str)
    return p


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier != "thorough"
    tier = "quick" if quick else "thorough"
    t0 = time.time()
    tmp = f"/tmp/foronoi-check-{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    try:
        rc = decide(prop, tier, quick, seed, t0, tmp)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    sys.exit(rc)


def known(prop):
    p = f"{HERE}/known-findings.txt"
    out = []
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith(f"finding: property={prop} "):
            out.append(l.split(" ", 2)[2].strip())
    return out


def decide(prop, tier, quick, seed, t0, tmp):
    exp = json.load(open(f"{HERE}/expected.json")) if os.path.exists(f"{HERE}/expected.json") else {"functions": {}, "lemmas": []}
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    # ---- stage R
    conc, cerr = concrete(prop, tier, seed, 150 if quick else 2400, f"{tmp}/r.json")
    viol = [v for r in (conc or []) for v in r["violations"][:1]]
    if viol:
        v = viol[0]
        p = replay_file(prop, hashlib.md5(json.dumps(v["data"], default=str).encode()).hexdigest()[:8],
                        dict(v, property=prop, replay_cmd=f"{PY} {HERE}/concrete/run.py {prop} --replay <this file>"))
        print(f"{prop} case '{v['case']}': {v['what']}")
        print(f"VIOLATION property={prop} replay={p}")
        evidence(prop, tier, seed, t0, conc, cerr, None, "not run: stage R had found a failing input", [], [], 1, exp)
        return 1
    # ---- stage V
    ver, verr = verifier(prop, 400 if quick else 900, f"{tmp}/v.json")
    failed, undecided = [], []
    if ver is not None:
        for f, r in sorted(ver["functions"].items()):
            e = exp["functions"].get(f)
            if r["status"] == "proved":
                continue
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            hard = [o for o in bad if o["status"] == "refuted"]
            if e is not None and e["status"] == "proved" and r["status"] == "failed" and hard and r.get("loops") == e.get("loops"):
                failed.append((f, hard))
            else:
                undecided.append((f, r["status"] + (": " + r["error"] if r.get("error") else "") + ("; " + "; ".join(o["name"] for o in bad[:4]) if bad else "")))
        for o in ver["lemmas"]:
            if o["status"] != "proved":
                undecided.append((o["name"], o["status"]))
    rc, nviol = 0, 0
    if failed or (undecided and ver is not None and any(exp["functions"].get(f, {}).get("status") == "proved" for f, _ in undecided)):
        # deeper search for an input that shows it on the real code
        deep, v = [], None
        budget = 240 if quick else 900
        t1, k = time.time(), 0
        while time.time() - t1 < budget and v is None and k < (6 if failed else 3):
            k += 1
            conc2, _ = concrete(prop, "quick", seed * 1000 + k, max(20, budget - (time.time() - t1)), f"{tmp}/r{k}.json")
            deep += conc2 or []
            vs = [x for r in (conc2 or []) for x in r["violations"][:1]]
            v = vs[0] if vs else None
        if v is not None:
            p = replay_file(prop, hashlib.md5(json.dumps(v["data"], default=str).encode()).hexdigest()[:8],
                            dict(v, property=prop, failed_obligations=[dict(function=f, obligations=os_) for f, os_ in failed],
                                 replay_cmd=f"{PY} {HERE}/concrete/run.py {prop} --replay <this file>"))
            print(f"{prop} case '{v['case']}': {v['what']}")
            print(f"VIOLATION property={prop} replay={p}")
            rc, nviol = 1, 1
        elif failed:
            for f, os_ in failed:
                for o in os_[:3]:
                    print(f"{prop} failed obligation: {f}: {o['name']} (line {o['line']})")
            p = replay_file(prop, "obligation", dict(property=prop, what="failed obligation, no failing input found",
                                                    failed=[dict(function=f, obligations=os_) for f, os_ in failed],
                                                    verifier_cmd=f"cd {HERE} && python3-vt -m pyvc.main {failed[0][0]}"))
            print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            rc, nviol = 1, 1
        conc = (conc or []) + deep
    for f, why in undecided:
        print(f"{prop} not proved on this tree, covered by the bounded stage only: {f}: {why[:300]}")
    if conc is None:
        print(f"{prop} concrete stage gave no result: {cerr}")
    if ver is None:
        print(f"{prop} verifier gave no result: {verr}")
    evidence(prop, tier, seed, t0, conc, cerr, ver, verr, failed, undecided, nviol, exp)
    if rc == 0:
        print(f"{prop} held: {sum(1 for r in (ver or {'functions': {}})['functions'].values() if r['status'] == 'proved')} functions proved, {len(undecided)} undecided, {sum(r['evaluations'] for r in conc or [])} inputs executed, {time.time() - t0:.0f} s")
    return rc


def evidence(prop, tier, seed, t0, conc, cerr, ver, verr, failed, undecided, nviol, exp):
    m = META[prop]
    fns = (ver or {"functions": {}})["functions"]
    obls = [o for r in fns.values() for o in r["obligations"]] + (ver or {"lemmas": []})["lemmas"]
    done = [o for o in obls if o["status"] == "proved"]
    be = {}
    for o in done:
        be[o["backend"] or "simplifier"] = be.get(o["backend"] or "simplifier", 0) + 1
    proved = sorted(f for f, r in fns.items() if r["status"] == "proved")
    covered = set(fns)
    bounded = sorted({f for r in conc or [] for f in r["functions"] if f not in proved})
    cov = dict(
        explanation=m["explanation"], obligations=len(obls), discharged=len(done),
        checker_cmd=f"python3-vt -m pyvc.driver --prop {prop}",
        trusted_base=COMMON["trusted"] + m.get("trusted", []),
        functions_under_contract={f: dict(obligations=len(fns[f]["obligations"]), paths=fns[f].get("paths"), seconds=fns[f].get("seconds"), inlined=fns[f].get("inlined", [])) for f in proved},
        not_proved=[dict(function=f, why=w) for f, w in undecided] + [dict(function=f, failed=[o["name"] for o in os_]) for f, os_ in failed],
        discharged_by=be, solver_seconds=round(sum(sum((r.get("solver_seconds") or {}).values()) for r in fns.values()), 1),
        verifier_wall_s=(ver or {}).get("seconds"), lemmas=[o["name"] for o in (ver or {"lemmas": []})["lemmas"]],
        bounded_only_functions=bounded, bounded_stage_note="functions and clauses listed here were executed on generated inputs only; they are never counted as proved",
        bounded_clauses=m.get("bounded", []),
        evaluations=sum(r["evaluations"] for r in conc or []), distinct_nontrivial=sum(r["distinct_nontrivial"] for r in conc or []),
        rule="; ".join(dict.fromkeys(f"{r['case']}: {r['rule']}" for r in conc or [])), samples=[dict(case=r["case"], data=s) for r in conc or [] for s in r["samples"][:1]][:6])
    if cerr:
        cov["concrete_stage_error"] = cerr
    if verr:
        cov["verifier_note"] = verr
    ev = dict(property=prop, tier=tier, seed=seed, level=m["level"], coverage=cov, assumptions=COMMON["assumptions"] + m.get("assumptions", []) + (ver or {}).get("assumptions", []) + (ver or {}).get("trusted", []),
              wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
