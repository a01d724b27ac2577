"""python3-vt -m pyvc.main FUNCTION... : verify single functions (for development)"""
import sys, time
from .program import Program
from .engine import verify


def show(rep, verbose=True):
    print(f"{rep.status:12} {rep.fn}  obligations={len(rep.obls)} paths={rep.paths} {rep.seconds:.1f}s {rep.error or ''}")
    for o in rep.obls:
        if o.result is None or o.result.status != "proved":
            print("    ", o.kind, o.name, "line", o.line, "->", o.result.status if o.result else None, o.result.detail if o.result else "")
    if verbose and rep.dropped and rep.status != "proved":
        for k, w in rep.dropped.items():
            print("       dropped", k, w)


if __name__ == "__main__":
    sys.path.insert(0, "/verif")
    import contracts
    import os
    prog = Program(os.environ.get("REPO", "/repo"))
    reg = contracts.build()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    v = "-v" in sys.argv
    fns = [f for f in reg.contracts if not args or f in args or any(a.endswith("*") and f.startswith(a[:-1]) for a in args)]
    for f in fns:
        if reg.contracts[f].trusted:
            continue
        show(verify(prog, reg, f, verbose=v, workers=int(os.environ.get('W', '8'))))
