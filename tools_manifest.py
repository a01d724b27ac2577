"""Write MANIFEST.json from properties_meta.py."""
import json
from properties_meta import META, NOT_APPLICABLE, TECH
checks = []
for k, m in META.items():
    note = "Proved for all inputs: the contracts listed in the evidence (functions_under_contract), machine arithmetic treated as exact." if m["level"] == "proof" else \
        "Proved for all inputs: the contracts of the functions listed in the evidence (functions_under_contract). " + ("create_diagram is proved in the thorough check (and in the quick checks of C07 and C08). " if k in ("C09", "C10", "C13") else "handle_circle_event is proved in the thorough check (and in the quick checks of C05 and C08). " if k == "C03" else "") + "Bounded, not proved: " + "; ".join(m["bounded"]) + "."
    checks.append(dict(property=k, quick_cmd=f"python3-vt check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {k}",
                       technique=TECH + ("" if m["level"] == "proof" else "; bounded execution against an oracle for the clauses not proved"), level=m["level"], level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in NOT_APPLICABLE.items()]), open("MANIFEST.json", "w"), indent=1)
