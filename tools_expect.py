"""Record what is proved on the unchanged tree (run by hand; the checks only read the file)."""
import json, subprocess, sys
subprocess.run([sys.executable, "-m", "pyvc.driver", "--out", "/tmp/expect.json", "--limit", "900", "--hint", "expected.json"], check=True)
v = json.load(open("/tmp/expect.json"))
json.dump(dict(functions={f: dict(status=r["status"], seconds=r.get("seconds"), obligations=len(r["obligations"]), loops=r.get("loops")) for f, r in sorted(v["functions"].items())},
               lemmas=[l["name"] for l in v["lemmas"]]), open("expected.json", "w"), indent=0)
bad = {f: (r["status"], r.get("error"), [o["name"] for o in r["obligations"] if o["status"] != "proved"]) for f, r in v["functions"].items() if r["status"] != "proved"}
print(len(v["functions"]), "functions", sum(len(r["obligations"]) for r in v["functions"].values()), "obligations;", "not proved:", bad)
