"""merge.py EVIDENCE OTHER LABEL: adds what another run of the check observed."""
import json, sys
path, other, label = sys.argv[1:]
a, b = json.load(open(path)), json.load(open(other))
c, d = a["coverage"], b["coverage"]
c["evaluations"] += d["evaluations"]
c["events"][f"evaluations {label}"] = d["evaluations"]
c["events"][f"distinct non trivial observations {label}"] = d["distinct_nontrivial"]
a["wall_s"] += b["wall_s"]
json.dump(a, open(path, "w"), indent=2)
