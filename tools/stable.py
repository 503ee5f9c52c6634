"""stable.py RESULTS.json LABEL: which stable tests did not pass."""
import json, sys

res = json.load(open(sys.argv[1]))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
passed = set(res.get("passed", res if isinstance(res, list) else []))
bad = [t for t in stable if t not in passed]
print(sys.argv[2], "stable tests not passing:", len(bad), bad[:4])
