"""stats.py ID...: the class counts in the evidence files (for development)."""
import json, sys, os
for pid in sys.argv[1:]:
    d = json.load(open(os.path.join(os.path.dirname(__file__), "..", "evidence", pid + ".json")))
    print(pid, d["tier"], d["wall_s"])
    for k, v in d["coverage"]["by_sub"].items():
        print("  ", k, v["evaluations"], v["distinct_nontrivial"], v["wall_s"], v["labels"])
