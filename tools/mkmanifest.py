import json, sys, os
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from plan import PLAN
from notes import TECH, NOTE, NOTAPP
props = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks: instrumentation is applied from outside (compiler flags, symbol redirection, replaced OpenMP runtime)", source_commits=[]),
         checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, technique=TECH[p], level=PLAN[p]["level"], level_note=NOTE.get(p, NOTE["*"])) for p in props if p in PLAN],
         not_applicable=[dict(property=p, reason=NOTAPP.get(p, "check under construction")) for p in props if p not in PLAN])
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
