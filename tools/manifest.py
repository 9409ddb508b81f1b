import json,sys
sys.path.insert(0,"/verif/lib"); sys.dont_write_bytecode=True
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
from registry import PROPS
NOTE={}
checks=[]
for p in props:
    if p["id"] not in PROPS: continue
    o=PROPS[p["id"]]
    checks.append({"property":p["id"],"quick_cmd":f"python3 check.py {p['id']} quick","thorough_cmd":f"python3 check.py {p['id']} thorough",
      "technique":getattr(o,"technique","TLA+ specification; TLC trace validation of exhaustive message trees and random histories played on the real code"),
      "level":"model_checking",
      "level_note":getattr(o,"level_note","Every recorded call of the real client must be a step of the deterministic TLA+ specification with all property invariants true: complete for every message word of the trees up to their depth, sampled (seeded) beyond. Trusts TLC, the IEEE double overrides and the drivers; tolerances in DESIGN.md.")})
na=[{"property":p["id"],"reason":"no check built yet"} for p in props if p["id"] not in PROPS]
json.dump({"version":1,"setup_cmd":"python3 check.py --setup","checks":checks,"not_applicable":na,
  "notes":"No hooks: the checks drive the public interfaces only. Repairs of defects are listed in known-findings.txt."},open("/verif/MANIFEST.json","w"),indent=1)
