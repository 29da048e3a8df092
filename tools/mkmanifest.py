#!/usr/bin/env python3
import sys, os, json
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = getattr(props, 'NOT_APPLICABLE', {})
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "hooks": {"guard": "", "enable": "", "source_commits": []},
 "checks": [{"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i, "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
   "technique": props.PROPS[i]['technique'], "level": props.PROPS[i].get('level', 'other'), "level_note": props.PROPS[i]['explanation'], "evidence_file": "/verif/evidence/%s.json" % i} for i in ids if i in props.PROPS],
 "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in props.PROPS],
 "notes": "Every check analyses /repo's current sources statically (abstract interpretation of LLVM IR, compiler-decided witnesses); nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
