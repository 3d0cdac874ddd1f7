"""Writes MANIFEST.json (run by hand)."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES={}
exec(open(os.path.join(here,"tools/levels.py")).read())
checks=[]
na=[]
for i in range(1,21):
    p=f"C{i:02d}"
    if os.path.exists(os.path.join(here,"props",p.lower()+".py")):
        tech,note=LEVELS[p]
        checks.append(dict(property=p,quick_cmd=f"python3 check.py {p} --tier quick",
            thorough_cmd=f"python3 check.py {p} --tier thorough",evidence_file=f"evidence/{p}.json",
            technique=tech,level="exploration",level_note=note))
    else:
        na.append(dict(property=p,reason="check under construction"))
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, sympy' && mkdir -p evidence",checks=checks,not_applicable=na,
 notes="Runtime monitors over the unmodified library imported from /repo/src; no hooks in /repo are needed. "
 "Every check is a deterministic function of VERIF_SEED. See DESIGN.md."),open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
