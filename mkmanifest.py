import json, propinfo
TECH="contracts on functions extracted from /repo, discharged by Verus; bounded replay of the real code"
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],notes="check.py rebuilds everything from /repo's working tree; see DESIGN.md")
for p,i in propinfo.PROPS.items():
    m["checks"].append(dict(property=p,quick_cmd=f"python3 check.py {p}",thorough_cmd=f"env VERIF_TIER=thorough python3 check.py {p}",technique=i.get("technique",TECH),level=i["level"],level_note=i.get("level_note","bounded replay")))
json.dump(m,open("MANIFEST.json","w"),indent=1)
