"""upg.py PID 'level note': mark a property as proved in checks.json"""
import json, sys
c = json.load(open("/verif/checks.json"))
c[sys.argv[1]].update(technique=c["C13"]["technique"], level="proof", level_note=sys.argv[2], prove=True)
json.dump(c, open("/verif/checks.json", "w"), indent=1)
