"""Write baseline.json from a report of the extractor on the unchanged tree: mkbaseline.py report.json"""
import json, sys
r = json.load(open(sys.argv[1]))
json.dump({f["key"]: {"loops": f["loops"], "closures": f["closures"], "shape": f["shape"]} for f in r["functions"]}, open("baseline.json", "w"), indent=0, sort_keys=True)
