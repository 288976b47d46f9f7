"""Writes MANIFEST.json from the registry and the property list."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from analysis.props import REGISTRY, TECH, NOTES

NA = json.load(open(os.path.join(HERE, "spec", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="bash setup.sh",
    checks=[
        dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} thorough", technique=TECH[p["id"]], level="other", level_note=NOTES[p["id"]])
        for p in props
        if p["id"] in REGISTRY
    ],
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], NA["default"])) for p in props if p["id"] not in REGISTRY],
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
