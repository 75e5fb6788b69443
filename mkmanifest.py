"""Writes MANIFEST.json from the checks present (run by hand)."""
import json, os, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "checks", "C*.py"))}
notes = json.load(open(os.path.join(HERE, "levels.json")))
doc = {
    "version": 1,
    "setup_cmd": "python3-vt vlib/build.py --harness",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"python3-vt check.py {i}",
            "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
            "technique": notes[i][0],
            "level": "exploration",
            "level_note": notes[i][1],
        }
        for i in ids if i in have
    ],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
    "notes": "No hooks in /repo: the random generator is made seedable by building against a patched copy of the cached rand crate.",
}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
