"""Single source of the listed properties and of how each is checked.

tools/gen.py writes properties.jsonl and MANIFEST.json from this table;
tools/run_check.py reads the build recipe of each check from it.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
CHECKS = {}


def prop(pid, title, statement, over, quant, why, files, mechanism, harness, technique, note, observe=None, state=None, **build):
    assert pid not in CHECKS and len(title) <= 80, (pid, len(title))
    p = {"id": pid, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(quant.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    CHECKS[pid] = dict(build, property=p, harness=harness, technique=" ".join(technique.split()), note=" ".join(note.split()))


from props import define  # noqa: E402
define(prop, WRAP)
