"""Known findings: /verif/known_findings.json.

An entry with status "known" names the violation class and the exact inputs it
excuses; status "fixed" entries are documentation and suppress nothing."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def load(pid):
    if not os.path.exists(PATH):
        return []
    with open(PATH) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def match(known, scn, key, msg, prop=None, index=None):
    for f in known:
        if f["status"] != "known" or key not in f["keys"]:
            continue
        if all(t in msg for t in f.get("msg_contains", ())):
            need = f.get("needs")
            if need:
                if scn is None:
                    from . import runner
                    scn = runner.scenario(prop, index[0], index[1], index[2])
                if not NEEDS[need](scn):
                    continue
            return f
    return None


NEEDS = {}
