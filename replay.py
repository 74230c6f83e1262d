#!/usr/bin/env python3
"""replay.py FILE: re-execute one recorded scenario and report what happened.
Exit 1 if the recorded violation (class) occurs again, 0 if it does not."""
import json
import os
import sys

if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python") and not os.environ.get("DST_PYTHON_OK"):
    os.environ["DST_PYTHON_OK"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import props, runner  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if a != "--json"]
    as_json = "--json" in sys.argv
    with open(args[0]) as f:
        doc = json.load(f)
    prop = props.PROPS[doc["property"]]
    out = runner.run_forked(prop, doc["scenario"], timeout=120)
    if as_json:
        print(json.dumps({"keys": [k for k, _ in out.viol], "digest": out.digest, "error": out.error, "timeout": out.timeout}))
        return 0
    if out.error:
        print(out.error)
        return 2
    if out.timeout:
        print("wall timeout")
        return 2
    for k, m in out.viol:
        print("%s %s" % (k, m))
    print("digest %s (recorded %s)" % (out.digest, doc.get("digest")))
    if any(k == doc.get("key") for k, _ in out.viol):
        print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(args[0])))
        return 1
    print("recorded violation %r does not occur" % doc.get("key"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
