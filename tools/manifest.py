"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, extra
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC enumerates every state and transition of the TLA+ specification for the listed small programs (3-4 builders, "
        "1-2 caches) and checks the property there; every transition is then replayed, many times along random paths, into "
        "the real library in several builds and flavours, comparing all callbacks, results and observable state; recorded "
        "random executions with up to 20 builders are validated against the same specification. Bounded, not a proof; trusts "
        "the harness' observation through the public interface and TLC.")
NOTES = {
    "C14": "TLC enumerates the doctor's event sequences and renders the records each option set must produce; the real doctors "
           "are driven along every behaviour and their output is parsed back and compared. Bounded event sequences; the "
           "parsers are part of the trusted base.",
    "C18": "TLC enumerates all operation sequences on handles of canned values for each container kind; each transition is "
           "replayed into the real containers. Bounded number of handles; trusts the harness.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN or i in extra.EXTRA:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=plan.TITLE_TECH, level="model_checking", level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the harness (harness/) observes the library through its public interface. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
