#!/usr/bin/env python3
"""Write MANIFEST.json for the properties registered in mc/src/main.rs."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = re.findall(r'\("(C\d\d)", checks::', open(f"{root}/mc/src/main.rs").read())
T = {
 "C01": "exhaustive enumeration of curves x parameters on the real code, lockstep with a blossom reference model",
 "C02": "exhaustive enumeration of curves x orders x parameters on the real code, lockstep with a blossom reference model",
 "C03": "exhaustive exploration of derivative steps on the real code, lockstep with a blossom reference model",
 "C04": "exhaustive enumeration of curves x orders x special floating point parameters with a verdict model",
 "C05": "exhaustive enumeration of knot vectors x functions x parameters against the Cox-de Boor definition",
 "C06": "exhaustive enumeration of curves x spans x metamorphic transitions on the real code",
 "C07": "explicit-state search over insertion sequences of the real code, lockstep with a reference model",
 "C08": "exhaustive enumeration of requests x states with a verdict model and bitwise state comparison",
 "C09": "exhaustive enumeration of split transitions on the real code, lockstep with a reference model",
 "C10": "exhaustive enumeration of reversal transitions on the real code, lockstep with a reference model",
 "C11": "exhaustive enumeration of operand pairs on the real code, lockstep with a reference model",
 "C12": "exhaustive enumeration of operand pairs against an exact least-displacement model",
 "C13": "exhaustive enumeration of operand pairs x constraint subsets against an exact constrained model",
 "C14": "exhaustive enumeration of operand kinds x entry points with a verdict model",
 "C15": "exhaustive enumeration of data sets x requests on the real code",
 "C16": "exhaustive enumeration of data sets x requests against exact optimality conditions",
 "C17": "exhaustive enumeration of data sets x requests against exact optimality conditions",
 "C18": "exhaustive enumeration of generation requests with a verdict model",
 "C19": "exhaustive enumeration of data sets x parametrizations against an exact model",
 "C20": "exhaustive enumeration of generator requests against an exact model",
 "C21": "exhaustive enumeration of construction requests with a verdict model and bitwise comparison",
 "C22": "exhaustive enumeration of knot vectors x orders x lookups with a verdict model",
 "C23": "exhaustive enumeration of knot vectors x queries against an exact model",
 "C24": "explicit-state breadth-first search over mixed operation sequences of the real code, re-anchored lockstep with a reference model",
 "C25": "exhaustive enumeration of query and operation sequences with bitwise state comparison",
 "C26": "explicit-state search over sequences of derive, reverse, edit and clone on the real containers, lockstep with a model",
 "C27": "exhaustive enumeration of operations x transformations (commuting squares) on the real code",
 "C28": "exhaustive enumeration of both execution orders of all pairs of independent operations (diamond property) on the real code",
 "C29": "explicit-state search over operation sequences of the real code on sub-interval and unclamped curves, lockstep with a reference model",
}
checks = [{
 "property": i,
 "quick_cmd": f"./check.sh {i} quick",
 "thorough_cmd": f"./check.sh {i} thorough",
 "technique": "bounded explicit-state model checking of the implementation: " + T[i],
 "level": "model_checking",
 "level_note": "every state and transition within the bounds stated in the evidence file is executed on the real code; nothing is sampled or abstracted",
} for i in ids]
props = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in ids]}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
