"""Writes MANIFEST.json: a property is claimed when analysis/checks/<id>.py exists."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "typestate dataflow on output writers over MIR (dirty writer must be flushed, flush result propagated)",
 "C02": "def-use and path analysis of every fallible call over MIR",
 "C03": "abstract interpretation of the process entry over the finite set of error kinds",
 "C04": "declared option tables vs. dispatch comparisons, abstract interpretation of the dispatch over MIR",
 "C05": "path-sensitive typestate of readers in file and record loops over MIR",
 "C06": "lookup-before-use typestate and delegation completeness over MIR",
 "C07": "abstract interpretation over {Less,Equal,Greater} x {reversed} of every comparison route",
 "C10": "abstract interpretation with a failure monitor over MIR",
 "C11": "typestate monitor on readers and written records in sort and merge",
 "C12": "typestate monitor on the two readers of the join",
 "C13": "abstract interpretation over the finite table mode x header presence x position x agreement",
 "C14": "abstract interpretation over the finite table operator x ordering",
 "C16": "abstract interpretation of the format writer and reader over byte classes derived from the code (writer o reader = identity); effect rule: contents leave only through the writer",
 "C17": "abstract interpretation over booleans of pattern lists, negation and verbose forms",
 "C18": "abstract interpretation of every tool x option over MIR, following header names and written columns; sibling agreement of add_names / write / is_empty; delimiter automaton of rule lists",
 "C19": "abstract interpretation to predicate formulas, decided over small models",
 "C20": "typestate monitor on groups of records",
 "C21": "registry tables read from the type-checked program, abstract interpretation of the factories",
 "C08": "relational abstract interpretation of every comparison method over MIR (equality, order, stored and cached forms)",
 "C09": "abstract interpretation of add, result, reset and constructors (state leaves compared), of aggregator lists with unknown members, and of the aggregating tools over an abstract record world",
 "C15": "file-effect analysis: open modes, provenance of names, and lifetime of temporary directories over MIR",
 "C23": "abstract interpretation of the making and the use of every matcher over enumerated small patterns and targets, compared with an independent description",
 "C25": "abstract interpretation of the bisection and of the tool over enumerated file shapes, for every place of the value sought in the order",
 "C26": "abstract interpretation of expressions from text to value over unknown columns, terms compared with a reference grammar",
 "C22": "dependence of the split decision on every column consumer over MIR",
}
NOTE = ("Every obligation is decided from the compiler's MIR of the current tree for all inputs within the rule's abstraction; "
        "constructs outside the abstraction are reported as undecided in the evidence and raise no alarm. "
        "Trusted: rustc's MIR, the models of std functions in analysis/models.py, the rule's reading of the property (DESIGN.md).")
NA = {
 "C24": "total-preorder and sortedness quantify over numeric/text values and the heap/sort algorithms' data-dependent permutations; only the reversal, equality and loss parts are structural, and those are C07, C08 and C11",
 "C27": "evenness is a statement about probabilities of a random process; no static rule in reach bounds it",
}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(R, "analysis/checks/%s.py" % p.lower())):
        checks.append({"property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + TECH[p], "level": "other", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "machinery not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", [c["property"] for c in checks])
