"""Writes DESIGN.md: hand-written text below, the rules' own descriptions, the findings and the planted bugs."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

HEAD = """# Design: static analysis of avjewe/cdx

This file is written by `tools/mkdesign.py` (the rule descriptions are the docstrings of the rules themselves).

## How a check decides

Every check looks only at the program text, as the compiler understands it; nothing of cdx is ever run.

1. `driver/` is a small `rustc_private` program that `setup.sh` builds and that is put in front of the compiler
   (RUSTC_WORKSPACE_WRAPPER) under `cargo +nightly check --offline` of /repo's working tree, with its own target directory under
   /verif/build. It writes, for the library and the binary crate, every function body as MIR (CFG, resolved callees, constants,
   places with field names, promoted constants), every type, every trait impl. `analysis/facts.py` redoes this whenever the
   content of /repo's sources, manifests or the driver changes (content hash), so every run sees the current tree.
2. `analysis/ir.py`, `absint.py`, `models.py`, `terms.py`, `rel.py`: an abstract interpreter over that MIR. Values are constants,
   enum values with known variant, references into an abstract store, intervals, lists of known length, iterators, closures, or
   named opaque terms; branches on unknown terms fork and record the assumption; loops end by merging equal (or widened) states.
   Crate functions are entered; standard-library calls have transfer functions; anything else is opaque and clobbers what it may
   write. Nothing is handed to a solver.
3. `analysis/world.py`, `toolruns.py`: for whole tools the outside world is abstract too: input files are `F0, F1, ...` with -1 (no
   bytes), 0, 1, 2.. abstract records `rec:F0:1`, outputs are tokens, comparators / matchers / aggregators are opaque rules whose verdicts
   fork, and every event (open, header read, record passed, split, lookup, write, flush, verdict, error) is logged on the path. A tool is
   interpreted for every option its own declaration table advertises (read out of the program), alone and in combinations, and
   the rule of the property judges the event sequence of every path. `faults.py` adds a failing operation at every fallible event.
4. Each rule in `analysis/checks/cNN.py` enumerates its obligations from the program (all impls of a trait, all tools x
   options, all call sites of a kind), and either discharges each one or reports the construct (file:line, function, path trace).

A rule that cannot decide an obligation (state limit, construct it has no model for, an anchor that no longer exists) says so in the
evidence (`undecided`) and stays quiet: the check exits 1 only for a violation shown by a path through the code. That is the side
on which the analysis is unsound (it can miss), never the other one by intent: over-approximated paths are only
judged where the rule's facts are exact (e.g. rows with text that is not followed are skipped).

`./check.sh <ID> [quick|thorough]` runs one property and writes evidence/<ID>.json. thorough raises step limits, list lengths and
option combinations of the same rules.

What the tests cannot reach and this does: every error edge of every fallible call, every option of every tool with every shape of
files (empty, header only, one, two records; first, middle, last file), every kind of comparator / matcher / aggregator
through every route (direct, cached, reversed, negated, nested, second file), every quantifier and count.

## Properties, rules and bounds

"""

NOTES = {
 "C01": "Bounds: files of at most two records, every advertised option (and the listed pairs). /dev/full style failures are the fault injected at every write and flush event. Not followed: standard output through println! in help texts.",
 "C02": "Every fallible call site of the crate; a `match` that deliberately interprets the specification another way is recognised by its error edge leading to another attempt. Errors inside std (e.g. BufWriter drop) belong to C01.",
 "C03": "All error kinds (io kinds enumerated from the compiler's type) x the top-level driver; tool dispatch over all names and near-misses.",
 "C04": "Every declared option of every tool (from the ArgSpec tables) is dispatched with every documented value; an option that is accepted but has no effect is seen by comparing the tool's abstract behaviour with and without it.",
 "C05": "Abstract files of -1..2 (3 in places) records, up to three files.",
 "C06": "Lookup-before-use over all tools and options, delegation over all composite rules. Which column a name resolves to inside ColumnSet is outside.",
 "C07": "All comparator kinds x routes x reversal; orderings are the three values, so no bound.",
 "C08": "Keys and values are abstract; NaN, -0, trailing NUL, length and case folding are separate classes. Not covered: numeric parsing of odd texts.",
 "C09": "All Agg / LineAgg impls: fields written by add vs. reset vs. the constructor, symbolically, so unbounded in what was added.",
 "C10": "Abstract files as in C05, verdicts fork at every record.",
 "C11": "Order of equal and different records is abstract; runs of up to 4 records, 3 files, 3 temp runs. That sort_by sorts is assumed of std.",
 "C12": "Key orders of up to 3 x 3 records, all outcomes of comparisons that are consistent with a total preorder.",
 "C13": "Full product of header modes x header presence x file position.",
 "C14": "Complete tables: six operators, three orderings, all spellings; the range patterns are read from the program and matched against all spellings.",
 "C15": "All calls with file-system effects in both crates; open modes from constants reaching the builder.",
 "C16": "Byte classes are derived from the code (every byte constant either side compares with, delimiter, line break, any other byte), so only the length is bounded: columns up to 2 bytes over all classes and up to 4 over the special ones (quick), 3 and 5 (thorough), alone and in pairs and triples. Delimiters tab, comma, carriage return and space. Line break is newline (the tools always end records with it; other line breaks are half-supported upstream and outside the property).",
 "C17": "Lists up to 3 members, all verdicts, all modifiers, all routes.",
 "C18": "Two-column abstract files, every option and the combinations in EXTRA; lists of 0..3 rules, any of which may select no column. Whole records copied between different input and output formats are outside (the tools do not convert them).",
 "C19": "Yes/no counts up to 6 columns, all quantifiers and counts; monotonic beyond by the shape of the comparisons.",
 "C20": "All equality patterns of up to 4 records x all modes.",
 "C21": "The registries are interpreted from their init functions, so the tables are exact; requests by every listed name, alias, other-case and unknown name.",
 "C23": "The registry is interpreted from its init function (as in C21), a request is interpreted through the registered constructor to the matcher object, and the object's match on a target to a verdict, which is compared with an independent description of the method. Bounds: patterns of up to 3 (glob) or 2 and targets of up to 4 letters over alphabets that distinguish case, wildcards and multi-byte characters (final sigma, Kelvin sign, sharp s, dotted I), all modifier combinations. A fixed-alphabet argument: the code compares characters only for equality, case and the wildcards. Trusted: case tables, str and slice searches, the regex crate. Not covered: regex and range methods (C07 covers comparisons).",
 "C25": "The bounds and the whole tool (memory map, header, context, output) are interpreted over file shapes with the comparison answered by the place of the value in the order; every comparison must be with a whole record, every search must end, and positions and output are compared with a linear scan. Bounds: up to 4 lines of all small lengths, some shapes of up to 9 lines; a linear fragment of byte offsets that repeats beyond. Not covered: the comparison itself (C07, C08), mapping errors.",
 "C26": "Expressions are interpreted from their text to a term over unknown columns (tokens, reverse Polish form, constant folding and evaluation included) and the term is compared, under what each path knows of the order of the unknowns, with the value of an independent reference grammar; only identities of IEEE arithmetic are used. Bounds: all expressions of up to two binary operators and all triples of seven representative ones (all twelve in thorough), with signs, factorials, parentheses, calls and folded constants in every position. Not covered: NaN, reading of numbers, column sets in brackets, what std and libm functions compute.",
 "C22": "All LineCompare impls and composites, all tools and options.",
}

TAIL = """
## Not applicable

%(na)s

## Defects found and repaired in /repo

Each is one `fix:` commit; the checks report the violation again if it returns. No known finding is left unrepaired.

%(fixed)s

## False alarms met on the way, and what was done

- Tables (C18): records written by one `write_all` of a buffer (cat's fast path), header lines copied as text and unfinished
  pieces of output are not judged as rows; fields that are not separated count as one column.
- Rules that compared spellings of code (early C02, C06, C12) were replaced by judging events on paths, so that extracting a
  helper, reordering statements, rewriting loops as iterator chains or adding statements leaves them quiet.
- Text comparison against records (uniq's chomp) assumes that a record that was read ends in a line break; paths that assume
  otherwise are dropped as infeasible.
- C21 first demanded that aliases resolve through the same function; it now asks what a request yields.

## Planted bugs (seeded/)

Each was written from the property text and the code, confirmed to build, to pass the stable tests and to be shown by its demo, and then
run against the check of its property.

| planted bug | property | caught | what it breaks |
|---|---|---|---|
%(seeds)s



## Limits

- Suspected defects outside the claimed statements, not repaired: registries are not initialised atomically across threads; an unknown modifier
  before the last name of a specification is ignored; merge of temporary runs treats a first line starting with " CDX" as header;
  glob `a*b` against `axb`; amean prints the sum; `max` has no empty state; counted determiners such as `[atleast,2,a-c]` do
  not parse; `wc -C` aborts on records with more columns than the header; `tabs` aborts on several files; join reads its files with
  the default text format.
- Whole-tool rules see tools only through abstract files of a few records; a bug that needs, say, the 1000th record and depends
  on the count itself (not on first / middle / last) is out of reach, except where the counter is followed symbolically.
- Numeric conversions of counts (`as u16`) in formatted output are followed only in C20's rule for counts.
"""


def main():
    props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    man = json.load(open(V + "/MANIFEST.json"))
    out = [HEAD]
    for pid in sorted(props):
        f = "%s/analysis/checks/%s.py" % (V, pid.lower())
        if not os.path.exists(f):
            continue
        m = importlib.import_module("analysis.checks." + pid.lower())
        out.append("### %s: %s\n\n%s\n\n" % (pid, props[pid]["title"], props[pid]["statement"]))
        for r in m.RULES:
            out.append("- `%s`: %s\n" % (r.__name__, " ".join((r.__doc__ or "").split())))
        out.append("\n%s\n\n" % NOTES.get(pid, ""))
    na = "\n".join("- %s (%s): %s" % (x["property"], props[x["property"]]["title"], x["reason"]) for x in man["not_applicable"])
    fixed = "\n".join("- " + l[7:].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:"))
    res = {}
    if os.path.exists(V + "/tools/seed_results.txt"):
        for l in open(V + "/tools/seed_results.txt"):
            if l.strip():
                a, b = l.split()[:2]
                res[a] = b
    seeds = []
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        s = os.path.basename(os.path.dirname(d))
        j = json.load(open(d))
        seeds.append("| %s | %s | %s | %s |" % (s, j["property"], res.get(s, "?"), re.sub(r"\|", "/", j["what_it_breaks"])))
    out.append(TAIL % {"na": na, "fixed": fixed, "seeds": "\n".join(seeds)})
    open(V + "/DESIGN.md", "w").write("".join(out))


main()
