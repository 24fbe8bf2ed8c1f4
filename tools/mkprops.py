#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code only so that it stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qt, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})

p("C01", "Output that could not be written is never reported as success",
  "Every tool that produces output ends with failure whenever any part of that output could not be delivered, including output still buffered when the work is finished. A tool (or library routine that owns an output file) therefore reports success only after everything written to each of its outputs has been flushed and the flush succeeded.",
  ["fault_sequences", "inputs"], "every write or flush failure (full disk, closed descriptor) at any point, for every tool and every output size",
  "No test runs with a failing output; small outputs only fail at the final flush, which the tests never observe.",
  ["src/util.rs", "src/sort.rs", "src/join.rs", "src/transpose.rs", "src/bin/cdx"],
  [("buffered output wrapper", "src/util.rs Outfile/get_writer"), ("final flush in each tool", "src/bin/cdx/*_main.rs"), ("temporary run files", "src/sort.rs write_tmp")],
  observe=["exit status of every tool with stdout on a full device"])
p("C02", "No error is silently discarded",
  "Whenever opening, reading, writing, parsing a specification or resolving a column fails, that failure reaches the caller as an error and the tool stops with a failure status; no part of the program drops an error and carries on as if the operation had succeeded. The only errors that may be absorbed are failed alternatives of a specification that is then interpreted another way.",
  ["fault_sequences", "inputs"], "every fallible operation in the library and the tools, whatever error it yields",
  "Tests only exercise a few error texts; a dropped error shows only when that particular call fails.",
  ["src", "src/bin/cdx"],
  [("error propagation with ?", "all fallible functions"), ("must-use results", "src/util.rs Result")])
p("C03", "Exit status reflects the outcome",
  "The process exits with status zero exactly when the selected tool finished successfully or its failure is one of the deliberately quiet kinds (downstream closed the pipe, or nothing was wrong); every other failure gives a non-zero status, and a message on standard error unless the tool has already reported it itself. Asking for an unknown tool is a failure.",
  ["inputs", "fault_sequences"], "every tool, every kind of error it can return",
  "Tests sample a handful of failing commands; the classification of all error kinds is not enumerated anywhere.",
  ["src/bin/cdx/main.rs", "src/util.rs"],
  [("top-level error handling", "src/bin/cdx/main.rs main"), ("error classification", "src/util.rs suppress/silent")])
p("C04", "Every advertised option works",
  "Every option a tool lists in its help is acted on by that tool: giving it (with any of its advertised values) never hits an internal cannot-happen abort, and no handler waits for an option that cannot be given. Every advertised choice of a multiple-choice option is recognised.",
  ["configurations"], "every tool, every declared option (short, long, global) and every declared choice value",
  "The test files use a fraction of the options; an option whose handler is missing or misspelt is only seen when that option is used.",
  ["src/bin/cdx", "src/bin/cdx/globals.rs", "src/bin/cdx/args.rs"],
  [("option tables", "const A in each *_main.rs and globals.rs"), ("option dispatch loops", "for x in args in each *_main.rs")])
p("C05", "Every record of every named input is processed",
  "A tool that succeeds has looked at every input file named on its command line and at every record of each, in order: an empty or header-only file never ends the run early, and no record (first, last or in between) is skipped. A tool stops reading early only when it has an explicit limit or has already found the outcome to be failure.",
  ["inputs", "configurations"], "every number and mixture of input files (empty, header-only, headerless) and every number of records",
  "Tests use one or two well-populated files; which file is empty and where it stands in the list is never enumerated.",
  ["src/bin/cdx", "src/sort.rs", "src/join.rs", "src/util.rs"],
  [("file loops", "src/bin/cdx/*_main.rs"), ("record loops on getline/is_done", "src/util.rs Reader")])
p("C06", "Column names are resolved against each file before its data is used",
  "Whatever a tool does per record with named columns (selecting, matching, comparing, aggregating) is first resolved against the header of the very file the record comes from, in every mode of every tool; composite rules resolve every column they contain. Naming a column that does not exist is therefore always an error rather than silently using some other column.",
  ["inputs", "configurations"], "every tool mode and every composition of column-based rules",
  "Tests mostly use column numbers or one mode; an unresolved name silently means column 1.",
  ["src/comp.rs", "src/matcher.rs", "src/agg.rs", "src/column.rs", "src/expr.rs", "src/sort.rs", "src/join.rs", "src/bin/cdx"],
  [("lookup on each rule kind", "impl LineCompare/LineMatch/ColumnFun/LineAgg ... lookup"), ("lookup calls in tools", "src/bin/cdx/*_main.rs")])
p("C07", "Reversing a comparison gives exactly the opposite order",
  "A comparison rule marked as reversed yields exactly the opposite ordering of the same rule unreversed, on every route by which two records can be compared (whole lines, columns, against a fixed value, cached keys), and the reversal is applied exactly once. A rule list decides by its first rule that does not report equality.",
  ["inputs", "configurations"], "all pairs of records, all comparison rules, all comparison entry points",
  "Tests sort small inputs where the cached key always decides or ties never matter.",
  ["src/comp.rs"],
  [("reversal", "src/comp.rs LineComp"), ("rule list", "src/comp.rs LineCompList, CompList")])
p("C08", "Equality and ordering of a comparison agree",
  "For every comparison method, two values are reported equal by the equality test exactly when the ordering test reports them as neither less nor greater, and the stored-value form of each test agrees with the two-value form with the operands in the same order. Comparing by cached key first never contradicts comparing the values themselves.",
  ["inputs"], "all pairs of values, for every comparison method and both the two-value and stored-value forms",
  "Unit tests compare a few literals per method and never cross-check the sibling forms.",
  ["src/comp.rs"],
  [("comparison methods", "src/comp.rs impl Compare for ..."), ("cached items", "src/comp.rs Item, comp_items")])
p("C09", "Aggregators forget everything between groups",
  "Resetting an aggregator restores exactly the state it had when it was created, whatever was added before; adding a record to, resetting, or reporting from a list of aggregators reaches every member. A group's aggregate therefore depends only on that group's records.",
  ["histories"], "all sequences of add, report and reset on every aggregator and aggregator list",
  "Tests aggregate one or two groups with values where leftovers do not show.",
  ["src/agg.rs"],
  [("per-aggregator reset", "src/agg.rs impl Agg ... reset"), ("lists", "src/agg.rs AggList, LineAggList")])
p("C10", "A detected check failure always gives a failing exit status",
  "When a checking run (verification of column counts, patterns, first/last line or sortedness, and sort's check mode) finds a record that fails any requested check, in any position including the first and last record, the run ends with a failure status. When no requested check fails, it ends with success.",
  ["inputs"], "every position of the failing record in every file, and every combination of requested checks",
  "Tests put failures in the middle of the file; the last record and later files are not covered.",
  ["src/bin/cdx/verify_main.rs", "src/bin/cdx/sort_main.rs", "src/comp.rs"],
  [("verification loop", "src/bin/cdx/verify_main.rs main"), ("check mode", "src/bin/cdx/sort_main.rs main"), ("adjacent-line check", "src/comp.rs comp_check")])
p("C11", "Sorting and merging neither lose nor invent records",
  "Sorting or merging writes each input record exactly once; only when unique output is requested may a record be dropped, and then only one that compares equal to the record written just before it. This holds however many inputs or temporary runs there are and whichever merge strategy is selected.",
  ["inputs", "configurations"], "every number of inputs and temporary runs (including none and one), every merge strategy, unique or not",
  "Test inputs fit in one memory run, so multi-run merging and the alternative strategies are hardly executed.",
  ["src/sort.rs"],
  [("merge strategies", "src/sort.rs merge_t1, merge_t2"), ("run writing", "src/sort.rs Sorter")])
p("C12", "Joining classifies every record exactly once",
  "When two sorted inputs are joined, every record of either input ends up in the joined output or, if it has no partner, in the unmatched output of its own input when one was requested; no record is skipped and none is sent to the other input's unmatched output. Files that cannot take part in the join are rejected rather than ignored.",
  ["inputs"], "all interleavings of matching and non-matching keys in the two inputs, and all requested unmatched outputs",
  "Tests join two small files with few key patterns.",
  ["src/join.rs", "src/bin/cdx/join_main.rs"],
  [("merge join", "src/join.rs join_quick")])
p("C13", "Header policy is decided by mode, header presence and position only",
  "For each header-matching mode, whether a file's header is written, dropped, or rejected depends only on the mode, whether this is the first file, whether this and the first file have a header, and whether the headers agree, exactly as documented for that mode. In particular only the first file's header is ever written.",
  ["configurations", "inputs"], "all modes times all combinations of first/later file, header present/absent, matching/mismatching",
  "Only a few cells of that table are covered by the test files.",
  ["src/util.rs"],
  [("policy table", "src/util.rs HeaderChecker::check, HeaderMode")])
p("C14", "Comparison operators mean what they say",
  "Each relational operator accepts exactly the orderings its name stands for, inverting an operator accepts exactly the complementary orderings or the operand-swapped ones as documented, and every spelling of an operator denotes that operator. The terse and the message-printing forms of an operator check always return the same verdict.",
  ["inputs", "configurations"], "all operators, all spellings, all three orderings, both forms",
  "Tests spot-check a few operator/ordering pairs.",
  ["src/util.rs"],
  [("operator tables", "src/util.rs CompareOp"), ("line and buffer checks", "src/util.rs CheckLine, CheckBuff")])
p("C15", "Only named outputs are created, whole, and inputs are never modified",
  "The program creates or overwrites only the output files the user names and its own temporary directory, which is removed afterwards; an output file's previous content never survives behind the new content. Input files are opened for reading only, and nothing is deleted.",
  ["inputs", "configurations"], "every tool, every file name, every previous content of the output",
  "Tests write to fresh files and do not look for side effects.",
  ["src/util.rs", "src/sort.rs", "src/tooltest.rs", "src/join.rs", "src/bin/cdx"],
  [("single output opener", "src/util.rs get_writer"), ("temporary directory owner", "src/sort.rs Sorter, src/tooltest.rs")])
p("C16", "Escaped text output reads back unchanged",
  "With an escaping text format (backslash or quotes), whatever bytes the columns of a record contain (delimiters, line breaks, quotes, backslashes, nothing at all), what the writer writes for them is read back as one record of exactly the same columns, for every delimiter, with newline as line break. Column rules write contents through that writer, never directly.",
  ["inputs"], "all column contents and all combinations of delimiter, line break and escape",
  "Tests round-trip a couple of strings.",
  ["src/util.rs"],
  [("escape writer", "src/util.rs write_backslash/enslash"), ("escape reader", "src/util.rs split_backslash/unslash")])
p("C17", "Pattern lists, negation and verbose checking agree",
  "A list of patterns combined with AND accepts a record exactly when all members do, and with OR exactly when at least one does; a negated pattern accepts exactly what the plain pattern rejects, on every route by which it is used. Checking with messages gives the same verdict as checking silently.",
  ["inputs", "configurations"], "all records, all lists of patterns (including empty), all combiners, all routes",
  "Tests use one or two patterns, rarely negated, on one route.",
  ["src/matcher.rs"],
  [("combiners", "src/matcher.rs LineMatcherList, MatcherList"), ("negation", "src/matcher.rs Matcher and its users"), ("verbose forms", "src/matcher.rs ok_verbose, verbose_*match")])
p("C18", "Header names and data columns stay in step",
  "Every tool writes, under the header it wrote, records of exactly as many columns as that header has names, with the delimiter of the output format between them, and ends each with exactly one line break. Every column rule writes as many columns as the names it contributes (a selection of no columns contributes neither), a rule list separates consecutive columns by exactly one delimiter, and adding a name to a header either fails or adds exactly one. (Records of regular files; where whole input records are copied, input and output format are the same.)",
  ["inputs", "configurations"], "all tools and options, all column rules and compositions",
  "Tests cover single rules on regular files.",
  ["src/column.rs", "src/agg.rs", "src/util.rs"],
  [("column rules", "impl ColumnFun"), ("rule list", "src/column.rs Writer"), ("column sets", "src/column.rs ColumnSet")])
p("C19", "Set-quantified matching settles early only when the outcome is settled",
  "When a condition is required of all, some, none, or a counted number of columns, the verdict given part-way through the columns always equals the verdict after all of them, and the final verdict is the one the quantifier's name states.",
  ["inputs"], "all quantifiers, all counts of accepted and rejected columns so far and remaining",
  "A few counts per quantifier are tested.",
  ["src/matcher.rs"],
  [("early verdict", "src/matcher.rs Determiner::match_mid, Thresh"), ("final verdict", "src/matcher.rs Determiner::match_final")])
p("C20", "Uniq writes exactly one record per run of equal records",
  "For every run of adjacent records that compare equal, uniq writes exactly one record in every mode, chosen as requested, with a count equal to the length of the run when counting; the first and last run are treated like any other.",
  ["inputs", "configurations"], "all run-length patterns and all modes",
  "Tests use a few short inputs per mode.",
  ["src/bin/cdx/uniq_main.rs"],
  [("group loops", "src/bin/cdx/uniq_main.rs main")])
p("C21", "Every registered name can be used and unknown names are errors",
  "Every aggregator, comparator, matcher, generator and transform listed by the program can be requested by its listed name (from the first request of a process on, and without blocking), each listed name makes its own kind of thing, names and aliases are unambiguous, every alias leads to a listed name, and requesting an aggregator, comparator, matcher, generator or transform that is not registered is an error.",
  ["configurations"], "all registered names, aliases and modifiers of every registry",
  "Tests request a few of the registered names.",
  ["src/agg.rs", "src/comp.rs", "src/matcher.rs", "src/trans.rs", "src/textgen.rs"],
  [("registries", "src/*.rs *Maker::init/do_push/do_add_alias")])
p("C22", "Columns are split whenever something reads columns",
  "Splitting of records into columns is turned off only when nothing that later reads those records uses columns; a rule needs splitting whenever any part of it does.",
  ["configurations", "inputs"], "all tools and all combinations of rules applied to one reader",
  "Tests rarely combine a whole-line rule with a column rule on the same reader.",
  ["src/util.rs", "src/comp.rs", "src/bin/cdx", "src/sort.rs", "src/join.rs"],
  [("split switch", "src/util.rs Reader::do_split"), ("need queries", "src/comp.rs need_split")])
p("C23", "Pattern matching methods accept exactly the targets they describe",
  "Every matcher made from a specification and a pattern accepts a target exactly when it satisfies the description of the method: prefix, suffix, infix (substr), "
  "exact and file-exact (one of the non-empty lines of the file), up to case with the case modifier (ASCII case in bytes, the characters' lower case with utf8); glob, "
  "where * is any text and ? any one byte (character with utf8); length X or X,Y (in bytes, characters with utf8), empty, blank, yes, integer, number, float, ip; comment, "
  "hash and slash (the pattern, # or // after white space; blank targets too). The modifiers not, trim, null, and, or work as the help describes in every combination. "
  "No pattern or target makes a matcher panic or run forever; malformed patterns are errors.",
  ["inputs"], "all specifications, patterns and targets",
  "Tests check a few literals per method.",
  ["src/matcher.rs", "src/text.rs"],
  [("matching methods", "src/matcher.rs impl Match, MatchMaker::make2, Matcher::plain_smatch, plain_umatch"), ("glob and case", "src/text.rs Text::glob, equal_insens_quick, new_lower, trimw")])
p("C24", "Sorted output is ordered and stable comparisons form a total order",
  "The output of sort and merge is ordered by the requested keys for every input, because every comparison method is a total preorder.",
  ["inputs"], "all inputs and key lists",
  "Tests sort a few small inputs.",
  ["src/sort.rs", "src/comp.rs", "src/num.rs"],
  [("sorting", "src/sort.rs"), ("comparison methods", "src/comp.rs")])
p("C25", "Binary search selects exactly the matching records, with their context",
  "On a sorted file, with any comparison, any lengths of records (empty ones included) and with or without a final newline, the binary search always ends and "
  "returns exactly the records that a linear scan with the same comparison would select: the lower bound is the first equal record (an empty range at the place "
  "the value would have if none is equal), the upper bound the start of the first greater record, the equal range exactly the equal records. cdx binsearch writes "
  "these records, preceded and followed by the asked for numbers of records of context (as far as the file has them), each as a whole line; the header is not a "
  "record: it is never compared, matched, used as context or repeated.",
  ["inputs"], "all sorted files, search values and contexts",
  "Tests search a few values in small files.",
  ["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs"],
  [("bounds search", "src/binsearch.rs lower_bound_n, upper_bound_n, equal_range_n"), ("lines and context", "src/binsearch.rs find_end, find_start, find_prev; src/bin/cdx/binsearch_main.rs main")])
p("C26", "Expressions have the value their operators, precedence and functions give them",
  "Every well-formed arithmetic expression (cdx calc, and every expr column, comparison, matcher and aggregator) evaluates to the value given by its "
  "operators, functions and constants: comparisons bind loosest (yielding 1 or 0), then + and -, then *, / and %, then the signs, then ^ (to the right), then "
  "the factorial; everything else groups to the left; parentheses and argument lists override. Every function and constant listed by the help computes what its "
  "name says, on its arguments in their order. A variable has the value, in the record being evaluated, of the column named so or numbered cN in the latest "
  "header. Malformed expressions, unknown names and wrong numbers of arguments are errors, not values.",
  ["inputs", "histories"], "all expressions, variable values and sequences of records and headers",
  "Tests evaluate a few expressions.",
  ["src/expr.rs", "src/shunting_yard.rs", "src/tok2.rs"],
  [("tokens", "src/tok2.rs tokenize, can_binary"), ("precedence", "src/shunting_yard.rs to_rpn"), ("evaluator", "src/expr.rs rpn_to_expr, do_eval, apply_*"),
   ("variables", "src/expr.rs lookup, prepare")])
p("C27", "Samples are even and reproducible",
  "Sampling selects the requested number of records, each record being equally likely.",
  ["inputs", "histories"], "all input sizes and sample sizes",
  "Tests check sizes only.",
  ["src/sampler.rs", "src/bin/cdx/sample_main.rs"],
  [("smooth sampler", "src/sampler.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
