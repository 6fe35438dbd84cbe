#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 spec.py rewrites both)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P, CHECKS, NA = [], [], []
AI = "abstract interpretation (trace-partitioned dataflow) of the compiler's MIR over grammar-derived abstract trees with per-constructor summaries; no solver, no execution"


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "technique": technique or AI, "level": "other", "level_note": note})


TOK = "Static: every constructor/builder path for every grammar production, each repetition taken 0..2 times (quick) or 0..3 (thorough), plus some paths with 3, 4 and 17 (thorough: 4 to 8 and 40) elements; other lengths and library models are assumed. Undecided paths are listed in the evidence."
WHYTOK = "Fixture tests compare a few dozen sample files; a construct, optional child or repetition that no fixture combines is never printed by any test."
DM = "src/data_model.rs"; EN = "src/enum_def.rs"; AC = "src/accessor.rs"; DB = "src/doc_builder.rs"; DC = "src/doc.rs"; UT = "src/utility.rs"; CX = "src/context.rs"; FM = "src/formatter.rs"; MN = "src/main.rs"; AR = "src/args.rs"
ALLOW = "Only layout, the letter case of keywords, empty statements/members (a lone `;`), and the order of annotations relative to modifiers may differ."

prop("C01", "Declarations keep every token in order",
     "For every Apex source the parser accepts, the formatted text of each class, interface, enum, trigger, method, constructor, property, field, initializer, parameter list, annotation, modifier list and type contains exactly the tokens of that construct, in source order. " + ALLOW,
     ["inputs", "programs"], "every declaration and type of every accepted source, in every combination of optional parts and list lengths", WHYTOK,
     [DM, EN, AC, DB], [("constructor and builder of each declaration", DM), ("member and type dispatch", EN), ("child access helpers", AC)], note=TOK)
prop("C02", "Statements keep every token in order",
     "For every Apex source the parser accepts, the formatted text of each statement (blocks, if/else, loops, switch, try/catch/finally, return, throw, break, continue, DML, run-as, local variables) contains exactly the tokens of that statement, in source order. Only layout, keyword case and empty statements (a lone `;` in a block) may differ.",
     ["inputs", "programs"], "every statement of every accepted source, with every optional clause and list length", WHYTOK,
     [DM, EN, DB], [("constructor and builder of each statement", DM), ("statement dispatch", EN)], note=TOK)
prop("C03", "Expressions keep every token in order",
     "For every Apex source the parser accepts, the formatted text of each expression (calls, chains, operators, casts, creations, literals, array and map initialisers, ternaries, assignments, instanceof, version and class literals) contains exactly the tokens of that expression, in source order. Only layout and keyword case may differ.",
     ["inputs", "programs"], "every expression of every accepted source, at every nesting and in every parent construct", WHYTOK,
     [DM, EN, UT, DB], [("constructor and builder of each expression", DM), ("expression dispatch", EN), ("chain and precedence context", UT)], note=TOK)
prop("C04", "SOQL queries keep every token in order",
     "For every SOQL query embedded in an accepted source, the formatted query contains exactly the clauses, fields, operators, bind expressions and literals of the source query, in source order. Only layout, keyword case, the optional word AS before an alias and grouping parentheses around conditions (see the grouping property) may differ.",
     ["inputs", "programs"], "every SOQL query with every combination of clauses and list lengths", WHYTOK,
     [DM, EN], [("query clause constructors and builders", DM), ("condition and value dispatch", EN)], note=TOK)
prop("C05", "SOSL queries keep every token in order",
     "For every SOSL query embedded in an accepted source, the formatted query contains exactly the search term, clauses, returned objects, filters and literals of the source query, in source order. Only layout, keyword case and grouping parentheses around conditions may differ.",
     ["inputs", "programs"], "every SOSL query with every combination of clauses and list lengths", WHYTOK,
     [DM, EN], [("search clause constructors and builders", DM), ("with/returning dispatch", EN)], note=TOK)
prop("C06", "Query conditions keep their AND/OR/NOT grouping",
     "The formatted WHERE or HAVING condition of a query evaluates the same operators on the same operands as the source: every operand that is itself an AND, OR or NOT condition of a different kind stays inside its own parentheses. Parentheses may be added or removed only where they do not change which operands belong to which operator.",
     ["inputs", "programs"], "every nesting of AND, OR, NOT and comparisons", WHYTOK,
     [DM, EN], [("condition builders", DM)], note=TOK)
prop("C07", "Tokens are never glued together or torn apart",
     "In the formatted text two neighbouring tokens that would read as one token (word next to word, `+ +`, `- -`, `/` next to `/` or `*`) are always separated by white space, and no white space or line break is ever inserted inside a token. This holds whichever layout is chosen and whatever parts of the construct are absent.",
     ["inputs", "programs", "configurations"], "every pair of neighbouring tokens in every construct, for every chosen layout", WHYTOK,
     [DM, DB, DC], [("separators written by the builders", DM)], note=TOK)
prop("C08", "Names and literals are copied verbatim",
     "Every identifier, string literal, number, date and other piece of source text is printed with exactly the characters it has in the source: no case change, trimming, escaping, truncation or replacement. Case may change only for words the language treats as case-insensitive keywords.",
     ["inputs"], "every identifier and literal of every accepted source", "Tests use ASCII names and a few literals; a transformation that only alters unusual text (upper case, quotes, `as` inside a name) passes them.",
     [DM, EN, AC], [("text access helpers", AC), ("builders that print source text", DM)], note=TOK)
prop("C09", "Valid constructs are never rejected",
     "Every Apex construct the parser accepts is formatted: formatting does not stop with an internal error because of the kind of a child, an absent optional part, or the number of repeated parts. (Comments and resource limits are outside this property.)",
     ["inputs", "programs"], "every construct with every kind of child in every position", "Tests cannot try every kind of child in every position; each missing match arm or unwrap on an optional child is an untested crash.",
     [DM, EN, AC, UT], [("child access helpers that panic", AC), ("dispatch with a panicking default arm", EN)], note=TOK)
prop("C10", "All layouts of a construct print the same text",
     "Where a construct can be printed in more than one layout (on one line or broken over several), every alternative prints the same tokens in the same order; the choice made for a line width never changes the program.",
     ["inputs", "configurations"], "every construct with alternative layouts, for every width and nesting", "Tests format with width 80 and sample lengths only; a broken alternative that only appears at other widths is never printed.",
     [DM, DB], [("builders offering alternative layouts", DB)], note=TOK)

CM = "abstract interpretation of the compiler's MIR over grammar-derived trees with comments in every gap, and propagation of every comment's fate through the contracts of the constructs"
CN = "Static: one or two comments in every gap of every production (repetitions 0..2), seven styles, in all gaps together and in every other gap; interactions of comments in several constructs are covered by composing contracts. Gaps that afmt refuses are listed as known findings of the acceptance property."
WHYCM = "Fixtures put comments in a few dozen places; the places between tokens times the kinds of neighbours are thousands, and a comment lost in one of them is lost silently or stops the formatter."
prop("C11", "Every comment is printed exactly once, or formatting fails",
     "For every accepted source, each comment of the source appears exactly once in the formatted text. When a comment cannot be placed, formatting that source fails instead of returning text without it (or with it twice).",
     ["inputs", "programs"], "every comment at every position of every construct, alone or next to others", WHYCM,
     [CX, UT, FM, DM, DB], [("association of comments with code", CX), ("printing of comments", UT), ("check that every comment was printed", FM)], technique=CM, note=CN)
prop("C12", "Comments stay with the code they are written next to",
     "In the formatted text a comment stands between the same tokens of the program as in the source, up to the punctuation directly around it: it never moves to the other side of a name, operator, statement or member, nor out of the parentheses, braces or brackets it is written in.",
     ["inputs", "programs"], "every comment at every position of every construct", WHYCM,
     [CX, UT, DM, DB], [("preceding/following/enclosing association", CX), ("printing of comments", UT)], technique=CM, note=CN)
prop("C13", "A comment never makes formatting fail",
     "A source that is formatted without comments is also formatted when comments are added between any of its tokens: no position or kind of comment makes formatting stop with an error.",
     ["inputs", "programs"], "every comment at every position of every construct", WHYCM,
     [CX, UT, FM, DM, DB], [("places that print comments", UT), ("check that every comment was printed", FM)], technique=CM, note=CN)
prop("C14", "Comments never change the code around them",
     "Comments never change the program: with comments anywhere, the remaining tokens are printed as without them (none lost, added or reordered), code never ends up on the line of a preceding line comment, and no character of code joins a comment's delimiters.",
     ["inputs", "programs", "configurations"], "every comment at every position of every construct, in every layout", WHYCM,
     [CX, UT, DM, DB], [("builders taking another path when comments are present", DM), ("separators around comments", UT)], technique=CM, note=CN)
prop("C15", "The text of a comment is preserved",
     "The text of every comment is kept: a line comment verbatim up to trailing white space, a block or doc comment line by line up to the white space around its lines and the decoration (leading stars) of a doc comment's lines. No word, line or character of it is lost, added, split or changed.",
     ["inputs"], "every comment text, with any number of lines, stars, blank lines and white space", "Tests hold a handful of well-formed comments; odd ones (text on the last line, stars in the text, blank lines, code in comments) are never seen.",
     [CX, UT], [("splitting of comment texts into lines", CX), ("printing of comments", UT)], technique=CM, note="Static: all comment texts of up to 4 lines built from a vocabulary of line shapes (about 8000); words are opaque.")

PROG = "abstract interpretation of the compiler's MIR from the program's entry point, with unknown arguments, files and failures; effects of every path compared with its decisions; no execution"
PN = "Static: every path of the compiled program from its entry point; the command-line library, file system and threads are modelled (lint/src/models.rs)."
prop("C16", "Files are written only on request, and only the given file",
     "The program writes a file only when asked to write back, only the file named on the command line, exactly once, and only with the complete formatted text of that file's content. Without that request no file is created, changed or removed, whatever the other options are.",
     ["inputs", "configurations", "fault_sequences"], "every combination of options and every outcome of reading, formatting and writing", "Tests call the library on fixtures; none runs the program with its options, let alone with failing steps.",
     [MN, FM], [("command handling", MN), ("file access", FM)], technique=PROG, note=PN)
prop("C17", "Check mode compares and never writes",
     "With the check option the program succeeds if and only if the file's content equals its formatted text, reports failure otherwise, and never changes the file. Check and write cannot be requested together.",
     ["inputs", "configurations"], "every file content and every combination of options", "No test covers the check option; a comparison that ignores a difference, or a write that slips in, passes all of them.",
     [MN, AR], [("check branch", MN), ("option conflicts", AR)], technique=PROG, note=PN)
prop("C18", "Every failure ends in a non-zero status and changes no file",
     "Whenever a step fails (an unreadable or invalid configuration, an unreadable file, a source that cannot be formatted, a failed write), the program says so on standard error and ends with a non-zero status; a failure before writing leaves the file untouched. When no step fails and no check mismatch exists, the status is zero.",
     ["inputs", "fault_sequences"], "every step that can fail, in every mode", "Tests exercise successful runs only; exit statuses and failing steps are never looked at.",
     [MN, FM], [("result handling", MN), ("per-file failures", FM)], technique=PROG, note=PN)
prop("C19", "A source with a syntax error is never formatted",
     "When the parser reports an error or a missing token anywhere in the source, formatting fails instead of returning text made from the damaged tree. A source without syntax errors is never refused for this reason.",
     ["inputs"], "every position of an error in the tree, at any depth", "Tests hold no damaged sources; a check of only the top of the tree, or of one kind of damage, passes them.",
     [FM], [("error test after parsing", FM)], technique=PROG, note="Static: interpreted over trees with an error or missing node at the root, below it or nowhere.")
prop("C20", "One result per file, in order, and failures stay contained",
     "Formatting several files returns exactly one result per file in the order of the files: its formatted text, or its failure. A failure, slow file or stored state of one file never changes, delays into another place, or removes the result of another.",
     ["inputs", "schedules", "fault_sequences"], "every number of files, order of completion and combination of failures", "Tests format one file at a time; completion order depends on scheduling and is never varied.",
     [FM, UT], [("threads and result channel", FM), ("state kept per thread", UT)], technique=PROG + "; effect analysis of the call graph for shared state", note="Static: 0 to 3 files, every completion order and failure combination; process-wide mutable state reachable from formatting is reported.")
prop("C21", "Settings reach the formatter unchanged",
     "The line width and indent size used are those of the configuration file given on the command line, and 80 and 2 when none is given; they are the same for every file. What is formatted is the content of the given file.",
     ["inputs", "configurations"], "every configuration and file", "Tests build settings in code; the path from the command line and the configuration file to the formatter is never run.",
     [FM, MN], [("configuration loading and defaults", FM), ("command handling", MN)], technique=PROG, note=PN)
prop("C22", "Formatting depends only on the source and the settings",
     "Formatting the same source with the same settings always gives the same text: nothing in it depends on time, environment, files, machine addresses, hash seeds or the order of a hash table.",
     ["inputs", "schedules", "histories"], "every source, run and machine", "A test sees one run; an order that happens to be stable in it can differ in the next process.",
     [FM, DM, UT, CX], [("everything reachable from formatting one source", FM)], technique="effect analysis over the call graph of the compiled code, and abstract interpretation with both orders of every hash-table walk", note="Static: call graph over monomorphic MIR; library internals are trusted to be deterministic.")
prop("C26", "Command-line options do what they say",
     "The program takes one file and the documented switches for writing, checking and timing and a configuration path, each with its short form. Without write or check it prints the complete formatted text, unchanged, on standard output.",
     ["inputs", "configurations"], "every combination of options", "No test runs the command line.",
     [AR, MN], [("option declarations", AR), ("printing of results", MN)], technique=PROG, note=PN)

PR = "abstract interpretation of the printer's MIR over enumerated documents with opaque texts and unknown widths (linear arithmetic over symbols, no solver), compared with the layout language's meaning"
LN = "Static: every path of every construct's constructor and builder as in the token properties; break, blank and indentation of every layout are compared with the rule, children are composed through their contracts. Texts with comments are outside this property."
LAY = "abstract interpretation of constructors and builders over grammar-derived trees; dataflow over the layouts of the resulting documents, composed through the constructs' contracts; source lines are symbolic"
prop("C23", "The printer writes every text of a layout once, in order",
     "For every layout and line width, the printed text consists of exactly the texts of the layout in order, with exactly the blanks and line breaks of the alternatives chosen: line breaks that follow each other count once, an empty line is printed where the layout has one, a single blank is not repeated, and nothing is lost at the end.",
     ["inputs", "configurations"], "every layout built from the layout language, for every line width and text width", "Tests print the layouts of sample files at one width; a printer that loses a pending line break or a text in a rare combination passes them.",
     [DC, FM], [("printing loop and pending line breaks", DC)], technique=PR, note="Static: all documents up to 4 (thorough: 5) constructors plus typical nested groups; text widths and the line width are unknown numbers.")
prop("C24", "A construct is kept on one line exactly if it fits",
     "Where a construct has a one-line layout, that layout is printed if and only if it fits into the rest of the line width, up to the next possible line break, and nothing inside forces a break. Optional line breaks are taken only where such a layout does not fit; the space a text is taken to need is its length.",
     ["inputs", "configurations"], "every group of every construct, for every line width, column and text width", "Fixtures use one width and whatever lengths their lines have; the boundary (fits exactly, one too wide) and optional breaks outside of every group are never tried on purpose.",
     [DC, DB, DM, UT], [("fit test of the printer", DC), ("groups made by the builders", DB), ("member chains", UT)], technique=PR + "; reachability of optional line breaks outside of groups through the constructs' contracts", note=LN)
prop("C25", "Indentation shows nesting, in steps of the configured size",
     "Every level of indentation is the configured indent size. Members and statements, and what is broken onto lines inside brackets, are one level deeper than the line of the opening bracket; the closing bracket is indented like that line; no line of a construct starts left of its first line, and all lines of a nested construct are shifted by the same amount.",
     ["inputs", "configurations"], "every construct nested in every other, in every broken layout", "Fixtures show each nesting once at most; a statement whose second line is shifted differently needs a long statement in just that place.",
     [DM, DB, DC], [("indentation in builders", DM), ("indent and dedent", DB), ("indentation of lines", DC)], technique=LAY, note=LN)
prop("C27", "Members and statements stand on lines of their own",
     "In every layout each declaration of a file, member of a class, interface or enum, statement of a block or constructor and rule of a switch begins on a new line, the opening brace ends its line, and the closing brace stands on a new line.",
     ["inputs", "programs"], "every body with every number and kind of members or statements", "A body of an unusual kind or with an unusual number of members is on no fixture.",
     [DM, DB], [("bodies", DB), ("body builders", DM)], technique=LAY, note=LN)
prop("C28", "Blank lines between members are kept, and at most one",
     "An empty line is printed between two neighbouring declarations, members or statements if and only if the source has at least one empty line between them. Several become one; none is printed before the first, behind the last, or anywhere else. Enum constants, switch rules and comments aside.",
     ["inputs"], "every pair of neighbouring members with every number of lines between them", "Fixtures hold a few spacings; one off in the line arithmetic shows only for some distances and positions.",
     [EN, DB, DM], [("distance of members", EN), ("empty lines between members", DB)], technique=LAY, note=LN)
prop("C29", "No white space at line ends; the text ends with one line break",
     "No line of the formatted text ends with white space or, apart from its indentation, begins with it; the text begins with a declaration and ends with exactly one line break. (Comment texts aside.)",
     ["inputs", "configurations"], "every place where a line can break, in every layout", "Whether a blank is left behind depends on which optional part is absent and which break is taken; fixtures hold few of these combinations.",
     [DM, DB, FM], [("separators written by the builders", DM)], technique=LAY, note=LN)
prop("C30", "Layout depends on the code, not on how the source is laid out",
     "Two sources that differ only in white space and line breaks (blank lines between members aside) are formatted alike: no decision looks at lines, columns or byte positions, and no text of several tokens is copied with the white space inside it. Values of annotations, copied as written, and comments are excepted.",
     ["inputs"], "every pair of sources with the same tokens", "Each fixture is formatted from one source layout; a decision on a column or a copied slice shows only with another.",
     [DM, EN, AC, CX], [("uses of positions", EN), ("text access helpers", AC)], technique=LAY, note=LN)

prop("C31", "White space between tokens depends on the tokens, not on the construct",
     "In every construct neighbouring tokens of the formatted text are spaced alike: no blank before `,` `;` `)` `]` `.` nor behind `(` `[` `.` `@`; one blank or a line break behind `,`, on both sides of every infix operator and `=`, between a bracket and a following word, and before the `{` of a body (initializer values may follow their type directly); one blank behind the keyword of a control statement; none behind a prefix or before a postfix operator, inside `< >` of type arguments, before dimensions, or before the `(` of arguments and parameters; never two blanks. (Operator-like query syntax such as grouping parentheses of conditions, and comments, aside.)",
     ["inputs"], "every pair of neighbouring tokens of every construct, with every combination of absent and present parts between them", "A separator belongs to an optional part; whether it is missing or doubled when that part is absent shows only in sources with that combination, and the formatted text stays valid.",
     [DM, EN, DB], [("separators written by the builders", DM), ("punctuation behind a construct", DB)], technique=LAY, note=LN)

prop("C32", "Formatting always comes to an end",
     "For every accepted source, every configuration and every number of files, the program finishes: no loop over nodes, comments, characters or pending layouts goes on forever, no function calls itself without getting closer to an end, and no thread waits for a message or a thread that never comes. (Time and memory on very large sources aside.)",
     ["inputs", "configurations", "schedules"], "every source, configuration and order of completion", "A loop that fails to advance for one combination of neighbours, comments or layouts hangs only for sources with that combination; a test that does not hold it is green.",
     [UT, CX, DC, FM, DM, AC], [("loops over nodes and siblings", AC), ("walk of the tree with comments", UT), ("printing loop", DC), ("waiting for results", FM)],
     technique="abstract interpretation of the compiler's MIR over grammar-derived trees, enumerated documents and program effects; recurrence of abstract states in loops and recursions; liveness of channel ends", note="Static: every path of the other checks (constructs with and without comments, printer, comment texts, program, 0 to 3 files); growth of running time is not bounded.")

prop("C33", "Text is only cut between characters",
     "Wherever the program cuts a text at a byte position (a name, literal, comment, file path, configuration text, or the piece of source shown in a message), the position lies between two characters, whatever characters the text holds: formatting never stops with an internal error, and never loses a message, because a text is not ASCII.",
     ["inputs"], "every text a source, a path or a message can hold, at every place that cuts text", "Tests hold ASCII text, in which every byte position lies between two characters; a cut by bytes fails only for a text with a longer character at that very position.",
     [CX, UT, DM, FM, MN], [("text of comments", CX), ("shortened snippet of source", UT), ("messages about syntax errors", FM)],
     technique="abstract interpretation of the compiler's MIR; provenance of byte positions against the texts they cut (letters of the grammar's tokens, tests on the path)", note="Static: every path of the other checks (constructs, printer, comment texts with a stand-in for non-ASCII words, program); cuts at positions the analysis does not understand are listed in the evidence and not judged.")

prop("C34", "A failure tells its cause",
     "Whenever the program does not do what it was asked to do, what it shows names the cause: the path and the system's reason for a file that cannot be read or written, the path of a configuration file and what is wrong with it, the path of a file that fails the check, the place of an erroneous part of a source with a syntax error (wherever in the tree it is), the setting that has no usable value, and the text of every comment that would be lost.",
     ["inputs", "fault_sequences"], "every failing step, with every combination of options, every place of a syntax error and every set of missing comments", "Tests look at formatted text and at the status of a few runs; the message of a step that fails is produced only when that very step fails.",
     [MN, FM, UT], [("messages of the program", MN), ("reading files and syntax errors", FM), ("comments that were not printed", UT)],
     technique="abstract interpretation of the program's MIR with symbolic file, parser and command-line effects; provenance of the printed texts", note="Static: every path from main and through parsing and the comment guard; texts of a panic count as shown (default hook). Messages that pass through code the analysis does not see are listed as undecided.")

prop("N01", "No line is longer than the line width where it can be broken",
     "A line of the formatted text exceeds the configured width only if it holds a single text that cannot be broken.", ["inputs", "configurations"], "every source and width", "Fixtures use one width.",
     [DM, DB, DC], [("groups and breaks", DB)], na="False as a property of this formatter (many constructs have no broken layout), and the sum of unbounded text widths over whole lines has no static bound; what is decidable (a layout is kept on one line only if it fits, breaks are inside groups) is claimed as C24.")
prop("N02", "Formatting formatted text changes nothing",
     "Formatting the formatted text of a source again gives the same text.", ["inputs", "configurations"], "every source and width", "Fixtures are formatted once each.",
     [DM, DB, DC, CX], [("whole pipeline", FM)], na="Relates the printed text to the parser's tree of that text; the parser is generated C tables outside the analysed code, and the normalisations of comments depend on the printed lines. Follows for sources without comments from C01-C08, C28 and C30 (same tokens, layout a function of tokens and blank lines).")
prop("N03", "Deep nesting does not exhaust the stack, time stays proportional",
     "Formatting needs stack and time proportional to the size of the source.", ["inputs"], "every source, of any depth and size", "Fixtures are small.",
     [DM, DC, DB, UT], [("recursive constructors and builders", DM)], na="The recursion over the tree is as deep as the source is nested, so a bound on the stack depends on a runtime quantity; running time has no static oracle here. That formatting ends at all is claimed as C32.")


def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": CHECKS, "not_applicable": NA}
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
