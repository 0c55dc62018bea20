#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate it).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Shell-like lexing splits every line exactly as quoting rules say",
  "Splitting a command line yields exactly the words that blanks, single quotes, double quotes and backslash escapes delimit, with quotes and escapes removed and unquoted # comments skipped. A line that ends in an open quote or a dangling escape is rejected in strict mode, reporting which quote is open; with the trailing-space option a final blank adds an empty last word.",
  ["inputs", "configurations"], "every line (all byte values) up to the stated length, with every combination of the strict and trailing-space options",
  "The strvec tests sample a dozen lines; the lexer is a state machine whose wrong transitions only show on particular quote/escape/blank interleavings.",
  ["src/ecoli_strvec.c", "src/ecoli_node_sh_lex.c"],
  [("ec_strvec_sh_lex_str", "src/ecoli_strvec.c")])
p("P02", "Grammar nodes accept exactly the token sequences of their documented language",
  "A grammar assembled from literal, any, empty, none, space, option, sequence, alternative, repetition and pass-through nodes, nested in any way, matches an input exactly when its documented greedy left-to-right meaning does, and consumes exactly the same number of leading words. Repetition respects its minimum and maximum counts of non-empty matches, an alternative picks its first matching branch, and a sequence stops at the first child that does not match.",
  ["inputs", "programs"], "every grammar of the stated shapes over these node kinds, every list of words within the bounds",
  "Tests parse a handful of fixed inputs with fixed grammars; compositional semantics quantifies over all grammars and all word lists.",
  ["src/ecoli_parse.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_option.c", "src/ecoli_node_str.c", "src/ecoli_node_any.c", "src/ecoli_node_empty.c", "src/ecoli_node_none.c", "src/ecoli_node_space.c", "src/ecoli_node_bypass.c"],
  [("ec_parse_child / parse callbacks", "src/ecoli_parse.c")])
p("P03", "The parse tree describes exactly what was matched",
  "After a successful parse the root records the matched prefix of the input, and every inner node's words are the concatenation, in order, of its children's words, each tree node pointing to the grammar node that matched it. Alternatives that were tried and abandoned leave nothing in the tree, and an input that does not match gives a root with no words and no children.",
  ["inputs", "programs"], "every grammar and word list within the bounds",
  "Tests look at a few chosen ids in a few trees; debris of abandoned branches depends on where the mismatch happens.",
  ["src/ecoli_parse.c", "src/ecoli_node_seq.c", "src/ecoli_node_many.c", "src/ecoli_node_or.c", "src/ecoli_node_subset.c"],
  [("ec_parse_child linking/unlinking", "src/ecoli_parse.c")])
p("P04", "Integer nodes accept exactly the in-range numerals and return their value",
  "A signed or unsigned integer node accepts a word exactly when the whole word is a numeral (optional leading blanks, sign and base prefix as in C) in the configured base whose value fits the 64-bit type and lies within whichever of the minimum and maximum limits are configured. For every accepted word the value accessor returns that numeral's value.",
  ["inputs", "configurations"], "every word up to the stated length, every limit value, presence or absence of each limit, several bases",
  "Range edges, overflow and each optional-limit combination cannot be sampled exhaustively; tests cover a few constants.",
  ["src/ecoli_node_int.c", "src/ecoli_string.c"],
  [("ec_node_int_uint_parse / set_config", "src/ecoli_node_int.c")])
p("P05", "Subset and once nodes enforce use-at-most-once exactly",
  "A subset node matches any order of a subset of its children, each used at most once, preferring the choice that uses the most children (the earliest declared on a tie) and matching zero words when no child matches; it does not match an empty input. A once node behaves like its child but refuses it when it already matched earlier in the same parse, in parsing and in completion alike.",
  ["inputs", "programs"], "every child order and overlap of the stated shapes and every word list within the bounds",
  "The number of orders and overlaps of children grows factorially; tests check a few orders of non-overlapping literals.",
  ["src/ecoli_node_subset.c", "src/ecoli_node_once.c"],
  [("__ec_node_subset_parse", "src/ecoli_node_subset.c"), ("ec_node_once_parse", "src/ecoli_node_once.c")])
p("P06", "Completion proposes exactly the words the grammar accepts next",
  "For every grammar of literals combined by sequence, alternative, option, repetition, subset, once and pass-through, and every partial input, the full completions are, as a set, exactly the literals starting with the last word that the grammar can read at that position, where a sequence, subset or repetition may be split at any point its parts match: nothing is missing and nothing else is proposed. Each proposal's full text starts with the typed word and its completion is exactly the part that is missing.",
  ["inputs", "programs"], "every grammar of the stated shapes and every partial input within the bounds",
  "Tests list the expected completions of a few inputs; soundness and completeness are statements over all inputs and grammars.",
  ["src/ecoli_complete.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_option.c", "src/ecoli_node_many.c", "src/ecoli_node_str.c", "src/ecoli_node_subset.c", "src/ecoli_node_once.c"],
  [("ec_complete_child and complete callbacks", "src/ecoli_complete.c")])
p("P07", "Iterating completions visits exactly the items of the wanted types and ends",
  "Iterating over a completion list with a type filter visits every item of the selected types exactly once, grouped and in insertion order, and terminates; the count function returns the number of items so visited. Each item keeps the kind, text, completion and display string it was given.",
  ["histories", "inputs"], "every sequence of added items and groups and every type mask within the bounds",
  "Tests iterate lists with at most two item kinds; gaps of other kinds between groups are what breaks an iterator.",
  ["src/ecoli_complete.c"],
  [("ec_comp_iter_first/next, ec_comp_count", "src/ecoli_complete.c")])
p("P08", "Completing inside a shell-lexed line keeps quoting and only edits the last word",
  "When the partial line of a shell-like lexer ends inside an open quote, every proposed full word starts with that quote character and ends with it when it is complete, and otherwise proposals are unquoted; in both cases accepting a proposal (for literals of plain characters, on a line not ending in a comment or dangling escape) yields a line that lexes to the earlier words followed by the proposed word. Blanks before the cursor select a new empty word.",
  ["inputs"], "every line within the bounds over a grammar of literals",
  "Only a few partial lines are tested; interaction of quoting, trailing blanks and prefix match is input-dependent.",
  ["src/ecoli_node_sh_lex.c", "src/ecoli_strvec.c"],
  [("ec_node_sh_lex_complete", "src/ecoli_node_sh_lex.c")])
p("P09", "Tables and dictionaries behave as maps over every operation history",
  "After any sequence of set, overwrite, delete and lookup operations, a hash table or dictionary holds exactly the last value set for each key not deleted since, reports its size accordingly, and iteration yields every pair exactly once in insertion order. The release callback of each value runs exactly once: on overwrite, deletion or destruction of the last copy.",
  ["histories", "inputs"], "every operation sequence within the bounds over colliding and non-colliding keys, including growth of the table",
  "Resizing, collisions and overwrite order depend on the history; tests run one fixed history each.",
  ["src/ecoli_htable.c", "src/ecoli_dict.c", "src/ecoli_murmurhash.c"],
  [("ec_htable_set/del/resize", "src/ecoli_htable.c")])
p("P10", "Copies of tables and dictionaries are equal and independent",
  "Duplicating a hash table or dictionary gives one with the same pairs in the same order, sharing values without copying them; any later change to either leaves the other unchanged. A shared value is released exactly once, after both have dropped it.",
  ["histories"], "every history of operations on the original and the copy within the bounds",
  "The reference counting of shared values only fails for specific orders of overwriting and freeing.",
  ["src/ecoli_htable.c", "src/ecoli_dict.c"],
  [("ec_htable_dup", "src/ecoli_htable.c")])
p("P11", "String vectors have value semantics over every operation history",
  "After any sequence of add, set, delete, sort, duplicate and sub-range operations a string vector contains exactly the strings a list would, equal vectors compare equal and unequal ones do not, and out-of-range requests fail without changing anything. Copies share nothing observable: changing an element or its attributes in one vector never changes another.",
  ["histories", "inputs"], "every operation sequence, index and string within the bounds",
  "Aliasing bugs need a particular history of copy and change; tests use one history per function.",
  ["src/ecoli_strvec.c"],
  [("reference-counted elements", "src/ecoli_strvec.c")])
p("P12", "Generic vectors behave as arrays and copy or free each element exactly once",
  "After any sequence of appends, duplications and sub-range copies, a vector returns exactly the appended elements in order and rejects out-of-range indexes. The element copy and free callbacks are called exactly once for every element copied or dropped.",
  ["histories", "inputs"], "every element type, operation sequence and index within the bounds",
  "Growth boundaries and sub-range arithmetic (including huge offsets) are not sampled by the tests.",
  ["src/ecoli_vec.c"],
  [("ec_vec_add_*, ec_vec_ndup", "src/ecoli_vec.c")])
p("P13", "Grammar graphs are released exactly once, even with cycles and sharing",
  "Whatever graph of nodes is built, including shared children and cycles, it stays usable as long as the caller holds a reference into it, and dropping the last external reference releases every node exactly once. Releasing a partially referenced graph never frees a node that is still reachable from a held reference.",
  ["programs", "histories"], "every small graph of the stated shapes and every order in which references are taken and dropped",
  "Cycle collection depends on graph shape, reference counts and visiting order; the tests build one loop.",
  ["src/ecoli_node.c", "src/ecoli_node_bypass.c"],
  [("ec_node_free mark and sweep", "src/ecoli_node.c")])
p("P14", "Configurations are validated, copied and compared as values",
  "A configuration is accepted by a node type exactly when each entry is known and has the declared type, recursively, and what the node type needs is present, and a rejected configuration leaves the previous one in force. A duplicated configuration compares equal to its source and is unaffected by changes to it, and two configurations compare equal exactly when they have the same structure and values.",
  ["inputs", "programs", "histories"], "every configuration value of the stated shapes against several schemas",
  "Nested lists and dictionaries and each kind of schema mismatch are sampled by a few cases.",
  ["src/ecoli_config.c", "src/ecoli_node.c"],
  [("ec_config_validate, ec_config_dup, ec_config_cmp", "src/ecoli_config.c")])
p("P15", "Running out of memory at any point is reported and leaves nothing broken",
  "When any one memory request fails, the running operation reports an error instead of crashing, and everything allocated is still released exactly once afterwards. Objects that existed before remain valid, and arguments documented as consumed are released.",
  ["fault_sequences", "programs"], "every position of a failing allocation in each listed scenario (building grammars, parsing, completing, containers, evaluating)",
  "The test program can only make allocations fail at random; a given point is rarely hit, and outcomes are not judged.",
  ["src/ecoli_malloc.c", "src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_htable.c", "src/ecoli_strvec.c", "src/ecoli_config.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_subset.c", "src/ecoli_node_cmd.c"],
  [("error paths", "src/*.c")])
p("P16", "Expressions evaluate with the declared precedence and release every value once",
  "Evaluating a parsed expression calls the variable, prefix, postfix, binary and parenthesis callbacks exactly as the declared order of precedence and left associativity of the operators prescribe (a prefix operator applies to the whole expression that follows it), and returns the resulting value. If a callback fails the error is returned, and every intermediate value is released exactly once.",
  ["inputs", "fault_sequences"], "every sequence of expression words within the bounds and every position of a failing callback",
  "Tests evaluate a few fixed expressions; precedence and cleanup quantify over all expressions and failure points.",
  ["src/ecoli_node_expr.c"],
  [("eval_expression, merge_results", "src/ecoli_node_expr.c")])
p("P17", "A command string means the grammar its operators describe",
  "A command description accepts a word list exactly when the described grammar does: juxtaposition is sequence, the bar is alternative, the comma is an unordered subset, brackets make optional, parentheses group, the postfix star and plus repeat, and names refer to the supplied nodes and are literals otherwise; repetition binds tightest, then comma, then bar, then juxtaposition, alternatives keep their order, and supplied nodes are not modified. A malformed description is refused with an error and no leak.",
  ["inputs", "programs"], "every description of the stated shapes and every word list within the bounds; every malformed string within the bounds",
  "Tests use a few descriptions with a few inputs.",
  ["src/ecoli_node_cmd.c", "src/ecoli_node_expr.c", "src/ecoli_node_re_lex.c"],
  [("ec_node_cmd_build_parser, ec_node_cmd_eval_*", "src/ecoli_node_cmd.c")])
p("P18", "A conditional node matches when its child matches and its condition holds",
  "A conditional node matches what its child matches when the condition evaluates to true on the resulting parse, and matches nothing otherwise, leaving no trace in the tree. The condition functions over node sets, counts, booleans and comparisons return their documented results, and syntactically malformed conditions are refused when the node is configured; unknown functions and wrong arguments are errors when evaluated.",
  ["inputs", "programs"], "every condition of the stated shapes and every word list within the bounds",
  "Tests check few conditions on few inputs; combinations of functions, argument kinds and child outcome are not reached.",
  ["src/ecoli_node_cond.c"],
  [("eval_condition, ec_node_cond_parse", "src/ecoli_node_cond.c")])
p("P19", "Regular-expression nodes match and split whole words, losing no text",
  "A regular-expression node accepts a word exactly when the whole word matches its pattern. A regular-expression lexer splits its input into consecutive matches of the first pattern that matches at each position, keeps exactly the tokens marked as kept, with their attributes, and does not match when some text matches no pattern, so that other alternatives are tried.",
  ["inputs", "configurations"], "every input string within the bounds and the stated pattern sets",
  "Tests try a few strings; anchoring and advance arithmetic fail only for particular overlaps of patterns.",
  ["src/ecoli_node_re.c", "src/ecoli_node_re_lex.c"],
  [("tokenize", "src/ecoli_node_re_lex.c"), ("ec_node_re_parse", "src/ecoli_node_re.c")])
p("P20", "Parse-tree navigation and copying agree with the tree's structure",
  "Depth-first iteration visits every tree node exactly once in preorder, search by identifier returns exactly the matching nodes in that order, and sibling, child, parent and root accessors agree with one another. A copied tree has the same shape, words, attributes and grammar nodes, its cursor is the copy of the original's, and it lives independently of the original.",
  ["inputs", "programs"], "every tree shape within the bounds and every position in it",
  "Tests copy and walk one or two fixed trees.",
  ["src/ecoli_parse.c"],
  [("ec_pnode_dup, EC_PNODE_ITER_NEXT, ec_pnode_find_next", "src/ecoli_parse.c")])
p("P21", "Initialisation, logging and allocation wrappers honour their contracts",
  "Registered initialisers run in priority order, stop at the first failure, and exit handlers run in reverse order. A registered log handler gets every message with its type and level, the default one prints exactly those whose level is within the global level, type names are unique and stable, and the allocation wrappers route every request to the registered handlers, return zeroed memory where promised, and refuse sizes that overflow.",
  ["histories", "inputs"], "every order of registration, every priority and level, every size",
  "Ordering and overflow edges are quantified over all values; tests check one order.",
  ["src/ecoli_init.c", "src/ecoli_log.c", "src/ecoli_malloc.c"],
  [("ec_init_register", "src/ecoli_init.c"), ("ec_log", "src/ecoli_log.c"), ("__ec_calloc", "src/ecoli_malloc.c")])
p("P22", "File completion proposes exactly the directory entries that match",
  "For a partial path a file node proposes exactly the entries of the addressed directory whose name starts with the last path component, each joined to the typed directory part. Regular entries are full proposals, directories are partial ones ending with a slash, hidden entries appear only when the typed name starts with a dot, and failing directory reads propose nothing wrong and release everything.",
  ["inputs", "configurations"], "every partial path and every small directory content within the bounds",
  "The test uses one fixed fake directory; names, kinds and prefixes are unbounded.",
  ["src/ecoli_node_file.c"],
  [("ec_node_file_complete, split_path", "src/ecoli_node_file.c")])
p("P23", "String helpers compute exactly what they promise",
  "Prefix tests, common-prefix lengths, blank detection and number parsing return the mathematically defined result for every string, with range and syntax errors reported through errno. String formatting into an allocated buffer yields the same text as the format prescribes.",
  ["inputs"], "every string within the bounds and every numeric base",
  "These functions are only exercised indirectly by the tests.",
  ["src/ecoli_string.c"],
  [("ec_str_startswith, ec_strcmp_count, ec_str_is_space, ec_str_parse_llint/ullint", "src/ecoli_string.c")])
p("P24", "Interactive completion and help derive from the grammar for every typed line",
  "For every partial line typed in the interactive layer, the proposed matches are the grammar's completions for that line, the characters appended automatically are exactly the longest text common to all proposals (followed by a space only when there is a single full proposal), and contextual help lists the end of line when the line is valid, then one entry per grammar node that can read the next word; the suggestions for a line that cannot be continued are the help at its longest beginning, cut after white space, that can. Blank lines do not enter the history, and history settings and repeated calls never leave a dangling or leaked resource.",
  ["inputs", "histories"], "every typed line within the bounds over the stated grammars",
  "The interactive layer has no automated test at all.",
  ["src/ecoli_editline.c"],
  [("ec_editline_get_completions, append_chars, get_helps, set_history", "src/ecoli_editline.c")])
p("P25", "Importing a grammar from YAML builds what the document says or fails cleanly",
  "Importing a document that describes a grammar of configurable node types yields nodes of the described types with the described identifiers, help, attributes and configuration, so that it parses like the same grammar built by hand. Any other document is refused with an error, without a crash or leak.",
  ["inputs", "programs"], "every document tree of the stated shapes",
  "No automated test imports any document.",
  ["src/ecoli_yaml.c"],
  [("parse_ec_node, parse_ec_config", "src/ecoli_yaml.c")])
p("P26", "Arbitrary input text never crashes, hangs, leaks or corrupts memory",
  "For any byte string given as line to parse or complete, and any text given as command description, condition or pattern list, every operation terminates (on grammars that do not recurse without reading a word), touches only live memory, and everything it allocated is released when its results are freed.",
  ["inputs", "programs"], "every string within the bounds for each text-consuming entry point, on grammars with every node kind, including recursive ones",
  "Safety and termination are statements over all inputs; tests sample well-formed ones.",
  ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_strvec.c", "src/ecoli_node_cmd.c", "src/ecoli_node_cond.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_expr.c", "src/ecoli_node_many.c"],
  [("all parse/complete callbacks", "src/ecoli_node_*.c")])
p("P27", "Dynamic nodes parse and complete as the grammar their callback builds",
  "A dynamic node matches and completes exactly as the node its callback returns for the current parse state, and the operation fails cleanly, releasing everything, when the callback returns none. The built node lives as long as the parse tree or completion list that refers to it and is released exactly once.",
  ["inputs", "histories"], "every input within the bounds, every behaviour of the callback and every order of releasing results",
  "Tests exercise one well-behaved callback and one order of release.",
  ["src/ecoli_node_dynamic.c"],
  [("ec_node_dynamic_parse/complete", "src/ecoli_node_dynamic.c")])
p("P28", "User-defined node types are used exactly as they were registered",
  "A registered node type is found by its exact name; a name that is taken is refused unless the new type overrides it, after which new nodes have the new type while existing ones keep theirs. A node starts with zeroed private data of the declared size; its initialisation, configuration, parse, completion, description, child and release callbacks are called for that node, their results are honoured below every kind of node (an error is reported, a mismatch lets other alternatives be tried, a count is what is read, more words than there are is an error), absent ones fall back as documented, and the release callback runs exactly once, except when initialisation failed.",
  ["inputs", "configurations", "histories"], "every name within the bounds, every combination of callbacks, every result value of theirs, every context and word list within the bounds",
  "Tests only use the built-in types, whose callbacks return a few values.",
  ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "include/ecoli_node.h"],
  [("ec_node_type_register / lookup, ec_node_from_type, ec_node_free", "src/ecoli_node.c"), ("__ec_parse_child", "src/ecoli_parse.c"), ("ec_complete_child", "src/ecoli_complete.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
