"""Which harness entries decide which property, and with which bounds per tier."""

COMMON_ASSUMPTIONS = [
    "clang-18 bitcode at -O1 without optimisation passes, then sroa/early-cse/simplifycfg, represents the C sources; x86-64 little endian",
    "the engine (engine/*.cpp) and Z3 are trusted; each run cross-checks sampled path models against a native ASAN build",
    "libc is the model in model/libc.c (C locale); memory allocated by malloc starts filled with 0xCD",
    "single thread; library initialised once; log messages are formatted and discarded",
]

PROPS = {}


def prop(pid, units, assumptions=()):
    PROPS[pid] = dict(units=units, assumptions=list(assumptions))


def u(entry, file, bounds, quick=None, thorough=None, shards=1, tshards=None, env=None, covers=("end",),
      samples=24, tsamples=48, max_time=300, tmax_time=3000, max_instr=40000000, max_depth=1500, tiers=("quick", "thorough"), weight=1, name=None):
    return dict(entry=entry, file=file, bounds=bounds, quick=quick or {}, thorough=thorough if thorough is not None else (quick or {}),
                shards=shards, tshards=tshards or shards, env=env, covers=list(covers), samples=samples, tsamples=tsamples,
                max_time=max_time, tmax_time=tmax_time, max_instr=max_instr, max_depth=max_depth, tiers=tiers, weight=weight, name=name or entry)


def units(pid, tier):
    out = []
    q = tier == "quick"
    for x in PROPS[pid]["units"]:
        if tier not in x["tiers"]:
            continue
        d = x["quick"] if q else x["thorough"]
        fmt = x["bounds"]
        for k, v in d.items():
            fmt = fmt.replace("{%s}" % k, str(v))
        out.append(dict(name=x["name"], entry=x["entry"], file=x["file"], defs=dict(d), bounds=fmt,
                        shards=x["shards"] if q else x["tshards"], env=x["env"], covers=x["covers"],
                        samples=x["samples"] if q else x["tsamples"], max_time=x["max_time"] if q else x["tmax_time"],
                        max_instr=x["max_instr"], max_depth=x["max_depth"], weight=x["weight"]))
    return out


prop("P01", [
    u("h_lex", "p01.c", "every line of at most {N} bytes, every option combination", dict(N=7), dict(N=8), shards=4, tshards=4, covers=("end",), weight=5),
    u("h_node", "p01.c", "every line of at most {N} bytes parsed through a shell lexer node", dict(N=6), dict(N=7), covers=("end", "nomatch")),
    u("h_long", "p01.c", "words of 4093.. and 8189.. bytes, bare, quoted or after another word, then any {T} bytes", dict(T=3), dict(T=4), shards=8, covers=("end", "refused", "read")),
])

prop("P02", [
    u("h_leaf", "p02.c", "leaf nodes against 0..2 words of at most 3 arbitrary bytes, literals of at most 3 arbitrary bytes"),
    u("h_parse", "large.c", "repetitions of up to 257 words with limits around them and around 2^8 and 2^16; sequences, alternatives, options, nesting of up to 66 nodes; subsets of 8; literals and words of up to 258 bytes; one arbitrary byte in the words", shards=8, covers=("end", "match", "nomatch"), name="h_large"),
    u("h_shlex", "p02b.c", "a shell lexer over all grammars of depth <= 1 over 8 node kinds, alone, in a sequence or an alternative; no word, every line of at most {N} bytes, and one followed by another word", dict(N=3), dict(N=4), shards=16, covers=("end", "match", "nomatch")),
    u("h_match", "p02.c", "all grammars of depth <= {D} over 9 node kinds (binary inner nodes, 6 repetition ranges), 0..{W} words of one arbitrary byte", dict(D=2, W=2), dict(D=2, W=4), shards=8, covers=("end", "match", "nomatch")),
    u("h_wide", "p02.c", "sequences and alternatives of {NK} literals (one of them, at any place, open, optional, repeated or equal to the first), alone, before another word or repeated, {W}-2..{W} words (4 for repeated alternatives) of one arbitrary byte", dict(NK=6, W=7), dict(NK=9, W=9), shards=8, covers=("end", "match", "nomatch")),
    u("h_many", "p02.c", "repetitions of 4 children with any 64-bit minimum and maximum, 0..{W} words of one arbitrary byte", dict(W=3), dict(W=5), shards=1, covers=("end", "refused")),
    u("h_deep", "p02.c", "grammars of depth 3 over 6 node kinds (1 to 3 children), 0..{W} words of one arbitrary byte", dict(W=3), dict(W=4), shards=8, weight=9),
])

prop("P03", [
    u("h_tree", "p03.c", "sequence, alternative, subset, repetition and option over all children of depth <= 1 (second child of depth {DB}), 10 node kinds, 0..{W} words of one arbitrary byte", dict(W=3, DB=1), dict(W=4, DB=1), shards=16, covers=("end", "match", "nomatch")),
    u("h_parse", "large.c", "trees of repetitions of up to 257 words, sequences and alternatives of up to 66 nodes, subsets of 8", shards=8, covers=("end", "match", "nomatch"), name="h_large"),
    u("h_wide", "p03.c", "sequences and alternatives of {NK} children, alone, before another word or repeated, 0..{W} words of one arbitrary byte", dict(NK=5, W=5), dict(NK=7, W=7), shards=8, covers=("end", "match", "nomatch")),
    u("h_tree3", "p03.c", "sequence, alternative and subset of three children, 0..{W} words of one arbitrary byte", dict(W=4), dict(W=5), shards=8, covers=("end", "match", "nomatch")),
])

prop("P05", [
    u("h_subset", "p05.c", "subsets of 1..3 children of depth <= 1, alone or in a sequence or repetition, 0..{W} words of one arbitrary byte", dict(W=4), dict(W=5), shards=16, covers=("end", "match")),
    u("h_wide", "p05.c", "subsets of {NK} literals (one of them open, optional, repeated or equal to the first), alone, before another word or repeated, 0..{W} words of one arbitrary byte", dict(NK=4, W=5), dict(NK=5, W=6), shards=16, covers=("end", "match")),
    u("h_best", "p05.c", "subsets of 2 to {NK}+2 literals and one child, at any place, reading the first or last 1 to 5 of their words; the words in order, one of them arbitrary", dict(NK=4), dict(NK=5), shards=16, covers=("end", "match")),
    u("h_once", "p05.c", "once nodes in 6 shapes (repetition, sequence, option, subset, shared child), alone or below one or two more nodes, 0..{W} words of one arbitrary byte", dict(W=5), dict(W=6), shards=4, covers=("end", "match")),
])

prop("P04", [
    u("h_int", "p04.c", "signed and unsigned nodes, each presence of min/max/base and both constructors, any 64-bit limits, 6 bases, every word of at most {N} bytes", dict(N=2), dict(N=3), shards=16, tshards=32, covers=("end", "accepted", "refused")),
    u("h_int", "p04.c", "the same with {FEWLIM} pairs of limits (open, narrow, ...), every word of at most {N} bytes", dict(N=3, FEWLIM=2), dict(N=4, FEWLIM=3), shards=24, tshards=32, covers=("end", "accepted"), name="h_word"),
    u("h_edge", "p04.c", "11 prefixes close to the 64-bit limits followed by at most {KL} arbitrary bytes, any limits", dict(KL=3), dict(KL=4), shards=16, covers=("end", "accepted")),
    u("h_reconf", "p04.c", "every pair of configurations applied in turn, words of at most 2 bytes"),
])

prop("P23", [
    u("h_prefix", "p23.c", "every pair of strings of at most {N} bytes", dict(N=5), dict(N=7)),
    u("h_num", "p23.c", "every string of at most {N} bytes, any 64-bit limits, 6 bases", dict(N=2), dict(N=3), shards=16, covers=("end", "accepted")),
    u("h_num", "p23.c", "every string of at most {N} bytes, {FEWLIM} pairs of limits, 6 bases", dict(N=3, FEWLIM=6), dict(N=4, FEWLIM=3), shards=16, covers=("end", "accepted"), name="h_word"),
    u("h_fmtlong", "p23.c", "texts of 16 lengths up to 65536 bytes with one arbitrary byte"),
    u("h_fmt", "p23.c", "4 formats, string arguments of at most {N} bytes, any character or byte value", dict(N=6), dict(N=8)),
])

prop("P09", [
    u("h_hist", "p09.c", "every history of {OPS} set/set-NULL/delete operations over 3 keys on tables and dictionaries holding 0, 7 or 8 entries (the table grows at 8)", dict(OPS=5), dict(OPS=6), shards=24, covers=("end", "set", "del")),
    u("h_sym", "p09.c", "every history of {OPS} operations over two keys of one symbolic character out of {KR}", dict(OPS=3, KR=8), dict(OPS=3, KR=26), shards=16, covers=("end", "set", "del")),
    u("h_hist", "p09.c", "every history of {OPS} operations over 3 keys, tables and dictionaries of 0, 7 or 8 entries, the hash of each key being any value in one of three buckets (every collision before and after the table grows)", dict(OPS=2), dict(OPS=3), shards=24, env="env_hash.h", covers=("end", "set", "del"), name="h_place"),
    u("h_big", "p09.c", "tables and dictionaries of 15 to 17, 31 to 33, 63 to 65 (127 to 129) entries, at most {BIG}, one change at 5 places, without a copy or after one", dict(BIG=129), dict(BIG=129), shards=16),
    u("h_longkey", "p09.c", "pairs of keys of 19 lengths from 3 to 300 bytes, equal, differing in one byte at 5 places, or in length, on tables, dictionaries and their copies"),
    u("h_binkey", "p09.c", "hash-table keys of 1..2 symbolic bytes", dict(KR=4), dict(KR=8), shards=4),
])

prop("P10", [
    u("h_dup", "p09.c", "every history of {PRE} operations, a copy, then {OPS} operations on either table, both destruction orders; tables of 0, 2 or 8 more entries", dict(PRE=2, OPS=2), dict(PRE=2, OPS=3), shards=24, covers=("end", "set", "del")),
    u("h_dupsym", "p09.c", "{PRE} operations, a copy, then {OPS} operations on either table, over two keys of one symbolic character out of {KR}, tables of 0 or 2 more entries", dict(PRE=1, OPS=1, KR=4), dict(PRE=1, OPS=2, KR=4), shards=16, covers=("end", "set", "del")),
    u("h_dup", "p09.c", "{PRE} operations, a copy, then {OPS} operations on either table, over {NKEY} keys with any hash in one of three buckets; tables of 0 or 8 more entries", dict(PRE=1, OPS=1, NKEY=2), dict(PRE=1, OPS=2, NKEY=3), shards=16, env="env_hash.h", covers=("end", "set", "del"), name="h_dupplace"),
    u("h_big", "p09.c", "tables and dictionaries of 15 to 17, 31 to 33, 63 to 65 (127 to 129) entries, at most {BIG}, one change at 5 places, without a copy or after one", dict(BIG=129), dict(BIG=129), shards=16),
    u("h_chain", "p09.c", "two successive copies with an operation after each, every destruction order", covers=("end", "set", "del")),
])

prop("P11", [
    u("h_hist", "p11.c", "every history of {OPS} operations (add, set, delete, sub-range copy with any offsets, attributes) over up to 3 vectors, one-byte symbolic strings", dict(OPS=4), dict(OPS=5), shards=16, covers=("end", "copied", "set", "attrs"), weight=4),
    u("h_big", "p11.c", "vectors of {BL}-1 or {BL} words of 0 to 300 bytes copied, then one word (of at most 2 arbitrary bytes, or with one byte changed) set at any place, added, the last deleted, or sorted, or sub-range copies with any 64-bit offset and length", dict(BL=8), dict(BL=16), shards=8),
    u("h_cmp", "p11.c", "every pair of vectors of at most 2 strings of at most {N} bytes", dict(N=3), dict(N=4), covers=("end", "equal", "differ")),
    u("h_sort", "p11.c", "every vector of at most {N} one-byte strings (with attributes), default and custom order", dict(N=4), dict(N=5), covers=("end",)),
    u("h_ndup", "p11.c", "sub-range copies with any 64-bit offset and length of vectors of at most 3 strings", covers=("end", "refused", "copied")),
    u("h_many", "p11.c", "a vector of 2 words copied up to 300 times, the original changed, all but one of the copies released in either order, attributes set, taken away and set again", shards=4),
    u("h_text", "p11.c", "strings of at most {N} arbitrary bytes through add, set, array construction and dump", dict(N=5), dict(N=8)),
])

prop("P12", [
    u("h_hist", "p12.c", "every history of {OPS} appends and sub-range copies (any offset and length) over up to 3 vectors, element sizes 1, 2, 4, 8, with and without callbacks, symbolic elements", dict(OPS=4), dict(OPS=5), shards=16, covers=("end", "copied", "refused"), weight=4),
    u("h_big", "p12.c", "vectors of {N}-2 to {N} elements of 6 sizes up to 40 bytes, with and without callbacks, one element symbolic, sub-range copies with any 64-bit offset and length", dict(N=6), dict(N=12), shards=8),
    u("h_grow", "p12.c", "vectors of 20 lengths from 15 to 258 elements of 5 sizes, copied from 4 places on, 0 or 40 elements more in the copy", shards=4),
    u("h_elt", "p12.c", "elements of 1..9 bytes appended by reference, any initial size of at most 3, any index"),
])

prop("P07", [
    u("h_iter", "p07.c", "every distribution of at most {ITEMS} items of the three kinds over up to 3 groups (siblings, nested at the start or in the middle of a group, merged lists), one-byte symbolic texts, all 8 masks", dict(ITEMS=4), dict(ITEMS=5), shards=16, covers=("end", "merge", "completion")),
    u("h_text", "p07.c", "every item with any kind, symbolic start and text of at most {NL} bytes and each setter", dict(ITEMS=1, NL=2, SETTERS=1), dict(ITEMS=2, NL=2, SETTERS=1), covers=("end", "completion")),
    u("h_longtext", "p07.c", "texts of 1 to {LONG} bytes (12 lengths) with a start of that length, up to 2 more arbitrary bytes, any one byte out of 3 changed", dict(LONG=300), dict(LONG=300), covers=("end", "completion")),
    u("h_refuse", "p07.c", "one item of any 8-bit kind with or without start and text", covers=("end", "accepted", "refused")),
])

prop("P06", [
    u("h_comp", "p06.c", "all grammars of depth <= {D} over 11 node kinds, up to {W} words (complete ones of one byte, the last of 0..{LW} arbitrary bytes)", dict(D=1, W=3, LW=3), dict(D=2, W=2, LW=2), shards=8, tshards=24, covers=("end", "proposed", "nothing")),
    u("h_deep", "p06.c", "sequence, alternative, subset and repetition over children of depth <= {D} and {DB}, with prefix-sharing literals, up to {W} words", dict(D=1, DB=0, W=3, LW=2), dict(D=1, DB=1, W=3, LW=2), shards=16, covers=("end", "proposed", "nothing"), weight=5),
    u("h_once", "p06.c", "once nodes in 5 shapes, up to {W} words", dict(W=4, LW=1), dict(W=5, LW=2), shards=8, covers=("end", "proposed", "nothing")),
    u("h_comp", "large.c", "alternatives of up to 66 words, literals and typed words of up to 258 bytes, sequences and repetitions of up to 17 words, subsets of up to 8; one arbitrary byte in the words", shards=8, covers=("end", "proposed", "nothing"), name="h_large"),
    u("h_row", "p06.c", "alternatives of 7 literals sharing beginnings, alone or repeated; sequences and subsets of {NR} literals, one of them optional; up to {W} words, the last of 0..{LW} arbitrary bytes", dict(NR=5, W=5, LW=3), dict(NR=6, W=6, LW=3), shards=16, covers=("end", "proposed", "nothing")),
    u("h_wide", "p06.c", "sequence, subset and alternative of three children (words, optional words), alone or before another element, repeated, in a subset; up to {W} words", dict(W=4, LW=1), dict(W=5, LW=1), shards=8, covers=("end", "proposed", "nothing")),
])

prop("P08", [
    u("h_lexcomp", "p08.c", "every line of at most {N} bytes, five grammars over the literals a, ab and 'a c', with and without an alternative outside the lexer", dict(N=5), dict(N=6), shards=24, covers=("end", "quoted", "bare", "accepted")),
    u("h_around", "p08b.c", "every line of at most {N} bytes, or two words, given to a lexer over a node proposing full, partial and unknown items, with 0 to 3 alternatives proposing words before it and one after it", dict(N=3), dict(N=4), shards=16, covers=("end", "quoted", "read", "not")),
])

prop("P13", [
    u("h_children", "p13b.c", "26 grammars with every node kind, nodes of depth <= 2, every child index of 64 bits"),
    u("h_row", "p13b.c", "sequences, alternatives and subsets of 1 to {NC} children, two of them the same node or not", dict(NC=12), dict(NC=20), shards=4),
    u("h_graph", "p13.c", "every graph of {NN} nodes (or, seq, subset) with at most {KIDS} ordered children each, any identifiers of two bytes, cycles, sharing and duplicates included; every order of dropping the references", dict(NN=3, KIDS=3), dict(NN=4, KIDS=2), shards=16, tshards=24, weight=5),
    u("h_kinds", "p13.c", "16 ways of attaching a child, with or without a cycle and a second user, every order of dropping the references"),
    u("h_find", "p13.c", "every graph of 3 nodes (cycles included) with at most 2 children, every identifier of one byte (two on one node) and every one of at most two bytes sought, every starting node", shards=4, covers=("end", "found")),
    u("h_grammar", "longid.c", "two nodes with identifiers of up to 257 bytes and one sought of up to 258, equal or differing in any byte at one of three places or in length, side by side or 40 levels deep", shards=4, covers=("end", "found", "none"), name="h_longid"),
    u("h_refs", "longid.c", "one node with up to 300 references: held, as children of one node, as children of as many nodes, in cycles with 17 of them; every order of dropping", shards=8),
])

prop("P14", [
    u("h_cmp", "p14.c", "every pair of configuration values of nesting depth <= {D} (7 types, at most 2 elements), symbolic integers, booleans and strings of at most {SL} bytes", dict(D=1, SL=2), dict(D=2, SL=1), shards=8, covers=("end", "equal", "differ")),
    u("h_dup", "p14.c", "every value of nesting depth <= {D}, copied, then the source or the copy changed at the top or one level below, or released", dict(D=2, SL=3), dict(D=2, SL=4), shards=8),
    u("h_validate", "p14.c", "every value of nesting depth <= 2 under each of 9 schema entries and 2 unknown keys, alone or with other entries", shards=4, covers=("end", "valid", "invalid")),
    u("h_schema", "p14.c", "every schema of at most 2 entries over 7 keys, 8 types and 12 subschemas", covers=("end", "ok")),
    u("h_schemas", "p14.c", "schemas of at most {NSC} entries, any two of which share a key, or any one of which has a reserved key or none", dict(NSC=8), dict(NSC=9), covers=("end", "ok")),
    u("h_long", "p14.c", "strings and keys of 16 lengths up to 300 bytes, of which the first, middle or last byte or the one after the end is arbitrary"),
    u("h_many", "p14.c", "lists and dictionaries of {NB}-4 to {NB} elements, any of which has any other value, is missing, or is deleted from a copy", dict(NB=20), dict(NB=36), shards=8),
    u("h_misuse", "p14.c", "every operation on values of depth <= 1 of every type, on nothing, without key or value", dict(SL=1), dict(SL=1)),
    u("h_reconf", "p14.c", "7 node types given three configurations in turn, each with any subset of its optional entries or children; up to two words", shards=4, covers=("end", "match", "nomatch")),
    u("h_node", "p14.c", "11 node types, a valid configuration followed by any of: a valid one, an equal one, a missing, unknown, mistyped (any value of depth 1) or unusable entry", covers=("end", "accepted", "refused")),
    u("h_dump", "p14.c", "signed and unsigned integers from -3 to 3"),
])

prop("P16", [
    u("h_expr", "p16.c", "every list of at most {W} words of one arbitrary byte, two binary, prefix, postfix operators and parenthesis pairs, any one of the first {CB} callbacks failing", dict(W=5, CB=7), dict(W=6, CB=8), shards=24, tshards=24, covers=("end", "value", "failed", "nomatch")),
    u("h_long", "p16.c", "every list of {W} words over x y * + ! ^ ( ), any one of the first {CB} callbacks failing", dict(W=6, CB=8), dict(W=7, CB=9), shards=16, covers=("end", "value", "failed", "nomatch")),
    u("h_bins", "p16.c", "three precedences: every list of {W} words over x y * + &, any one of the first {CB} callbacks failing", dict(W=7, CB=8), dict(W=9, CB=10), shards=8, covers=("end", "value", "failed", "nomatch")),
    u("h_minus", "p16.c", "an operator that is both prefix and binary: every list of {W} words over x y * - ( ), any one of the first {CB} callbacks failing", dict(W=6, CB=8), dict(W=7, CB=9), shards=16, covers=("end", "value", "failed", "nomatch")),
    u("h_cfg", "p16.c", "5 orders of configuration, 24 sets of operators and parentheses, every list of at most {W} words of one arbitrary byte", dict(W=2, CB=3), dict(W=3, CB=4), shards=16, covers=("end", "value", "failed", "nomatch", "incomplete")),
    u("h_big", "p16.c", "chains of up to 18 binary, 16 prefix or postfix operators, 10 nested parentheses of 3 kinds, 10 precedences in three orders, one word of any byte, a callback failing at one of 4 places", dict(BIG=10, CB=4), dict(BIG=10, CB=6), shards=16, covers=("end", "value", "failed", "nomatch")),
    u("h_sets", "p16.c", "16 sets of operators, every list of at most {W} words of one arbitrary byte", dict(W=4, CB=6), dict(W=5, CB=7), shards=16, tshards=24, covers=("end", "value", "failed", "nomatch")),
])

prop("P18", [
    u("h_cond", "p18.c", "node-set, boolean and count conditions over 9 node sets, 4 children, 3 surroundings, 0..{W} words of one arbitrary byte", dict(W=2), dict(W=3), shards=8, covers=("end", "true", "false")),
    u("h_sets", "p18.c", "equality of every pair of 9 node sets, 0..{W} words of one arbitrary byte", dict(W=2), dict(W=3), shards=8, covers=("end", "true", "false")),
    u("h_logic", "p18.c", "or, and (2 or 3 arguments), comparisons of strings and booleans, literals, counts; 0..1 words", dict(W=1), shards=8, covers=("end", "true", "false")),
    u("h_nest", "p18.c", "or of and, and of or", dict(W=2), shards=4, covers=("end", "true", "false")),
    u("h_chain", "p18.c", "the size of 72 node sets made by two steps (children of what is found, what is found below what is found ...), nodes of the same identifier below or beside each other, 3 children, 2 surroundings, 0..{W} words of one arbitrary byte", dict(W=2), dict(W=3), shards=8, covers=("end", "true", "false")),
    u("h_vals", "p18.c", "comparisons of every pair of 10 numbers up to 2^63-1 and of 10 words, words as truth values, or and and of 4 to 6 arguments, the value handed through by or and and of 2 or 3 numbers", dict(W=1), shards=8, covers=("end", "true", "false")),
    u("h_pass", "p18.c", "the size of the node set handed through by or and and of every pair of 9 node sets, 0..{W} words of one arbitrary byte", dict(W=1), dict(W=3), shards=8, covers=("end", "true", "false")),
    u("h_err", "p18.c", "29 conditions with wrong arguments", dict(W=1), shards=4, covers=("end", "error")),
    u("h_malformed", "p18.c", "19 malformed conditions"),
    u("h_syntax", "p18.c", "every text of at most {N} bytes as condition", dict(N=4), dict(N=5), shards=16, covers=("end", "accepted", "refused")),
])

prop("P17", [
    u("h_text", "p17.c", "every text of at most {N} bytes as description, three supplied nodes, 0..{W} words of one arbitrary byte", dict(N=4, W=2), dict(N=5, W=2), shards=8, covers=("end", "match", "nomatch", "refused")),
    u("h_big", "p17.c", "repetitions over up to 129 words; sequences, alternatives, subsets, options and nesting of up to 11 names; names of up to 65 bytes; one arbitrary byte in the words", shards=16, covers=("end", "match", "nomatch")),
    u("h_long", "p17.c", "every well-formed description of {N} characters out of ab |(),*+, 0..{W} words of one arbitrary byte", dict(N=6, W=3, ALPHA=0), dict(N=7, W=3, ALPHA=0), shards=16, covers=("end", "match", "nomatch"), name="h_long0"),
    u("h_long", "p17.c", "every well-formed description of {N} characters out of ax,|*()[ and blank", dict(N=6, W=3, ALPHA=1), dict(N=7, W=3, ALPHA=1), shards=16, covers=("end", "match", "nomatch"), name="h_long1"),
    u("h_long", "p17.c", "every well-formed description of {N} characters out of ab[]()* and blank", dict(N=6, W=2, ALPHA=2), dict(N=7, W=3, ALPHA=2), shards=16, covers=("end", "match", "nomatch"), name="h_long2"),
    u("h_long", "p17.c", "every well-formed description of {N} characters out of xyz,|() and blank (supplied nodes)", dict(N=6, W=3, ALPHA=3), dict(N=7, W=3, ALPHA=3), shards=16, covers=("end", "match", "nomatch"), name="h_long3"),
])

prop("P19", [
    u("h_re", "p19.c", "10 patterns, set directly, replaced, or kept after a refused change; every word of at most {N} bytes", dict(N=4), dict(N=6), shards=4, covers=("end", "match", "nomatch")),
    u("h_lex", "p19.c", "0 to 3 patterns out of 10, kept or dropped, with and without attribute, five children, 0..2 words, the first of at most {N} arbitrary bytes", dict(N=3), dict(N=5), shards=8, covers=("end", "match", "nomatch", "rejected")),
])

prop("P20", [
    u("h_nav", "p20.c", "every tree of at most {M} nodes with identifiers of one arbitrary byte (or no grammar node), every node as root, any identifier searched, then one of 5 changes at every position", dict(M=5), dict(M=6), shards=8),
    u("h_dup", "p20.c", "every tree of at most {M} nodes, copied from every node, with an attribute on any node; the original or the copy changed or released, copies of copies", dict(M=6), dict(M=7), shards=16),
    u("h_parse", "p20.c", "trees parsed by all grammars of depth <= 2 over 5 node kinds from 0..{W} words of one arbitrary byte, copied from every node", dict(W=3), dict(W=4), shards=8, covers=("end", "match")),
    u("h_tree", "longid.c", "trees of nodes with identifiers of up to 257 bytes, one sought of up to 258 equal or differing in any byte at one of three places or in length", shards=4, covers=("end", "found"), name="h_longid"),
])

prop("P21", [
    u("h_init_order", "p21.c", "{NI} more initialisers with any 32-bit priority and result, with or without initialiser and exit function", dict(NI=3), dict(NI=3), shards=8, tshards=8, covers=("end", "failed", "ok")),
    u("h_again", "p21.c", "two rounds of initialisation, use of a command, conditional or regular-expression node, and exit"),
    u("h_logtype", "p21.c", "two type names of at most {N} arbitrary bytes, any 32-bit type number", dict(N=2), dict(N=4), covers=("end", "unknown", "known")),
    u("h_logmany", "p21.c", "140 types, and two long names (10 lengths up to 130 bytes) that differ in one arbitrary byte"),
    u("h_log", "p21.c", "any 32-bit level set and used, text of at most {N} arbitrary bytes, registered and default handler", dict(N=2), dict(N=4), covers=("end", "handler", "printed", "hidden")),
    u("h_alloc", "p21.c", "any 64-bit size, strings of at most {N} bytes, handler granting or refusing", dict(N=3), dict(N=6)),
    u("h_bigcalloc", "p21.c", "11 sizes from 255 to 70001 bytes, as count or as size of the elements", covers=("end",)),
    u("h_calloc", "p21.c", "one factor out of {FEW} values (0, 1, powers of two, 2^64-1, ...), the other any 64-bit value", dict(FEW=8), dict(FEW=14), shards=8, covers=("end", "overflow", "zeroed")),
])

prop("P22", [
    u("h_file", "p22.c", "every partial path of at most {N} bytes over a file system with two populated directories, an empty one and a file, reached through any components, '.' and repeated slashes included; at most {NE} entries with names of at most {NL} bytes and 6 kinds (directory, file, link, unknown type resolved to each or unreadable)", dict(N=5, NE=2, NL=3), dict(N=6, NE=3, NL=3), shards=16, env="env_file.h", covers=("end", "proposed", "unreadable")),
    u("h_fault", "p22.c", "the same with a failing or unexpected stat, open or n-th read of the directory", dict(N=3, NE=2, NL=2), dict(N=4, NE=3, NL=2), shards=8, env="env_file.h", covers=("end", "unreadable")),
    u("h_parse", "p22.c", "0..2 words of at most {N} bytes", dict(N=2), dict(N=3), env="env_file.h"),
], ["lstat, stat, fstatat, opendir, readdir, closedir and dirfd are stand-ins of harness/p22.c: a file system with the directories '.', '/', 'd' and the file 'f'"])

prop("P24", [
    u("h_create", "p24.c", "16 flag combinations, each request to libedit failing in turn", covers=("end", "created", "failed")),
    u("h_history", "p24.c", "every sequence of {OPS} operations (change of history with a failure at any request, end of file, lines of at most {N} arbitrary bytes with or without newline, prompts)", dict(OPS=3, N=2), dict(OPS=4, N=3), shards=8, covers=("end", "entered", "refused")),
    u("h_items", "p24.c", "at most {ITEMS} proposals of the three kinds over two nodes, texts of {NL} arbitrary bytes", dict(ITEMS=4, NL=2), dict(ITEMS=4, NL=3), shards=8, covers=("end", "common")),
    u("h_key", "p24.c", "completion and help keys with at most {ITEMS} proposals over two nodes, texts of {NL} printable bytes", dict(ITEMS=3, NL=2), dict(ITEMS=3, NL=3), shards=16, covers=("end", "help", "inserted", "printed")),
    u("h_cols", "p24.c", "0 to {MM} matches of 4 length profiles with one arbitrary printable byte, terminals of 6 widths", dict(MM=9), dict(MM=16), shards=8, covers=("end", "columns")),
    u("h_long", "p24.c", "lines of 13 lengths up to 513 bytes with one arbitrary byte, read, parsed, and taken from the terminal"),
    u("h_line", "p24b.c", "every line of at most {N} bytes with any cursor position over three grammars with a shell lexer, completion and help keys", dict(N=4), dict(N=5), shards=8, covers=("end", "help", "inserted", "listed")),
    u("h_suggest", "p24b.c", "suggestions for, and parsing of, every line of at most {N} bytes over the same grammars", dict(N=4), dict(N=5), shards=8, covers=("end", "beginning", "start")),
], ["libedit is replaced by the stand-in in harness/p24.c (records what is inserted, printed, entered in the history)"])

prop("P25", [
    u("h_entry", "p25.c", "a mapping with a type out of 13 and one entry of 13 known keys, any key of at most 2 bytes or a key that is no scalar; values: scalars of at most {N} bytes, lists, nodes, shared nodes, cycles, mappings", dict(N=2), dict(N=3), shards=8, env="env_yaml.h", covers=("end", "imported", "refused")),
    u("h_full", "p25.c", "identifier, help, attributes (well-formed or not), limits and repeated entries, texts of at most {N} bytes", dict(N=1), dict(N=2), shards=8, env="env_yaml.h", covers=("end", "imported", "refused")),
    u("h_num", "p25.c", "numbers of at most {N} arbitrary bytes, booleans with any byte changed, pattern entries", dict(N=4), dict(N=5), shards=8, env="env_yaml.h", covers=("end", "imported", "refused")),
    u("h_keys", "p25.c", "29 key names, and each with any byte changed or added, in three kinds of node", shards=8, env="env_yaml.h", covers=("end", "imported", "refused")),
    u("h_shared", "p25.c", "up to 6 children of which any one is named again, also inside an optional node", shards=4, env="env_yaml.h", covers=("end", "imported")),
    u("h_fail", "p25.c", "missing file, parser or document failure, empty document, document that is no mapping", env="env_yaml.h"),
    u("h_parse", "p25.c", "all grammars of depth <= {D} over 7 node kinds, up to {W} words of one arbitrary byte", dict(D=2, W=2), dict(D=2, W=3), shards=16, env="env_yaml.h"),
], ["fopen, fclose and the libyaml functions are stand-ins of harness/p25.c that hand out the document tree"])

prop("P28", [
    u("h_registry", "p28.c", "every sequence of registrations of {T} types with names of at most {NS} arbitrary bytes, overriding or not, then any such name looked up", dict(T=3, NS=2), dict(T=3, NS=3), shards=16, covers=("end", "new", "override", "refused")),
    u("h_longname", "p28.c", "two types with names of up to 258 bytes, equal or differing in any byte at one of three places or in length", shards=4, covers=("end", "same", "other")),
    u("h_life", "p28.c", "a type with any combination of initialiser, schema, configuration and description callbacks, any 32-bit results of theirs, private sizes 0, 1, 8, 100; two configurations (any 64-bit value, wrong type, unknown key, empty)", shards=8, covers=("end", "noinit", "set")),
    u("h_parse", "p28.c", "a type with any 32-bit parse result or no parse callback, alone or below 7 kinds of nodes, 0..3 words of one arbitrary byte", shards=8, covers=("end", "error", "match", "yes", "no")),
    u("h_complete", "p28.c", "a type with any 32-bit completion result or no completion callback, alone or below 6 kinds of nodes, 0..2 words", shards=4, covers=("end", "error", "items", "none")),
    u("h_child", "p28.c", "a type with a child, in a cycle or not, every order of dropping the references"),
])

prop("P27", [
    u("h_parse", "p27.c", "a callback building any grammar of depth <= {D} over 8 node kinds afresh or from a cache, or none at any of its first 3 calls; 7 surroundings, up to {W} words of one arbitrary byte, 4 orders of copying and releasing", dict(D=1, W=3), dict(D=1, W=4), shards=16, covers=("end", "match", "nomatch", "error")),
    u("h_complete", "p27.c", "the same, completing up to {W} words, the last of 0..{LW} arbitrary bytes", dict(D=1, W=3, LW=2), dict(D=1, W=4, LW=2), shards=16, covers=("end", "proposed", "error")),
    u("h_complete", "p27.c", "the proposals of two such completions merged in one list", dict(D=1, W=2, LW=1, MERGE=1), dict(D=1, W=3, LW=2, MERGE=1), shards=16, covers=("end", "proposed", "merged"), name="h_merge"),
    u("h_counter", "p27.c", "a callback that depends on the parse state, up to {W}+2 words of one arbitrary byte", dict(W=4), dict(W=5), covers=("end", "proposed")),
])

prop("P26", [
    u("h_line", "p26.c", "every line of at most {N} bytes over a shell-like lexer and 26 grammars with every node kind (4 recursive ones), parsed or completed, copied, dumped", dict(N=4), dict(N=5), shards=16, tshards=24, weight=4),
    u("h_words", "p26.c", "0..{W} words of at most {N} (then {N}-1) bytes over the same 26 grammars", dict(N=2, W=4), dict(N=2, W=5), shards=16, weight=4),
    u("h_inspect", "p26.c", "26 grammars dumped and described, any identifier of at most {N} bytes searched", dict(N=2), dict(N=4)),
    u("h_desc", "p26.c", "every text of at most {N} bytes as command description or condition, then {W} words parsed or completed", dict(N=3, W=2), dict(N=4, W=3), shards=8, covers=("end", "accepted", "refused")),
    u("h_pattern", "p26.c", "16 patterns, well-formed or not, every word of at most {N} bytes", dict(N=3), dict(N=4), shards=1),
], ["recursive grammars that recurse without reading a word are excluded: they do not describe a language"])

prop("P15", [
    u("h_build", "p15.c", "26 grammars with every node kind, any one memory request failing", shards=8, covers=("end", "done", "failed")),
    u("h_parse", "p15.c", "the 26 grammars, up to {W} words out of 6, any one memory request failing", dict(W=2), dict(W=3), shards=8, covers=("end", "done", "failed")),
    u("h_complete", "p15.c", "the 26 grammars, up to {W} words, any one memory request failing", dict(W=2), dict(W=3), shards=8, covers=("end", "done", "failed")),
    u("h_strvec", "p15b.c", "8 operations on string vectors of 0..3 words, shared or not, a word of at most {N} arbitrary bytes, any one memory request failing", dict(N=2), dict(N=4), covers=("end", "done", "failed")),
    u("h_table", "p15b.c", "adding, overwriting and copying in tables and dictionaries of 0, 1, 7, 8 or 9 entries, shared or not, any one memory request failing", shards=4, covers=("end", "done", "failed")),
    u("h_vec", "p15b.c", "vectors of 0..3 elements with and without callbacks, any one memory request failing", covers=("end", "done", "failed")),
    u("h_config", "p15b.c", "7 configurations built, copied, set in a dictionary, added to a list; a configured node reconfigured; any one memory request failing", shards=4, covers=("end", "done", "failed")),
    u("h_reconf", "p15b.c", "12 ways of changing an existing node, any one memory request failing", covers=("end", "done", "failed")),
    u("h_comp", "p15b.c", "setters of a proposal, any one memory request failing", covers=("end", "done", "failed")),
    u("h_items", "p15b.c", "a node type adding proposals, any one memory request failing", covers=("end", "done", "failed")),
    u("h_misc", "p15b.c", "copying a tree, formatting, searching a node, setting an attribute, registering a log type, any one memory request failing", covers=("end", "done", "failed")),
    u("h_fileoom", "p15d.c", "completion of a file name in a directory of 1..3 entries, any one memory request failing", env="env_file.h", covers=("end", "done", "failed")),
    u("h_eloom", "p24b.c", "nine operations of the interactive layer on 5 lines and three grammars, any one memory request failing", shards=8, covers=("end", "done", "failed")),
    u("h_oom", "p25.c", "import of five documents with every kind of entry, any one memory request failing", shards=4, env="env_yaml.h", covers=("end", "done", "failed")),
    u("h_initoom", "p15c.c", "initialisation of the library, any one memory request failing", covers=("end", "done", "failed")),
])
