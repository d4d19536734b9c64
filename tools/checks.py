# What decides each property: harness, build flavors, and how cases are made and judged.
SAN = ['-O1', '-g', '-fno-omit-frame-pointer']
FLAVORS = {
    'asan': dict(cxx='g++', flags=SAN+['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DVH_ASAN']),
    'tsan': dict(cxx='g++', flags=SAN+['-fsanitize=thread', '-DVH_TSAN']),
    'heap': dict(cxx='g++', flags=['-O2', '-g', '-DVH_HEAP']),
    'valgrind': dict(cxx='g++', flags=['-O1', '-g', '-DVH_VALGRIND'],
                     run=['valgrind', '-q', '--error-exitcode=86', '--exit-on-first-error=yes', '--undef-value-errors=yes', '--leak-check=no', '--num-callers=20']),
}
def P(harness, flavor='asan', **k): return dict(harness=harness, flavor=flavor, **k)

CHECKS = {}
def check(pid, *parts, rule, **k): CHECKS[pid] = dict(parts=list(parts), rule=rule, **k)

check('X01', P('rx'), area='rx', rule='generated expressions: valid by grammar, mutated, truncated, disabled features, very large; limits on groups and counts; acceptance is judged by how the expression was made, and what is accepted is run; distinct expressions', must_see=['compiled', 'malformed_refused', 'feature_literal', 'offset_located', 'large_over_1000', 'many_groups', 'count_limits', 'name_again'])
check('X02', P('rx'), area='rx', rule='expressions generated from a grammar, with texts built from them; the reported match is compared with a set-based reference matcher; in plain, extended and shell-like syntax; distinct (expression, text) pairs', must_see=['expected_match', 'expected_fail', 'class_escapes', 'white_space_skipped', 'shell_star', 'c_escapes', 'property_names', 'counted', 'neg_lookahead', 'nul_in_text', 'counts_nested_12', 'nul_literal'])
check('X03', P('rx'), area='rx', rule='expressions with groups; every reported capture is checked to lie on some path of a reference matcher; distinct (expression, text) pairs that matched', must_see=['capture_set', 'many_groups', 'unique_derivation'])
check('X04', P('rx', 'heap', shards=4), area='rx', rule='adversarial expressions against texts of length n and 4n, CPU time and heap monitored; distinct expressions')
check('X05', P('rx', 'tsan', shards=4), P('rx', 'heap', check='X05_release', shards=4), area='rx', rule='threads share one program under ThreadSanitizer, each result compared with the result alone; then the heap balanced over compiling, matching and releasing; distinct (expression, text) pairs matched concurrently, and expressions', must_see=['concurrent_matches', 'owned', 'not_owned', 'refused'])
check('X06', P('rx'), area='rx', rule='generated expressions, some with NUL characters, very many or long names, or only literals: a copy of the compiled C string in a heap block of exactly its size is disassembled and matched beside the original; distinct (expression, text) pairs that matched', must_see=['copy_matched', 'copy_failed', 'literal_itself', 'many_names', 'nul_literals', 'branches', 'op Count', 'op NegLookahead', 'op CharProperty'])

check('S01', P('strval'), rule='random histories of up to 60 operations over 3-6 related StrVals (copies, slices, static bodies, aliased arguments); after each operation every value is compared with its own sequence of code points, and at the end the heap must balance; distinct histories', must_see=['cases_balanced_heap'])
check('S02', P('strval'), P('strval', check='S02_raw'), rule='a text and a pattern, whole or as slices; every search from every starting point, and every derivation, is compared with the operation on the sequence of code points; strings of one byte per character likewise, on sequences of bytes; distinct pairs with a text of 2 or more characters', must_see=['search_found', 'search_absent', 'needle_shares_body', 'raw_inserts', 'raw_found', 'raw_absent'])
check('S03', P('strval'), rule='mixed random, sequential and reverse access over copies and slices of non-ASCII texts between mutations, every character compared with the decoded content; distinct histories over texts of 4 or more characters', must_see=['characters_checked'])
check('S04', P('strval'), rule='all pairs among 5 related strings (prefixes, one-character variations, slices sharing a body) compared by every operator against code point order; distinct non-empty pairs', must_see=['less', 'equal', 'greater'])
check('S05', P('strval'), rule='texts from the numeric grammar with values around the 32 and 64 bit limits in every radix, and near-misses; value, error and scan count compared with an independent reading of the documentation; distinct (text, radix) with 2 or more characters', must_see=['result_none', 'result_overflow', 'result_trailing text', 'result_no digits', 'result_not number', 'result_illegal radix', 'wraps_around'])
check('S06', P('strval'), rule='every Unicode scalar value (in blocks) and random texts heavy in escapes and surrogate pairs; the JSON is read back by an independent decoder; distinct texts', must_see=['characters', 'lone_surrogates'])
check('S07', P('strval'), rule='texts, starting points and replacement functions that delete, shrink, grow, multiply, take several characters or stop; result and call sites compared with the model, other holders of the body unchanged; distinct cases of 2 or more characters', must_see=['kind_%d' % i for i in range(9)])
check('S08', P('strval'), P('strval', 'valgrind'), rule='random operation sequences on strings made of fragments of legal, illegal and truncated UTF-8 in exactly-sized buffers, under ASan+UBSan with heap balance, then under valgrind memcheck for uninitialised reads; distinct histories')
check('S09', P('strval'), rule='templates of Unicode literals and %s %d %f %g specifiers with exactly the arguments needed (one more read aborts); distinct templates with arguments', must_see=['arguments'])

check('A01', P('containers'), P('strval', check='A01_strings'), rule='an array of int, instrumented elements or strings, whole or a slice, and every operation on it (each mutation on a sharing and an unshared copy) compared with a plain sequence; and histories of StringArrays (made from strings and C strings, joined) against sequences of strings; distinct (element type, contents) of 2 or more elements', must_see=['search_found', 'search_absent', 'equal', 'unequal', 'join'])
check('A02', P('containers'), P('strval', check='A01_strings'), rule='random histories of up to 70 operations over 2-5 related arrays (copies, slices, static bodies, aliased arguments, mutation while iterating a copy); after each operation every array is compared with its own model, and likewise StringArrays and the strings taken from them, and at the end every instrumented element constructed was destroyed and the heap balances; distinct histories', must_see=['cases_balanced_heap', 'elements_constructed'])
check('M01', P('containers'), rule='random histories of up to 80 operations over 2-4 maps sharing bodies, including arguments that refer into the map and functions that change the map they are called for; after each operation every map is compared with its own std::map, and at the end elements and heap balance; distinct histories', must_see=['lookup_hit', 'lookup_miss', 'changed_inside'])
check('V01', P('containers'), rule='random histories over 2-5 variants of every type, nested to several levels, with self-assignment, assignment from their own elements and coercion; after each operation every variant is compared deeply with its model, and the heap balances; distinct histories', must_see=['coercions']+['final_'+t for t in ('None','Integer','Long','LongLong','String','StrArray','VarArray','StrVarMap')])
check('V02', P('containers'), rule='values of every type around the limits, and numeric texts, coerced to every type; possible coercions must give the same value, impossible ones (tried in a child process) must be refused by assertion; distinct (value, type)', must_see=['refused_Long_to_Integer','refused_LongLong_to_Integer','refused_String_to_Integer','Long_to_Integer','LongLong_to_Integer','String_to_Integer','Integer_to_String'])
check('V03', P('containers'), rule='random trees of variants in every indentation mode, read back by an independent JSON parser and compared deeply, with the documented layout; distinct trees of more than 2 nodes', must_see=['compact','single_line','indented','indented_lines'])

check('U01', P('unicode'), rule='blocks of 32-bit values encoded and decoded against the published layout of UTF-8 as this library extends it, with sequences of characters; distinct blocks')
check('U02', P('unicode'), rule='strings of legal, illegal, truncated and overlong bytes in exactly-sized buffers under ASan; decoding, length, backing up and counting must agree on the character boundaries; distinct texts')
check('U03', P('unicode'), rule='blocks of all Unicode scalar values and random sequences of them, compared with the standard code units; distinct blocks')
check('U04', P('unicode'), P('unicode', 'tsan', check='U04:threads', shards=4), rule='every character through every classification and conversion in many call orders, compared with tables from two independent Unicode sources, then from concurrent threads under ThreadSanitizer; distinct call sequences')
check('U05', P('unicode'), rule='random walks of all movements, of any size, by the four guarded pointers in exactly-sized texts under ASan, compared with a clamped index into the decoded text; distinct walks')

check('R01', P('threads'), P('threads', 'tsan', check='R01:threads', shards=4), P('threads', check='R01:threads', shards=4), rule='random histories of every Ref operation over objects that refer to each other, the destructions compared with a counted graph after each; then threads sharing, handing over and dropping the last references together, under ThreadSanitizer and AddressSanitizer; distinct histories', must_see=['op_%d' % i for i in range(14)]+['destroyed_early', 'last_references_raced', 'concurrent_ops'], hang_is_history=True)
check('R02', P('threads', 'tsan', shards=4), P('threads', shards=4), rule='threads each run a random operation sequence on their own copies of strings, arrays, maps and variants sharing bodies, under ThreadSanitizer then AddressSanitizer; each record compared with the same sequence run alone; distinct cases', must_see=['concurrent_ops', 'coercions'], hang_is_history=True)
check('T01', P('threads', 'tsan', shards=4), P('threads', shards=4), P('latch', 'tsan', check='T01_first', area='latch', shards=4), P('latch', check='T01_first', area='latch', shards=4), rule='threads contend for latches by every entry, an occupant and plain counters watched, under ThreadSanitizer then AddressSanitizer; processes whose threads make their first Latch together; distinct orders of entry observed', must_see=['first_latches', 'handovers', 'probe_refused', 'held_by_another', 'misuse_refused'], hang_is_history=True, stall=40)
check('T02', P('threads', 'tsan', shards=4), P('threads', shards=4), rule='wakeup scenarios with every waiter accounted for, bounded queues, and unsignalled timed waits from many phases of the clock, under ThreadSanitizer then AddressSanitizer; distinct observed outcomes', must_see=['signals', 'broadcasts', 'queue_waits', 'timed_waits', 'wakeups', 'signal_woke_one'], hang_is_history=True, stall=60)
check('T03', P('threads', 'tsan', shards=4), P('threads', shards=4), P('threads', 'heap', check='T03:leak', shards=2), rule='random trees of threads started by each other, ended, joined by join(), by one or several callers of joinAny(), deleted and their ids re-used, under ThreadSanitizer then AddressSanitizer; then the address space watched; distinct orders of joining observed', must_see=['joinAny_returned', 'ended_by_exit', 'sleep_interrupted', 'null_returned', 'joined_both_ways', 'never_resumed', 'joined_threads'], hang_is_history=True, stall=40)

check('E01', P('error'), rule='every set and message number; random pairs of numbers through every comparison; random histories of constructing, copying and assigning Errors compared with records of their three fields, and heap balance; distinct cases', must_see=['sets', 'zero', 'positive_numbers', 'negative_numbers', 'heap_balanced']+['op_%d' % i for i in range(8)])

check('P01', P('peg'), rule='random expression trees printed as Pegexps in varied spellings, on texts grown from the tree and mutated; success, extent and captures compared with a reference matcher on the tree; distinct (expression, text) pairs', must_see=['matched', 'matched_empty', 'failed', 'lookaheads', 'iterations', 'captures'])
check('P02', P('peg'), rule='random, malformed and truncated patterns on random bytes in exactly-sized buffers under ASan+UBSan, as Pegexp, as search, by characters, by bytes, and as rules of a Peg; a watchdog on every case; distinct (pattern, text) pairs', must_see=['matched', 'failed', 'captured', 'as_a_rule', 'as_a_captured_rule'], hang_is_history=True, stall=40)
check('P03', P('peg'), rule='the same expression or grammar, and text, through raw, guarded, NUL-guarded, character and byte pointers, each compared with the same reference result; distinct (expression, text) pairs', must_see=['matched', 'failed', 'by_bytes', 'non_ascii', 'captures', 'grammar_parsed', 'grammar_refused', 'grammar_consumed'])
check('G01', P('peg'), rule='random grammars of 2-14 rules (names that prefix each other, unknown names, left recursion), on texts grown from the grammar; success and extent compared with a reference parser on the trees; distinct (grammar, text) pairs', must_see=['parsed', 'refused', 'calls', 'left_recursion', 'lookaheads', 'consumed_all', 'grammars_at_one_address'], hang_is_history=True, stall=40)
check('G02', P('peg'), rule='random grammars with labels and capture lists; the whole captured tree of a second parse compared with a reference; distinct (grammar, text) pairs that captured something', must_see=['captured', 'captured_array', 'captured_map', 'rolled_back', 'rolled_back_partway', 'parsed', 'refused'])
check('G03', P('peg'), rule='random grammars on texts that fail part of the way; furthest position, and the set of failed terminals with their rule paths, compared with a reference; distinct (grammar, text) pairs that failed beyond the start', must_see=['one_failure', 'several_failures', 'furthest_beyond_start', 'left_recursion'])
check('G04', P('peg', 'heap', shards=8), rule='random expressions and grammars on texts grown from them; every call of malloc and friends during the match counted; distinct (expression or grammar, text) pairs', must_see=['heap_measured', 'parsed', 'refused', 'matched', 'failed', 'left_recursion'])
