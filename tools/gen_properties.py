#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def where(m, files):
    import re
    last = m.split('::')[-1]
    for f in files:
        if f.endswith('.md'): continue
        if re.search(r'\b'+re.escape(last.replace('operator','operator '))+r'|'+re.escape(last), open('/repo/'+f, encoding='utf-8').read()):
            return f
    return files[0]
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=where(m, files)) for m in mech])))
SV='include/strval.h'
# ---------------------------------------------------------------- StrVal
p('S01','StrVal copies and slices have value semantics',
  'After any sequence of copying, slicing, assigning and mutating StrVals, every StrVal still denotes exactly the characters that its own operations gave it: mutating one value never changes another, whether it shares the body, is a slice of it, or is an argument of the mutation. asUTF8() gives exactly its characters, NUL-terminated.',
  ['histories'],'every history of copies, slices, assignments and mutations over a pool of related strings',
  'Sharing bugs need particular histories: which values share a body, who mutates first, offset slices, growth of the buffer and aliasing of arguments; a test samples a few.',
  [SV,'include/refcount.h'],['StrValI::Unshare','StrBodyI','StrValI::insert','StrValI::append','StrValI::remove'])
p('S02','StrVal content operations agree with a sequence of characters',
  'Substr, head, tail, shorter, find, rfind, findAny, findNot (and reverse forms), concatenation, insert, remove and replacement of StrVals give the result the same operation gives on the plain sequence of Unicode characters, for every in-range argument, on whole strings and on slices alike.',
  ['inputs'],'all Unicode strings, slices of them and in-range arguments',
  'Position/length arithmetic has many boundaries (ends, empty, slice offsets, multi-byte characters) whose combinations tests cannot enumerate.',
  [SV],['StrValI::substr','StrValI::find','StrValI::rfind','StrValI::insert','StrValI::remove'])
p('S03','Character access is independent of access history',
  'length(), operator[] and iteration of a StrVal return the same answers whatever sequence of earlier accesses, slices and copies moved the cached bookmark or triggered the deferred character count, and equal a direct decoding of the UTF-8 content.',
  ['histories','inputs'],'all access orders over all UTF-8 content, including shared and sliced bodies',
  'The bookmark and lazy character count are hidden caches; an error shows only for particular sequences of positions on multi-byte text.',
  [SV],['StrValI::nthChar','StrValI::countChars','StrValI::Bookmark'])
p('S04','String comparison is a total order consistent with equality',
  'For all StrVals, compare() orders by the characters (code points) with a proper prefix before the longer string; ==, !=, <, <=, >, >= agree with it, and it is antisymmetric and transitive whether operands are whole strings, slices or share a body.',
  ['inputs'],'all pairs and triples of strings and slices',
  'An order law quantifies over pairs and triples of values and representation choices.',
  [SV],['StrValI::compare','StrBodyI::compare','StrValI::operator=='])
p('S05','asInt32 parses numbers exactly or reports the documented error',
  'StrVal::asInt32 returns the exact value of the optional sign, radix prefix and digits for every radix, reports no-digits, trailing-text, illegal radix and overflow precisely when they occur, and reports how many characters it scanned.',
  ['inputs'],'all texts near the numeric grammar, all radixes, values around the 32-bit limits',
  'Numeric boundaries across 36 radixes, signs, prefixes, trailing text and Unicode digits multiply beyond sampling.',
  [SV],['StrValI::asInt32'])
p('S06','toJSON emits valid JSON that decodes to the original string',
  'For every string of Unicode characters, toJSON gives a valid JSON string literal body that an independent JSON decoder turns back into exactly the same characters (a lone surrogate being given as an escape), and it does not alter other values that shared the body.',
  ['inputs'],'all strings of Unicode scalar values',
  'Escaping must be right for every control character, quote, backslash and supplementary character in every position.',
  [SV],['StrValI::toJSON'])
p('S07','Case mapping and transform apply per character and nowhere else',
  'toUpper/toLower/transform replace each selected character by exactly what the per-character function gives, in order, leaving the unselected prefix and every other value that shared the body unchanged, even when the UTF-8 size of characters changes.',
  ['inputs','histories'],'all strings, transformations that shrink, grow, delete or multiply characters, and starting points',
  'Size-changing in-place rewriting has to be right for each mix of encodings, slices and sharing.',
  [SV,'src/char_encoding.cpp'],['StrBodyI::transform','StrValI::toUpper','StrValI::toLower'])
p('S08','StrVal operations are memory safe on arbitrary bytes',
  'No sequence of public StrVal operations on strings built from arbitrary bytes, including invalid and truncated UTF-8, reads or writes outside its buffers, uses freed or uninitialised memory, overflows, or leaks.',
  ['inputs','histories'],'arbitrary byte strings and operation sequences with in-contract arguments',
  'Memory errors do not change test output; they need sanitizers and hostile content.',
  [SV,'include/utf8_ptr.h','src/char_encoding.cpp'],['StrBodyI','StrValI','UTF8Get'])
p('S09','format() substitutes arguments exactly once and in order',
  'StrVal::format with a plain %-template yields the literal text unchanged and each argument converted by its specifier, %% giving %, a parameter number selecting its argument (a size or precision, or one taken from the arguments with *, never cutting or displacing what it has room for), in order, for any literal Unicode text and any argument values, and it never reads beyond the arguments given.',
  ['inputs'],'templates of literal text, %% and %s %d %f %g specifiers, numbered or not, with or without size and precision, with matching arguments',
  'Arguments containing %, multi-byte text and adjacent specifiers combine without bound.',
  ['include/strformat.h','src/variant.cpp'],['StrVal::format'])
# ---------------------------------------------------------------- Array
p('A01','Array operations agree with a plain sequence',
  'Every Array operation (push, pop, unshift, shift, insert, append, delete, set, slices, find, rfind, detect, select, map, inject, reverse, bsearch, comparisons and so on) has the effect and result it would have on a plain sequence of elements, on whole arrays and slices.',
  ['inputs','histories'],'all operation sequences over all contents with in-range arguments',
  'Many operations times many boundary positions times slice states.',
  ['include/array.h'],['Array','ArrayBody'])
p('A02','Array copies and slices have value semantics and elements are destroyed once',
  'After any history of copying, slicing and mutating Arrays, each still holds its own elements: mutating one never changes another even when arguments alias it, and each element constructed is destroyed exactly once with nothing leaked.',
  ['histories'],'all histories over pools of related arrays of instrumented elements',
  'Sharing, slice offsets, growth and aliasing arguments interact over a history.',
  ['include/array.h','include/refcount.h'],['Array::Unshare','ArrayBody::insert','ArrayBody::remove'])
# ---------------------------------------------------------------- CowMap
p('M01','CowMap agrees with a map and copies are isolated',
  'For any history, put, insert, remove, lookup, size, iteration and the functional methods of a CowMap agree with an ordinary map holding the same associations, and no operation on one CowMap changes another that shares its body.',
  ['histories'],'all histories of operations over pools of related maps',
  'Copy-on-write isolation depends on who shares with whom at each mutation.',
  ['include/cowmap.h'],['CowMap::put','CowMap::insert','CowMap::Unshare'])
# ---------------------------------------------------------------- Variant
p('V01','A Variant always holds exactly the typed value last given to it',
  'After any history of construction, copying, assignment and self-assignment between Variants of every type, each reports the type and yields the value it was last given, copies are independent, and every contained object is released exactly once.',
  ['histories'],'all histories over pools of variants of all types, including nested arrays and maps',
  'A tagged union goes wrong only on particular old-type/new-type transitions and aliasing.',
  ['include/variant.h','src/variant.cpp'],['Variant::operator=','Variant::~Variant','Variant::coerce'])
p('V02','Variant coercion is lossless or refused',
  'Coercing a Variant to another type yields exactly the same value in the requested type whenever that value is representable by the supported conversions; otherwise the conversion is refused (assertion) rather than silently giving a different value.',
  ['inputs'],'all supported source types and values, all target types, around every range limit',
  'Each pair of types has its own range limits; tests sample a few values.',
  ['include/variant.h','src/variant.cpp'],['Variant::coerce'])
p('V03','Variant as_json is valid JSON denoting the same value',
  'as_json of any Variant tree of supported types, at any indentation mode, is valid JSON that an independent parser decodes to the same structure, strings, numbers and order of array elements.',
  ['inputs'],'all finite trees of arrays, maps, strings and numbers at all indentation modes',
  'Structure, nesting, emptiness, escapes and indentation combine without bound.',
  ['src/variant.cpp',SV],['Variant::as_json'])
# ---------------------------------------------------------------- Unicode
U=['include/char_encoding.h','src/char_encoding.cpp']
p('U01','UTF-8 encoding and decoding round-trip every character',
  'For every encodable character value, UTF8Put writes the number of bytes UTF8Len announces, UTF8Get and UTF8PutPadded forms decode to the same value and advance past exactly those bytes, and backing up returns to its start.',
  ['inputs'],'every character value in the encodable 32-bit range (sampled densely at every boundary)',
  'Four billion values and six lengths with boundary behaviour at each power of two.',
  U,['UTF8Put','UTF8Get','UTF8Len','UTF8PutPaddedZero'])
p('U02','UTF-8 decoding is total, bounded and self-synchronising on any bytes',
  'Decoding any NUL-terminated byte sequence always advances, never passes the NUL, gives each byte of an illegal sequence its own replacement value, resynchronises at the next valid character, and UTF8Backup retraces exactly the same boundaries in reverse.',
  ['inputs'],'all byte sequences',
  'Illegal sequences can be mixed in unlimited ways; only sanitizers see an over-read.',
  U,['UTF8Get','UTF8Backup','UTF8Len','UTF8Is1st'])
p('U03','UTF-16 conversion round-trips and agrees with UTF-8',
  'For every Unicode scalar value and string of them, UTF-16 encoding gives the standard code units, decoding them returns the original value, the announced length is the number of units written, and the text obtained is the same as by way of UTF-8.',
  ['inputs'],'all Unicode scalar values and sequences of them',
  'Surrogate arithmetic must hold over a million supplementary characters.',
  U,['UTF16Get','UTF16Put','UTF16Len'])
p('U04','Character classification and case mapping are history independent and correct',
  'UCS4 classification, digit value and case conversion functions are pure: each answer depends only on the character, is the same in every call order and thread, and agrees with the Unicode data for the characters covered by the tables.',
  ['inputs','histories','schedules'],'all characters, all call orders, concurrent callers',
  'The table search uses shared state, so an error needs a particular preceding call or concurrent caller.',
  U+['src/case_conversions.c'],['UCS4ToUpper','UCS4ToLower','UCS4ToTitle','UCS4Digit','UCS4IsWhite'])
p('U05','Guarded text pointers never leave their text',
  'For any sequence of increments, decrements, additions, subtractions and reads, the guarded character pointers stay between the start of the text and its terminating NUL, report at_bot/at_eot truthfully, and read the character a clamped index would.',
  ['inputs','histories'],'all texts and all sequences of pointer movements of any size',
  'Clamping must hold for each operator at both ends after arbitrary movement on multi-byte text.',
  ['include/char_ptr.h','include/utf8_ptr.h'],['NulGuardedCharPtr','GuardedCharPtr','NulGuardedUTF8Ptr','GuardedUTF8Ptr'])
# ---------------------------------------------------------------- RefCount / threads
p('R01','Reference counted objects are destroyed exactly once, after the last reference',
  'Over any history of creating, copying, assigning, self-assigning and dropping Refs, in one or many threads, the referenced object is destroyed exactly once, never while a Ref to it remains, and immediately when the last goes.',
  ['histories','schedules'],'all histories and thread interleavings of reference operations',
  'A lost update or early release needs a specific interleaving or a specific cycle of assignments.',
  ['include/refcount.h'],['RefCounted::AddRef','RefCounted::Release','Ref::operator='])
p('R02','Values sharing a body can be used from different threads',
  'Threads that each own their own StrVal, Array, CowMap or Variant copies sharing one body may read, copy, slice and mutate them concurrently with no data race, and each thread sees exactly the results it would see alone.',
  ['schedules'],'all interleavings of threads each using its own values with shared bodies',
  'Races need concurrent schedules and are invisible to single-threaded tests.',
  [SV,'include/array.h','include/cowmap.h','include/variant.h','include/refcount.h'],['Unshare','countChars','Bookmark'])
p('T01','A Latch provides mutual exclusion and honest ownership',
  'At most one thread is ever inside a Latch; probe() gains it only if free, holding() is true exactly for the thread that holds it and changes nothing, leave() hands it on, and no update made under it is lost.',
  ['schedules'],'all interleavings of threads contending for a latch',
  'Mutual exclusion is a statement about all schedules.',
  ['include/lockfree.h','src/lockfree.cpp'],['Latch::enter','Latch::probe','Latch::holding','Latch::leave'])
p('T02','Condition waits, signals, broadcasts and timeouts lose no wakeups',
  'A waiting thread releases its Latch while waiting and holds it on return; after signal one thread then waiting wakes (at least one, and rarely more) and after broadcast every one; a timed wait that is not signalled waits about the given delay and reports zero remaining, in whichever order threads arrive.',
  ['schedules'],'all schedules of waiters and signallers, and delays',
  'Lost wakeups and premature timeouts depend on timing.',
  ['include/condition.h','src/condition.cpp'],['Condition::wait','Condition::signal','Condition::broadcast'])
p('T03','Every thread runs once and is joined exactly once',
  'Each resumed Thread executes run() exactly once; join() and joinAny() return only after it ended; joinAny() returns each ended thread exactly once and returns null only when none remain, however threads start, nest, end and are recycled, without leaking thread resources.',
  ['schedules','histories'],'all schedules of creation, nested creation, ending, joining and destruction',
  'Lifecycle bugs need a thread to end at a particular point of another call, or memory or ids to be recycled.',
  ['include/thread.h','src/thread.cpp'],['Thread::ThreadProc','Thread::join','Thread::joinAny','Thread::resume'])
p('E01','Error numbers and errors preserve their identity, parameters and text',
  'Set, code and flag fields of every ErrNum round-trip without interfering, comparison and truth follow the number, and an Error keeps its number, default text and parameters through any history of copies and assignments.',
  ['inputs','histories'],'all sets and codes, all copy/assign histories',
  'Bit packing and shared error bodies must be right for every field value and history.',
  ['include/error.h'],['ErrNum','Error'])
# ---------------------------------------------------------------- Pegexp / Peg
p('P01','Pegexp matching follows PEG semantics',
  'For every well-formed Pegexp, matching at a position (and searching) succeeds exactly when the documented possessive PEG semantics says so and consumes exactly the text it says: sequence, alternates, ? * + repetition, lookaheads, classes, escapes, groups and labels (the text each label captures, in order, none surviving from an abandoned alternative).',
  ['inputs'],'all well-formed Pegexps and all texts',
  'Operators nest and interact without bound; the pattern is interpreted by hand-written skipping code that fails only for particular nestings.',
  ['include/pegexp.h'],['Pegexp::match_sequence','Pegexp::match_atom','Pegexp::skip_atom','Pegexp::match_extended'])
p('P02','Pegexp matching is safe and terminates on any text and any pattern',
  'Matching any pattern (even malformed or truncated) against any text never reads outside the pattern or text, and terminates (recursion-free expressions in time bounded by the pattern and text).',
  ['inputs'],'arbitrary pattern bytes and text bytes',
  'Over-reads and endless loops come from malformed or truncated patterns that tests do not contain.',
  ['include/pegexp.h'],['Pegexp::match_atom','Pegexp::char_class','Pegexp::skip_atom'])
p('P03','Pegexp and Peg results do not depend on the kind of text pointer',
  'The same Pegexp or grammar applied to the same text, ASCII, Unicode or ill-formed UTF-8, through the different text-pointer types (raw, guarded, UTF-8, in-memory source) gives the same success, extent and captured text; byte-wise sources treat each byte as a character.',
  ['inputs'],'all patterns, texts and supported text source types',
  'The matcher is a template; each instantiation has its own pointer arithmetic.',
  ['include/pegexp.h','include/char_ptr.h','include/utf8_ptr.h'],['Pegexp','PegexpPointerInput'])
p('G01','Peg grammars follow PEG semantics including calls, lookahead and left recursion',
  'For every set of named rules, parsing succeeds and consumes exactly what ordered-choice PEG semantics gives, rules are found by name whatever the set of names, a rule recursing at the same position fails cleanly instead of recursing forever, and parsing has no state left over from an earlier parse.',
  ['inputs'],'all small well-formed grammars and texts',
  'Rule names, nesting and recursion combine without bound; lookup and recursion guards fail for particular sets of names or positions.',
  ['include/peg.h','include/pegexp.h'],['Peg::lookup','Peg::parse','Peg::Context::match'])
p('G02','Peg AST captures return exactly the captured structure',
  'A successful AST parse yields, for every rule, exactly the labelled atoms and the rule calls that its capture list names, in order, with repetition giving arrays, nested rules giving nested maps, and text equal to the input consumed; nothing captured on an abandoned alternative survives.',
  ['inputs'],'all grammars in the supported capture forms and all texts',
  'Captures must be right for every nesting of rules, repetition, alternates and labels.',
  ['include/peg_ast.h','include/peg.h'],['PegCaptureContext::capture','PegContext::rollback_capture','PegContext::capture_disabled'])
p('G03','A failed parse reports the furthest position and what was expected there',
  'When an AST-building parse fails, the result reports the furthest text position at which a literal or character class failed outside lookahead, and the terminals reported, each with the path of rules that led to it, are exactly the literals and character classes that failed there.',
  ['inputs'],'all grammars and failing texts',
  'The furthest point is a maximum over all backtracking paths.',
  ['include/peg_ast.h','include/pegexp.h'],['PegContext::record_failure','PegTestResult','PegFailures'])
p('G04','Non-capturing Pegexp and Peg matching uses no heap',
  'Matching a Pegexp, or parsing a Peg grammar with the non-capturing context over raw text, performs no heap allocation whatever the pattern, text, depth or outcome, as the documentation promises.',
  ['inputs'],'all patterns, grammars and texts',
  'A single allocation on a rarely used path breaks it; only a monitor on the allocator sees it.',
  ['include/pegexp.h','include/peg.h','doc/peg.md'],['Pegexp','Peg::Context'])
# ---------------------------------------------------------------- Rx
RX=['rx/rxcompile.cpp','rx/rxmatch.cpp','rx/strregex.h']
p('X01','Compiling any regular expression either succeeds or reports a located error',
  'RxCompiler::compile on any text and feature set never crashes or over-runs: it either returns a program that can be executed, or returns false with an error message and an offset within the expression; malformed expressions and those beyond the limits (254 named groups, 254 repetitions, nesting of 11 groups) are refused and those at the limits work, and disabled or rejected features are treated literally or refused respectively.',
  ['inputs'],'all texts as regular expressions, all feature masks',
  'Malformed and boundary-size expressions are unlimited; encodings of offsets change size at thresholds.',
  RX,['RxCompiler::scanRegex','RxCompiler::compile'])
p('X02','Regular expression search gives the leftmost longest match',
  'For every supported expression and text, matchAfter succeeds exactly when some substring at or after the offset matches, reporting the leftmost and then longest such match, and matchAt reports the longest match starting at the offset; in extended syntax white space and comments change nothing, and in the shell-like options ? and * are wildcards. An escape of one to three octal, one or two hexadecimal (\\x) or one to five hexadecimal (\\u) digits is the character of that number, and takes nothing but those digits. NUL is a character of the text like any other.',
  ['inputs'],'all supported expressions and Unicode texts and offsets',
  'The compiled VM must agree with the denotation for every nesting of operators, counts and alternates.',
  RX,['RxMatch::matchAt','RxMatch::addthread','RxProgram::matchAfter'])
p('X03','Named captures delimit text that the group really matched',
  'In every successful match, each named capture is either unset or delimits a substring consistent with some derivation of the reported match, captures are addressed by the order of their names, and results are unaffected by later matches.',
  ['inputs'],'all supported expressions with named groups and all texts',
  'Capture sets are shared copy-on-write between parallel threads of the VM; corruption needs particular thread splits.',
  RX,['RxResult::captureSet','RxCaptures','RxResult::Unshare'])
p('X04','Regular expression matching is linear in time and bounded in memory',
  'Matching takes time proportional to the length of the text, and uses memory bounded by the expression and not the length of the text, including for expressions that are exponential for backtracking matchers, provided the expression has no lookahead.',
  ['inputs'],'all supported expressions and long texts',
  'Blow-up shows only with adversarial expressions and growing texts under a monitor.',
  RX,['RxMatch::addthread','RxMatch::matchAt'])
p('X05','A compiled RxProgram is immutable and can be shared by threads',
  'Any number of threads may run matches on one RxProgram simultaneously without data races and each gets the result it would get alone; a program does not change by being used, and releases its NFA exactly once.',
  ['schedules','histories'],'all interleavings of concurrent matches and all histories of use',
  'Needs concurrent execution under a race detector.',
  RX,['RxProgram','RxResult','Ref<RxCaptures>'])
p('X06','A compiled expression is a null-terminated C string, complete in itself',
  'The compiler yields a plain null-terminated C string. Its bytes up to and including the first NUL are all that an RxProgram needs: a copy of just those (such as one precompiled into another program) matches every text as the original does, with the same captures and group names, and nothing beyond is read. dump() and dumpInstruction() walk exactly those bytes, one instruction after another, and every branch leads to an instruction. A NUL written as an escape matches itself. Names with NUL characters are outside this.',
  ['inputs'],'all regular expressions that compile, with NUL characters in them too, and all texts',
  'Which expressions put a zero byte in the program depends on sizes, offsets, counts and escapes; a program that depends on bytes beyond its NUL works in every test that matches with the original allocation.',
  RX,['RxCompiler::compile','RxCompiler::dumpInstruction','RxProgram::RxProgram','RxProgram::decode'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
