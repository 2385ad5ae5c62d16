"""What each check is; used by run.py and tools/manifest.py."""
MC = "model_checking"
EX = "exploration"
FE = "fault_enumeration"
CHECKS = {
    "C01": dict(level=MC, technique="explicit-state exploration of a grammar automaton, every transition replayed on the real parser; exhaustive bounded strings, tokens, edits and size families",
        note="Exhaustive within the stated bounds: all automaton states up to 3 open containers x 151 characters; all viable symbol strings up to 6 symbols (32 symbols), all strings of 5 tokens; sizes up to 600 and around powers of two up to 2^20. Trusts the reference automaton, which is cross-checked against an independent recursive-descent reference.",
        assumptions=["strings outside the enumerated families are not executed", "vertical tab and form feed count as whitespace (documented extension)"]),
    "C02": dict(level=MC, technique="exhaustive enumeration of bounded values and texts with their model values, each parsed by the real code and compared completely (iteration, index, lookup)",
        note="All trees up to 5 nodes (thorough 6), all member sequences up to 5 with repeated, colliding, empty and long keys, all string sequences up to 5, all whitespace gaps of a corpus, every container size up to 320, every string length up to 600, every depth up to 512, runs of alike elements followed by another kind.",
        assumptions=["values outside the enumerated families are not executed"]),
    "C03": dict(level=MC, technique="exhaustive enumeration of string literals (all code units, all surrogate pairs, all scalars, piece sequences, every position and length) against an independent decoder",
        note="All 65536 units, all 2^20 pairs, all 22^4 hex spellings, every scalar in place of every hex digit, every scalar raw, all piece sequences up to 4, every escape position in strings up to 90 bytes, every length up to 4200 and sizes to 2^22, every pair of literals one edit apart in one document.",
        assumptions=["strings outside the enumerated families are not executed"]),
    "C04": dict(level=MC, technique='every bounded failing text from exhaustive string, edit and layout enumerations, judged by an independent reference parser that names kind, character, line and column',
        note='All symbol strings within the bound, every deletion/insertion/replacement at every place of a corpus, every arrangement of line ends and multi-byte characters before an error, every character as the offender, errors far into long texts, all surrogate failures.',
        assumptions=['texts outside the enumerated families are not executed']),
    "C05": dict(level=MC, technique='exhaustive nesting histories (towers, sibling patterns, open/close walks) against a counter model of open containers',
        note='Every tower height around the limit for every mix pattern, open/close walks around the limit, many closed siblings, long parts in front, documents of up to a million opened containers.',
        assumptions=['container mixes outside the enumerated patterns are not executed']),
    "C06": dict(level=MC, technique='exhaustive enumeration of bounded number literals, digit strings, exponents and long runs against exact decimal arithmetic',
        note='All literals over a symbol alphabet to a length bound, all anchors around powers of ten and two, all exponents, runs of digits to 70000, every pair of literals one edit apart in one document.',
        assumptions=['literals outside the enumerated families are not executed']),
    "C07": dict(level=MC, technique='exhaustive enumeration of (sign, mantissa family, every exponent) printed by every route and judged by exact decimal arithmetic',
        note='All 65536 exponents for a set of mantissas, all small mantissas, digit-chunk patterns, neighbours of powers of ten and two.',
        assumptions=['mantissas outside the enumerated families are not executed']),
    "C08": dict(level=MC, technique='exhaustive enumeration of structured float families (every exponent x mantissa patterns, neighbours of powers of two, f32 slices) with bit-exact round trips',
        note='Every f64 exponent with mantissa patterns and consecutive neighbours; in the thorough tier every f32.',
        assumptions=['f64 mantissas outside the enumerated families are not executed']),
    "C09": dict(level=MC, technique='exhaustive enumeration of decimals (table of near-halfway cases, every exponent, thresholds) against correctly rounded conversion by the standard library',
        note='20491 near-halfway decimals, every exponent, every power-of-two threshold; in the thorough tier every positive f32.',
        assumptions=["std's decimal-to-float parsing is the oracle", 'decimals outside the enumerated families are not executed']),
    "C10": dict(level=MC, technique='exhaustive enumeration of integers (all 8/16-bit, all around powers) and numbers (mantissa x exponent) through every integer type',
        note='All values of 8- and 16-bit types, +-300 around every power of two and ten for the wide ones, every accessor on mantissa x exponent families.',
        assumptions=['wide integers outside the enumerated families are not executed']),
    "C11": dict(level=MC, technique='exhaustive enumeration of pairs and triples of numbers, integers and floats against exact decimal comparison',
        note='All pairs of a number family, all small mantissa x exponent pairs, renormalisations, all primitive types, the middles between neighbouring floats; transitivity on triples.',
        assumptions=['pairs outside the enumerated families are not executed']),
    "C12": dict(level=MC, technique='exhaustive enumeration of number x decimal places against exact scaled integer arithmetic',
        note='All exponents, all 65536 places for a set of numbers, all limits of i64 and u64 at every scale.',
        assumptions=['numbers outside the enumerated families are not executed']),
    "C13": dict(level=MC, technique='exhaustive bounded value trees and families of strings, numbers and sizes, serialized, parsed and compared with the model',
        note='All trees within the budget x layout x construction style, all characters, string and container sizes, depths up to the limit, runs of alike elements with another one at any place.',
        assumptions=['values outside the enumerated families are not executed']),
    "C14": dict(level=MC, technique='exhaustive enumeration of characters x positions x lengths and fragment sequences, every literal decoded by an independent reader',
        note='All characters, all pairs up to U+017F, all positions in all lengths to 140, pairs of positions to 40, every three ASCII characters in a row, runs, lengths to 2*10^6.',
        assumptions=['strings outside the enumerated families are not executed']),
    "C15": dict(level=MC, technique='exhaustive bounded value trees x indentation against a layout model built from the compact literals',
        note='All trees within the budget, every indentation to 300 and wide ones, every depth, sizes, runs of alike elements with another one at any place.',
        assumptions=['values outside the enumerated families are not executed']),
    "C16": dict(level=MC, technique='exhaustive bounded value trees, output lengths, construction styles and serialization histories, all routes compared byte by byte',
        note='All trees within the budget, all output lengths to 2600 and around powers of two, every character, every exponent, histories of up to 4 serializations (including failing ones), large values before and after a change, runs of alike elements.',
        assumptions=['values and generators outside the enumerated families are not executed']),
    "C17": dict(level=FE, technique='exhaustive fault enumeration: every fault kind at every call of the output and every byte count of space, and all plans of several faults within a deviation bound, on the real code',
        note='All single faults (27 kinds) at every call for every kind of value, all trees within the budget x 7 faults x every call, every byte budget, all plans with up to 4 faults on 5 values, long outputs around every multiple of 1024, outputs with vectored writes and failing flushes.',
        assumptions=['outputs that need more than the enumerated number of faults are not executed'], rule='one evaluation is one serialization plan family; a case is non-trivial if a fault is injected or the space is limited'),
    "C18": dict(level=MC, technique='exhaustive operation histories on the real object against an insertion-ordered map model; all insertion orders of 7 keys (all tree shapes) x all removal subsets; size, key-length and collision families',
        note='All histories of 4 operations (7 key sets, 6 starts), of 8 insert/remove operations, of 5 operations through every form of index, 5040 orders x 128 removal subsets x 3 key families, every size to 260 in 7 key families, every key length to 700, every small value over every other, up to 131072 changes between two questions.',
        assumptions=['histories beyond the bound are not executed']),
    "C19": dict(level=MC, technique='exhaustive interleavings of steps from both ends of every iterator against a double-ended queue model',
        note='All interleavings of up to 13 steps on up to 11 entries, all sequences of 16 kinds of steps on up to 4 entries, every size to 300 with 8 patterns and 8 origins, 24 ways to consume the rest at every size to 270.',
        assumptions=['larger containers are driven by patterns, not all interleavings']),
    "C20": dict(level=MC, technique='exhaustive call histories and text families on the real code under a judging allocator (guard bytes, layouts, quarantine, leak count), text at inaccessible pages, AddressSanitizer and (thorough) Miri',
        note='All histories of 3 calls out of 44 on 12 start pairs (4 on one), 5 out of 14, all 4-symbol texts at guard pages, every literal length, every key length and object size, panicking and lying user code at every point.',
        assumptions=['reads of stale bytes inside one live object are seen only by Miri (thorough tier, smaller bounds)', 'Tree Borrows is taken as the aliasing model'], profiles={'quick': ['checked', 'release', 'asan'], 'thorough': ['checked', 'release', 'asan', 'miri']}),
    "C21": dict(level=MC, technique='exhaustive enumeration of bounded trees x ways of copying x every node x every change (one and two in a row, on either copy) against a pure model of values',
        note='All trees of up to 4 further nodes x 6 ways of copying x every node x 15 changes on either copy, every pair of changes on trees of up to 3, every move of every part to every other place, sequences of failing and reading calls, every container size to 150 and key length to 120.',
        assumptions=['trees and histories beyond the bound are not executed']),
    "C22": dict(level=MC, technique='exhaustive call histories over every variant of value x every call and argument against a pure model of the dynamic API, with every query judged',
        note='40 values of every variant and storage x every call; all histories of 3 calls out of 37 on them; all histories of 6 calls out of 10 that switch variants; all index chains of length 4; every array and object size to 130.',
        assumptions=['histories beyond the bound are not executed', 'emptiness of NaN and the leading null left by indexing a non-array beyond 0 are not judged']),
    "C23": dict(level=MC, technique='exhaustive enumeration of pairs and triples of bounded values x storages x member orders, and of all single changes of bigger values, against structural equality of a model',
        note='All pairs of 3674 trees in 3 storages, all triples of 31 values, all single changes of 40850 trees in 5 styles, all member orders of up to 6 members in 4 key families, every size to 300 with every part changed, every text length to 150 with every byte changed, 230 stored values against every raw type both ways.',
        assumptions=['values outside the enumerated families are not executed', 'equality of numbers themselves is the subject of C11']),
    "C24": dict(level=MC, technique='exhaustive enumeration of texts (every length, character, position) x 13 storages x every call, all storages compared with each other and with the model',
        note='Every length to 300 in 4 kinds, 151 characters at every place of up to 34 characters, all texts of up to 4 out of 9 characters, all pairs of 57 texts around the boundary in all pairs of 13 storages.',
        assumptions=['texts outside the enumerated families are not executed', 'Debug output, which names the variant, is not judged']),
    "C25": dict(level=MC, technique='exhaustive enumeration of programs over a bounded grammar of macro invocations, compiled against the real macros and executed; value and evaluation order compared with what the source means',
        note='Every sequence of one and two items out of 57 kinds of expressions and of three out of 12, every one- and two-entry object over 8 kinds of keys, three-entry objects, all arrow-syntax pairs, all spellings of duplicate keys up to 5 entries, all nesting shapes up to 6 nodes, every size to 64.',
        assumptions=['expressions outside the enumerated kinds are not compiled', 'keys have to be expressions that coerce to &str; objects whose first entry is written with an arrow take expressions as values, as in the crate so far'], program="macros_prog", program_only=True),
    "C26": dict(level=MC, technique='exhaustive enumeration of types (all nestings of Option, Vec, HashMap, BTreeMap within the bound) x values x routes, of pair sequences x announced lengths, and of sizes, against the model of the same data',
        note='All nestings of up to 2 levels (3 for two element types) over 9 element types with all values of up to 5 elements, by 11 routes; all sequences of up to 7 pairs x 7 announcements; every size to 400 in 7 key families; every 8- and 16-bit integer; every float exponent.',
        assumptions=['values outside the enumerated families are not executed', 'announced lengths that cannot be allocated are not tried', 'the order in which maps are converted is not judged']),
    "C27": dict(level=MC, technique='stateless model checking of the real code under a controlled two-thread scheduler: all placements of 1, 2 and 3 preemptions at every basic block, load and store, and all call-level interleavings',
        note='All pairs of 57 operations (each with data of its own) with one preemption at every point, pairs of short ones with two and three, all call sequences of two threads, every switch pattern in writer calls, every operation as the first use of the library in its process, and large operations (400 levels, long strings) preempted at every 97th point.',
        assumptions=['interleavings are sequentially consistent: effects of weak memory are not explored', 'more than two threads and more than the enumerated preemptions are not executed', 'points are those the compiler instruments in a build with optimization level 1'], profiles={'quick': ['checked', 'release', 'sched'], 'thorough': ['checked', 'release', 'sched']}),
    "C28": dict(level=MC, technique='bounded exhaustive execution of the real constructors, accessors and negation over every exponent, structured mantissas and every float exponent, judged by exact arithmetic on the parts',
        note='All 65536 exponents x 140 mantissas x sign, all mantissas below 30000 (1000000 in thorough) x small exponents, all 16-bit numbers x powers of ten, floats of every exponent.',
        assumptions=['mantissas are powers of two and ten and next to them, multiples of powers of ten and all small ones, not all 2^64']),
    "C29": dict(level=MC, technique='exhaustive enumeration of nesting mixes x depths x operations on the real code, each on a thread with the default stack; running out of stack ends the process and names the execution',
        note='Every mix of 8 kinds of levels of period up to 3 (4) at the limit x 15 operations, every kind x depth x operation, broken and endless nestings.',
        assumptions=['builds with optimization level 2 (with and without overflow checks); an unoptimized build was measured to need less than half the stack', 'values nested deeper than parse allows, built by hand, are not judged']),
    "C30": dict(level=MC, technique='exhaustive enumeration of pumped texts (head, every piece sequence repeated n, 2n and 4n times, tail) and call histories on the real code, with executed blocks, loads, stores, copied bytes and memory counted deterministically',
        note='Every sequence of 2 (3) of 24 pieces in arrays and of 15 in strings, of 6 kinds of white space in every gap, of digits in every part of numbers, every pair of kinds of names, inside deep nesting, 42 call histories, 26 calls on 13 kinds of large values, every pair of 14 changes that leave the size as it was, and families of names that differ in 4 places anywhere, with 13 operations on each value.',
        assumptions=['work is what is counted: blocks, loads and stores of the crate and the standard library in a build with optimization level 1, and bytes copied, filled and compared', 'growth is judged between n and 4n for n around 1000', 'removal of members and names that collide on purpose are excepted'], profiles={'quick': ['count'], 'thorough': ['count']}),
}
