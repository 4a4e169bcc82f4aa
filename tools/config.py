"""What each check builds and runs."""
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
CONFIG = {}
def prop(pid, rule, bins, assumptions=(), title=None, **k):
    CONFIG[pid] = dict(rule=rule, bins=bins, assumptions=list(assumptions), **k)
def bin(name, units, quick, thorough, **k): return dict(name=name, units=units, quick=quick, thorough=thorough, **k)
def groups(src, pid, gs): return [(src, ['P_' + pid, 'GROUP=%d' % g]) for g in gs]
REF = 'the reference codecs of harness/common (jref, cref, types) are right about RFC 8259 and RFC 7049'
LIBC = 'strtod, strtof and strtold of libc round correctly'

for pid, what, nt in (
    ('J01', 'a random value of one of the types is written and the text parsed by the reference RFC 8259 parser and matched with the model of the value', 'the text is longer than two bytes'),
    ('J02', 'a random value is rendered by the reference printer (whitespace, escapes, number notation, member order), followed by a random suffix, and read', 'the rendering differs from the plain one and is longer than two bytes'),
    ('J03', 'a random value is written, read back into a fresh object and written again', 'the text is longer than two bytes'),
    ('J05', 'the document of a random value of the type (or a random document) is mutated structurally 0-2 times, rendered and read; the reference reading of the parsed document decides', 'the reference reading says accepted or rejected (not unspecified)')):
    prop(pid, what + '; non-trivial: ' + nt, [bin('main', groups('json.cxx', pid, (1, 2, 3, 4)), 2400000, 60000000)], [REF, LIBC])
for pid, what, nt in (
    ('C01', 'a random value of one of the types is written, read back into a fresh object and written again', 'the encoding is longer than one byte'),
    ('C02', 'a random value is written, the bytes are decoded by the strict reference decoder and compared with the model of the value', 'the encoding is longer than one byte'),
    ('C03', 'a random value is encoded by the reference encoder (wider heads, indefinite lengths and chunks, other exact widths of floating point, tags, entry order), followed by random bytes, and read', 'the encoding is not the shortest one and longer than one byte'),
    ('C04', 'the item of a random value of the type (or a random item) is mutated as a model 0-2 times, encoded lawfully, and the bytes are mutated in 2 of 5 cases; the reference decoder and the reference reading decide', 'the reference says accepted or rejected (not unspecified)')):
    prop(pid, what + '; non-trivial: ' + nt, [bin('main', groups('cbor.cxx', pid, (1, 2, 3, 4)), 2400000, 60000000)], [REF])

# nodes
prop('J04', 'a random document is rendered and followed by anything, mutated by tokens and characters, truncated everywhere, or made of tokens, number characters or string parts, and read into JSON and CBOR nodes (default, ordered, list/multimap/UTF-32); the reference recognizer decides; non-trivial: the text is longer than two bytes', [bin('main', [('node.cxx', ['P_J04'])], 1000000, 40000000)], [REF, LIBC])
prop('N03', 'a random document is read into a node of five kinds of traits and compared with the reference tree, written and compared again; a random tree is built, written and compared; trees as they are read are written and read back; non-trivial: the text is longer than two bytes', [bin('main', [('node.cxx', ['P_N03'])], 800000, 40000000)], [REF, LIBC])
prop('N04', 'a random item is encoded lawfully, or mutated, or truncated everywhere, and read into nodes of three kinds of traits; the reference decoder decides and gives the tree; random trees are built, written, compared with the shortest reference encoding and read back; non-trivial: the encoding is longer than one byte', [bin('main', [('node.cxx', ['P_N04'])], 1000000, 40000000)], [REF])
prop('N05', 'random trees, documents and items pass through nodes of both kinds and both formats and are compared with the reference trees; typed values are written in both formats and compared as documents; non-trivial: a container that is not empty, or an input longer than two bytes', [bin('main', [('node.cxx', ['P_N05'])], 600000, 30000000)], [REF, LIBC])
prop('N06', 'random documents, items and trees with repeated keys are read into, held by and written from ordered nodes and compared member by member with the reference tree; non-trivial: an input longer than two bytes or a container that is not empty', [bin('main', [('node.cxx', ['P_N06'])], 600000, 30000000)], [REF])
prop('N07', 'random nesting shapes (arrays, objects, map keys, tags, siblings) around limits 1, 2, 7, 64 and 100, and up to 131072 levels, are read into and written from nodes of all kinds; non-trivial: at least one level', [bin('main', groups('node.cxx', 'N07', (1, 2, 3, 4)), 300000, 10000000)], [REF])

# classes and enums
prop('J11', 'objects of bound classes (prefix, empty, escaped and 63 character names, defaults, skipped members, inheritance, nesting, enums) are written and compared with the model; random subsets of members in any order with arbitrary skipped values are read into objects in any state; almost right documents, repeated members, broken texts and unbound enumerators are decided by the model; non-trivial: a decided input longer than 4 bytes', [bin('main', [('class.cxx', ['P_J11'])], 500000, 20000000)], [REF, LIBC])
prop('C06', 'objects of the same classes in CBOR: encodings compared byte by byte with the model, lawful encodings of any subset of members, almost right, truncated and changed ones decided by the model; non-trivial: a decided input longer than 2 bytes', [bin('main', [('class.cxx', ['P_C06'])], 500000, 20000000)], [REF])

# arbitrary bytes
prop('J06', 'documents of the type and random documents with mutations, truncations and CXCF separators, token, string and number soup, texts around buffer sizes, and random bytes, read as JSON (default, permissive, strict numbers, no escapes assumed, no validation) and CXCF through pointers, forward and input iterators from exact heap blocks under ASan, UBSan and assertions, the object then compared with itself, written and destroyed; leaks by repetition; non-trivial: accepted, or rejected past the first byte', [bin('main', [('raw.cxx', ['P_J06', 'GROUP=%d' % g, 'VAR=%d' % v]) for v in (0, 1, 2) for g in (4, 3, 2, 5, 6, 1) if (v, g) != (2, 6)], 1800000, 100000000)])
prop('C05', 'items of the type and random items with mutations and truncations, head soup, huge declared sizes, and random bytes, read as CBOR through pointers, forward and input iterators from exact heap blocks under ASan, UBSan and assertions with the allocated memory bounded by the size of the input, the object then compared with itself, written and destroyed; leaks by repetition; non-trivial: accepted, or rejected past the first byte', [bin('main', groups('raw.cxx', 'C05', (1, 2, 3, 4, 5, 6)), 3000000, 100000000)])

# numbers
prop('J07', 'integers around the limits of every type, powers of 2 and 10 and up to 106 bits, notations of reals (any precision, exact expansions of up to 1200 digits, halfway cases and their neighbours, huge exponents, many digits), grammar soup, overlong numbers and written values of any precision, through pointers, forward and input iterators, in containers and as keys; decided by 128-bit arithmetic and libc; non-trivial: more than one character', [bin('main', [('num.cxx', [])], 2000000, 80000000)], [LIBC])
prop('J08', 'texts of random, edge and whole blocks of code points, around blocks of 16 and with repeated escapes, rendered with random escapes and read into strings, C strings, single characters, elements and keys of five character types through pointers, forward and input iterators under five sets of options; written from strings, views, C strings and characters, with and without SIMD; ill-formed escapes and UTF-8 decided by the reference codec; non-trivial: not the empty text', [bin('main', [('str.cxx', [])], 1000000, 40000000), bin('nosimd', [('str.cxx', ['CXON_USE_SIMD=0'])], 400000, 10000000)], [REF])

# forms of input and output
prop('I01', 'documents and items of the type, mutated, truncated, random, and soups of tokens and heads are read through pointers and through another form of input (forward and input iterators for every type, 12 further forms for a selection); outcome, error, end and value are compared; non-trivial: accepted, or rejected past the first byte', [bin('main', [('io.cxx', ['P_I01', 'FMT_' + f, 'GROUP=%d' % g]) for f in 'JC' for g in (4, 3, 2, 5, 6, 1)], 1800000, 100000000)])
prop('I02', 'random values of every type are written to a string and to another form of output: iterators, containers (empty or not), streams, and bounded ranges of every capacity from 0 to two more than the output (sampled for long ones) in blocks of exactly that size; bytes, ends and errors are compared; non-trivial: more than one byte is written', [bin('main', [('io.cxx', ['P_I02', 'FMT_' + f, 'GROUP=%d' % g]) for f in 'JC' for g in (4, 3, 2, 5, 6, 1)], 1000000, 60000000)])

# options
prop('J12', 'under each of twelve sets of options (comments, trailing separators, quoting of keys, apostrophes, other separators, JavaScript numbers and strings, CXCF, no validation) random values of many types, classes and nodes are written and compared with the model of the format, rendered freely within it (comments, whitespace, escapes, keys with and without quotes) and read back, and texts of the neighbouring options or slightly changed texts are decided by the reference parser of the format; non-trivial: a decided text longer than two bytes', [bin('main', [('opts.cxx', ['FMT=%d' % f]) for f in range(1, 13)], 400000, 20000000, opt=['-O0'])], [REF, LIBC])

# tidy
prop('J13', 'random documents in random whitespace and escapes, nodes and values of every type are tidied and indented with every width and pad character, through every form of input and output including ranges of all capacities; tokens, exact layout, idempotence, value read; non-trivial: a text longer than two bytes', [bin('main', [('tidy.cxx', ['GROUP=%d' % g]) for g in (0, 1, 2, 3, 4)], 800000, 40000000)], [REF])
prop('A01', 'histories of assignments, copies, moves, swaps and reads over nodes of all kinds in two arenas (allocators that propagate or not, std::pmr), and readings of nested containers in an arena, with a failure at any allocation; readings of every type with a failure at any call of operator new; inputs and outputs that throw at any operation; arenas check where and with what size each block is returned and that none is lost, everything read is in the arena and nothing from elsewhere, values compared with the model; non-trivial: a failure or blocks of another arena in the history, more than one allocation, or more than two bytes',
     [bin('main', [('alloc.cxx', ['GROUP=%d' % g]) for g in (1, 2, 3, 4, 5)], 200000, 10000000), bin('throw', [('alloc.cxx', ['GROUP=%d' % g]) for g in (6, 7, 8, 9)], 100000, 5000000, flags=['-fsized-deallocation'])], [REF])
prop('N01', 'histories of up to 60 operations over a pool of three nodes of ten kinds (constructions, copies, moves, swaps, assignments of values, literals, lists and parts of nodes to their owners and back, edits of containers, comparisons, hashes, queries, complete and failed reads, writes) are run in parallel with a model of values, compared after every operation; non-trivial: more than two operations', [bin('main', [('hist.cxx', ['GROUP=%d' % g]) for g in (1, 2, 3, 4)], 400000, 20000000)], [REF])

prop('B01', 'values of the Boost types (containers of every kind, strings, dynamic_bitset, variant, variant2, nested in each other and in std types) take the place of the std types in the checks of output, renderings, round trips, acceptance, memory safety and forms of input and output of both formats; the models are those of the std types that hold the same values; non-trivial: as in those checks',
     [bin('json', [('json.cxx', ['P_' + p, 'GROUP=%d' % g]) for g in (7, 8) for p in ('J01', 'J02', 'J03', 'J05')], 600000, 20000000, opt=['-O0']),
      bin('cbor', [('cbor.cxx', ['P_' + p, 'GROUP=%d' % g]) for g in (7, 8) for p in ('C01', 'C02', 'C03', 'C04')], 600000, 20000000, opt=['-O0']),
      bin('raw', [('raw.cxx', ['P_' + p, 'VAR=0', 'GROUP=%d' % g]) for g in (7, 8) for p in ('J06', 'C05')], 300000, 10000000, opt=['-O0']),
      bin('io', [('io.cxx', ['P_' + p, 'FMT_' + f, 'GROUP=%d' % g]) for g in (7, 8) for p in ('I01', 'I02') for f in 'JC'], 300000, 10000000, opt=['-O0'])], [REF, LIBC])
prop('H01', 'two to seven calls (reads through three forms of input with several options and sizes of buffers, writes to three forms of output, nodes, classes, tidy, in JSON, CXCF and CBOR; valid and broken inputs; often of the same kind) are made in one order and again in three others, with errno set to anything before them, and in two to four threads that share the inputs and the values written, under ThreadSanitizer; every outcome (value, error, end, output) must be the same; non-trivial: every case',
     [bin('history', [('share.cxx', ['GROUP=%d' % g]) for g in (1, 2, 3)], 150000, 6000000, opt=['-O0']),
      bin('threads', [('share.cxx', ['GROUP=%d' % g, 'THREADS']) for g in (1, 2, 3)], 16000, 600000, san=False, flags=['-fsanitize=thread', '-pthread'], opt=['-O1'])], [])

# configurations
import conf
def variant(name, cc, std, opt, san=False, flags=()): return bin(name, [('conf.cxx', ['PART=%d' % i]) for i in (0, 1, 2)], 0, 0, main=False, cc=cc, std=std, opt=opt, san=san, flags=list(flags) + ['-w'])
prop('V01', 'documents, items, values, around 55 types and nodes (the inputs of the other checks) are read as JSON under four sets of options, CXCF and CBOR through three kinds of iterators and written back, or written, or tidied, by programs of ten configurations of language version, compiler, SIMD, NDEBUG and optimization; all outcomes (values, errors, positions, outputs) are compared; non-trivial: an input longer than two bytes',
     [variant('clang20', 'clang++', 'c++20', ['-O0'], True), variant('clang11', 'clang++', 'c++11', ['-O0'], True), variant('clang11nd', 'clang++', 'c++11', ['-O2'], flags=['-DNDEBUG']), variant('gcc11', 'g++', 'c++11', ['-O0']), variant('gcc14', 'g++', 'c++14', ['-O0']),
      variant('gcc17', 'g++', 'c++17', ['-O1']), variant('clang17ns', 'clang++', 'c++17', ['-O1'], flags=['-DCXON_USE_SIMD=0']), variant('gcc20ns', 'g++', 'c++20', ['-O0'], flags=['-DCXON_USE_SIMD=0', '-DNDEBUG']), variant('clang23', 'clang++', 'c++23', ['-O0']), variant('gcc23', 'g++', 'c++23', ['-O0']),
      bin('gen', [('confgen.cxx', [])], 0, 0, main=False, san=False)], technique='property-based differential testing: the same generated cases in ten build configurations, all outcomes compared, with shrinking',
     cases=dict(quick=800000, thorough=20000000), custom=conf.driver)
