#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/mkprops.py rewrites it."""
import json, os
J='src/cxon/lang/json/'; C='src/cxon/lang/cbor/'; M='src/cxon/lang/common/'; L='src/cxon/lib/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['observe_at']=observe or ['from_bytes/to_bytes results and the written bytes']
    a['hook_needed']=None
    assert len(title)<=80,title
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

# ---------------------------------------------------------------- JSON
p('J01','JSON output is valid RFC 8259 text that denotes the written value',
 'Every successful JSON write (default options) of a value of a supported type produces one complete RFC 8259 document in well-formed UTF-8, without insignificant whitespace. Read by an independent RFC 8259 parser, that document denotes exactly the written value: the same numbers, the same strings code point by code point, the same element order and count, the same map entries, null for absent optionals and null pointers.',
 ['inputs'],'all values (numbers at limits, any Unicode string in any character type, nested containers, empty containers) of the supported std types, character arrays and pointers, optional, variant, tuple, bitset, chrono, class types',
 'Tests compare the output of a few literal values with literal strings.',
 [J+'fundamental.hxx',J+'compound.hxx',J+'lib/std',M+'cio/string.hxx',M+'cio/container.hxx'],
 [('string escaping and transcoding',M+'cio/string.hxx, cio/char.hxx'),('number writing',M+'cio/numeric.hxx, charconv.hxx'),('container separators',M+'cio/container.hxx')])
p('J02','Every RFC 8259 rendering of a value reads back as that value',
 'Whatever lawful JSON text denotes a value that a type can hold - any insignificant whitespace, any mix of literal characters and escapes (short, \\uXXXX in either case, surrogate pairs), quoted keys, any member order - reading it into that type succeeds, yields that value, and consumes the text up to its last significant character. What follows the value is left unread.',
 ['inputs'],'all (value, rendering) pairs for the supported std types',
 'Tests read a few fixed texts per type; the space of renderings is never sampled.',
 [J+'fundamental.hxx',J+'compound.hxx',J+'lib/std',M+'cio'],
 [('whitespace skipping and delimiters',M+'cio/io.hxx, cio/chcls.hxx'),('escape decoding',M+'cio/char.hxx'),('list/map reading',M+'cio/container.hxx')])
p('J03','JSON round trip: reading what was written restores the value',
 'For every supported std type and every value of it, writing succeeds, and reading the produced JSON into a fresh object of the same type succeeds, consumes all of it and yields an equal value; writing that value again gives the same bytes for types with a determined element order. This includes nested combinations of sequence, associative, unordered, adaptor, tuple, optional, variant, bitset, complex, valarray, chrono, span, array, pointer and smart-pointer types.',
 ['inputs'],'all values of the supported std types and of nested combinations of them (finite and, quoted, non-finite floating point)',
 'Tests check one or two values per type and mostly only one direction.',
 [J+'lib/std',J+'compound.hxx',J+'fundamental.hxx',M+'cio'],
 [('per-type read/write specializations',J+'lib/std'),('pointer ownership through allocators',J+'compound.hxx, '+M+'allocator.hxx')])
p('J04','A JSON document is accepted exactly when it is grammatical',
 'Reading text as a generic JSON value succeeds exactly when the text starts with a complete RFC 8259 value, and then the end position is just past that value. Otherwise an error is reported - never success, never a crash - with an end position within the input, not beyond the first offending byte plus the token it belongs to; in particular, every proper prefix of a document whose outermost value is a container or a string is rejected.',
 ['inputs'],'all texts: valid documents, truncations at every position, and documents with inserted, deleted or replaced tokens and characters',
 'The conformance suite is a fixed list of files; mutations of arbitrary documents are not covered.',
 [L+'node.json.hxx',M+'cio',J+'node/node.hxx'],
 [('dispatch on the first character',L+'node.json.hxx'),('list and map reading',M+'cio/container.hxx'),('number syntax',L+'node.json.hxx')])
p('J05','A typed JSON read succeeds exactly when the text is a lawful value of the type',
 'Reading a JSON document into a supported type succeeds only if the document denotes a value of that type: kind, arity (tuples and pairs exactly, fixed-size arrays at most), element types, numeric range, character count, index range of variants, length of bitsets. One that does not is reported as an error with the end position inside the input (a number may be read up to the first character that cannot belong to its type, which then fails what encloses it); on success the value is exactly the denoted one.',
 ['inputs'],'all (type, JSON document) pairs, including documents that are almost right for the type',
 'Tests list a few wrong inputs per type.',
 [J+'fundamental.hxx',J+'compound.hxx',J+'lib/std'],
 [('per-type checks and error codes',J+'lib/std, '+J+'error.hxx')])
p('J06','Reading arbitrary bytes as JSON or CXCF is memory-safe, terminates, reports',
 'For every byte string and every supported target type, reading it as JSON or CXCF terminates, touches no memory outside the input and the target, does not invoke undefined behaviour, leaks nothing, does not throw by itself and returns either success or an error, with an end position inside the input. The target stays a valid object that can be inspected, assigned, written and destroyed.',
 ['inputs'],'all byte strings, all supported target types, random-access and input iterators, with and without end sentinels',
 'Tests run a few malformed inputs and not under sanitizers with exact-size buffers.',
 ['src/cxon/cxon.hxx',M+'cio',J+'fundamental.hxx',J+'compound.hxx',J+'lib/std',L+'node.json.hxx'],
 [('end-of-input checks',M+'cio/io.hxx'),('bounded buffers for numbers and keys',M+'cio/numeric.hxx, cio/key.hxx')])
p('J07','JSON numbers are exact, correctly rounded and range checked',
 'An integer written as JSON is its exact decimal notation, and reading JSON digits into an integer type gives exactly that integer if the type can hold it and an error otherwise. A floating-point value survives a round trip bit for bit, and reading any decimal notation gives the correctly rounded value of the target type, or an error if it is out of range; malformed or overlong numbers are errors (apart from the documented leniency of the default, non-strict, number parsing for typed targets).',
 ['inputs'],'all values of all arithmetic types; all decimal notations (long digit strings, exponents, ties, subnormals), through buffered and unbuffered paths, strict and default number parsing',
 'Tests contain a handful of numbers near the limits.',
 [M+'cio/numeric.hxx',M+'charconv.hxx',J+'fundamental.hxx'],
 [('token consumption into a bounded buffer',M+'cio/numeric.hxx'),('from_chars/to_chars',M+'charconv.hxx')])
p('J08','JSON strings carry any Unicode text between all character types',
 'Any sequence of Unicode code points, held in a string of char, char8_t, char16_t, char32_t or wchar_t, is written as JSON that denotes the same code points, and JSON text denoting it is read into a string of any of these types as the well-formed UTF-8/16/32 of the same code points. Text with ill-formed UTF-8, unescaped control characters, bad escapes or lone surrogates is reported as an error.',
 ['inputs'],'all code point sequences, all escape choices, all character types, strings, arrays and pointers; all ill-formed byte and escape sequences',
 'Tests sample single code points per range.',
 [M+'cio/char.hxx',M+'cio/string.hxx',M+'cio/chcls.hxx',J+'fundamental.hxx',J+'compound.hxx'],
 [('UTF-8/16/32 transcoding',M+'cio/char.hxx'),('escape handling',M+'cio/char.hxx, cio/string.hxx')])
p('J11','JSON class and enum bindings read and write exactly the declared members',
 'A bound class is written as a JSON object with its non-default members in declaration order, keyed by the bound names, and a bound enum as its bound name. Reading accepts the members in any order and any subset, ignores declared-skipped ones whatever their value, leaves absent members unchanged, and rejects unknown keys and unknown or unbound enum names; repeated members are rejected unless the option that assumes unique keys is switched off, when the last one counts.',
 ['inputs'],'all member values, orders, subsets, duplicates, unknown keys, skipped values of any JSON shape, key escapes; intrusive and non-intrusive bindings',
 'Tests use a few fixed objects.',
 [J+'class.hxx',J+'enum.hxx',M+'cio/class.hxx',M+'cio/enum.hxx',M+'cio/key.hxx'],
 [('field lookup and state',M+'cio/class.hxx'),('sink for skipped values',M+'cio/class.hxx'),('enum table search',M+'cio/enum.hxx')])
p('J12','Each JSON and CXCF option changes exactly what it documents',
 'Each format option (comments, trailing separators, unquoted and unquoted-on-write keys, JavaScript NaNs and infinities, strict JavaScript output, assumed absence of escapes, CXCF syntax) makes the reader accept exactly the additional notation it names, with the same resulting values, and does not change how plain JSON is read. With the option off that notation is an error; output produced with the option reads back with it to the same value.',
 ['inputs','configurations'],'all option combinations over all documents and values',
 'Tests switch a few options on for a few texts.',
 [J+'json-fwd.hxx','src/cxon/lang/cxcf',M+'cio/chcls.hxx',M+'cio/container.hxx',M+'cio/key.hxx'],
 [('format traits',J+'json-fwd.hxx, src/cxon/cxcf.hxx'),('comment skipping',M+'cio/io.hxx')])
p('J13','Tidying and indenting change only insignificant whitespace',
 'Pretty-printing a valid JSON text or a value gives a text that has exactly the same tokens and differs only in whitespace outside strings, in every indentation setting; it is idempotent and denotes the same value.',
 ['inputs'],'all valid JSON texts and values, all indentation widths and characters, all output forms',
 'Tests compare a few literal texts.',
 [J+'tidy.hxx'],[('indenting iterator',J+'tidy.hxx')])
# ---------------------------------------------------------------- I/O forms
p('I01','The result of reading does not depend on the form of the input',
 'For JSON and CBOR, reading the same bytes through pointers, a contiguous container, a list, a forward-only or an input-only (single pass) iterator, or a stream gives the same success or failure and the same value and, on success, the same end position. The only exception is the documented limit on buffered lengths (num_len_max, ids_len_max), which applies to every form but the pointers and may turn success into an overflow error. The error reported is the same for texts with a single fault; a failed read never reports success in another form.',
 ['inputs','configurations'],'all byte strings, all target types, all iterator categories',
 'Tests use std::string and a couple of other forms on fixed inputs.',
 ['src/cxon/cxon.hxx',M+'cio',M+'bio',M+'container.hxx'],
 [('buffered and unbuffered paths',M+'cio/numeric.hxx, cio/string.hxx'),('rewind for forward iterators only',M+'cio/io.hxx, bio/io.hxx')])
p('I02','The result of writing does not depend on the form of the output',
 'For JSON and CBOR, writing a value to an output iterator, a container, a stream or a bounded range produces the same bytes. Writing to a bounded range never touches anything past its end; it succeeds exactly when the whole output fits and reports an output failure otherwise, having written only a prefix of that output, and the returned end position delimits what was written.',
 ['inputs','configurations'],'all values, all output forms, all capacities from zero to more than enough',
 'Tests try one or two capacities for one value.',
 ['src/cxon/cxon.hxx','src/cxon/utility.hxx',M+'cio/io.hxx',M+'bio/io.hxx'],
 [('range output iterator',M+'container.hxx, '+M+'cio/io.hxx'),('failure propagation',M+'cio/io.hxx, bio/io.hxx')])
# ---------------------------------------------------------------- CBOR
p('C01','CBOR round trip: reading what was written restores the value',
 'For every supported std type and every value of it, writing CBOR succeeds, and reading the produced bytes into a fresh object of the same type succeeds, consumes all of them and yields an equal value (floating point bit for bit, NaN as NaN). This includes nested combinations of sequence, associative, unordered, adaptor, tuple, optional, variant, bitset, complex, valarray, chrono, string, array, pointer and smart-pointer types.',
 ['inputs'],'all values of the supported std types and of nested combinations of them',
 'Tests check one or two values per type and mostly only one direction.',
 [C+'lib/std',C+'compound.hxx',C+'fundamental.hxx',C+'common/container.hxx'],
 [('per-type read/write specializations',C+'lib/std'),('byte/text/value arrays',C+'common/container.hxx')])
p('C02','CBOR output is one well-formed item in shortest form denoting the value',
 'Every successful CBOR write produces exactly one well-formed RFC 7049 data item with integers, lengths and tags in their shortest form and no indefinite lengths. Decoded by an independent decoder, the item denotes the written value: integers by value, floating point by bits, text as text strings, bytes as byte strings, sequences as arrays, associative containers and classes as maps, undefined for absent optionals, null for null pointers.',
 ['inputs'],'all values of the supported types',
 'Tests compare the output of a few literal values with literal bytes.',
 [C+'fundamental.hxx',C+'compound.hxx',C+'lib/std',C+'common/container.hxx',C+'common/tag.hxx'],
 [('head writing',C+'fundamental.hxx, '+C+'common/container.hxx')])
p('C03','Every lawful CBOR encoding of a value reads back as that value',
 'Whatever well-formed encoding denotes a value that a type can hold - non-shortest integers and lengths, half/single/double floating point, definite or indefinite lengths with any chunking, leading tags, strings as arrays of characters, any order of map entries - reading it into that type succeeds, yields that value and consumes exactly that item. What follows is left unread.',
 ['inputs'],'all (value, encoding) pairs for the supported std types',
 'Tests read a few fixed encodings per type.',
 [C+'fundamental.hxx',C+'compound.hxx',C+'lib/std',C+'common/container.hxx',C+'common/tag.hxx'],
 [('head decoding',C+'fundamental.hxx'),('indefinite-length reading',C+'common/container.hxx'),('tag skipping',C+'common/tag.hxx')])
p('C04','Ill-formed, truncated, out-of-range or mismatched CBOR is rejected',
 'Reading CBOR into a supported type succeeds only if the input starts with a well-formed item that denotes a value of that type: every truncation, reserved head, misplaced break, wrong major type, wrong count, or integer outside the range of the type is reported as an error with the end position inside the input. On success the value is exactly the denoted one.',
 ['inputs'],'all (type, byte string) pairs: truncations at each byte, mutations of valid encodings, valid encodings of other types',
 'Tests list a few wrong inputs per type.',
 [C+'fundamental.hxx',C+'compound.hxx',C+'lib/std',C+'common/container.hxx',C+'error.hxx'],
 [('range and size checks',C+'fundamental.hxx, '+C+'common/container.hxx')])
p('C05','Reading arbitrary bytes as CBOR is memory-safe, bounded and terminates',
 'For every byte string and every supported target type, reading it as CBOR terminates, touches no memory outside the input and the target, invokes no undefined behaviour, leaks nothing, uses memory and time in proportion to the input (whatever sizes it declares) and returns either success or an error, with an end position inside the input. The target stays a valid object.',
 ['inputs'],'all byte strings (hostile lengths, deep nesting, tag chains included), all supported target types and iterator categories',
 'Tests run a few malformed inputs and not under sanitizers with exact-size buffers.',
 [C+'fundamental.hxx',C+'compound.hxx',C+'common/container.hxx',C+'common/sink.hxx',L+'node.cbor.hxx'],
 [('bounded reads',M+'bio'),('bounded reservations',C+'common/container.hxx')])
p('C06','CBOR class and enum bindings read and write exactly the declared members',
 'A bound class is written as a CBOR map with its non-default members in declaration order, keyed by the bound names, and a bound enum as its integer value. Reading accepts the members in any order and any subset, in any lawful encoding, ignores declared-skipped ones whatever well-formed item they hold, leaves absent members unchanged, and rejects unknown keys, repeated keys and values that are not bound enumerators.',
 ['inputs'],'all member values, orders, subsets, duplicates, unknown keys, skipped items of any CBOR shape; intrusive and non-intrusive bindings',
 'Tests use a few fixed objects.',
 [C+'class.hxx',C+'enum.hxx',C+'common/sink.hxx'],
 [('field lookup and state',C+'class.hxx'),('sink for skipped values',C+'common/sink.hxx'),('enum table search',C+'enum.hxx')])
# ---------------------------------------------------------------- nodes
p('N01','Polymorphic nodes behave as values under any history of operations',
 'A JSON or CBOR node always holds exactly one alternative with the value last given to it: after any sequence of constructions, copies, moves, (self-, sub-node and cross-kind) assignments, swaps, resets, emplacements, container edits through references, comparisons and serializations it agrees with a simple value model. Copies are independent of their originals, comparison is structural equality, kind queries and accessors agree, and no memory is leaked or used after being freed.',
 ['histories'],'all sequences of node operations over a pool of nodes, for default and customized node traits and allocators',
 'Tests run a fixed sequence per operation.',
 [M+'node-value.hxx',J+'node/node.hxx',C+'node/node.hxx'],
 [('variant storage and special members',M+'node-value.hxx')],
 ['node accessors, comparison, sanitizers'],[('kind and storage','the alternative held and its payload',M+'node-value.hxx')])
p('N03','JSON nodes represent exactly the JSON document they were read from',
 'Reading a JSON document into a JSON node gives a tree with the same structure, strings and numbers (integers that fit 64 bits exact and with the signedness that fits, others as correctly rounded doubles), and writing a node gives a JSON text that denotes the node. Reading that text again yields an equal node.',
 ['inputs'],'all JSON documents, all node trees, default, ordered and custom node traits, and special-number extraction',
 'Tests compare fixed documents textually.',
 [L+'node.json.hxx',J+'node/node.hxx',L+'node.ordered.hxx'],
 [('number kind selection',L+'node.json.hxx'),('node reading and writing',L+'node.json.hxx')])
p('N04','CBOR nodes represent exactly the CBOR item they were read from',
 'Reading a well-formed CBOR item whose integers fit 64-bit types into a CBOR node gives a tree with the same integers, byte strings, text strings, arrays, maps, tags, booleans, null, undefined, simple values and floating-point values, and writing a node gives well-formed CBOR that denotes the node. Reading that again yields an equal node, and ill-formed or truncated items are rejected.',
 ['inputs'],'all well-formed items in any encoding, their truncations and mutations, all node trees',
 'Tests compare fixed items.',
 [L+'node.cbor.hxx',C+'node/node.hxx'],[('node reading and writing',L+'node.cbor.hxx')])
p('N05','Nodes convert between JSON and CBOR without changing the document',
 'A JSON node written as CBOR and read back as a JSON node is equal to the original, and so is a CBOR node read from its own JSON output up to the documented loss (tags dropped, undefined as null, simple values as numbers, byte strings as arrays of numbers). A typed value serialized by one format and read through a node denotes the same document as through the other.',
 ['inputs'],'all node trees and typed values, both formats, both node types, default and ordered',
 'Tests convert a few fixed nodes.',
 [L+'node.cbor.hxx',L+'node.json.hxx',L+'node.ordered.hxx'],[('cross-format node codecs',L+'node.cbor.hxx, '+L+'node.json.hxx')])
p('N06','Ordered nodes keep members in document order',
 'Ordered JSON and CBOR nodes read, hold and write object members in exactly the order and multiplicity of the document, in both formats, while otherwise denoting the same document as the default nodes.',
 ['inputs'],'all documents with any member order and repeated keys, and all ordered node trees',
 'Tests check one document.',
 [L+'node.ordered.hxx'],[('vector-of-pairs objects',L+'node.ordered.hxx')])
p('N07','Node nesting is limited exactly by the configured recursion depth',
 'A document is read into or written from a node exactly when its nesting is below the configured recursion depth (default 64), for arrays, objects, map keys and (in CBOR nodes) tags alike and for all node types and formats; deeper ones are reported as a recursion-depth error. No input, however deeply nested, exhausts the stack.',
 ['inputs','configurations'],'all nesting shapes and depths around the limit and far beyond, several configured limits',
 'Tests check a few depths of one shape.',
 [L+'node.json.hxx',L+'node.cbor.hxx',M+'cio/value.hxx'],[('recursion guard',L+'node.hxx')])
# ---------------------------------------------------------------- memory
p('A01','Allocators given to the library are used for everything it allocates',
 'Objects created while reading pointers are obtained from the allocator passed to the read, nodes with an allocator take all memory from it and propagate it to sub-nodes as standard allocator-aware containers do, and every allocation is returned to the allocator it came from with the same size. When an allocation fails, the exception reaches the caller, nothing is leaked or corrupted, and the objects involved remain valid.',
 ['inputs','fault_sequences'],'all reads, node histories and points of allocation failure',
 'Tests use one stateful allocator once and never fail an allocation.',
 [M+'allocator.hxx',M+'node-value.hxx',M+'container.hxx',J+'compound.hxx',C+'compound.hxx'],
 [('context allocator',M+'allocator.hxx'),('pointer container',M+'container.hxx'),('extended node constructors',J+'node/node.hxx, '+C+'node/node.hxx')])
# ---------------------------------------------------------------- boost
p('B01','Boost types serialize like their std counterparts and round trip',
 'For every supported Boost type (containers, strings, dynamic_bitset, variant, variant2) and every value, JSON and CBOR output is the same as for the corresponding std type holding the same value, denotes that value to an independent decoder, and reads back to an equal value. Wrong input is rejected as for the std type, and fixed-capacity containers never exceed their capacity.',
 ['inputs'],'all values and encodings for the supported Boost types',
 'Tests check one or two values per type.',
 [L+'boost',J+'lib/boost',C+'lib/boost'],[('per-type specializations',J+'lib/boost, '+C+'lib/boost')])
# ---------------------------------------------------------------- configurations, history
p('V01','Behaviour does not depend on language standard, compiler or build flags',
 'For the same inputs the library gives the same results - success or error, values, end positions, bytes written - when built as C++11, 14, 17, 20 or 23, with gcc or clang, with or without assertions, optimization and SIMD code paths, for every type that the language version has. Not covered: what the standard library decides (spellings of nan and inf that plain JSON does not have, declared sizes around the max_size() of containers), and how much of an output that does not fit is written before the error.',
 ['inputs','configurations'],'all inputs and values over all supported build configurations',
 'Tests are built in two configurations and the results are not compared with one another.',
 ['src/cxon/cxon.hxx',M+'charconv.hxx',M+'cio/string.hxx','src/cxon/utility.hxx'],
 [('charconv fallback',M+'charconv.hxx'),('SIMD string scanning',M+'cio')])
p('H01','Calls are independent of one another, across history and threads',
 'The result of a read or write depends only on its arguments: not on earlier calls (successful or failed) and not on calls running at the same time in other threads on other objects. Concurrent use with distinct objects is free of data races.',
 ['histories','schedules'],'all sequences and interleavings of reads and writes on distinct objects',
 'Tests are single threaded and each call is checked once.',
 ['src/cxon/cxon.hxx',J+'class.hxx',J+'enum.hxx',C+'class.hxx',M+'cio'],
 [('function-local static tables',J+'class.hxx, '+C+'class.hxx'),('per-call contexts','src/cxon/cxon.hxx')])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
