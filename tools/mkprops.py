#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PJ, PM, PS = 'src/lib/PJson.cpp', 'src/lib/PMsgPack.cpp', 'src/lib/PSrl.cpp'
IN, OUT, ENV, NODE, TREE = 'src/lib/In.cpp', 'src/lib/Out.cpp', 'src/lib/Environment.cpp', 'src/lib/Node.cpp', 'src/lib/Tree.cpp'
INH, INHH, OUTH, OUTHH = 'include/Srl/In.h', 'include/Srl/In.hpp', 'include/Srl/Out.h', 'include/Srl/Out.hpp'
RES, NH, NHH, UN, VH, TPT = 'include/Srl/Resolve.hpp', 'include/Srl/Node.h', 'include/Srl/Node.hpp', 'include/Srl/Union.hpp', 'include/Srl/Value.hpp', 'include/Srl/TpTools.h'
SC, BC = 'src/lib/ToolsStrConv.cpp', 'src/lib/ToolsBtsConv.cpp'
HH, HHH, HP, HPH, HPHH = 'include/Srl/Hash.h', 'include/Srl/Hash.hpp', 'src/lib/Heap.cpp', 'include/Srl/Heap.h', 'include/Srl/Heap.hpp'
out = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(','), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

p('C01', 'Arbitrary bytes offered as JSON are accepted or cleanly rejected',
  'For every byte sequence offered as a JSON document, from memory or from a stream, dynamic loading and typed restoring either succeed or throw the library exception. They never read or write outside the supplied bytes or owned memory, never crash, never loop forever, and never throw anything else. A successfully loaded document can be walked, queried and stored again.',
  'inputs', 'all byte sequences; all target types; memory and stream sources with any read granularity',
  'The malformed-input tests use a handful of fixed documents; a defect needs one particular malformed byte sequence at one particular place.',
  [PJ, INH, INHH, IN, NODE, TREE], [('JSON token scanner, escapes, comments', PJ), ('bounded input cursor', INHH), ('scope reading and skipping', NODE)])
p('C02', 'Arbitrary bytes offered as MessagePack are accepted or cleanly rejected',
  'For every byte sequence offered as a MessagePack document, from memory or from a stream, dynamic loading and typed restoring either succeed or throw the library exception. They never read or write outside the supplied bytes or owned memory, never crash, never loop forever, and never throw anything else. A successfully loaded document can be walked, queried and stored again.',
  'inputs', 'all byte sequences; all target types; memory and stream sources with any read granularity',
  'Tests parse documents the library wrote itself plus a few fixed ones; length and count fields are never hostile.',
  [PM, INH, INHH, IN, NODE, TREE], [('type/length decoding', PM), ('bounded input cursor', INHH), ('scope reading and skipping', NODE)])
p('C03', 'Arbitrary bytes offered as Srl binary are accepted or cleanly rejected',
  'For every byte sequence offered as a document of the native binary format, from memory or from a stream, dynamic loading and typed restoring either succeed or throw the library exception. They never read or write outside the supplied bytes or owned memory, never crash, never loop forever, and never throw anything else. A successfully loaded document can be walked, queried and stored again.',
  'inputs', 'all byte sequences; all target types; memory and stream sources with any read granularity',
  'Tests only parse binary documents the library wrote itself; forged lengths, name references and over-long integers are never seen.',
  [PS, INH, INHH, IN, NODE, TREE], [('tag, variable-length integer and name-table decoding', PS), ('bounded input cursor', INHH), ('scope reading and skipping', NODE)])
p('C04', 'Reading from a stream gives the same result as reading from memory',
  'For every document, loading or restoring it from an input stream yields exactly the values, or exactly the rejection, that reading the same bytes from memory yields. This holds for every way the stream hands out its bytes in pieces and wherever strings, numbers, binary blocks or escapes straddle an internal buffer boundary.',
  'inputs,schedules', 'all documents, all positions of tokens relative to the internal buffer, all short-read patterns of the stream',
  'The existing stream tests use a few small documents in string streams, so tokens seldom straddle the internal buffer and reads are never short.',
  [INH, INHH, IN, PJ, PM, PS], [('stream refill and anchored block reading', IN), ('block reading until a token', INHH)])
p('C05', 'Writing to a stream gives the same bytes as writing to memory',
  'For every content and format, storing to an output stream produces exactly the bytes that storing to memory produces, whatever the size of the document and wherever lengths are back-patched. Content already written to the stream before the document is left untouched.',
  'inputs,histories', 'all contents, sizes up to several internal output segments, all prior stream contents',
  'Existing tests store to an empty string stream with small documents; segment boundaries and earlier stream content are not exercised.',
  [OUT, OUTH, OUTHH, PM, PS], [('segmented output and tickets patched later', OUT), ('ticket reservation', OUTHH), ('scope length back-patching', PM)])
p('C06', 'Integers, booleans and null survive a store/restore round trip in every format',
  'For every value of every integral type, boolean and null, stored as a field, a list element or a nested value in any format, restoring it into the same type or a wider one yields the same value, and the stored scalar stays a scalar of a type able to hold it. The result does not depend on whether the document is compact or pretty printed.',
  'inputs', 'all 2^64 values for every integral type, all formats, all containing positions',
  'Tests use a handful of constants per type; encodings change at about forty magnitude boundaries.',
  [PJ, PM, PS, VH, TPT, SC], [('integer output', PM), ('variable-length integers', PS), ('integer to text', SC), ('value narrowing', TPT)])
p('C07', 'Floating point numbers survive a store/restore round trip',
  'In the binary formats every single and double precision number, including negative zero, subnormals, infinities and NaN, is restored with the same value (and the same bits unless it is NaN). In JSON every finite number whose shortest decimal text is produced is restored as the same number.',
  'inputs', 'all 2^32 and 2^64 bit patterns, all formats, all containing positions',
  'Tests use a few constants; whether a double is sent as a float depends on its exact bits.',
  [PM, PS, PJ, VH, TPT, SC, 'src/lib/fpconv/fpconv.c'], [('double narrowed to float when lossless', VH), ('float output', PM), ('shortest decimal text', 'src/lib/fpconv/fpconv.c')])
p('C08', 'Strings and binary blocks survive a store/restore round trip in every format',
  'Every string (any bytes that are valid text, including embedded zero bytes, quotes, backslashes and control characters) and every binary block, of any length including the lengths at which an encoding changes its length field, is restored with exactly the same bytes. The same holds for element and field names.',
  'inputs', 'all contents, all lengths including 31/32, 254..256 and 65534..65536, all formats, values and names',
  'Tests use a few short printable strings and one binary block; length-field boundaries and special bytes are sampled at best.',
  [PJ, PM, PS, RES, BC, ENV], [('escaping', PJ), ('length headers', PM), ('string and name table', PS), ('binary as base64 text', BC)])
p('C09', 'Composite objects survive a store/restore round trip in every format',
  'For every supported composite (nested objects, arrays, vectors, lists, sets, maps, tuples, pairs, owning pointers, inheritance, members wrapped as binary blocks) and all contents, storing and restoring in any format reproduces an equal object, with sequence order and container size preserved. Existing contents of the destination are replaced, not merged. (Null pointers to class types are a known exception.)',
  'inputs,programs', 'all shapes up to the bounds, all element values, all formats, destinations with earlier content',
  'Tests restore one fixed object of each kind into a fresh destination.',
  [RES, 'include/Srl/Resolve.h', NHH, 'include/Srl/Context.hpp', NODE], [('container, map, tuple, pointer handlers', RES), ('field resolution', 'include/Srl/Context.hpp')])
p('C10', 'Every JSON document written is well-formed JSON with the stored content',
  'Whatever field names, strings, numbers and nesting are stored, the JSON output is accepted by a strict RFC 8259 parser, and that parser recovers exactly the stored structure, names and values. Compact and pretty-printed output denote the same document.',
  'inputs', 'all strings and names (valid text), all scalars (finite numbers), all nestings within bounds, both layouts',
  'Tests only parse the output with the library itself, which accepts more than JSON and would hide malformed output.',
  [PJ, SC], [('separators, indentation, escaping', PJ), ('number text', SC)])
p('C11', 'MessagePack documents conform to the MessagePack specification both ways',
  'Every MessagePack document written is decoded by an independent decoder to exactly the stored structure and values. Every well-formed MessagePack document built from maps with text keys, arrays, text, binary, integers, floats, booleans and nil, in any legal encoding width, is read with exactly the values the specification gives it.',
  'inputs', 'all encodings of all types within bounds, both directions, big-endian fields of every width',
  'Tests only read what the library wrote, so a symmetric deviation from the specification is invisible.',
  [PM, OUTH, INH], [('type tables, header lengths, byte order', PM)])
p('C12', 'Every valid JSON document is read with the meaning RFC 8259 gives it',
  'For every valid JSON document (object or array at the top), with any whitespace, any escape sequences including surrogate pairs and any number syntax, loading succeeds and yields the structure, names, strings and numbers the standard defines. Integers inside the 64-bit ranges are read exactly, other numbers as the nearest double.',
  'inputs', 'all valid documents within the bounds',
  'Tests read a few fixed documents; escapes, surrogates, whitespace placement and number forms are sampled.',
  [PJ, SC, INHH], [('number and literal scanning', PJ), ('unescaping', PJ), ('text to number', SC)])
p('C13', 'Numeric conversion on restore is exact or refused',
  'When a stored number is restored into an integral type, the result is mathematically equal to the stored value (for a floating point source, its truncation toward zero) or the library exception is thrown; it is never wrapped, and integers are accepted whenever the value lies in the range of the target (for boolean targets only 0 and 1). Floating point targets receive the nearest value, or the exception when the stored number is out of their range; a stored boolean converts to 0 or 1.',
  'inputs', 'all source types and values x all target types, through every access path',
  'Tests check a few chosen overflows; a wrong limit shows only at boundary values of one source/target pair.',
  [TPT, VH, UN], [('range checks and assignment', TPT)])
p('C14', 'Number and literal text conversion is exact or refused',
  'Converting text to a value yields exactly the number the text denotes when the text is a well-formed integer in 64-bit range, and reports failure or a floating point/other interpretation rather than a wrong integer otherwise. Formatting any number and reading the text back yields the same number, and the formatted text of an integer is its canonical decimal form.',
  'inputs', 'all texts within the length bounds, all integers, all finite floats',
  'Tests format and parse a few numbers; wrong digits or limits show only for particular values.',
  [SC, PJ, 'include/Srl/Tools.h'], [('integer and literal parsing', SC), ('integer formatting', SC)])
p('C15', 'Base64 and hex coding are exact inverses and reject malformed text',
  'For every byte block, base64 and hex encoding produce the standard text and decoding it returns the same bytes with the announced size. Malformed text is rejected, and decoding never touches memory outside the text and the announced destination.',
  'inputs', 'all byte blocks and texts within the bounds',
  'Tests encode and decode one or two fixed blocks; padding and malformed texts are not explored.',
  [BC, 'include/Srl/Tools.h'], [('base64 and hex tables, padding', BC)])
p('C16', 'Character set conversion is exact for all valid text and refuses invalid text',
  'Converting any valid text between UTF-8, UTF-16 and UTF-32 yields the standard encoding of the same code points, for whole strings, fixed character arrays and names. Invalid or truncated text raises the library exception when errors are requested, and fixed arrays are filled up to their size and terminated without touching anything outside them.',
  'inputs', 'all code points and all malformed sequences within the bounds; all array sizes',
  'Tests convert a few fixed strings; surrogates, malformed text and exact-fit arrays are not explored.',
  [SC, RES, 'include/Srl/String.hpp'], [('charset conversion with growing buffer', SC), ('character arrays', RES)])
p('C17', 'The hash table behaves like a map under every history of operations',
  'After every sequence of insert, upsert, get, remove, extract, conditional removal, clear, move and iteration, the table holds exactly the entries an ideal map would hold, each visited exactly once, and reports their number. Colliding hashes and growth do not change this, and every stored key and value is destroyed exactly once.',
  'histories,inputs', 'all operation sequences within bounds, all keys including total collisions, sizes across growth',
  'Tests run a few fixed sequences; collision chains and growth interact only in particular histories.',
  [HH, HHH, 'src/lib/Hash.cpp'], [('chaining, redistribution, entry cache', HHH)])
p('C18', 'The arena allocator hands out disjoint, aligned, stable memory',
  'Under every sequence of allocations, returns of memory, clears and moves, every live block is aligned for its type, lies inside memory the arena owns, overlaps no other live block, and keeps its contents until it is returned. Clearing makes all memory reusable and never frees memory still in use by the arena.',
  'histories', 'all sequences of sizes, element types and operations within bounds',
  'The tests allocate a few patterns; overlap or misalignment depends on the exact sequence of sizes and returns.',
  [HP, HPH, HPHH], [('segment selection, recycling, alignment', HP)])
p('C19', 'The document tree API follows an ordered multi-list model',
  'Under every sequence of inserting, removing, finding, indexing and iterating nodes and values by name or index, a tree answers exactly as an ordered list of named nodes and an ordered list of named values would, and the exception is thrown exactly when the requested item does not exist. Adding one item never alters another, and names and contents remain valid as the tree grows.',
  'histories', 'all operation sequences and names within bounds',
  'Tests build a few fixed trees; the effect depends on operation order, duplicates and positions.',
  [NODE, NH, NHH, TREE, 'include/Srl/Tree.hpp', ENV, 'include/Srl/ScopeWrap.h'], [('node and value lists', NODE), ('name interning', ENV)])
p('C20', 'Restoring does not depend on field order and tolerates unknown fields',
  'Restoring an object gives the same result for every order of the fields in the document and for any additional unknown fields or nested scopes placed anywhere, in every format. A missing required field throws the library exception, and a missing optional field leaves the destination member unchanged.',
  'inputs,configurations', 'all permutations, all unknown items, all subsets of optional fields, all formats',
  'Tests use the declared order and one or two reorderings; skipping and consuming logic depends on the position of every field.',
  [NODE, 'include/Srl/Context.hpp', NHH], [('consume or skip while streaming', NODE), ('optional fields', 'include/Srl/Context.hpp')])
p('C21', 'Direct store/restore is equivalent to going through a document tree',
  'For every object and format, storing directly produces the same document as loading the object into a tree and writing the tree, and for every well-formed document restoring directly gives the same object, or is refused exactly when, loading the document into a tree and pasting it would.',
  'inputs,programs', 'all shapes and contents within bounds, all formats',
  'Tests compare the two paths for one object; they are separate code paths that can diverge on any type.',
  [NODE, NHH, TREE, 'include/Srl/Tree.hpp', RES, 'include/Srl/Context.hpp'], [('streaming and tree modes', NODE), ('direct store and restore', 'include/Srl/Tree.hpp')])
p('C22', 'Nesting depth is limited uniformly and never exhausts the stack',
  'Documents nested up to the limit of 128 scopes are loaded completely, and deeper documents are rejected with the library exception instead of recursing without bound, in every format and for every mixture of objects and lists. While an object is restored, content that is stored for later fields obeys the same limit, and content that is skipped never costs stack, whatever its depth.',
  'inputs', 'all nestings of objects and arrays around and beyond the limit, all formats and modes',
  'One test nests one kind of scope; mixed nesting, skipped content and other formats are not covered.',
  [NODE, TREE, PS, PJ, PM, IN], [('depth counting', NODE), ('skipping of unknown scopes', NODE)])
p('C23', 'Parsers and trees can be reused, also after a failed operation',
  'After any operation on a parser or tree, successful or failed, a following store, load or restore with the same objects gives exactly the result fresh objects would give. Nothing of an earlier document leaks into a later one.',
  'histories,fault_sequences', 'all sequences of successful and failing operations within bounds, all formats',
  'Tests use fresh objects or reuse after success; state left behind by a failure depends on where it failed.',
  [TREE, 'include/Srl/Tree.hpp', ENV, PJ, PM, PS], [('parser state cleared per document', TREE), ('environment reset', ENV)])
p('C24', 'Shared pointers keep their sharing structure and documents are self-contained',
  'Restoring a document containing shared and weak pointers recreates exactly the sharing structure that was stored: pointers to the same object again refer to one object, pointers to different objects do not, null stays null, and each stored document contains every shared object it refers to. References to objects missing from the document are rejected with the library exception.',
  'inputs,histories', 'all aliasing patterns within bounds, all formats, repeated stores and restores',
  'Tests use one aliasing pattern in one document.',
  [RES, NODE, ENV], [('shared object table', ENV), ('shared pointer handler', RES)])
p('C25', 'Polymorphic pointers are restored as the type that was stored',
  'An object stored through a base pointer is restored as an object of the registered type it had when stored, with all of its fields, for any mixture and order of types in any container and format. A document naming an unregistered type is rejected with the library exception without leaking or corrupting the destination.',
  'inputs,histories', 'all sequences of registered types within bounds, all type names, all formats',
  'Tests store one or two fixed mixtures.',
  [RES, 'include/Srl/Registration.h', 'src/lib/Registration.cpp'], [('type name registry', 'include/Srl/Registration.h'), ('polymorphic pointer handler', RES)])
p('C26', 'Content of the wrong type or size is refused and destinations stay valid',
  'Restoring a text that denotes no number, a value where a scope is expected, a scope where a value is expected, or content too large for a fixed size destination throws the library exception, and never writes outside the destination. After any such failure the destination object can still be inspected, restored into again and destroyed.',
  'inputs', 'all combinations of stored kind and destination kind, all formats and access paths',
  'Tests check a few mismatches; each destination handler decides on its own.',
  [RES, NODE, UN, VH], [('type checks of the handlers', RES), ('error reporting', NODE)])
p('C27', 'Transcoding between formats preserves the document',
  'Loading any document written in one format and writing it in another, any number of times, preserves structure, names and values, and the order among the values and among the nested scopes of each scope (binary blocks become base64 text in JSON). Converting back to the first format and restoring gives the original object.',
  'inputs,configurations', 'all documents within the bounds, all format sequences',
  'Tests transcode one document; every scalar encoding of one format must survive the other.',
  [PJ, PM, PS, TREE, NODE, VH], [('writing a loaded tree', NODE)])
p('C28', 'Dynamic access answers exactly what the document contains',
  'Looking up fields and elements through the dynamic interface (get, try-get, index, nested get, conditional unwrap, copy) returns the item of that name or position with its value, reports absence exactly when there is none, and converts values exactly as a typed restore does. Optional fields are restored exactly when the document contains them. Looking up items while a document is being restored does not disturb the fields restored afterwards.',
  'inputs,histories', 'all documents and lookup sequences within bounds, all formats',
  'Tests perform a few lookups on one document.',
  [UN, 'include/Srl/Union.h', NODE, NHH, TREE], [('node-or-value handle', UN), ('consuming lookup', NODE)])
with open(V + '/properties.jsonl', 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
print(len(out), 'properties')
