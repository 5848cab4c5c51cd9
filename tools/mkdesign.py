#!/usr/bin/env python3
# writes DESIGN.md from the texts below, the bounds of checks/defs.py, known_findings.jsonl and seeded/
import sys, os, json, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
import defs
HEAD = open(V + '/tools/design_head.md').read(); TAIL = open(V + '/tools/design_tail.md').read()
WHY = {
'C01': ("every byte read and written by the library is checked by the engine's memory model (exact-size input buffer, object bounds, lifetimes, uninitialised pointers), exceptions other than Srl::Exception and exceeding the step bound are violations; an accepted document is walked through every public accessor and stored again in all formats", "malformed input has 2^32 shapes already at 4 bytes; the tests hold a handful of broken documents"),
'C02': ("as C01, MessagePack", "as C01: length fields, prefixes and truncation points combine"),
'C03': ("as C01, native binary format (forged name indexes, lengths, types)", "as C01"),
'C04': ("differential: the same symbolic bytes read from memory and from a stream handing them out in small or buffer-sized pieces; both must accept with equal dumps or both refuse", "every token has to cross the refill boundary at every one of its bytes; tests use streams shorter than one buffer"),
'C05': ("differential: bytes in the sink against bytes stored to memory; content before the document compared too", "back-patched lengths meet the buffer boundary only at particular document sizes"),
'C06': ("assertion restored == stored and type of the stored value, all bits of the value symbolic", "one wrong value among 2^64 (for instance at an encoding limit) is invisible to samples"),
'C07': ("bit equality after the round trip; JSON: parsing the produced text with a correctly rounded strtod gives the same number", "as C06, special values and rounding"),
'C08': ("byte equality of text, blocks and names", "lengths at which length fields widen, every byte value, every code point"),
'C09': ("deep equality with the stored object and sizes; destination filled with other content before", "combinations of contents, container kinds, formats and paths"),
'C10': ("independent strict RFC 8259 reader (harness/ref.hpp) applied to the written bytes; its result is compared with what was stored", "names, strings and structures are symbolic, so one missed escape or comma is found"),
'C11': ("independent MessagePack decoder and encoder (harness/mref.hpp, written from the specification)", "the library's own round trip hides errors made symmetrically in reader and writer"),
'C12': ("independent strict RFC 8259 reader decides validity and meaning of symbolic documents", "as C01, with meaning"),
'C13': ("mathematical comparison in 128-bit integers (and exact floating point rules) of source and target values, both symbolic", "limits of 8x11 conversions, all values"),
'C14': ("independent recogniser of integer, decimal and literal texts; canonical form of integers checked digit by digit", "all short texts and all positions at the 64-bit limits"),
'C15': ("independent base64 and hex coders; exact-size buffers", "all bytes at every remainder length; malformed text"),
'C16': ("independent encoder/decoder of the three charsets; guard elements behind fixed arrays", "all code points, truncated and invalid sequences at every offset"),
'C17': ("ideal map kept beside the table, compared completely after every operation; destruction counted by element", "histories: chains, growth, removal while iterating"),
'C18': ("every live block filled with its own pattern and verified after each step; ownership by the engine's memory model", "histories and sizes relative to segment limits"),
'C19': ("ordered multi-list model beside the tree, compared completely after every edit", "histories of edits, duplicate names, growth of storage"),
'C20': ("the expected object computed from the set of present fields only", "720 orders x positions of unknown content x missing fields"),
'C21': ("differential: document stored directly against document of the tree; object restored directly against object pasted from a tree, for matching and mismatching pairs of kinds", "two implementations of every handler, which tests compare for one class only"),
'C22': ("acceptance computed from the depth; guest stack depth is bounded by the engine, so unbounded recursion is a violation", "depth limits with every mixture of scopes, deep hostile documents"),
'C23': ("differential: result of the same operation on fresh objects", "every operation failing at every point before every other operation"),
'C24': ("partition of the pointers before and after, contents, owner counts", "all sharing patterns and graphs; address reuse"),
'C25': ("typeid and content of every element; construction and destruction counted", "all type sequences, names, truncated documents"),
'C26': ("independent compatibility table of kinds; guard bytes; destination stored, restored into, compared and destroyed after each refusal", "25 x 25 kinds, sizes around each limit"),
'C27': ("first documents from independent writers, results read by independent decoders, compared with the model of the document", "chains of formats over all values and lengths"),
'C28': ("model of the document (ordered names and contents); conversions compared with typed restores", "all small documents, names and positions; lookups interleaved with restores"),
}
o = [HEAD]
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
o.append('## Properties, one by one\n\nEach section: harness; what is asserted and against which oracle; bounds (`;` separates independent sweeps); what is assumed; why tests cannot settle it. Every named quantity is a symbolic input or an exhaustively enumerated choice of the solver within the bounds. Quick tiers take 11-80 s on 8 cores, thorough tiers at most 780 s.\n')
for p in P:
    c = defs.CHECKS[p['id']]; hs = sorted(set(j['h'] for j in c['quick']))
    w = WHY[p['id']]
    o.append('### %s %s\n%s\n\n- harness: %s; %d jobs quick, %d thorough\n- oracle: %s\n- bounds: %s\n- assumptions: %s\n- beyond tests: %s\n' % (p['id'], p['title'], p['statement'], ', '.join('`harness/%s`' % h for h in hs), len(c['quick']), len(c.get('thorough') or c['quick']), w[0], c['bounds'], '; '.join(c.get('assumptions', ['none'])), w[1]))
o.append('## Defects found and repaired in /repo (one "fix:" commit each)\n')
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        a, b, r = l[len('fixed: property='):].split(' ', 2); o.append('- %s `%s` %s' % (a, b, r))
o.append('\n## Planted bugs and the checks that catch them\n\n| bug | property | caught by | needs |\n|---|---|---|---|')
hits = json.load(open(V + '/tools/seed_hits.json')) if os.path.exists(V + '/tools/seed_hits.json') else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d); o.append('| %s | %s | %s | %s |' % (i, m['property'], ', '.join(hits.get(i, [])) or '-', m['needs']))
o.append('\n' + TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
