# Job lists of every check.  J(harness, params, reach=labels that must be hit, w=scheduling weight)
def J(h, reach=(), w=1, note='', **p):
    lim = {k[1:]: p.pop(k) for k in list(p) if k.startswith('_')}
    return dict(h=h, p=p, reach=list(reach), w=w, note=note, **lim)
CHECKS = {}
JSON, MSGP, SRL, JSONP = 0, 1, 2, 3

# ---- C01..C03 hostile input
S = 'safety.cpp'
MODES = list(range(2, 10)) + list(range(20, 25))
def safety(f):
    pres = range(1, 16)
    short = {(0, 12), (0, 13)}                       # prefixes that open a large number of numeric paths
    q = [J(S, ['accepted', 'rejected'], fmt=f, mode=0, len=4, w=9), J(S, ['rejected'], fmt=f, mode=1, len=3)]
    q += [J(S, ['rejected'], fmt=f, mode=0, len=2 if (f, p) in short else 3, pre=p) for p in pres]
    q += [J(S, ['rejected'], fmt=f, mode=m, len=3, w=2) for m in MODES]
    q += [J(S, fmt=f, tpl=t, stream=t % 2) for t in range(32)]
    t = list(q)
    t += [J(S, fmt=f, tpl=t, stream=1 - t % 2) for t in range(32)] + [J(S, fmt=f, tpl=t, dyn=1, stream=s) for t in range(32) for s in (0, 1)]
    t += [J(S, fmt=f, mode=m + 10, len=3) for m in MODES if m != 21]
    t += [J(S, fmt=f, mode=m, len=2 if (f, p) in short else 3, pre=p) for p in pres for m in MODES]
    t += [J(S, fmt=f, mode=0, len=5, w=50)]
    return dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=150, thorough=780),
        bounds='every document of <=4 bytes (quick; 5 thorough); every <=3-byte continuation of 15 document prefixes; 32 whole documents per format with up to 4 free bytes each, restored into 13 typed targets and dynamically, from buffers and from streams with short reads',
        assumptions=['documents longer than the templates, and more than 4-5 unconstrained bytes at once, are outside the bounds', 'memory leaks are not checked'])
CHECKS['C01'] = safety(JSON)
CHECKS['C02'] = safety(MSGP)
CHECKS['C03'] = safety(SRL)

# ---- C06 integers, booleans, null
def A(t): return 'scalar1.cpp' if t < 4 else 'scalar2.cpp' if t < 8 else 'scalar3.cpp'
q = [J(A(t), ['roundtrip'], fmt=f, type=t, pos=p, w=5 if t > 5 and f in (0, 3) else 1) for f in range(4) for t in range(9) for p in range(7)] + [J(A(9), ['roundtrip'], fmt=f, type=9) for f in range(4)]
CHECKS['C06'] = dict(level='model_checking', quick=q, budget=dict(quick=200, thorough=780),
    bounds='ALL values of int8..int64, uint8..uint64, bool and null (every bit symbolic), 4 formats, 7 containing positions (field, field between others, nested object and list, dynamic document, top level, tuple, map)',
    assumptions=['containers of at most three elements'])

# ---- C07 floating point
R = ['roundtrip']
q = [J(A(10), R, fmt=f, type=t, pos=p) for f in (1, 2) for t in (10, 11) for p in range(7)]
q += [J(A(10), R, fmt=f, type=t, pos=p, dec=2, w=9) for t in (10, 11) for f, p in ((0, 0), (3, 1), (0, 3), (0, 4))]
def fpwin(bases32, bases64, fmts):
    o = []
    for f in fmts:
        for b in bases32: o.append(J(A(10), R, fmt=f, type=10, pos=0, conc=1, mask=0xff, base=b))
        for b in bases64: o.append(J(A(10), R, fmt=f, type=11, pos=0, conc=1, mask=0xff, base=b))
        o.append(J(A(10), R, fmt=f, type=10, pos=0, conc=1, mask=0x7f800000, base=0x2c0de5)); o[-1]['p']['mask'] = 0x7f000000
        o.append(J(A(10), R, fmt=f, type=11, pos=0, conc=1, mask=0x3fc0000000000000, base=0x000a9b8c7d6e5f41))
    return o
B32 = [0x3dcccc00, 0x40490f00, 0x00000000, 0x7f7fff00, 0x4b7fff00, -0x400000 & 0xbf000000]
B64 = [0x3fb9999999999900, 0x400921fb54442d00, 0x0000000000000000, 0x7fefffffffffff00, 0x433fffffffffff00, 0x43dfffffffffff00, 0x000fffffffffff00]
q += fpwin(B32, B64, [0])
q += [J(A(10), R, fmt=f, type=t, pos=p, dec=1, k=k) for f, p in ((0, 0), (3, 4)) for t in (10, 11) for k in (1, 3, 6, -4, 20)]
t = q + fpwin([(0x01010101 * i * 7) & 0x7eff_ff00 for i in range(1, 30)], [(0x0101010101010101 * i * 13) & 0x7feffff_ffffff00 for i in range(1, 30)], [0, 3]) + [J(A(10), R, fmt=f, type=t, pos=p, dec=2, w=9) for t in (10, 11) for f in (0, 3) for p in range(7)]
CHECKS['C07'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='binary formats: ALL 2^32 and 2^64 bit patterns, 7 containing positions; JSON: every integer-valued float/double with up to 24/53 significant bits (symbolic), plus 8-bit windows of other bit patterns (enumerated by the solver)',
    assumptions=['JSON text of non-integral numbers: the shortest-digits generator and strtod are only explored on the enumerated windows', 'the sign of zero is not preserved in JSON'])

# ---- C04 stream input, C05 stream output
S = 'stream.cpp'
q = [J(S, ['accepted', 'rejected'], what=0, fmt=f, len=3, step=s, w=3) for f in range(3) for s in (64, 1)] + [J(S, ['rejected'], what=0, fmt=f, pre=p, len=3) for f in range(3) for p in range(1, 6)]
q += [J(S, what=1, t=t, base=b, n=240, typed=ty, fill=52) for t in range(7) for ty in (0, 1) for b in (820, 1850)]
q += [J(S, what=1, t=t, base=b, n=60, sym=1, w=3) for t, b in ((0, 940), (1, 940), (2, 960), (3, 970), (4, 950), (5, 970))]
q += [J(S, what=1, t=t, base=820, n=240, cut=c, typed=c % 2, fill=52) for t in range(7) for c in (1, 2, 5, 9)]
q += [J(S, ['accepted'], what=2, fmt=f, base=b, n=8, typed=1, w=4) for f in range(3) for b in (760, 900)]
q += [J(S, ['accepted'], what=2, fmt=f, base=b, n=240, typed=ty, syma=0) for f in range(3) for b in (760, 1780) for ty in (0, 1)]
q += [J(S, what=2, fmt=f, base=b, n=100, syma=0, cut=c) for f in range(3) for b in (780, 880) for c in (1, 2, 7)]
q += [J(S, what=2, fmt=f, base=b, n=12, syma=0, hole=h, typed=1) for f in range(3) for b in (820, 880, 930) for h in (12, 30, 47)]
q += [J(S, ['accepted'], what=3, fmt=f, base=b, n=4, blen=bl, _steps=20000000) for f in range(3) for b in (1020, 1053, 2046, 3070, 5000, 12000) for bl in (5, 3000)] + [J(S, ['accepted'], what=3, fmt=f, base=66000, blen=70000, _steps=200000000) for f in (0, 1, 2)]
q += [J(S, ['accepted'], what=4, fmt=f, base=b, n=120, name=nm, typed=ty) for f in range(3) for nm, b in ((33, 930), (80, 900), (300, 700)) for ty in (0, 1)]
t = q + [J(S, ['accepted'], what=4, fmt=f, base=b, n=240, name=nm, slen=sl, typed=ty, w=4) for f in range(3) for nm in (1, 31, 32, 33, 64, 254, 1030) for b in (500, 740, 1780) for sl in (0, 2000) for ty in (0, 1)]
t += [J(S, what=1, t=t, base=b, n=240, sym=s, typed=ty, w=5) for t in range(7) for b in (820, 2870, 3890) for s in (1, 2) for ty in (0, 1)] + [J(S, what=2, fmt=f, base=b, n=240, typed=ty, syma=0, hole=h, w=5) for f in range(3) for b in (760, 1780) for ty in (0, 1) for h in range(1, 110, 6)]
t += [J(S, what=2, fmt=f, base=b, n=240, syma=0, cut=c, typed=c % 2) for f in range(3) for b in (760, 1780) for c in range(1, 60)] + [J(S, what=0, fmt=f, len=4, w=20) for f in range(3)]
t += [J(S, what=2, fmt=f, base=b, n=60, typed=1, slen=s) for f in range(3) for b in (760, 850) for s in (26, 250, 1100)]
CHECKS['C04'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='all raw documents of <=3 bytes after 6 prefixes per format; 7 JSON texts and one stored composite per format shifted over 240 consecutive positions relative to the refill boundaries (every token crosses each boundary), with free bytes, cut short by 1..60 bytes; items of up to 70000 bytes',
    assumptions=['the stream delivers all bytes eventually (std::istream::read loops over short reads)', 'content at distance from the free bytes is fixed'])
q = [J(S, ['stored'], what=10, fmt=f, base=b, n=n, syma=sy, times=tm, before=bf, tree=tr) for f in range(4) for b, n, sy in ((0, 40, 0), (740, 240, 0), (0, 1, 1), (960, 3, 1)) for tm, bf, tr in ((1, 0, 0), (2, 5, 0), (1, 1030, 1), (3, 0, 1))]
q += [J(S, ['stored'], what=10, fmt=f, base=b, n=40, syma=0, slen=s, blen=bl, times=2, before=3) for f in range(4) for b in (800, 940) for s, bl in ((26, 5), (250, 255), (1018, 1100), (3000, 5000))] 
q += [J(S, ['stored'], what=10, fmt=f, base=66000, n=3, syma=0, slen=1018, blen=66000, times=2, before=7, _steps=200000000) for f in (0, 1, 2)]
t = q + [J(S, ['stored'], what=10, fmt=f, base=b, n=240, syma=0, slen=s, blen=bl, times=2, before=bf, tree=tr) for f in range(4) for b in (500, 740, 1760) for s in (0, 25, 249, 1000) for bl in (0, 254, 1020) for bf in (0, 1, 1024) for tr in (0, 1)]
CHECKS['C05'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='one composite object (nested lists, objects, text, blob) whose size is shifted over 240 consecutive positions around the 1024-byte output buffer, symbolic 64-bit field (length of numbers varies), 0..1030 bytes of earlier stream content, up to 3 stores to one stream, blobs and texts up to 66000 bytes',
    assumptions=['the stream is seekable and does not fail'])

# ---- C08 text, names, blocks
S = 'text.cpp'; R = ['roundtrip']
q = [J(S, R, what=0, fmt=f, pos=p, n=n, w=3 if f in (0, 3) else 1) for f in range(4) for p in range(6) for n in ((0, 1, 2) if f in (0, 3) else (0, 1, 2, 5, 33)) if not (p == 3 and n > 2)]
q += [J(S, R, what=0, fmt=f, pos=0, n=3, w=5) for f in (0, 3)]
q += [J(S, R, what=1, fmt=f, pos=p, n=n) for f in range(4) for p in range(5) for n in (0, 1, 2, 3, 4, 5, 8, 11)]
q += [J(S, R, what=2, fmt=f, pos=p, base=b, n=n, bin=bi, plain=1, _steps=20000000) for f in range(4) for b, n in ((12, 50), (120, 15), (244, 24)) for bi in (0, 1) for p in (0, 2, 4)]
q += [J(S, R, what=2, fmt=f, pos=p, base=65532, n=8, bin=bi, plain=1, _steps=80000000) for f in (1, 2) for bi in (0, 1) for p in (0, 4)] + [J(S, R, what=2, fmt=0, pos=0, base=65535, n=1, bin=bi, plain=1, _steps=80000000) for bi in (0, 1)]
q += [J(S, R, what=3, fmt=f, n=1, w=2) for f in range(4)] + [J(S, R, what=3, fmt=f, n=0) for f in range(4)]
q += [J(S, R, what=w, fmt=f, n=1, x=x) for w in (4, 5) for f in range(4) for x in (0, 1)] + [J(S, R, what=w, fmt=f, n=2, w=3) for w in (4, 5) for f in (1, 2)]
q += [J(S, R, what=6, fmt=f, pos=p) for f in range(4) for p in range(7)]
q += [J(S, R, what=7, fmt=f, base=b, n=n, _steps=20000000) for f in range(4) for b, n in ((0, 20), (120, 12), (250, 10))]
q += [J(S, R, what=8, fmt=f, base=b, n=n) for f in range(4) for b, n in ((26, 10), (124, 6), (252, 6))]
t = q + [J(S, R, what=0, fmt=f, pos=p, n=3, w=8) for f in (0, 3) for p in (1, 2, 4, 5)] + [J(S, R, what=0, fmt=0, pos=0, n=4, w=20)] + [J(S, R, what=3, fmt=f, n=2, w=9) for f in (1, 2)] + [J(S, R, what=1, fmt=f, pos=p, n=n) for f in (0, 3) for p in range(5) for n in range(12, 40, 3)]
t += [J(S, R, what=w, fmt=f, n=2, x=1, w=9) for w in (4, 5) for f in range(4)] + [J(S, R, what=2, fmt=f, pos=p, base=b, n=60, bin=bi, _steps=20000000) for f in range(4) for b in (0, 60, 110, 230) for bi in (0, 1) for p in (0, 1, 2, 4)]
t += [J(S, R, what=2, fmt=f, pos=p, base=65530, n=12, bin=bi, plain=1, _steps=80000000) for f in range(4) for bi in (0, 1) for p in (0, 2, 4)] + [J(S, R, what=7, fmt=f, base=b, n=n, _steps=60000000) for f in range(4) for b, n in ((0, 60), (110, 40), (240, 30), (500, 30))] + [J(S, R, what=8, fmt=f, base=b, n=n, _steps=60000000) for f in range(4) for b, n in ((0, 60), (110, 40), (240, 30), (65530, 8))]
CHECKS['C08'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every string of <=3 arbitrary bytes (JSON; <=33 in binary formats, all bytes symbolic), every block of <=11 arbitrary bytes, in 5-6 containing positions; every length in 0..62, 120..135, 244..268 and 65532..65540 with symbolic end bytes; every single field name byte; every code point in UTF-16/UTF-32 strings (2 in binary formats); up to 260 distinct field names, names up to 258 bytes',
    assumptions=['bytes between the symbolic ends of long items are fixed', 'narrow strings are treated as opaque bytes (the library does not validate UTF-8)'])

# ---- C09 composites
q = []; t = []
for f in range(4):
    js = f in (0, 3)
    for v in (0, 1):
        for k in range(12):
            n = 1 if k == 9 or (js and k in (7, 8)) else 2
            q.append(J('comp1.cpp', R, k=k, fmt=f, via=v, n=n, twice=1 if not js else 0, w=3 if js else 1)) if not (js and v and f == 3) else None
            t.append(J('comp1.cpp', R, k=k, fmt=f, via=v, n=2 if k == 9 or js else 3, twice=1, w=9 if js else 2))
        for k in range(15):
            n = 1 if js and k in (2, 7, 11, 12) else 2
            q.append(J('comp2.cpp', R, k=k, fmt=f, via=v, n=n, twice=1 if not js and k != 12 else 0, w=4 if js else 1)) if not (js and v and f == 3) else None
            t.append(J('comp2.cpp', R, k=k, fmt=f, via=v, n=2 if js else 3, twice=1, w=9 if js else 2))
q += [J('comp2.cpp', R, k=15, fmt=f) for f in range(3)]
CHECKS['C09'] = dict(level='model_checking', quick=q, thorough=q + t, budget=dict(quick=200, thorough=780),
    bounds='27 composite shapes (vectors, lists, deques, sets, multisets, maps, multimaps, hash tables, nested containers, arrays, pairs, tuples, inheritance, separate store/restore methods, nameless fields, raw and unique pointers, recursive types, private constructors, pack/unpack), 0..2 elements (3 thorough), symbolic numbers, characters and sizes, four formats, directly and through a tree, restored into objects holding other content',
    assumptions=['element counts above the bound', 'long double is not encoded (engine limitation)'])

# ---- C10 JSON output, C12 JSON input
S = 'json.cpp'; R = ['written']
q = [J(S, R, what=10, n=n, names=m, pretty=p, w=3) for n, m in ((1, 1), (2, 0), (0, 1)) for p in (0, 1)]
q += [J(S, R, what=11, n=n, tn=m, pretty=p, w=3) for n, m, p in ((1, 0, 0), (0, 1, 1))]
q += [J(S, R, what=12, type=t, pretty=p) for t in range(4) for p in (0, 1)] + [J(S, R, what=12, type=t, base=b, w=9) for t, b in ((4, 0), (4, -65536), (4, 2147418112), (5, 4294901760), (6, -65536), (6, 9223372036854775000), (6, -9223372036854775808), (7, -65536))]
q += [J(S, R, what=13, base=b) for b in B64] + [J(S, R, what=14, base=b) for b in B32] + [J(S, R, what=13, base=b, hi=1, w=9) for b in (0x000a9b8c7d6e5f41, 0)] + [J(S, R, what=14, base=0x2c0de5, hi=1)]
q += [J(S, R, what=15, pretty=p, w=3) for p in (0, 1)] + [J(S, R, what=16, n=n, pretty=p) for n in (1, 3, 5) for p in (0, 1)] + [J(S, R, what=17, n=n, pretty=n % 2) for n in range(8)]
q += [J(S, R, what=16, n=n, pretty=p, **k) for n in (3, 5) for p in (0, 1) for k in (dict(root=1), dict(direct=1))] + [J(S, R, what=18, base=b, n=n, pretty=p, _steps=80000000) for b, n in ((0, 6), (15, 4), (30, 5), (62, 4), (125, 3)) for p in (0, 1)]
t = q + [J(S, R, what=10, n=2, names=1, pretty=p, w=9) for p in (0, 1)] + [J(S, R, what=10, n=3, names=0, w=9), J(S, R, what=10, n=0, names=2, w=9), J(S, R, what=16, n=7, w=9)] + [J(S, R, what=11, n=2, w=9)]
t += [J(S, R, what=13, base=(0x0101010101010101 * i * 13) & 0x7feffff_ffffff00) for i in range(1, 60)] + [J(S, R, what=14, base=(0x01010101 * i * 7) & 0x7eff_ff00) for i in range(1, 60)] + [J(S, R, what=12, type=t, base=10 ** k - 30000, w=9) for t in (4, 6) for k in (5, 6, 9)] + [J(S, R, what=12, type=6, base=10 ** k - 30000, w=9) for k in (10, 12, 15, 18)]
CHECKS['C10'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='names of one and strings of <=2 (3) arbitrary ASCII characters, every code point through UTF-32 names and strings, every sequence of <=5 (7) insertions of values, lists and objects, one composite with 2376 size combinations, all 8/16-bit integers, 2^16-windows of wider integers at the digit-count and sign boundaries, 8-bit windows of float bit patterns, compact and pretty printed; every document is parsed by an independent strict RFC 8259 reader',
    assumptions=['strings hold well-formed text (ASCII symbolically, UTF-8 from wide strings)', 'infinities and NaN are excluded (no JSON representation)', 'field order is the documented values-before-scopes order of a tree'])
R = ['valid']
q = [J(S, ['valid', 'invalid'], what=0, pre=p, post=z, n=n, stream=s) for s in (0, 1) for p, z, n in ((0, 0, 3), (0, 0, 4), (1, 1, 2), (1, 1, 3), (2, 3, 2), (3, 3, 2), (4, 2, 2), (5, 2, 2), (6, 4, 2), (14, 4, 2), (16, 3, 2), (18, 2, 2), (19, 1, 3), (17, 2, 2), (11, 2, 2), (12, 2, 1), (13, 2, 1), (8, 2, 2), (15, 1, 4), (20, 2, 3)) if not (s and p > 12)]
CONC = {5, 6, 10, 11, 12, 13, 14, 15, 17, 34, 35, 36, 39}
q += [J(S, R, what=1, t=t, conc=1 if t in CONC else 0, stream=t % 2, w=9 if t in (6, 7, 8, 35, 38) else 1) for t in range(40) if t != 6]
t = q + [J(S, R, what=1, t=t, conc=1 if t in CONC else 0, stream=1 - t % 2) for t in range(40)] + [J(S, ['valid', 'invalid'], what=0, pre=p, post=z, n=n, w=9) for p, z, n in ((0, 0, 5), (1, 1, 4), (2, 3, 3), (3, 3, 3), (4, 2, 3), (5, 2, 3), (6, 4, 3), (14, 4, 3), (18, 2, 3), (21, 4, 3))]
CHECKS['C12'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='all documents of <=4 bytes (5 thorough), all 2-3 byte continuations of 20 prefixes, 40 whole documents with up to 8 free positions (escapes and surrogate pairs, numbers of every form and at the 64-bit limits, white space everywhere, structure), compared with an independent strict RFC 8259 reader and correctly rounded number conversion',
    assumptions=['documents are in the bounds above', 'documents with lone surrogates are excluded', 'the dynamic reading is compared; typed reading is C13/C14'])

# ---- C11 MessagePack
S = 'msgpack.cpp'; R = ['valid']; L = dict(_steps=100000000)
q = [J(S, R, what=1, t=t, stream=t % 2, w=5 if t in (26, 34) else 1) for t in range(40)] + [J(S, ['valid', 'invalid'], what=0, pre=p, n=4, stream=p % 2, w=3) for p in range(9)]
for k in range(3):
    sy = 0 if k == 2 else 1
    q += [J(S, R, what=2, kind=k, enc=e, base=0, n=40, sym=sy, stream=(k + e) % 2) for e in range(4) if not (k == 1 and e == 0)] + [J(S, R, what=2, kind=k, enc=e, base=250, n=12, sym=sy, stream=(k + e) % 2) for e in (1, 2, 3)]
    q += [J(S, R, what=2, kind=k, enc=e, base=b, n=n, sym=0, **L) for e, b, n in ((2, 65533, 3), (3, 65533, 6))] + [J(S, ['written'], what=13, kind=k, base=b, n=n, sym=sy, **L) for b, n in ((0, 1), (28, 8), (250, 10), (65532, 6))]
for k in range(2):
    q += [J(S, R, what=3, kind=k, enc=e, base=0, n=20, stream=k) for e in (0, 2, 3)] + [J(S, R, what=3, kind=k, enc=e, base=250, n=10, stream=1 - k, **L) for e in (2, 3)] + [J(S, R, what=3, kind=k, enc=e, base=b, n=n, w=9, **L) for e, b, n in ((2, 65535, 1), (3, 65534, 4))]
R = ['written']
q += [J(S, R, what=10, type=t, tree=tr) for t in range(10) for tr in (0, 1)] + [J(S, R, what=11, n=n, names=m) for n, m in ((0, 0), (3, 0), (5, 0), (2, 1), (0, 1))] + [J(S, R, what=12, tree=tr) for tr in (0, 1)] + [J(S, R, what=15, w=9)]
q += [J(S, R, what=14, base=0, n=20), J(S, R, what=14, base=990, n=40, kind=1), J(S, R, what=14, base=65534, n=4, w=9, **L)]
R = ['valid']
t = q + [J(S, R, what=1, t=t, stream=1 - t % 2) for t in range(40)] + [J(S, ['valid', 'invalid'], what=0, pre=p, n=5, stream=1 - p % 2, w=9) for p in range(9)] + [J(S, R, what=2, kind=k, enc=e, base=b, n=60, sym=1, stream=1, **L) for k in (0, 1) for e in (1, 2, 3) for b in (40, 100, 200)] + [J(S, ['written'], what=14, base=b, n=60, kind=k, **L) for b in (60, 120, 980, 2020) for k in (0, 1)]
CHECKS['C11'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='reading: all 4-byte (5) continuations of 9 prefixes, 40 documents with free payload bytes in every legal encoding of every type, text/binary/key lengths 0..39, 250..261, 65533..65538 and container sizes 0..19, 250..259, 65534..65537 with every legal header width; writing: all values of all integer types, bool, float, double, nil, text/binary/names of symbolic bytes and of boundary lengths, containers up to 65537 elements; all against an independent decoder',
    assumptions=['map keys are text (other keys are dropped by the library, see C02), extension types are not supported by the library', 'strings are opaque bytes'])
# ---- C13 numeric conversion
S = 'nums.cpp'; R = ['restored']; q = []; t = []
for a in range(12):
    for b in range(11):
        if a in (9, 10) and b == 8: continue          # fp -> bool is not part of the property
        q.append(J(S, R, src=a, dst=b, path=0)); q.append(J(S, R, src=a, dst=b, path=1 + (a + b) % 5, fmt=1 + b % 2)); q.append(J(S, R, src=a, dst=b, path=6 + (a + 2 * b) % 3, fmt=1 + a % 2))
        for p in range(9):
            for f in (-1, 1, 2):
                if p < 6 or f > 0: t.append(J(S, R, src=a, dst=b, path=p, fmt=f))
            if a < 9 or a == 11: t.append(J(S, R, src=a, dst=b, path=p, fmt=0 if p % 2 else 3, w=2))
        if a in (0, 3, 4, 6, 7, 8) and b in (0, 3, 6, 7, 9): q.append(J(S, R, src=a, dst=b, path=(0, 3, 6, 7, 8)[(a + b) % 5], fmt=0, w=5))
CHECKS['C13'] = dict(level='model_checking', quick=q, thorough=q + t, budget=dict(quick=200, thorough=780),
    bounds='every value of all 8 integer types, bool, float, double and null x 11 target types; 9 access paths (value, index, field, element of a list, dynamic lookup before and during a restore, conditional unwrap, copy), in memory and through every format (floating point sources: the two binary formats)',
    assumptions=['floating point numbers whose truncation fits but which lie strictly outside the target range (such as 127.5 into int8_t) may be refused or truncated', 'floating point to bool is unspecified', 'null converts to zero'])
# ---- C14 text conversion
S = 'conv.cpp'; R = ['integer']; q = []; t = []
for h in (0, 1, 2, 3):
    q += [J(S, [], what=0, pre=p, n=2, hint=h, wrap=p % 2, w=3) for p in range(20) if h == 0 or (p + h) % 4 == 0]
    t += [J(S, [], what=0, pre=p, n=2, hint=h, wrap=1 - p % 2, w=3) for p in range(20)]
q += [J(S, R, what=0, n=3, conc=1, w=40), J(S, R, what=0, pre=2, n=3, conc=1, w=20)]
t += [J(S, [], what=0, pre=p, n=3, conc=1, w=40) for p in range(20)] + [J(S, R, what=0, n=4, conc=2, w=300)]
q += [J(S, [], what=1, pre=p, conc=c, w=2) for p, c in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (7, 0), (8, 0), (10, 0), (11, 0), (0, 1))]
t += [J(S, [], what=1, pre=p, conc=c, w=9) for p, c in ((0, 2), (1, 2), (2, 2), (4, 2), (8, 2))]
R = ['formatted']
q += [J(S, R, what=2, type=i, pre=i % 3 * 11, w=3) for i in range(4)]
q += [J(S, R, what=2, type=i, base=b, w=6) for i, b in ((4, -65536), (4, 0), (4, 2147418112), (4, -2147483648), (4, 99990000), (5, 4294901760), (5, 999990000), (6, -9223372036854775808), (6, 9223372036854710272), (6, 999999999990000), (6, -40000), (7, 18446744073709486080), (7, 9999999999999990000), (7, 0))]
t += [J(S, R, what=2, type=i, base=10 ** k - 30000, w=6) for i, m in ((4, 10), (5, 10), (6, 19), (7, 20)) for k in range(5, m)] + [J(S, R, what=2, type=i, base=-(10 ** k) - 30000, w=6) for i, m in ((4, 10), (6, 19)) for k in range(5, m)]
q += [J(S, R, what=3, base=b) for b in B64] + [J(S, R, what=3, type=1, base=b) for b in B32] + [J(S, R, what=3, base=b, hi=1) for b in (0x000a9b8c7d6e5f41, 0, 0x000fffffffffffff)] + [J(S, R, what=3, type=1, base=b, hi=1) for b in (0x2c0de5, 0, 0x7fffff)]
t += [J(S, R, what=3, base=(0x0101010101010101 * i * 13) & 0x7feffff_ffffff00) for i in range(1, 100)] + [J(S, R, what=3, type=1, base=(0x01010101 * i * 7) & 0x7eff_ff00) for i in range(1, 100)] + [J(S, R, what=3, base=(0x0123456789abcdef * i) & 0x000fffffffffffff, hi=1) for i in range(1, 30)]
for i in range(8):
    q += [J(S, [], what=4, type=i, pre=p, n=n, tree=i % 2, w=w) for p, n, w in ((0, 2, 1), (1, 2, 1), ((2, 13, 4, 5, 6, 7, 8, 10)[i], 2 if i > 5 else 1, 4), ((12, 2, 3, 5, 6, 7, 9, 10)[i], 2 if i > 5 else 1, 4), (11, 1, 1), (14, 3, 1))]
    t += [J(S, [], what=4, type=i, pre=p, n=2, tree=1 - i % 2, w=9) for p in range(15)]
q += [J(S, [], what=5, type=y, n=2) for y in (0, 1)] + [J(S, ['literal'], what=6, hint=h) for h in (0, 1, 4)]
t += [J(S, [], what=5, type=y, n=3, w=30) for y in (0, 1)]
q += [J(S, ['done'], what=7, base=8, n=70, hint=0, wrap=0, w=5), J(S, ['done'], what=7, base=52, n=30, hint=1, wrap=1, w=5), J(S, ['done'], what=7, base=50, n=30, tree=1, w=5), J(S, ['done'], what=7, base=110, n=30, w=5), J(S, ['done'], what=7, base=250, n=12, w=5)]
t += [J(S, ['done'], what=7, base=b, n=70, hint=h, wrap=h == 1, w=9) for b in (8, 70, 140, 210, 500, 1000, 2020) for h in (0, 1)]
CHECKS['C14'] = dict(level='model_checking', quick=q, thorough=q + t, budget=dict(quick=200, thorough=780),
    bounds='every text of <=3 arbitrary bytes and every 2-byte (3) continuation of 20 prefixes, 18-21 digit texts with up to 4 free digits around the 64-bit limits, all letter cases of the literals, four type hints, narrow and wide text; all 8/16-bit integers, 2^16-windows of the wider ones at digit-count and sign limits; 8-bit windows of the bits of floats and doubles at 20 positions; texts at the limits of each of 8 target types stored as strings',
    assumptions=['texts of infinities, nan and hexadecimal numbers are left to the C library', 'strtod is modelled as correctly rounded', 'the integer part of a text outside the 64-bit range becomes the nearest double'])
# ---- C15 base64 and hex, C16 character sets
S = 'codec.cpp'; R = ['done']
q = [J(S, R, what=0, n=n, room=r) for n in range(8) for r in (0, 30)] + [J(S, R, what=1, n=n, pre=p, post=z) for n in range(10) for p, z in ((0, 0),)] + [J(S, R, what=1, n=4, pre=p, post=z) for p in (1, 2, 3) for z in (0, 1)] + [J(S, ['decoded'], what=2, n=n, hex=h) for n in (0, 1, 2, 3, 4, 6) for h in (0, 1) if not (h and n > 4)]
q += [J(S, R, what=3, n=n) for n in range(5)] + [J(S, R, what=4, n=n) for n in range(7)] + [J(S, R, what=5, base=b, n=n) for b, n in ((0, 20), (20, 20), (253, 6))] + [J(S, R, what=6, n=n, dst=d, pre=p) for d in (0, 1, 2) for n, p in ((0, 0), (3, 0), (4, 0), (4, 1))]
t = q + [J(S, R, what=0, n=n, room=r) for n in range(8, 20) for r in (0, 30)] + [J(S, R, what=1, n=n, w=9) for n in (12, 16)] + [J(S, R, what=1, n=8, pre=p, post=z, w=9) for p in (1, 2, 3) for z in (0, 1)] + [J(S, R, what=3, n=n, w=20) for n in (5, 6)] + [J(S, R, what=4, n=8, w=9)] + [J(S, R, what=5, base=b, n=40, w=9) for b in (40, 80, 120, 160, 200, 240, 500, 1000)] + [J(S, R, what=6, n=8, dst=d, pre=p, w=9) for d in (0, 1, 2) for p in (0, 1)]
CHECKS['C15'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='encoding and decoding all blocks of <=7 (19) arbitrary bytes and every length 0..39, 253..258 (..1040) with arbitrary last bytes; decoding every base64 text of <=9 (16) arbitrary characters and 4-character texts in front of and behind well-formed groups, every hex text of <=6 (8) characters, destinations of every size around the required one, texts in JSON documents restored into three kinds of blocks; against independent coders',
    assumptions=['unused bits of the last base64 character may have any value'])
S = 'charset.cpp'; q = []; t = []
for f in range(3):
    for o in range(3):
        q += [J(S, ['done'], what=0, n=n, to=o, at=(0, 0, 3)[n], room=(0, 1, 40)[(f + o + n) % 3], wide=n % 2, **{'from': f}) for n in (0, 1, 2)]
        t += [J(S, ['done'], what=0, n=3, to=o, at=a, room=r, w=5, **{'from': f}) for a in (0, 5) for r in (0, 7)]
        if f != o: q += [J(S, ['done'], what=1, n=n, to=o, pre=p, **{'from': f}) for n in range(5) for p in (0, 1) if n or p]; t += [J(S, ['done'], what=1, n=n, to=o, pre=p, w=5, **{'from': f}) for n in (5, 6) for p in (0, 1)] + [J(S, ['done'], what=1, n=8, to=o, w=9, **{'from': f})]
        q += [J(S, ['done'], what=2, n=n, to=o, size=s, via=n % 2, **{'from': f}) for s in range(3) for n in ((0, 1, 2) if s < 2 or f == o else (1, 2))] + [J(S, ['done'], what=3, n=n, to=o, wide=n % 2, **{'from': f}) for n in (0, 1, 2)]
        t += [J(S, ['done'], what=2, n=3, to=o, size=s, via=v, w=5, **{'from': f}) for s in range(3) for v in (0, 1)]
        q += [J(S, ['done', 'found', 'not found'], what=4, n=1, to=o, fmt=(f + o) % 4, **{'from': f}), J(S, ['done', 'found', 'not found'], what=5, n=1 + (f != o), to=o, **{'from': f})]
        t += [J(S, ['done', 'found', 'not found'], what=4, n=2, to=o, fmt=k, w=9, **{'from': f}) for k in range(4)] + [J(S, ['done', 'found', 'not found'], what=5, n=3, to=o, **{'from': f})]
CHECKS['C16'] = dict(level='model_checking', quick=q, thorough=q + t, budget=dict(quick=200, thorough=780),
    bounds='every text of <=2 (3) code points in each pair of encodings, whole strings, offsets into larger buffers, character arrays of three sizes with guards, single characters, equality; every sequence of <=4 (8) arbitrary bytes, alone or after a valid character, in each encoding; names: 13 code points at the limits of the encoded lengths',
    assumptions=['iconv is replaced by an implementation of its contract for the three charsets (validated natively against glibc on every witness)', 'restoring text between equal encodings does not validate it'])
# ---- C17 hash table, C18 arena
S = 'htable.cpp'; R = ['done']; q = []; t = []
for i, (pre, rem, bk, ld) in enumerate(((0, 0, 4, 10), (9, 0, 4, 10), (10, 0, 1, 10), (11, 3, 1, 5), (20, 5, 2, 10), (12, 6, 0, 1), (22, 11, 8, 20), (28, 0, 3, 30))):
    for h in range(5):
        q.append(J(S, R, kind=(h + i) % 2, hash=h, pre=pre, rem=rem, buckets=bk, load=ld, way=(h + i) % 3, steps=2, keys=3, symk=1 if h == 0 else 0))
        t.append(J(S, R, kind=1, hash=h, pre=pre, rem=rem, buckets=bk, load=ld, way=(h + i + 1) % 3, steps=3, keys=3, w=9))
q += [J(S, R, kind=1, hash=h, pre=p, way=h % 3, steps=3, keys=2, symk=1 if h < 2 else 0, w=9) for h in (0, 2, 3) for p in (0, 9)] + [J(S, R, kind=0, hash=1, pre=9, way=1, steps=3, keys=3, buckets=2, w=9)]
t += [J(S, R, kind=1, hash=h, way=h % 3, steps=4, keys=2, w=30) for h in (0, 3)] + [J(S, R, kind=1, hash=h, pre=8, way=h % 3, steps=4, keys=2, buckets=1, look=0, w=60) for h in (0, 1)] + [J(S, R, kind=1, hash=h, pre=p, steps=3, keys=3, symk=1, w=9) for h in (0, 1) for p in (0, 9)]
q += [J(S, R, kind=k, hash=h, pre=p, rem=r, buckets=b, way=(h + k) % 3, steps=1, keys=2, fill=f, w=3) for k in (0, 1) for h in (1, 3, 4) for p, r, b, f in ((4, 2, 4, 6), (9, 3, 64, 12), (12, 6, 1, 24), (20, 5, 8, 9))]
t += [J(S, R, kind=k, hash=h, pre=p, rem=r, buckets=b, way=(h + k) % 3, steps=2, keys=2, fill=f, w=9) for k in (0, 1) for h in range(5) for p, r, b, f in ((4, 2, 4, 6), (9, 3, 64, 12), (12, 6, 1, 24), (20, 5, 8, 30))]
CHECKS['C17'] = dict(level='model_checking', quick=q, thorough=q + t, budget=dict(quick=200, thorough=780),
    bounds='every sequence of 2-3 (4) operations out of insert, upsert, get, remove, extract, conditional removal, clear, move construction, move assignment, interrupted iteration on tables holding 0..28 entries before (also after removals), over 3-4 keys with five hash functions (total collision, identity, two values, upper bits only, mixed), 0..8 initial buckets and four load factors; symbolic values and, for part, symbolic keys; the whole content is compared with an ideal map through three ways of iterating after every operation',
    assumptions=['constructors, comparison and hashing of keys and values do not throw'])
S = 'heap.cpp'; q = [J(S, R, steps=3, set=s, pre=p, post=4, w=3) for s in range(4) for p in (0, 2, 3)] + [J(S, R, steps=3, set=4, pre=1, post=1, ns=4, w=5)] + [J(S, R, steps=2, set=s, pre=2 * s, post=3, lo=l, hi=l + 200, w=3) for s, l in ((0, 0), (1, 200), (2, 400), (0, 900))] + [J(S, R, steps=4, ns=3, set=s, post=2, w=9) for s in (0, 3)]
q += [J(S, R, steps=1, sym=1, post=3, lo=l, hi=h, pre=p, w=5) for l, h, p in ((0, 64, 0), (200, 600, 0), (0, 300, 2), (65000, 65400, 0))] + [J(S, R, steps=1, sym=1, post=1, lo=900, hi=1000, pre=1, w=9)] + [J(S, R, steps=2, sym=y, post=1, lo=l, hi=h, pre=p, w=9) for y, l, h, p in ((2, 0, 64, 0), (2, 240, 270, 0), (1, 100, 160, 1))]
t = q + [J(S, R, steps=1, sym=1, post=3, lo=900, hi=1200, pre=1, w=60)] + [J(S, R, steps=2, sym=2, post=2, lo=l, hi=l + 300, pre=p, w=60) for l in (0, 300, 900) for p in (0, 2)] + [J(S, R, steps=4, ns=5, set=s, pre=p, post=2, w=30) for s in range(4) for p in (0, 2)] + [J(S, R, steps=5, ns=2, set=s, pre=p, post=2, w=60) for s, p in ((0, 0), (1, 1), (3, 2))] + [J(S, R, steps=3, set=s, ns=3, pre=p, post=1, lo=l, hi=l + 250, w=30) for s, p, l in ((0, 0, 0), (1, 1, 200), (2, 0, 900), (3, 3, 0))]
CHECKS['C18'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every sequence of 3-4 (5) operations out of allocations of five element types and five sizes (from 1 byte to more than the largest segment; every size of 200-byte windows; one or two symbolic sizes of 64- to 400-byte windows), creating an object with symbolic content, returning any live block, clear, move construction and assignment, after 0..4 allocations and followed by further ones; every live block is filled with its own pattern',
    assumptions=['alignments up to that of operator new[]', 'blocks are returned with the size they were requested with'])
# ---- C19 document tree
S = 'tree.cpp'
q = [J(S, R, steps=1, init=i, root=i % 2, look=2, pos=1) for i in range(4)] + [J(S, R, steps=2, init=i, look=2, root=r, w=3) for i, r in ((0, 0), (1, 1))] + [J(S, R, steps=2, init=3, deep=0, w=4), J(S, R, steps=2, init=2, deep=1, w=9)]
q += [J(S, R, steps=1, init=2, deep=2, look=2, keys=4)] + [J(S, R, steps=0, init=i, symname=n, symnode=k, w=4) for i, n, k in ((1, 1, 0), (2, 2, 1), (1, 2, 0), (2, 3, 0))] + [J(S, R, steps=3, init=1, keys=2, deep=0, ops=0b010001100011010111, w=9)]
t = q + [J(S, R, steps=2, init=2, deep=2, look=2, w=30)] + [J(S, R, steps=3, init=i, keys=2, deep=d, w=60) for i, d in ((0, 1), (1, 1), (2, 0))] + [J(S, R, steps=2, init=3, deep=2, w=30)] + [J(S, R, steps=4, init=1, keys=2, deep=0, look=1, ops=o, w=60) for o in (0b000001100011000101, 0b010010010010000010)] + [J(S, R, steps=1, init=i, symname=2, symnode=k, w=20) for i in (1, 2) for k in (0, 1)] + [J(S, R, steps=0, init=2, symname=5, w=60)]
CHECKS['C19'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every sequence of 2-3 (4) out of 18 edits (inserting values with symbolic content, texts, empty and filled nodes, lists, objects, wrapped scopes, copies of values, of the whole tree and of another tree, many values; removing by name, index or address, also of missing items; moving and clearing the tree) at the root or at nested nodes, with 3-4 names including the empty one and one too long for local storage, on four initial trees of up to 80 items; the whole tree is compared after every edit and every lookup by name (UTF-8, UTF-16, UTF-32) and index, recursive or not, at the end; symbolic 64-bit positions and symbolic names of 1, 2 and 5 bytes',
    assumptions=['looking up by position through get prefers a node over a value, by name a value over a node', 'removing a missing item does nothing'])
# ---- C20 field order and unknown content
S = 'order.cpp'
q = [J(S, R, fmt=f, mode=0, unk=6 + (f * 3 + k * 5) % 9, src=(f + k) % 3, w=3) for f in range(3) for k in range(2)] + [J(S, R, fmt=3, mode=0, unk=0)] + [J(S, R, fmt=f, mode=1, unk=u, opt=o, src=s, enc=e) for f in range(3) for u, o, s, e in ((9, 0, 0, 0), (0, 1, 1, 0), (7, 1, 0, 0), (11, 0, 2, 1))]
q += [J(S, R, fmt=f, mode=2, src=s) for f in range(4) for s in range(3)] + [J(S, R, fmt=f, mode=3, len=2, unk=u, at=a, src=f % 3, w=3) for f in range(3) for u, a in ((6, 3), (9, 0))] + [J(S, R, fmt=f, mode=4, src=f % 2, w=5) for f in range(3)] + [J(S, R, fmt=f, mode=5, src=s, enc=s == 2) for f in range(3) for s in range(3)] + [J(S, R, fmt=f, mode=6, src=s) for f in range(3) for s in range(3)]
t = q + [J(S, R, fmt=f, mode=0, unk=6 + u, src=s, enc=e, w=3) for f in range(4) for u in range(10) for s in range(3) for e in (0, 1)] + [J(S, R, fmt=f, mode=1, unk=u, opt=o, src=s) for f in range(4) for u in range(6, 16) for o in (0, 1) for s in range(3)] + [J(S, R, fmt=f, mode=4, src=s, enc=1, w=5) for f in range(4) for s in range(3)] + [J(S, R, fmt=f, mode=3, len=n, unk=u, at=a, src=s, w=5) for f in range(4) for n in (1, 3) for u, a in ((6, 0), (8, 5)) for s in (0, 1)]
CHECKS['C20'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='all 720 orders of six fields (scalars, text, object, list, two optional) with one unknown item of ten kinds at every position, all pairs of unknown items at all positions in four orders, all 64 subsets of present fields with required and optional flags, unknown names of 1-3 symbolic bytes, a value and a scope sharing a name in all 120 stored and 6 restored orders, pairs, maps, lists of objects, owning and shared pointers written with rotated parts and unknown items in between; symbolic contents; direct restore, through a tree, from a stream with short reads; UTF-8 and UTF-16 field names; all formats',
    assumptions=['contents of one encoding width per field (C06-C08 vary the widths)'])
# ---- C21 direct store/restore and document trees
S = 'equiv.cpp'
q = [J(S, R, fmt=f, mode=0, wide=w) for f in range(4) for w in (0, 1)] + [J(S, R, fmt=f, mode=1, wide=w, vary=v, dest=d, w=3) for f in range(3) for w, v, d in ((1, 0, 0), (0, 1, 1), (0, 2, 0))] + [J(S, R, fmt=f, mode=m) for f in range(4) for m in (2, 3, 4)]
q += [J(S, R, fmt=f, mode=5, vary=(0, 2, 1)[f], w=5) for f in range(3)] + [J(S, R, fmt=f, mode=6, shape=h, vary=(f + h) % 3) for f in range(3) for h in range(7)]
t = q + [J(S, R, fmt=f, mode=1, wide=1, vary=v, dest=d, w=4) for f in range(4) for v in range(3) for d in (0, 1)] + [J(S, R, fmt=f, mode=5, vary=v, w=5) for f in range(4) for v in range(3)] + [J(S, R, fmt=f, mode=6, shape=h, vary=v, wide=1, w=3) for f in range(4) for h in range(7) for v in range(3)]
CHECKS['C21'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='objects with a field of each of 25 kinds with three contents each and symbolic values (full byte/64-bit range in the wide jobs), top-level lists, maps and single values, one large mixed class, pack/unpack: documents compared byte for byte or as content; every document restored into every one of the 25 kinds (625 pairs), also documents with missing, unnamed, nested, repeated and extra items, directly and through a tree: same acceptance and same object',
    assumptions=['well-formed documents: content after the last restored field is not read when restoring directly', 'where a class stores lists before values the tree writes its values first, compared as content'])
# ---- C26 wrong kind or size
S = 'wrong.cpp'
q = [J(S, R, fmt=f, mode=0, vary=v, used=u, via=a) for f in range(3) for v, u, a in ((0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 2), (2, 0, 0), (2, 1, 3), (0, 0, 4), (1, 1, 5))] + [J(S, R, fmt=3, mode=0)]
q += [J(S, R, fmt=f, mode=1, what=w, via=(f + w) % 2, max=9) for f in range(3) for w in range(16)] + [J(S, R, fmt=f, mode=2, via=a, used=u) for f in range(3) for a, u in ((0, 1), (1, 0), (0, 0))]
t = q + [J(S, R, fmt=f, mode=0, vary=v, used=u, via=a) for f in range(4) for v in range(3) for u in (0, 1) for a in range(6)] + [J(S, R, fmt=f, mode=1, what=w, via=a, max=24) for f in range(4) for w in range(16) for a in (0, 1)] + [J(S, R, fmt=f, mode=2, via=a, used=u) for f in range(4) for a in (0, 1) for u in (0, 1)]
CHECKS['C26'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every one of 25 kinds of stored content (three contents each, symbolic values) restored into each of 25 kinds of destination through six access paths, acceptance decided by an independent compatibility table; texts and blocks of 0..8 (23) symbolic bytes, up to 305 bytes around the size of the destination, and lists of all sizes around the size of the destination into character arrays of all widths, single characters, byte blocks, word lists, fixed and nested arrays with guard bytes behind them; one class of ten containers and pointers with every single part removed or replaced by text or a list; after every refusal the destination is stored, restored into again, compared and destroyed',
    assumptions=['items of a list which are scopes where values are expected (or the reverse) are ignored like unknown fields', 'binary content offered to a character array may be accepted or refused when it fits', 'objects offered where a list is expected, floating point content in integer and boolean destinations: either outcome'])
# ---- C22 nesting depth
S = 'depth.cpp'; R = ['accepted', 'rejected']; L = dict(_steps=400000000)
q = [J(S, R, fmt=f, mode=m, sib=b, src=s, w=4, **L) for f in range(3) for m, b, s in ((0, 0, 0), (0, 1, 1), (1, 0, 1), (2, 0, 0), (3, 1, 0))]
q += [J(S, ['accepted'], fmt=f, mode=4, src=s, **L) for f in range(3) for s in (0, 1)] + [J(S, ['rejected'] + (['skipped'] if f < 2 else []), fmt=f, mode=m, n=150000, src=m - 5, w=9, _steps=4000000000) for f in range(3) for m in (5, 6)]
q += [J(S, R, fmt=f, mode=7, pre=90, n=48, src=f % 2, w=5) for f in range(3)]
t = q + [J(S, R, fmt=f, mode=m, sib=b, src=s, dlo=lo, dn=dn, w=9, **L) for f in range(3) for m in range(4) for b in (0, 1) for s in (0, 1) for lo, dn in ((100, 60), (0, 100))  if lo] + [J(S, fmt=f, mode=m, sib=b, dlo=lo, dn=100, w=9, **L) for f in range(3) for m in range(4) for b in (0, 1) for lo in (0, 160)]
t += [J(S, R, fmt=3, mode=m, sib=1, **L) for m in range(4)]
t += [J(S, R, fmt=f, mode=7, pre=0, n=200, src=s, w=20) for f in range(3) for s in (0, 1)]
CHECKS['C22'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='nesting depths 1, 2, 64, 126..131, 150, 260 (thorough: every depth 0..260), every repeating pattern of objects and lists of period 4, with and without sibling scopes; loading, unknown content before and after restored fields, dynamic fields; documents whose every byte may open another scope or close them (48 free bytes around the limit, thorough 200); 300 sibling scopes; documents of 150000 nested scopes, closed or cut off, loaded, restored and skipped; from memory and streams',
    assumptions=['the limit is 128 scopes below the root', 'classes which contain themselves are restored by recursion of their own without a limit: outside the property', 'content which is skipped without recursion may be nested deeper'])
# ---- C23 reuse
S = 'reuse.cpp'; R = ['compared', 'refused', 'stopped']; C = ['compared', 'refused']; L = dict(_steps=40000000)
q = [J(S, R, fmt=f, fmt2=g, stream=(f + g) % 2, **L) for f in range(3) for g in range(3)] + [J(S, R, fmt=f, ops=2, fin=n, cuts=2, w=6, stream=n % 2, **L) for f, n in ((0, 2), (1, 3), (2, 0), (2, 4))]
q += [J(S, C, fmt=f, op=27, fin=n, load=l, w=5, **L) for f, n, l in ((0, 4, 0), (2, 0, 0), (2, 3, 1))] + [J(S, fmt=1, op=27, fin=3, at=a, load=a % 2, **L) for a in range(0, 40, 3)]
t = q + [J(S, R, fmt=f, fmt2=f2, ops=2, fin=n, cuts=12, w=20, stream=s, **L) for f in range(3) for f2 in range(4) for n in range(10) for s in (0, 1)]
t += [J(S, C, fmt=f, op=27, fin=n, load=l, w=9, stream=l, **L) for f in (0, 1, 2) for n in range(10) for l in (0, 1)] + [J(S, R, fmt=f, ops=3, fin=n, cuts=1, w=30, **L) for f in range(3) for n in (0, 2, 3, 6)]
CHECKS['C23'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every one of 27 operations (stores, loads, restores, packs, tree operations; cut short at 12 points, stopped by user code at 8 points, failing sinks and sources, wrong types, other formats and trees with the same parser, one free byte anywhere in the document) before every one of 10 final operations, all format pairs, streams and memory; every pair of operations in four combinations (thorough: all, and triples); results compared byte by byte with fresh objects',
    assumptions=['clear() keeps the kind of the root', 'content of a tree after a failed load is unspecified until the next load, store or clear'])
# ---- C24 shared pointers
S = 'share.cpp'; R = ['restored']; RR = ['restored', 'rejected']
q = [J(S, R, fmt=f, mode=0, via=v, used=u, w=4) for f, v, u in ((0, 0, 1), (1, 1, 0), (2, 3, 1), (0, 5, 0), (2, 2, 0), (1, 4, 1))] + [J(S, R, fmt=f, mode=1, via=v, n=3, w=2) for f, v in ((0, 0), (1, 1), (2, 4))] + [J(S, R, fmt=f, mode=1, via=v, n=2, kids=1) for f in range(3) for v in (0, 2, 3, 5)]
q += [J(S, R, fmt=f, mode=2, via=v) for f in range(4) for v in (range(6) if f < 3 else range(5))] + [J(S, R, fmt=f, mode=3, n=5) for f in range(4)] + [J(S, RR, fmt=f, mode=4, via=v, which=f, n=2 + (f == 1), w=9) for f, v in ((0, 0), (1, 1), (2, 4))] + [J(S, ['restored', 'refused'], fmt=f, mode=5) for f in range(4)]
t = q + [J(S, R, fmt=f, mode=0, via=v, used=u, w=4) for f in range(4) for v in range(6) if f < 3 or v < 5 for u in (0, 1)] + [J(S, R, fmt=f, mode=1, via=v, n=3, w=3) for f in range(3) for v in range(6)] + [J(S, R, fmt=f, mode=1, via=v, n=3, kids=1, w=60) for f, v in ((0, 0), (1, 3), (2, 1))] + [J(S, R, fmt=f, mode=3, n=7, w=9) for f in range(3)] + [J(S, RR, fmt=f, mode=4, via=v, which=(f + v) % 3, n=3, wide=1, w=60) for f, v in ((0, 0), (1, 1), (2, 4), (1, 0), (2, 0))]
CHECKS['C24'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every partition of seven shared and weak pointers (fields, list, map, nested object) into null and distinct objects; every graph of 3 objects with owning and weak edges including cycles and self references (n=2, thorough 3, also through lists); pointers of three types to one address in four orders and all combinations of presence; 5 (7) insertions of pointers into a tree with two addresses used again at any point; documents of 2-3 definitions and references with every value of every key (8 bit), also of keys defined for another type; four lookups in any order of a loaded document; direct, tree, load_object, reused tree and parser, stream, transcoded; all formats',
    assumptions=['a shared object is written where it is first met and has to be read there first: a reference read before its definition is refused', 'no key is defined twice in one document'])
# ---- C25 registered classes
S = 'poly.cpp'; R = ['restored']; RR = ['accepted', 'rejected']; FM = ['found', 'missing']
q = [J(S, R, fmt=f, mode=0, box=b, via=(b + f) % 6, vary=1, used=(b + f) % 2) for b in range(8) for f in range(3)] + [J(S, R, fmt=3, mode=0, box=0)]
q += [J(S, RR if f or n != 2 or p != 1 else ['rejected'], fmt=f, mode=1, len=n, pre=p, used=u, dst=d, via=d % 2) for f in range(3) for n, p, u, d in ((1, 0, 1, 0), (2, 0, 0, 1), (1, 1, 1, 1), (1, 2, 1, 2), (2, 0, 1, 3), (2, 1, 0, 2))] + [J(S, RR, fmt=f, mode=2, via=v) for f in range(3) for v in (0, 1, 4)]
q += [J(S, fmt=f, mode=3, via=v, box=(f * 3 + v) % 8, cn=110, lo=l) for f in range(3) for v in (0, 1, 4) for l in (0, 110)] + [J(S, fmt=f, mode=3, cut=0, via=v, box=(f + v) % 8, cn=10, lo=(13 * (f + 3 * v)) % 112, w=6) for f in range(3) for v in (0, 1, 4)]
q += [J(S, R, fmt=f, mode=4, alt=f % 2, via=v) for f in range(3) for v in (0, 1, 5)] + [J(S, R, fmt=f, mode=5, dst=d, via=v) for f in range(3) for d, v in ((0, 0), (1, 4), (2, 1), (3, 0))] + [J(S, FM, mode=6, n=3), J(S, FM, mode=6, n=1, free=1)] + [J(S, R, fmt=f, mode=7, n=3, via=f) for f in range(3)]
t = q + [J(S, R, fmt=f, mode=0, box=b, via=v, n=4, vary=1, used=1, w=3) for b in range(8) for f in range(4) for v in range(6) if f < 3 or v < 5] + [J(S, RR, fmt=f, mode=1, len=3, pre=p, used=1, dst=d, via=v, w=3) for f in range(3) for p in (0, 1) for d in range(4) for v in (0, 1)] + [J(S, RR, fmt=f, mode=2, via=v) for f in range(4) for v in (0, 1, 4)]
t += [J(S, fmt=f, mode=3, cut=0, via=v, box=b, cn=40, lo=l, w=30) for f in range(3) for v in (0, 1) for b in range(8) for l in (0, 40, 80)] + [J(S, FM, mode=6, n=4, w=30), J(S, FM, mode=6, n=2, free=1, w=30)] + [J(S, R, fmt=f, mode=4, alt=a, via=v) for f in range(4) for a in (0, 1) for v in range(5)] + [J(S, R, fmt=f, mode=7, n=4, via=v, w=5) for f in range(3) for v in range(6)]
CHECKS['C25'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every sequence of up to 3 (4) objects of five registered classes (derived from a derived class, two bases, virtual base, private constructor) in vector, list, map, hash table, array, pair, tuple, nested lists, held by unique, raw and shared pointers; every class name of 1-2 (3) free bytes, also after a prefix; both hierarchies as source and destination; documents cut at every position and with every value of single bytes; every pattern of sharing among six pointers to three base types; every order of the fields with unknown items between; every history of 3-4 registrations out of six names and three classes; every object counted from construction to destruction; all formats',
    assumptions=['the fields of a class are not named srl_type_id', 'null pointers to registered classes are refused when they are stored', 'registered names outlive the registration'])
# ---- C27 transcoding
S = 'transcode.cpp'; R = ['carried']; B = dict(_steps=4000000000)
q = [J(S, R, fmt=f, mode=0, root=r, how=(f + r) % 3, enc=f * (1 - r), dup=r, w=3) for f in range(3) for r in (0, 1)] + [J(S, R, fmt=f, mode=2, hops=2, how=h, used=h == 1) for f in range(4) for h in ((0, 1) if f < 3 else (2,))] + [J(S, R, fmt=f, mode=4, hops=1, how=f, w=6, **B) for f in range(3)]
q += [J(S, R, fmt=f, mode=1, kind=k, free=1, nojson=1, hops=2) for f in (1, 2) for k in range(4)] + [J(S, R, fmt=f, mode=1, kind=k, lo=l, hi=h, how=f) for f in range(3) for k, l, h in ((0, -100, -1), (0, -100, 0), (0, -100, 2147483647), (1, -100, 2147483647), (1, 2147483600, 0), (0, 65300, 0), (1, 32700, 0), (0, 0, 0), (1, 0, 0), (2, 0, 1072693248), (2, -20, -2147483648), (3, 1073741824, 0), (3, -8388648, 0)) if f or k < 2]
q += [J(S, R, fmt=f, mode=3, what=w, len=n, pre=p, node=p, how=(f + w) % 3, w=3) for f in range(3) for w, n, p in ((0, 1, 0), (0, 2, 1), (1, 1, 1), (2, 4, 0)) if f or w != 2]
t = q + [J(S, R, fmt=f, mode=0, root=r, how=h, enc=e, dup=1, depth=2, width=2, hops=2, w=20) for f in range(3) for r in (0, 1) for h, e in ((0, 1), (1, 2), (2, 3))] + [J(S, R, fmt=f, mode=2, hops=3, how=h, used=h == 1, w=3) for f in range(4) for h in range(3)] + [J(S, R, fmt=f, mode=4, hops=2, how=f, w=20, **B) for f in range(3)]
t += [J(S, R, fmt=f, mode=1, kind=k, free=1, nojson=1, hops=3, how=h) for f in (1, 2) for k in range(4) for h in range(3)] + [J(S, R, fmt=f, mode=3, what=w, len=2, pre=p, node=p, how=(f + w) % 3, w=30) for f in range(3) for w, p in ((0, 0), (1, 0), (1, 1))] + [J(S, R, fmt=f, mode=4, hops=1, big=1, w=60, **B) for f in (1, 2)]
t += [J(S, R, fmt=f, mode=1, kind=k, lo=l, hi=h, how=f, win=250) for f in (1, 2) for k in (2, 3) for l, h in ((0, 0), (1000000, 1000), (0, 1075838976), (-120, 1096810495), (8388500, 0), (1258291200, 1258291200))]
CHECKS['C27'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='every document of up to 2 (thorough depth 2) nested scopes with 0..2 items of ten kinds each (all kinds of values, equal and empty names, names with quotes and multi-byte characters), carried through every sequence of 2 (3) formats and back, with new trees, one reused tree and parser, and streams; every 64-bit integer and every double and single through the binary formats, 256-value windows at the limits of the encodings and 40-value (250) windows of doubles through all of them; texts, names and blocks of 1-4 free bytes; texts, blocks, names, lists and objects of 15..700 (65534..65537) items; objects of 25 kinds with three contents restored from every format. First documents come from independent JSON and MessagePack writers (also in non-minimal encodings), results are read by independent decoders',
    assumptions=['within one scope the values are written before the nested scopes, each in their order', 'blocks become base64 text when written as JSON', 'infinities, NaN and the sign of zero are not carried by JSON'])
# ---- C28 dynamic access
S = 'dyn.cpp'; R = ['done']
q = [J(S, R, fmt=f, mode=0, via=f, items=1) for f in range(3)] + [J(S, R, fmt=f, mode=0, via=v, items=2, depth=0) for f, v in ((0, 1), (1, 2), (2, 0))] + [J(S, R, fmt=f, mode=1, vary=v) for f, v in ((0, 0), (1, 1), (2, 2), (1, 0))]
q += [J(S, R, fmt=f, mode=2, via=v, w=3) for f, v in ((0, 0), (1, 4), (2, 0), (0, 1), (2, 4))] + [J(S, R, fmt=1, mode=2, via=3, steps=1), J(S, R, fmt=0, mode=2, via=5, steps=1, stored=4), J(S, R, fmt=2, mode=2, via=2, steps=1, stored=4)]
q += [J(S, R, fmt=f, mode=3, len=1, items=1, sym=0, via=1 + (f & 1), w=3) for f in range(3)] + [J(S, R, fmt=f, mode=4, via=v, stored=2, fields=3) for f, v in ((0, 0), (1, 1), (2, 4), (1, 0), (2, 0))] + [J(S, R, mode=5)]
t = q + [J(S, R, fmt=f, mode=0, via=v, items=2, w=20) for f, v in ((0, 1), (1, 2), (2, 1), (1, 0))] + [J(S, R, fmt=f, mode=0, via=v, items=2, depth=0, names=4) for f in range(3) for v in range(3)] + [J(S, R, fmt=f, mode=1, vary=v) for f in range(3) for v in range(3)]
t += [J(S, R, fmt=f, mode=2, via=v, steps=3, w=20) for f in range(3) for v in (0, 1, 4)] + [J(S, R, fmt=f, mode=2, via=v, steps=2, stored=4, w=20) for f in range(3) for v in (0, 2, 5)] + [J(S, R, fmt=f, mode=3, len=n, items=k, sym=0, via=v, w=20) for f in range(3) for n, k, v in ((1, 2, 1), (2, 1, 2), (3, 1, 1))]
t += [J(S, R, fmt=f, mode=4, via=v, stored=4, fields=4, w=20) for f in range(3) for v in (0, 1, 4)]
CHECKS['C28'] = dict(level='model_checking', quick=q, thorough=t, budget=dict(quick=200, thorough=780),
    bounds='documents of 0..2 items of five kinds (free 8-bit numbers, texts, null, objects, lists with 0..2 nested items) and four names, equal names included, as object or list, built or loaded from memory or a stream: every lookup by name and index at two levels through Tree, Node and Union; every pair of 25 kinds of stored content and destination converted by copy, unwrap, unwrap_if and unwrap_field; every order of up to 3 (4) of five stored fields with every sequence of 2 (3) typed restores, lookups and existence tests; names of 1 (3) free letters and free 64-bit indices; every order of up to 3 (4) stored and 3 (4) restored fields, each optional or not',
    assumptions=['an item found while restoring is used until a field restored later takes it', 'index lookups count nodes first and values when there is no such node; name lookups prefer values (the documented order of the implementation)'])
# ---- many items: table, stack and arena growth, wide length fields
S = 'many.cpp'; R = ['done']; L = dict(_steps=400000000)
def many(prop, quick, thorough, bound):
    C = CHECKS[prop]; C['quick'] = C['quick'] + quick; C['thorough'] = (C.get('thorough') or []) + quick + thorough; C['bounds'] += '; ' + bound
many('C09', [J(S, R, kind=0, fmt=f, via=v, used=u, base=12, n=60, **L) for f, v, u in ((0, 0, 1), (1, 4, 0), (2, 1, 1))] + [J(S, R, kind=0, fmt=f, base=124, n=10, via=f, used=1, **L) for f in range(3)],
    [J(S, R, kind=0, fmt=f, via=v, used=1, base=b, n=n, **L) for f in range(4) for v in range(5) for b, n in ((72, 60), (250, 20))] + [J(S, R, kind=0, fmt=f, via=0, base=1020, n=4, w=9, **L) for f in range(3)], 'containers of 12..71 and 124..133 elements of six kinds at once (thorough: up to 1023)')
many('C08', [J(S, R, kind=11, fmt=f, via=(f * 2) % 5, base=12, n=12, step=11, len=60, **L) for f in range(3)] + [J(S, R, kind=11, fmt=f, base=4, n=4, len=300, **L) for f in range(3)],
    [J(S, R, kind=11, fmt=f, via=v, base=b, n=n, len=l, **L) for f in range(3) for v in (0, 1, 4) for b, n, l in ((124, 8, 3), (252, 6, 30), (12, 6, 1020))], '12..133 distinct names of 60 characters, 4..7 of 300 characters (thorough: up to 257 names)')
many('C20', [J(S, R, kind=k, fmt=f, via=v, base=8, n=10, step=7, **L) for k, f, v in ((1, 0, 0), (1, 1, 4), (1, 2, 3), (10, 0, 4), (10, 1, 3), (10, 2, 0))] + [J(S, R, kind=1, fmt=f, base=126, n=4, **L) for f in range(3)],
    [J(S, R, kind=k, fmt=f, via=v, base=12, n=60, **L) for k in (1, 10) for f in range(3) for v in (0, 1, 3, 4)] + [J(S, R, kind=k, fmt=f, base=254, n=4, **L) for k in (1, 10) for f in range(3)], 'objects of 8..71 and 126..129 fields restored in reversed and in scattered order with unknown fields in between (thorough: up to 257)')
many('C24', [J(S, R, kind=2, fmt=f, via=v, base=5, n=12, step=5, **L) for f, v in ((0, 0), (1, 1), (2, 4), (0, 2), (1, 5), (2, 3))], [J(S, R, kind=2, fmt=f, via=v, base=b, n=n, w=3, **L) for f in range(3) for v in range(6) for b, n in ((60, 10), (124, 8))], '5..60 shared objects referred to by three lists (thorough: up to 131)')
many('C25', [J(S, R, kind=3, fmt=f, via=v, base=4, n=9, step=7, **L) for f, v in ((0, 0), (1, 1), (2, 4), (0, 5))] + [J(S, R, kind=9, base=4, n=80, **L)], [J(S, R, kind=3, fmt=f, via=v, base=b, n=6, w=3, **L) for f in range(3) for v in range(6) for b in (60, 125)] + [J(S, R, kind=9, base=b, n=80, **L) for b in (84, 160, 240)], '4..60 objects in two containers (thorough: up to 130), registrations of 4..83 classes (up to 319)')
many('C19', [J(S, R, kind=4, fmt=f, base=10, n=12, step=6, **L) for f in range(3)] + [J(S, R, kind=4, fmt=2, base=126, n=5, **L)], [J(S, R, kind=4, fmt=f, base=b, n=n, w=3, **L) for f in range(3) for b, n in ((10, 70), (126, 8), (254, 5))], 'trees of 10..76 and 126..130 items inserted, found, removed and written (thorough: up to 258)')
many('C12', [J(S, R, kind=5, base=b, n=n, step=s, via=v, **L) for b, n, s, v in ((0, 40, 1, 0), (40, 40, 1, 4), (80, 60, 3, 0), (250, 10, 1, 4), (1000, 30, 1, 4))], [J(S, R, kind=5, base=b, n=100, via=v, w=3, **L) for b in (0, 100, 200, 990, 2020) for v in (0, 4)], 'strings, names, numbers, whitespace, escapes and element counts of every length 0..79, in steps up to 259, 1000..1029 (thorough: 0..299, 990..1089, 2020..2119)')
many('C21', [J(S, R, kind=6, fmt=f, base=12, n=20, step=3, **L) for f in range(3)], [J(S, R, kind=6, fmt=f, base=b, n=12, **L) for f in range(4) for b in (72, 124, 250)], 'containers of 12..69 elements directly and through a tree (thorough: up to 261)')
many('C27', [J(S, R, kind=7, fmt=f, base=12, n=20, step=3, **L) for f in range(3)], [J(S, R, kind=7, fmt=f, base=b, n=12, **L) for f in range(3) for b in (72, 124, 250)], 'containers of 12..69 elements through all formats (thorough: up to 261)')
many('C23', [J(S, R, kind=8, fmt=f, base=12, n=8, step=8, **L) for f in range(3)], [J(S, R, kind=8, fmt=f, base=b, n=12, **L) for f in range(3) for b in (72, 124, 250)], 'documents of 12..68 elements per container, cut short at six points')
# ---- names which are easily taken for one another
S = 'names.cpp'; B = 'names of equal 64-bit hash, twins of 1..20 (thorough: 64) bytes differing in one byte anywhere, prefixes, names with zero bytes, names equal to the bytes of another encoding: '
many('C08', [J(S, R, mode=0, fmt=f, set=s, src=(f + s) % 3, tree=(f + s) % 2, wide=w) for f in range(3) for s in range(4) for w in (0, 1)], [J(S, R, mode=0, fmt=f, set=s, src=c, tree=t, wide=w, len=l) for f in range(4) for s in range(4) for c in range(3) for t in (0, 1) for w in (0, 1) for l in ((20, 8, 33, 64) if s == 1 else (20,))], B + 'every field keeps its own content')
many('C20', [J(S, R, mode=m, fmt=f, set=s, src=(f + s + m + o) % 3, opt=o) for m, o in ((0, 0), (1, 0), (1, 1)) for f in range(3) for s in range(4)], [J(S, R, mode=1, fmt=f, set=s, src=c, opt=o, len=l) for f in range(4) for s in range(4) for c in range(3) for o in (0, 1) for l in ((20, 8, 33) if s == 1 else (20,))], B + 'each is noticed as missing although a similar one exists')
many('C19', [J(S, R, mode=2, set=s) for s in range(4)] + [J(S, R, mode=2, set=1, len=l) for l in (1, 7, 8, 9, 16, 17)], [J(S, R, mode=2, set=1, len=l) for l in (2, 15, 24, 33, 64)], B + 'looked up, removed and added')
many('C09', [J(S, R, mode=3, fmt=f, set=s, src=(f + s) % 3) for f in range(3) for s in range(4)], [J(S, R, mode=3, fmt=f, set=s, src=c) for f in range(4) for s in range(4) for c in range(3)], B + 'as keys of maps, sets and tables')
many('C28', [J(S, R, mode=4, fmt=f, set=s, src=(f + s) % 3) for f in range(3) for s in range(4)], [J(S, R, mode=4, fmt=f, set=s, src=c) for f in range(3) for s in range(4) for c in range(3)], B + 'looked up while being restored')
S = 'stream.cpp'; ST = ['stored']
many('C05', [J(S, ST, what=10, fmt=f, base=b, n=n, syma=0, times=2, before=bf, tree=tr, over=o) for f in range(4) for b, n, bf, tr, o in ((900, 60, 3, 0, 5000), (0, 4, 1030, 1, 700), (2000, 9, 0, 0, 1500))], [], 'streams positioned within earlier content')
many('C05', [J(S, ST, what=12, fmt=f, base=b, n=240, _steps=200000000) for f in range(4) for b in (0, 760)] + [J(S, ST, what=12, fmt=f, base=120 * f, n=40, times=4, mix=m, _steps=200000000) for f in range(4) for m in (10, 5, 1025, 1536)], [J(S, ST, what=12, fmt=f, base=b, n=240, times=4, mix=m, _steps=200000000) for f in range(4) for b in (0, 240, 480, 1760) for m in (0, 10, 1025, 2049)], 'two to four documents of 0..5000 bytes stored one after the other by one tree and parser to memory and streams')
S = 'names.cpp'
many('C28', [J(S, R, mode=5, fmt=f, src=(f + u + w) % 3, units=u, utf32=w) for f in range(3) for u in (1, 2) for w in (0, 1)], [J(S, R, mode=5, fmt=f, src=c, units=u, utf32=w) for f in range(4) for c in range(3) for u in (1, 2, 3) for w in (0, 1)], 'names of 1-2 (3) free UTF-16 or UTF-32 units which are no text match nothing')
many('C17', [J(S, R, mode=3, fmt=1, set=s) for s in range(4)], [J(S, R, mode=3, fmt=1, set=1, len=l) for l in (1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33)], 'text keys of equal hash or differing in one byte')
NA = {}
