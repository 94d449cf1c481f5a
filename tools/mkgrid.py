#!/usr/bin/env python3
"""Developer tool: writes harness/schemas/grid/*.xsd and harness/src/grid/*.rs (committed; the checks do not run it).
The schemas combine the supported constructs systematically and, with a fixed seed, at random; every schema has
the root element r. Their documents are made by harness/src/gen.rs from the schema file."""
import os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MID = ['', '', 'o', 'eM', '-', '_', '.n', '1']
class G:
    def __init__(g, seed, ns=None, qual=True):
        g.r = random.Random(seed); g.n = 0; g.top = []; g.ns = ns; g.qual = qual; g.pts = 0; g.t = 't:' if ns else ''; g.tn = 0
    def name(g):
        i = g.n; g.n += 1
        return chr(97 + i % 26) + MID[g.r.randrange(len(MID))] + chr(97 + (i * 7 + 3) % 26)
    def tname(g):
        g.tn += 1; return 'T' + chr(64 + g.tn) + 'q'
    def lit(g): return g.r.choice(['xs:string', 'xs:string', 'xs:int', 'xs:boolean', 'xs:decimal', 'xs:date', 'xs:nonNegativeInteger'])
    def simple(g):
        k = g.r.randrange(5); n = g.tname()
        if k == 0:
            g.top.append('<xs:simpleType name="%s"><xs:restriction base="xs:string"><xs:enumeration value="%s"/><xs:enumeration value="%s"/></xs:restriction></xs:simpleType>' % (n, g.name(), g.name())); g.pts += 1
        elif k == 1:
            g.top.append('<xs:simpleType name="%s"><xs:restriction base="xs:int"><xs:minInclusive value="0"/></xs:restriction></xs:simpleType>' % n)
        elif k == 2:
            g.top.append('<xs:simpleType name="%s"><xs:restriction base="xs:string"/></xs:simpleType>' % n)
        else: return g.lit()
        return g.t + n
    def attr(g, use=None):
        use = use or g.r.choice(['', ' use="required"', ' use="optional"', ' use="required"'])
        if 'required' not in use: g.pts += 1
        if g.r.random() < .15: return '<xs:attribute name="%s" type="xs:string" fixed="%s"%s/>' % (g.name(), g.name(), use)
        return '<xs:attribute name="%s" type="%s"%s/>' % (g.name(), g.simple(), use)
    def occ(g, multi=True, free=False):
        k = g.r.randrange(8 if g.pts < 5 else 4)
        if k < 4 and not free: return ''
        o = [' minOccurs="0"', ' maxOccurs="unbounded"', ' minOccurs="0" maxOccurs="unbounded"', ' maxOccurs="2"'][k % 4 if multi else 0]
        g.pts += 2 if 'max' in o and 'min' in o else 1
        return o
    def el(g, depth, occ=None):
        o = g.occ() if occ is None else occ
        k = g.r.randrange(10)
        if k == 0: return '<xs:element name="%s" type="xs:string" fixed="%s"%s/>' % (g.name(), g.name(), o)
        if k == 1 and depth > 0:
            n = g.tname(); g.top.append('<xs:complexType name="%s">%s</xs:complexType>' % (n, g.body(depth - 1)))
            return '<xs:element name="%s" type="%s%s"%s/>' % (g.name(), g.t, n, o)
        if k == 2 and depth > 0: return '<xs:element name="%s"%s><xs:complexType>%s</xs:complexType></xs:element>' % (g.name(), o, g.body(depth - 1))
        if k == 3:
            n = g.name(); g.top.append('<xs:element name="%s" type="%s"/>' % (n, g.simple()))
            return '<xs:element ref="%s%s"%s/>' % (g.t, n, o)
        return '<xs:element name="%s" type="%s"%s/>' % (g.name(), g.simple(), o)
    def seq(g, depth, occ='', groups=True):
        n = g.r.choice([1, 2, 2, 3]); c = []
        for _ in range(n):
            k = g.r.randrange(6)
            if k == 0 and groups and depth > 0: c.append(g.seq(depth - 1, ' minOccurs="0"' if g.r.random() < .6 else ''))
            elif k in (1, 2) and groups and depth > 0: c.append(g.choice(depth - 1, g.occ()))
            else: c.append(g.el(depth))
        if 'min' in occ: g.pts += 1
        return '<xs:sequence%s>%s</xs:sequence>' % (occ, ''.join(c))
    def choice(g, depth, occ='', n=None):
        c = []; g.pts += 1
        for _ in range(n or g.r.choice([2, 2, 3])):
            k = g.r.randrange(4)
            if k == 0 and depth > 0: c.append(g.seq(depth - 1, '', False))
            else: c.append(g.el(depth, g.r.choice(['', '', '', ' maxOccurs="unbounded"'])))
        return '<xs:choice%s>%s</xs:choice>' % (occ, ''.join(c))
    def body(g, depth):
        k = g.r.randrange(8)
        a = ''.join(g.attr() for _ in range(g.r.choice([0, 0, 1])))
        if k == 0: return a or g.attr()
        if k == 1: return '<xs:simpleContent><xs:extension base="%s">%s</xs:extension></xs:simpleContent>' % (g.lit(), g.attr())
        if k == 2: return g.choice(depth) + a
        if k == 3: return '<xs:all>%s</xs:all>' % ''.join(g.el(depth, g.occ(False)) for _ in range(2)) + a
        return g.seq(depth, g.r.choice(['', '', ' minOccurs="0"', ' maxOccurs="unbounded"'])) + a
    def out(g, body):
        a = ''
        if g.ns: a = ' targetNamespace="%s" xmlns:t="%s"%s' % (g.ns, g.ns, ' elementFormDefault="qualified"' if g.qual else '')
        r = g.r.random() < .3
        if r:
            g.top.append('<xs:complexType name="RootType">%s</xs:complexType>' % body); e = '<xs:element name="r" type="%sRootType"/>' % g.t
        else: e = '<xs:element name="r"><xs:complexType>%s</xs:complexType></xs:element>' % body
        g.r.shuffle(g.top)
        k = g.r.randrange(len(g.top) + 1)
        return '<?xml version="1.0"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n%s\n</xs:schema>\n' % (a, '\n'.join('  ' + x for x in g.top[:k] + [e] + g.top[k:]))

E = lambda n, o='', t='xs:string': '<xs:element name="%s" type="%s"%s/>' % (n, t, o)
OPT, MANY, STAR, TWO = ' minOccurs="0"', ' maxOccurs="unbounded"', ' minOccurs="0" maxOccurs="unbounded"', ' maxOccurs="2"'
S = lambda *k, o='': '<xs:sequence%s>%s</xs:sequence>' % (o, ''.join(k))
C = lambda *k, o='': '<xs:choice%s>%s</xs:choice>' % (o, ''.join(k))
def plain(body, top='', a=''): return '<?xml version="1.0"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n  <xs:element name="r"><xs:complexType>%s</xs:complexType></xs:element>\n  %s\n</xs:schema>\n' % (a, body, top)
fam = {}
def put(f, s): fam.setdefault(f, []).append(s)

# groups: every pattern of required/optional members of a group, in every kind of group
for i, o1 in enumerate(['', OPT, STAR]):
    for j, o2 in enumerate(['', OPT]):
        for o3 in (['', OPT] if i else ['']):
            g = [E('ax', o1), E('by', o2), E('cz', o3)]
            put('group', plain(S(S(*g, o=OPT), E('dw'))))
            if i < 2 and (o1, o2, o3) != (OPT, OPT, OPT): put('group', plain(S(*g, o=[MANY, STAR, OPT, TWO][(i + 2 * j) % 4])))
            if o1 or o2: put('group', plain(S(E('dw'), S(S(*g[:2], o=OPT), E('ev', OPT), g[2]))))
put('group', plain(S(S(S(E('ax', OPT), E('by', OPT), o=OPT), S(E('cz', OPT), E('dw'), o=OPT), o=OPT), E('ev'))))
put('group', plain(S(S(C(E('ax'), E('by')), E('cz', OPT), o=OPT), E('ev'))))
put('group', plain(S(S(C(E('ax'), E('by'), o=OPT), E('cz'), o=OPT), E('ev'))))
put('group', plain(S(E('ax', OPT), E('by', OPT), E('cz', OPT), E('dw', OPT), E('ev', OPT))))
put('group', plain(S(E('ax', MANY), E('by', STAR), E('cz', TWO))))
# choices: where, how often, and of what
A = [E('ax'), E('by', MANY), E('cz', OPT), E('dw', STAR), S(E('ev'), E('fu', OPT)), S(E('gt', OPT), E('hs')), S(E('ir', MANY)), S(E('jq'), E('kp'), o=MANY), S(E('lo', STAR), E('mn'), o=TWO)]
for i in range(len(A)):
    for k, o in enumerate(['', OPT, MANY, STAR]):
        a, b = A[i], A[(i + 1 + (i + 3 * k) % (len(A) - 1)) % len(A)]
        put('choice', plain(S(E('zz'), C(a, b, o=o), E('yy', OPT))))
    put('choice', plain(C(A[i], E('xx'), A[(i + 2) % len(A)])))
put('choice', plain(S(C(E('ax'), E('by'), o=OPT), C(E('cz'), E('dw'), o=STAR), C(E('ev'), E('fu')))))
put('choice', plain(S(C(E('ax'), S(E('by'), C(E('cz'), E('dw'))), o=STAR), E('ev', OPT))))
# extensions: of what, by what
B = [S(E('ax')), S(E('ax', OPT), E('by')), S(E('ax', STAR)), '', S(C(E('ax'), E('by')), E('cz', OPT)), S(E('ax'), o=OPT), '<xs:all>%s%s</xs:all>' % (E('ax'), E('by', OPT))]
X = [(S(E('kp')), ''), (S(E('kp'), o=OPT), ''), (S(E('kp', OPT), E('lo'), o=OPT), 'o'), (S(E('kp', STAR)), 'r'), (S(C(E('kp'), E('lo')), E('mn', OPT)), 'o'), ('', 'ro'), ('', '')]
at = lambda s, p: ''.join('<xs:attribute name="%s%d" type="xs:%s"%s/>' % (p, i, ['int', 'string'][i % 2], ' use="required"' if c == 'r' else '') for i, c in enumerate(s))
for i, b in enumerate(B):
    for j, (x, a) in enumerate(X):
        if (i + j) % 2 and (i, j) not in ((0, 1), (0, 3), (1, 2)): continue
        ba = ['', 'o', 'r'][(i * 3 + j) % 3]
        top = '<xs:complexType name="Origin">%s%s</xs:complexType>' % (b, at(ba, 'u'))
        put('ext', plain('<xs:complexContent><xs:extension base="Origin">%s%s</xs:extension></xs:complexContent>' % (x, at(a, 'v')), top))
for k, base in enumerate(['xs:int', 'xs:string', 'Word', 'Pick']):
    put('ext', plain('<xs:simpleContent><xs:extension base="%s">%s</xs:extension></xs:simpleContent>' % (base, at('ro', 'v')), '<xs:simpleType name="Word"><xs:restriction base="xs:int"/></xs:simpleType><xs:simpleType name="Pick"><xs:restriction base="xs:string"><xs:enumeration value="ay"/><xs:enumeration value="bz"/></xs:restriction></xs:simpleType>'))
put('ext', plain(S('<xs:element name="nm" type="Last" maxOccurs="unbounded"/>'), '<xs:complexType name="Last"><xs:complexContent><xs:extension base="Middle"><xs:sequence><xs:element name="cz" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="Middle"><xs:complexContent><xs:extension base="Origin"><xs:sequence><xs:element name="by" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="vv" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="Origin"><xs:sequence><xs:element name="ax" type="xs:int"/></xs:sequence><xs:attribute name="uu" type="xs:int"/></xs:complexType>'))
# xs:all
for i in range(8):
    put('all', plain('<xs:all>%s</xs:all>' % ''.join(E(n, OPT if (i >> k) & 1 else '', ['xs:string', 'xs:int', 'xs:decimal'][k % 3]) for k, n in enumerate(['ax', 'by', 'cz', 'dw'][:3 + i % 2]))))
put('all', plain(S('<xs:element name="ax" maxOccurs="unbounded"><xs:complexType><xs:all><xs:element name="by" type="xs:int"/><xs:element name="cz" minOccurs="0"><xs:complexType><xs:all><xs:element name="dw" type="xs:int"/><xs:element name="ev" type="xs:int"/></xs:all></xs:complexType></xs:element></xs:all></xs:complexType></xs:element>')))
put('all', plain('<xs:all><xs:element ref="ax"/><xs:element ref="by" minOccurs="0"/></xs:all><xs:attribute name="cz" type="xs:int"/>', '<xs:element name="ax" type="xs:int"/><xs:element name="by"><xs:complexType><xs:attribute name="dw" type="xs:string" use="required"/></xs:complexType></xs:element>'))
# names, in every place
NAMES = ['type_', '_type', '__', '_1', 'a__b', 'a-b', 'a--b', 'a.b.', 'aBC', 'ABC', 'AbC1d2', 'a1', 'fn', 'Self', 'self', 'crate', 'Option', 'val', 'node', 'ctx', 'writer', 'vec', 'value', 'name', 'base', 'Data', 'x\u00e9', '\u00c9t\u00e9', 'm\u00b7n', '\u65e5\u672c', 'x-', 'X.Y', 'aA', 'lookahead', 'data', 'string', 'int']
for n in NAMES:
    e = lambda o='': E(n, o, 'xs:int')
    w = lambda m, b: '<xs:element name="%s"><xs:complexType>%s</xs:complexType></xs:element>' % (m, b)
    put('name', plain(S(w('pk', S(e())), w('ql', S(e(OPT))), w('rm', S(e(STAR))), w('sn', C(e(), E('zz'))), w('to', S(C(e(MANY), E('zz')), E('yy'))), w('up', '<xs:attribute name="%s" type="xs:int"/>' % n), w('vq', '<xs:attribute name="%s" type="xs:int" use="required"/>' % n),
        w('wr', S(S(e(), E('zz'), o=OPT))), w('xs', '<xs:all>%s%s</xs:all>' % (e(), E('zz'))), w('zu', S('<xs:element name="%s"><xs:complexType><xs:attribute name="aa" type="xs:int"/></xs:complexType></xs:element>' % n)), w('yt', S('<xs:element name="%s" type="xs:string" fixed="q"/>' % n)))))
# enumerations whose values do not make distinct variant names
ENUMS = [['a', 'A', 'b', 'B'], ['1', '01', '+1', '-1', '1.0'], ['a-b', 'a_b', 'a b', 'ab', 'a.b', 'aB'], ['true', 'True', 'TRUE'], ['V1', '1', 'v1', 'v-1'], ['Variant1', '+', '-', 'Variant2', '*', 'variant1'], ['fn', 'Fn', 'self', 'Self', 'crate', 'super'],
    ['\u00e9', '\u00c9', 'e', '\u00df', 'ss'], ['m\u00b2', 'm\u00b3', 'm', '\u00b2'], ['AB', 'Ab', 'aB', 'ab'], ['x', 'x1', 'x2', 'X1'], ['a/b', 'a//b', '/', 'a'], ['&lt;', '&amp;', '&quot;', "'"], ['Ok', 'Err', 'None', 'Some'], ['one'], ['1', '2', '3'], ['a1b', 'a1B', 'A1b'], ['-', '_', '--', '__']]
for v in ENUMS:
    ty = '<xs:simpleType name="Pick"><xs:restriction base="xs:string">%s</xs:restriction></xs:simpleType>' % ''.join('<xs:enumeration value="%s"/>' % x for x in v)
    put('enum', plain(S(E('ax', t='Pick'), E('by', OPT, 'Pick'), E('cz', STAR, 'Pick'), C(E('dw', t='Pick'), E('ev', t='xs:int'))) + '<xs:attribute name="ko" type="Pick"/><xs:attribute name="lp" type="Pick" use="required"/>', ty))
    put('enum', plain('<xs:simpleContent><xs:extension base="Pick"><xs:attribute name="ko">%s</xs:attribute></xs:extension></xs:simpleContent>' % ty.replace(' name="Pick"', ''), ty))
# literal types, in every place
for t in ['string', 'boolean', 'integer', 'long', 'nonNegativeInteger', 'positiveInteger', 'int', 'decimal', 'float', 'time', 'date', 'dateTime', 'duration', 'base64Binary', 'hexBinary', 'anyType']:
    x = 'xs:' + t
    top = '<xs:simpleType name="Named"><xs:restriction base="%s"/></xs:simpleType><xs:complexType name="Sized"><xs:simpleContent><xs:extension base="%s"><xs:attribute name="ko" type="%s"/></xs:extension></xs:simpleContent></xs:complexType><xs:element name="zz" type="%s"/>' % (x, x, x, x)
    put('type', plain(S(E('ax', t=x), E('by', OPT, x), E('cz', STAR, x), C(E('dw', t=x), E('ev', MANY, x)), S(E('fu', t=x), E('gt', OPT, x), o=OPT), '<xs:element ref="zz"/>') + '<xs:attribute name="ko" type="%s"/><xs:attribute name="lp" type="%s" use="required"/>' % (x, x), top))
    put('type', plain(S(E('ax', t='Named'), E('by', OPT, 'Named'), E('cz', STAR, 'Named'), C(E('dw', t='Named'), E('ev', MANY, 'Named')), E('fu', t='Sized'), E('gt', STAR, 'Sized'), '<xs:element name="hs"><xs:simpleType><xs:restriction base="%s"/></xs:simpleType></xs:element>' % x) + '<xs:attribute name="ko" type="Named"/><xs:attribute name="lp" type="Named" use="required"/><xs:attribute name="mq"><xs:simpleType><xs:restriction base="%s"/></xs:simpleType></xs:attribute>' % x, top))
# anything, at random
for i in range(48):
    ns = [None, 'urn:t', 'urn:t'][i % 3]
    for s in range(1000):
        g = G(1000 * i + s, ns, i % 3 == 1); b = g.body(2)
        if 3 <= g.pts <= 7 and g.n <= 18: put('mix', g.out(b)); break
# several files: namespaces
def xf(body, a=''): return '<?xml version="1.0"?>\n<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s>\n  %s\n</xs:schema>\n' % (a, body)
def nsa(t, q, others): return (' targetNamespace="urn:%s"' % t if t else '') + (' elementFormDefault="qualified"' if q else '') + ''.join(' xmlns:%s="urn:%s"' % (o, o) for o in [t] + others if o)
def other(o, q, imp='', others=[], extra=''):
    p = o + ':'
    return xf(imp + '<xs:element name="%s1" type="xs:int"/><xs:element name="%s2" type="%sKind%s"/><xs:complexType name="Kind%s"><xs:sequence><xs:element name="%s3" type="xs:string" minOccurs="0"/>%s</xs:sequence><xs:attribute name="%s4" type="%sWord%s"/></xs:complexType><xs:simpleType name="Word%s"><xs:restriction base="xs:int"/></xs:simpleType>' % (o, o, p, o.upper(), o.upper(), o, extra, o, p, o.upper(), o.upper()), nsa(o, q, others))
USE = lambda o: ['<xs:element ref="%s:%s1"/>' % (o, o), '<xs:element name="l%s" type="%s:Kind%s" minOccurs="0"/>' % (o, o, o.upper()), '<xs:element ref="%s:%s2" minOccurs="0" maxOccurs="unbounded"/>' % (o, o), '<xs:choice minOccurs="0"><xs:element ref="%s:%s1"/><xs:element name="m%s" type="%s:Word%s"/></xs:choice>' % (o, o, o, o, o.upper())]
def main(t, q, os_, chain):
    imp = ''.join('<xs:import namespace="urn:%s" schemaLocation="@%d"/>' % (o, i + 1) for i, o in enumerate(os_) if not (chain and i))
    p = 't:' if t else ''
    b = S(*[u for i, o in enumerate(os_) for u in USE(o)[: 2 + (i + len(os_)) % 3]])
    ext = '<xs:complexType name="Wide"><xs:complexContent><xs:extension base="%s:Kind%s"><xs:sequence><xs:element name="ww" type="xs:int" minOccurs="0"/></xs:sequence><xs:attribute name="vv" type="%s:Word%s" use="required"/></xs:extension></xs:complexContent></xs:complexType>' % (os_[-1], os_[-1].upper(), os_[-1], os_[-1].upper())
    return xf(imp + '<xs:element name="r"><xs:complexType>%s</xs:complexType></xs:element>' % b.replace('</xs:sequence>', '<xs:element name="wide" type="%sWide" minOccurs="0"/></xs:sequence>' % p) + ext, nsa(t, q, os_))
for t, q in (('t', True), ('t', False), ('', False)):
    for k in (1, 2, 3):
        os_ = ['o', 'p', 'q'][:k]
        for oq in (True, False):
            put('ns', [main(t, q, os_, False)] + [other(o, oq) for o in os_])
    put('ns', [main(t, q, ['o', 'p'], True), other('o', True, '<xs:import namespace="urn:p" schemaLocation="@2"/>', ['p'], '<xs:element ref="p:p2"/>'), other('p', True)])
# several files: includes (one namespace)
D = ['<xs:element name="r" type="{p}Kind"/>', '<xs:complexType name="Kind"><xs:sequence><xs:element name="ax" type="{p}Word"/><xs:element ref="{p}by" minOccurs="0"/><xs:element name="cz" type="{p}Sub" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute name="dw" type="{p}Pick"/></xs:complexType>',
     '<xs:simpleType name="Word"><xs:restriction base="xs:int"/></xs:simpleType>', '<xs:element name="by" type="{p}Sub"/>', '<xs:complexType name="Sub"><xs:complexContent><xs:extension base="{p}Low"><xs:sequence><xs:element name="ev" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>',
     '<xs:complexType name="Low"><xs:sequence><xs:choice minOccurs="0"><xs:element name="fu" type="{p}Pick"/><xs:element name="gt" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>', '<xs:simpleType name="Pick"><xs:restriction base="xs:string"><xs:enumeration value="ay"/><xs:enumeration value="bz"/></xs:restriction></xs:simpleType>']
def split(parts, incs, t, q):
    p = 't:' if t else ''
    return [xf(''.join('<xs:include schemaLocation="@%d"/>' % j for j in inc) + ''.join(D[d].format(p=p) for d in ds), nsa(t, q, [])) for ds, inc in zip(parts, incs)]
for t, q in (('t', True), ('t', False), ('', False)):
    put('inc', split([[0, 1, 2, 3, 4, 5, 6]], [[]], t, q))
    put('inc', split([[0, 3], [1, 2, 4, 5, 6]], [[1], []], t, q))
    put('inc', split([[0], [1], [2, 3], [4, 5, 6]], [[1], [2], [3], []], t, q))
    put('inc', split([[0, 1], [2, 4], [3, 5], [6]], [[1, 2, 3], [3], [3], []], t, q))
    put('inc', split([[0, 5], [1, 3, 6], [2, 4]], [[1, 2], [0, 2], [1, 0]], t, q))
    put('inc', split([[0], [1, 3], [2, 4, 5, 6]], [[2, 1], [2], []], t, q))

os.makedirs(V + '/harness/schemas/grid', exist_ok=True); os.makedirs(V + '/harness/src/grid', exist_ok=True)
for d in ('/harness/schemas/grid', '/harness/src/grid'):
    for f in os.listdir(V + d): os.remove(V + d + '/' + f)
for f, ss in fam.items():
    o = '//! Written by tools/mkgrid.py.\n#![allow(dead_code)]\n#[rustfmt::skip]\npub mod m {\n'; c = ''
    for i, s in enumerate(ss):
        n = '%s%02d' % (f, i); s = s if isinstance(s, list) else [s]; fs = [n + ('' if not k else '_%d' % k) + '.xsd' for k in range(len(s))]
        for k, x in enumerate(s):
            for j, g in enumerate(fs): x = x.replace('"@%d"' % j, '"%s"' % g)
            open(V + '/harness/schemas/grid/' + fs[k], 'w').write(x)
        o += '    #[xsd::all(schema = "schemas/grid/%s")] pub mod %s {}\n' % (fs[0], n)
        c += '    case!("%s", m::%s::R, %s),\n' % (n, n, ', '.join('"../../schemas/grid/%s"' % g for g in fs))
    o += '}\npub static CASES: &[crate::gridfns::Case] = &[\n' + c + '];\nfamily!(%s);\n' % ', '.join('m::%s%02d::R' % (f, i) for i in range(len(ss)))
    open(V + '/harness/src/grid/%s.rs' % f, 'w').write(o)
    print(f, len(ss))
# every schema of the grid as text
o = '//! Written by tools/mkgrid.py: the schemas as text, one family after another.\n#![allow(dead_code)]\n'
for f, ss in fam.items():
    o += '#[rustfmt::skip]\npub static %s: &[(&str, &str)] = &[\n' % f.upper()
    for i, s in enumerate(ss): o += '    ("%s%02d", include_str!("../../schemas/grid/%s%02d.xsd")),\n' % (f, i, f, i)
    o += '];\n'
open(V + '/harness/src/grid/files.rs', 'w').write(o)
# the declarations of the inc family, one file each, for the checks that distribute them over files
os.makedirs(V + '/harness/schemas/split/sub', exist_ok=True)
o = '//! Written by tools/mkgrid.py: a schema as a list of declarations; each is also a file of schemas/split.\n#[rustfmt::skip]\npub static SPLIT: &[(&str, &str, &[&str])] = &[\n'
for k, (t, q) in enumerate((('t', True), ('t', False), ('', False), ('', True))):
    p = 't:' if t else ''; v = 'qunc'[k]
    ds = [d.format(p=p) for d in D]
    for i, d in enumerate(ds):
        open(V + '/harness/schemas/split/%s%d.xsd' % (v, i), 'w').write(xf(d, nsa(t, q, [])))
        # the same through a file in a subdirectory, and one that includes it back
        open(V + '/harness/schemas/split/sub/%s%d.xsd' % (v, i), 'w').write(xf('<xs:include schemaLocation="../%s%d.xsd"/>' % (v, i), nsa(t, q, [])))
        open(V + '/harness/schemas/split/sub/%sback%d.xsd' % (v, i), 'w').write(xf('<xs:include schemaLocation="%sback%d.xsd"/><xs:include schemaLocation="../sub/%s%d.xsd"/>' % (v, i, v, i), nsa(t, q, [])))
    if v != 'c': o += '    ("%s", %s, &[%s]),\n' % (v, 'r#"%s"#' % nsa(t, q, []), ', '.join('r#"%s"#' % d for d in ds))
o += '];\n'
open(V + '/harness/src/grid/split.rs', 'w').write(o)
# files that cannot be used
os.makedirs(V + '/harness/schemas/split/bad', exist_ok=True)
for n, x in (('syntax', b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element></xs:schema>'), ('empty', b''), ('latin', b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><!-- \xe9 --></xs:schema>'),
             ('unsupported', xf('<xs:group name="g"><xs:sequence/></xs:group>').encode()), ('root', b'<schema/>'), ('location', xf('<xs:include/>').encode()),
             ('deep', xf('<xs:include schemaLocation="missing2.xsd"/>').encode()), ('deeper', xf('<xs:include schemaLocation="../bad/deep.xsd"/>').encode()), ('indirect', xf('<xs:include schemaLocation="syntax.xsd"/>').encode())):
    open(V + '/harness/schemas/split/bad/%s.xsd' % n, 'wb').write(x)
