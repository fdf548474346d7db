#!/usr/bin/env python3
"""Writes contracts/30_codec.rs and contracts/codec.vc: the UCI layout of every
packet the emulator sends or interprets, as specification functions, and the
contracts of the PDL-generated encoders and decoders over them.

Run by hand when the specification of the codec changes (input: a packet
description in PDL).  The checks do not run it: the committed output is the
specification, and the code generated from /repo's current PDL is verified
against it.
"""
import re, sys

pdl = open(sys.argv[1]).read()
uci = open(sys.argv[2]).read()
outdir = sys.argv[3]

pdl = re.sub(r'//[^\n]*', '', pdl)
pdl = re.sub(r'/\*.*?\*/', '', pdl, flags=re.S)

SKIP = re.compile(r'DlTdoa|DlTDoA|Wgs84|RelativeLocation|OwrAoa|FrameReport|Rssi$|^Aoa|^Cir|RangeDiagnostics|ExtendedMac|ExtendedAddress')


def camel(s):
    return ''.join(w[:1].upper() + w[1:].lower() for w in s.split('_') if w)


class Enum:
    pass


class Pkt:
    pass


enums, pkts = {}, {}
order = []
for m in re.finditer(r'\b(enum|packet|struct)\s+(\w+)\s*(?::\s*(\w+)\s*(\([^)]*\))?)?\s*\{', pdl):
    kind, name, par, cons = m.groups()
    i, d = m.end(), 1
    while d:
        c = pdl[i]
        d += c == '{'
        d -= c == '}'
        i += 1
    body = pdl[m.end():i - 1]
    if kind == 'enum':
        e = Enum()
        e.name, e.width = name, int(par)
        e.vals = []  # (ident, value)
        e.ranges = []  # (ident, lo, hi)
        inner = []

        def sub(mm):
            inner.append(mm.group(1))
            return ''
        flat = re.sub(r'\{([^}]*)\}', sub, body)
        for t in flat.split(','):
            t = t.strip()
            if not t:
                continue
            n, v = [x.strip() for x in t.split('=')]
            if v == '..':
                e.ranges.append((camel(n), 0, (1 << e.width) - 1))
            elif '..' in v:
                a, b = v.split('..')
                e.ranges.append((camel(n), int(a, 0), int(b, 0)))
            else:
                e.vals.append((camel(n), int(v, 0)))
        for b in inner:
            for t in b.split(','):
                t = t.strip()
                if t:
                    n, v = [x.strip() for x in t.split('=')]
                    e.vals.append((camel(n), int(v, 0)))
        enums[name] = e
    else:
        p = Pkt()
        p.kind, p.name, p.parent = kind, name, par
        p.cons = {}
        if cons:
            for t in cons.strip('()').split(','):
                k, v = [x.strip() for x in t.split('=')]
                p.cons[k] = v
        p.fields = []
        for t in body.split(','):
            t = t.strip()
            if not t:
                continue
            if t in ('_payload_', '_body_'):
                p.fields.append(('payload', 'payload'))
                continue
            if t.startswith('_fixed_'):
                mm = re.match(r'_fixed_\s*=\s*(\w+)\s*:\s*(\d+)', t)
                p.fields.append(('fixed', int(mm.group(1), 0), int(mm.group(2))))
                continue
            n, v = [x.strip() for x in t.split(':', 1)]
            if n == '_reserved_':
                p.fields.append(('reserved', int(v)))
            elif n.startswith('_count_'):
                p.fields.append(('count', re.search(r'\((\w+)\)', n).group(1), int(v)))
            elif n.startswith('_size_'):
                p.fields.append(('size', re.search(r'\((\w+)\)', n).group(1), int(v)))
            else:
                mm = re.match(r'(\w+)\s*\[\s*(\d*)\s*\]$', v)
                if mm:
                    p.fields.append(('array', n, mm.group(1), mm.group(2)))
                elif v.split()[0].isdigit():
                    p.fields.append(('scalar', n, int(v.split()[0])))
                else:
                    p.fields.append(('type', n, v))
        pkts[name] = p
        order.append(name)

for e in enums.values():
    for n, _ in e.vals:
        assert re.search(r'%s::%s\b' % (e.name, n), uci), (e.name, n)

cov = [n for n in order if not SKIP.search(n)]


def width(p, f):
    k = f[0]
    if k == 'scalar':
        return f[2]
    if k == 'reserved':
        return f[1]
    if k in ('count', 'size'):
        return f[2]
    if k == 'fixed':
        return f[2]
    if k == 'type' and f[2] in enums:
        return enums[f[2]].width
    return None


def groups(p):
    """Fields grouped into bytes: ('bits', [(field, shift)], nbytes) or field."""
    out, cur, sh = [], [], 0
    for f in p.fields:
        w = width(p, f)
        if w is None:
            assert sh == 0, (p.name, f)
            out.append(f)
            continue
        if sh == 0 and w % 8 == 0:
            out.append(f)
            continue
        cur.append((f, sh, w))
        sh += w
        if sh % 8 == 0:
            out.append(('bits', cur, sh // 8))
            cur, sh = [], 0
    assert sh == 0
    return out


def root(p):
    while p.parent:
        p = pkts[p.parent]
    return p


def chain(p):
    c = []
    while p.parent:
        p = pkts[p.parent]
        c.append(p)
    return c


def is_bits(p):
    return any(g[0] == 'bits' for g in groups(p))


def ev(en, v):
    return '%s::%s' % (en, camel(v))


W = {8: 'u8le', 16: 'u16le', 32: 'u32le', 64: 'u64le'}
LE = {8: lambda b: '%s[0] as int' % b}

rs = []
vc = []
R = rs.append
V = vc.append

R('// Generated by tools/gencodec.py: the UCI layout of the packets, see there.')
R('pub mod codec {')
R('    use vstd::prelude::*;')
R('    use crate::packets::uci::*;')
R('    use crate::stubs::*;')
R('    use crate::stubs::pdl_runtime::Packet;')
R('    verus! {')
V('// Generated by tools/gencodec.py')
for e in enums.values():
    en = e.name
    R('    pub open spec fn code_%s(e: %s) -> u8 {' % (en, en))
    R('        match e {')
    for n, v in e.vals:
        R('            %s::%s => %d,' % (en, n, v))
    for n, a, b in e.ranges:
        R('            %s::%s(p) => p.0,' % (en, n))
    R('        }\n    }')
    R('    pub open spec fn of_%s(v: u8) -> Option<%s> {' % (en, en))
    s = ''
    for n, v in e.vals:
        s += '        if v == %d { Some(%s::%s) } else\n' % (v, en, n)
    for n, a, b in e.ranges:
        if (a, b) == (0, 255):
            s += '        if true { Some(%s::%s(Private(v))) } else\n' % (en, n)
        else:
            s += '        if %d <= v <= %d { Some(%s::%s(Private(v))) } else\n' % (a, b, en, n)
    R(s.rstrip() + ' { None }')
    R('    }')
    R('    /// %s: the numeric codes are inverse to one another.' % en)
    R('    pub proof fn lem_code_%s(v: u8, e: %s)' % (en, en))
    R('        ensures')
    R('            of_%s(v) matches Some(x) ==> code_%s(x) == v,' % (en, en))
    pv = ' || '.join('e is %s' % n for n, a, b in e.ranges)
    R('            %sof_%s(code_%s(e)) == Some(e),' % (('!(%s) ==> ' % pv) if pv else '', en, en))
    R('    {}')
    for src, bang in (('&' + en, '*'), (en, '')):
        V('@impl packets::uci::VFrom<%s> for u8' % src)
        V('open spec fn from_ens(v: %s, r: Self) -> bool { r == crate::codec::code_%s(%sv) }' % (src, en, bang))
    V('@impl packets::uci::VTryFrom<u8> for %s' % en)
    V('open spec fn try_from_ens(v: u8, r: core::result::Result<Self, Self::Error>) -> bool { r == (match crate::codec::of_%s(v) { Some(e) => core::result::Result::<%s, u8>::Ok(e), None => core::result::Result::<%s, u8>::Err(v) }) }' % (en, en, en))

cov_structs = [n for n in cov]


def arr_need(p, f):
    pass


def fexpr(p, name, v='p'):
    return '%s.%s' % (v, name)


def enc_of_field(p, g, v='p'):
    """Seq<u8> expression of one group."""
    k = g[0]
    if k == 'bits':
        t = []
        for f, sh, w in g[1]:
            if f[0] == 'reserved':
                continue
            if f[0] == 'fixed':
                x = '%du8' % f[1]
            elif f[0] == 'scalar':
                x = val(p, f[1], v)
            else:
                x = 'code_%s(%s)' % (f[2], val(p, f[1], v))
            t.append(x if sh == 0 else '(%s << %d)' % (x, sh))
        if g[2] == 1:
            return 'seq![(%s) as u8]' % ' | '.join(t)
        raise Exception(p.name)
    if k == 'scalar':
        if f_w(g) == 24:
            raise Exception('24')
        return '%s(%s)' % (W[g[2]], val(p, g[1], v))
    if k == 'reserved':
        return 'Seq::new(%d, |i: int| 0u8)' % (g[1] // 8)
    if k == 'type':
        if g[2] in enums:
            return 'seq![code_%s(%s)]' % (g[2], val(p, g[1], v))
        return 'enc_%s(%s)' % (g[2], val(p, g[1], v))
    if k == 'count':
        return 'seq![%s@.len() as u8]' % val(p, g[1], v)
    if k == 'size':
        return '%s(%s@.len() as u%d)' % (W[g[2]], val(p, g[1], v), g[2])
    if k == 'array':
        x = val(p, g[1], v)
        if g[2] == '8':
            return '%s@' % x
        if g[2] in enums:
            return 'codes_%s(%s@)' % (g[2], x)
        return 'cat_%s(%s@)' % (g[2], x)
    if k == 'payload':
        return '%s.payload@' % v
    raise Exception(k)


def f_w(g):
    return g[2]


def own(p):
    return [f[1] for f in p.fields if f[0] in ('scalar', 'type', 'array')]


def val(p, name, v='p'):
    return '%s.%s' % (v, name)


def size_conds(p, v='p'):
    """Conditions under which the encoder succeeds."""
    c = []
    for f in p.fields:
        if f[0] == 'size':
            c.append('%s.%s@.len() <= %d' % (v, f[1], (1 << f[2]) - 1))
        if f[0] == 'array' and f[2] in pkts:
            if encok_nontrivial(pkts[f[2]]):
                c.append('(forall|i: int| 0 <= i < %s.%s@.len() ==> encok_%s(#[trigger] %s.%s@[i]))' % (v, f[1], f[2], v, f[1]))
        if f[0] == 'type' and f[2] in pkts and encok_nontrivial(pkts[f[2]]):
            c.append('encok_%s(%s.%s)' % (f[2], v, f[1]))
        if f[0] == 'scalar' and f[2] % 8 != 0:
            c.append('%s.%s <= %d' % (v, f[1], (1 << f[2]) - 1))
    return c


def encok_nontrivial(p):
    return bool(size_conds(p))


def wf_conds(p, v='p'):
    """Conditions under which the encoding can be decoded again."""
    c = size_conds(p, v)
    for f in p.fields:
        if f[0] == 'count':
            c.append('%s.%s@.len() <= %d' % (v, f[1], (1 << f[2]) - 1))
        if f[0] == 'array' and f[2] in pkts:
            c.append('(forall|i: int| 0 <= i < %s.%s@.len() ==> wf_%s(#[trigger] %s.%s@[i]))' % (v, f[1], f[2], v, f[1]))
    return c


# ------------------------------------------------------ own-payload encoding
arr_enums, arr_structs = set(), set()
for n in cov:
    for f in pkts[n].fields:
        if f[0] == 'array':
            if f[2] in enums:
                arr_enums.add(f[2])
            elif f[2] in pkts:
                arr_structs.add(f[2])

for en in sorted(arr_enums):
    R('    pub open spec fn codes_%s(s: Seq<%s>) -> Seq<u8> { Seq::new(s.len(), |i: int| code_%s(s[i])) }' % (en, en, en))

for n in cov:
    p = pkts[n]
    gs = groups(p)
    R('    pub open spec fn encok_%s(p: %s) -> bool { %s }' % (n, n, ' && '.join(size_conds(p)) or 'true'))
    R('    pub open spec fn wf_%s(p: %s) -> bool { %s }' % (n, n, ' && '.join(wf_conds(p)) or 'true'))
    parts = [enc_of_field(p, g) for g in gs]
    # the fields before the (single) trailing array, and the whole
    R('    /// %s: the bytes of its own fields.' % n)
    R('    #[verifier::opaque]')
    R('    pub open spec fn encp_%s(p: %s) -> Seq<u8> { %s }' % (n, n, ' + '.join(parts) or 'Seq::empty()'))
    if n in arr_structs:
        R('    pub open spec fn cat_%s(s: Seq<%s>) -> Seq<u8> decreases s.len() {' % (n, n))
        R('        if s.len() == 0 { Seq::empty() } else { cat_%s(s.drop_last()) + encp_%s(s.last()) }' % (n, n))
        R('    }')
        R('    pub proof fn lem_cat_%s(s: Seq<%s>, i: int)' % (n, n))
        R('        requires 0 <= i < s.len(),')
        R('        ensures cat_%s(s.subrange(0, i + 1)) == cat_%s(s.subrange(0, i)) + encp_%s(s[i]),' % (n, n, n))
        R('    { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }')
        R('    pub proof fn lem_catpush_%s(s: Seq<%s>, x: %s)' % (n, n, n))
        R('        ensures cat_%s(s.push(x)) == cat_%s(s) + encp_%s(x),' % (n, n, n))
        R('    { assert(s.push(x).drop_last() =~= s); }')
    # struct fields use enc_S
    if p.kind == 'struct':
        R('    pub open spec fn enc_%s(p: %s) -> Seq<u8> { encp_%s(p) }' % (n, n, n))

# -------------------------------------------------------- full encoding
def cons_expr(p, field):
    """The value of a parent's field in a child."""
    q = p
    while q:
        if field in q.cons:
            for a in chain(q):
                for f in a.fields:
                    if f[0] == 'type' and f[1] == field:
                        return ev(f[2], q.cons[field])
        if field in own(q):
            return None
        q = pkts[q.parent] if q.parent else None
    raise Exception(field)


def header_seq(p, v='p'):
    """Bytes of the ancestors of p, with the constrained fields of p."""
    parts = []
    for a in reversed(chain(p)):
        for g in groups(a):
            if g[0] == 'payload':
                continue
            k = g[0]

            def fv(name, a=a):
                # constrained in p or in an ancestor between a and p?
                for q in [p] + chain(p):
                    if q is a:
                        break
                    if name in q.cons:
                        t = [f for f in a.fields if f[0] in ('type', 'scalar') and f[1] == name][0]
                        return ev(t[2], q.cons[name])
                return '%s.%s' % (v, name)
            if k == 'bits':
                t = []
                for f, sh, w in g[1]:
                    if f[0] == 'reserved':
                        continue
                    x = 'code_%s(%s)' % (f[2], fv(f[1])) if f[0] == 'type' else fv(f[1])
                    t.append(x if sh == 0 else '(%s << %d)' % (x, sh))
                parts.append('seq![(%s) as u8]' % ' | '.join(t))
            elif k == 'scalar':
                parts.append('%s(%s)' % (W[g[2]], fv(g[1])))
            elif k == 'reserved':
                parts.append('Seq::new(%d, |i: int| 0u8)' % (g[1] // 8))
            elif k == 'type':
                parts.append('seq![code_%s(%s)]' % (g[2], fv(g[1])))
            else:
                raise Exception((p.name, g))
    return parts


for n in cov:
    p = pkts[n]
    R('    /// %s: the whole packet.' % n)
    R('    #[verifier::opaque]')
    if p.parent:
        R('    pub open spec fn encf_%s(p: %s) -> Seq<u8> { %s + encp_%s(p) }' % (n, n, ' + '.join(header_seq(p)), n))
    else:
        R('    pub open spec fn encf_%s(p: %s) -> Seq<u8> { encp_%s(p) }' % (n, n, n))

# ---------------------------------------------------------------- decoding
# A field list without bit groups and without a reserved field can be decoded
# from its own bytes: val_P(b), with the prefix length for structs.
def decodable(p):
    for g in groups(p):
        if g[0] in ('bits', 'fixed', 'reserved'):
            return False
        if g[0] == 'array' and g[2] in pkts and not decodable(pkts[g[2]]):
            return False
        if g[0] == 'type' and g[2] in pkts and not decodable(pkts[g[2]]):
            return False
    return True


def u_of(w, b, o):
    if w == 8:
        return '%s[%s]' % (b, o)
    if w == 16:
        return 'le16(%s.subrange(%s, %s))' % (b, o, add(o, 2))
    raise Exception(w)


def val_spec(p):
    """(conditions, length expression, tail) over b; tail: the fields take the
    rest of b."""
    conds, off, rest = [], '0', False
    known = {}
    for g in groups(p):
        k = g[0]
        if k == 'scalar':
            off2 = add(off, g[2] // 8)
            conds.append('b.len() >= %s' % off2)
            off = off2
        elif k == 'type' and g[2] in enums:
            off2 = add(off, 1)
            conds.append('b.len() >= %s' % off2)
            conds.append('of_%s(b[%s]) is Some' % (g[2], off))
            off = off2
        elif k == 'type':
            q = pkts[g[2]]
            c, o, t = val_spec(q)
            assert not t and off == '0', p.name
            conds += c
            off = o
        elif k in ('count', 'size'):
            off2 = add(off, g[2] // 8)
            conds.append('b.len() >= %s' % off2)
            known[g[1]] = '(%s) as int' % u_of(g[2], 'b', off)
            off = off2
        elif k == 'array':
            if g[3]:
                off2 = add(off, int(g[3]))
                conds.append('b.len() >= %s' % off2)
                off = off2
            elif g[1] in known:
                cnt = known[g[1]]
                if g[2] == '8':
                    off2 = '%s + %s' % (off, cnt)
                    conds.append('b.len() >= %s' % off2)
                    off = off2
                elif g[2] in enums:
                    off2 = '%s + %s' % (off, cnt)
                    conds.append('b.len() >= %s' % off2)
                    conds.append('(forall|i: int| 0 <= i < %s ==> of_%s(#[trigger] b[%s + i]) is Some)' % (cnt, g[2], off))
                    off = off2
                else:
                    ls = 'lens_%s(%s, b.subrange(%s, b.len() as int))' % (g[2], cnt, off)
                    conds.append('%s >= 0' % ls)
                    off = '%s + %s' % (off, ls)
            else:
                assert g[2] == '8', p.name
                rest = True
        elif k == 'payload':
            rest = True
    return conds, off, rest


def add(off, n):
    if re.match(r'^\d+$', off):
        return str(int(off) + n)
    return '%s + %d' % (off, n)


dec = [n for n in cov if decodable(pkts[n])]
R('    // decoding')
for n in sorted(dec, key=lambda n: n not in arr_structs):
    p = pkts[n]
    c, o, t = val_spec(p)
    R('    /// b starts with the bytes of a %s.' % n)
    R('    pub open spec fn pre_%s(b: Seq<u8>) -> bool { %s }' % (n, ' && '.join(c) or 'true'))
    R('    pub open spec fn len_%s(b: Seq<u8>) -> int { %s }' % (n, 'b.len() as int' if t else o))
    R('    /// b is exactly the bytes of a %s.' % n)
    R('    pub open spec fn val_%s(b: Seq<u8>) -> bool { pre_%s(b)%s }' % (n, n, '' if t else ' && b.len() == len_%s(b)' % n))
    if n in arr_structs:
        R('    /// The number of bytes of n consecutive %s at the start of b, or -1.' % n)
        R('    pub open spec fn lens_%s(n: int, b: Seq<u8>) -> int decreases n {' % n)
        R('        if n <= 0 { 0 } else if !pre_%s(b) { -1 } else {' % n)
        R('            let t = lens_%s(n - 1, b.subrange(len_%s(b), b.len() as int));' % (n, n))
        R('            if t < 0 { -1 } else { len_%s(b) + t }' % n)
        R('        }\n    }')

# ------------------------------------------------------------- contracts
C = 'crate::codec::'


def fieldtags():
    return 'E01'


def loop_contract(p, selfv='self'):
    """encode loops: one per array of dynamic size encoded element-wise."""
    out = []
    ln = 0
    prefix = []
    for g in groups(p):
        if g[0] == 'array':
            ln += 1
            x = '%s.%s' % (selfv, g[1])
            base = 'old(buf)@%s' % ''.join(' + ' + t for t in prefix)
            out.append('@loop %d' % ln)
            if g[2] == '8':
                out.append('@inv buf@ == %s + %s@.subrange(0, $I as int)' % (base, x))
                out.append('@loopend proof { assert(%s@.subrange(0, $I as int) == %s@.subrange(0, $I - 1).push(%s@[$I - 1])); }' % (x, x, x))
            elif g[2] in enums:
                out.append('@inv buf@ == %s + %scodes_%s(%s@).subrange(0, $I as int)' % (base, C, g[2], x))
                out.append('@loopend proof { assert(%scodes_%s(%s@).subrange(0, $I as int) == %scodes_%s(%s@).subrange(0, $I - 1).push(%scode_%s(%s@[$I - 1]))); }' % (C, g[2], x, C, g[2], x, C, g[2], x))
            else:
                ok = encok_nontrivial(pkts[g[2]])
                if ok:
                    out.append('@inv (forall|j: int| 0 <= j < $I ==> %sencok_%s(#[trigger] %s@[j]))' % (C, g[2], x))
                out.append('@inv buf@ == %s + %scat_%s(%s@.subrange(0, $I as int))' % (base, C, g[2], x))
                out.append('@loopend proof { %slem_cat_%s(%s@, $I - 1); }' % (C, g[2], x))
            if g[2] == '8':
                fullx = '%s@.subrange(0, %s@.len() as int) == %s@' % (x, x, x)
                out.append(('final', fullx))
            elif g[2] in enums:
                out.append(('final', '%scodes_%s(%s@).subrange(0, %s@.len() as int) == %scodes_%s(%s@)' % (C, g[2], x, x, C, g[2], x)))
            else:
                out.append(('final', '%s@.subrange(0, %s@.len() as int) == %s@' % (x, x, x)))
        prefix.append(rw(enc_of_field(p, g, selfv)))
    fin = [o for o in out if isinstance(o, tuple)]
    return [o for o in out if not isinstance(o, tuple)], [f[1] for f in fin]


rw = lambda s: re.sub(r'(?<![\w:])(u8le|u16le|u32le|u64le|le16)\b', r'crate::stubs::\1', re.sub(r'(?<![\w:])(code_|codes_|cat_|enc_|encp_|encf_|encok_|wf_|val_|pre_|len_|lens_|rel_|of_)', C + r'\1', s))


def emit_encode(n, fn):
    p = pkts[n]
    loops, fin = loop_contract(p)
    V('@fn packets::uci::%s' % fn)
    if fn.endswith('encode_partial'):
        V('@ens E01: (r is Ok) == %sencok_%s(*self)' % (C, n))
        V('@ens E01: r is Ok ==> final(buf)@ == old(buf)@ + %sencp_%s(*self)' % (C, n))
    V('@start')
    V('proof { reveal(%sencp_%s); reveal(%sencf_%s); %s }' % (C, n, C, n, ' '.join('assert(%s);' % f for f in fin)))
    for l in loops:
        V(l)


def rel_fields(p, b, pv, base=0):
    """Decoding relation of a packet with bit groups, field by field."""
    c = []
    off = base
    for g in groups(p):
        if g[0] == 'bits':
            for f, sh, w in g[1]:
                bb = '%s[%d]' % (b, off)
                x = '(%s >> %d) & %d' % (bb, sh, (1 << w) - 1) if sh else '%s & %d' % (bb, (1 << w) - 1)
                if sh and sh + w == 8 and False:
                    x = '%s >> %d' % (bb, sh)
                if f[0] == 'type':
                    c.append(('of_%s((%s) as u8)' % (f[2], x), f[1], f[2]))
                elif f[0] == 'scalar':
                    c.append(('(%s) as u8' % x, f[1], None))
            off += g[2]
        elif g[0] == 'reserved':
            off += g[1] // 8
        elif g[0] == 'scalar':
            c.append(('LE%d' % g[2], g[1], off))
            off += g[2] // 8
        elif g[0] == 'payload':
            c.append(('PAYLOAD', off, None))
        else:
            raise Exception((p.name, g))
    return c, off


# packets with bit groups: relation and validity
for n in cov:
    p = pkts[n]
    if not is_bits(p) or p.kind == 'struct':
        continue
    c, off = rel_fields(p, 'b', 'p')
    a = ['b.len() >= %d' % off]
    v = ['b.len() >= %d' % off]
    pl = False
    for x, f, t in c:
        if x == 'PAYLOAD':
            a.append('p.payload@ == b.subrange(%d, b.len() as int)' % f)
            pl = True
        elif x == 'LE16':
            a.append('u16le(p.%s) == b.subrange(%d, %d)' % (f, t, t + 2))
        elif x == 'LE8':
            a.append('p.%s == b[%d]' % (f, t))
        elif x.startswith('LE'):
            raise Exception(x)
        elif t:
            a.append('%s == Some(p.%s)' % (x, f))
            v.append('%s is Some' % x)
        else:
            a.append('p.%s == %s' % (f, x))
    R('    /// p is what the bytes b mean.')
    R('    pub open spec fn rel_%s(b: Seq<u8>, p: %s) -> bool { %s }' % (n, n, ' && '.join(a)))
    R('    pub open spec fn val_%s(b: Seq<u8>) -> bool { %s }' % (n, ' && '.join(v)))
    R('    pub open spec fn hlen_%s() -> int { %d }' % (n, off))


# Packet impls
for n in cov:
    p = pkts[n]
    V('@impl packets::uci::Packet for %s' % n)
    V('open spec fn enc_ok(&self) -> bool { %sencok_%s(*self) }' % (C, n))
    V('open spec fn enc(&self) -> Seq<u8> { %sencf_%s(*self) }' % (C, n))
    if not p.parent and n in dec:
        V('open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {')
        V('    %spre_%s(b) && %swf_%s(p) && 0 <= %slen_%s(b) <= b.len() && rest == b.subrange(%slen_%s(b), b.len() as int) && %sencp_%s(p) == b.subrange(0, %slen_%s(b))' % (C, n, C, n, C, n, C, n, C, n, C, n))
        V('}')
        V('open spec fn dec_bad(b: Seq<u8>) -> bool { !%spre_%s(b) }' % (C, n))
    elif not p.parent and is_bits(p) and p.kind == 'packet':
        pl = any(g[0] == 'payload' for g in groups(p))
        V('open spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool {')
        V('    %srel_%s(b, p) && rest == %s' % (C, n, 'Seq::<u8>::empty()' if pl else 'b.subrange(%d, b.len() as int)' % rel_fields(p, 'b', 'p')[1]))
        V('}')
        V('open spec fn dec_bad(b: Seq<u8>) -> bool { !%sval_%s(b) }' % (C, n))
    else:
        V('uninterp spec fn dec_ok(b: Seq<u8>, p: Self, rest: Seq<u8>) -> bool;')
        V('uninterp spec fn dec_bad(b: Seq<u8>) -> bool;')

for n in cov:
    p = pkts[n]
    # encoders
    if p.parent:
        emit_encode(n, '%s::encode_partial' % n)
        V('@fn packets::uci::Packet for %s::encode' % n)
        V('@start')
        V('proof { reveal(%sencf_%s); }' % (C, n))
    elif any(f[0] == 'payload' for f in p.fields):
        emit_encode(n, '%s::encode_partial' % n) if re.search(r'impl %s \{[^}]*encode_partial' % n, uci) else None
        emit_encode(n, 'Packet for %s::encode' % n)
    else:
        emit_encode(n, 'Packet for %s::encode' % n)

# conversions child -> ancestor
for n in cov:
    p = pkts[n]
    ch = chain(p)
    for a in ch:
        for src, d in (('&' + n, '*v'), (n, 'v')):
            V('@impl packets::uci::VTryFrom<%s> for %s' % (src, a.name))
            cs = ['(r is Ok) == %sencok_%s(%s)' % (C, n, d)]
            oks = ['%sencf_%s(x) == %sencf_%s(%s)' % (C, a.name, C, n, d), '%swf_%s(%s) ==> %swf_%s(x)' % (C, n, d, C, a.name)]
            # fields of a
            for f in a.fields:
                if f[0] in ('type', 'scalar'):
                    ex = None
                    for q in [p] + ch:
                        if q is a:
                            break
                        if f[1] in q.cons:
                            ex = ev(f[2], q.cons[f[1]])
                            break
                        if f[1] in own(q):
                            break
                    oks.append('x.%s == %s' % (f[1], ex if ex else '%s.%s' % ('v', f[1])))
            # the ancestor's constrained and inherited fields that remain
            for q in chain(a):
                for f in q.fields:
                    if f[0] in ('type', 'scalar') and f[1] not in a.cons and not any(f[1] in z.cons for z in chain(a)):
                        # field of q visible in a
                        ex = None
                        for z in [p] + ch:
                            if z is a:
                                break
                            if f[1] in z.cons:
                                ex = ev(f[2], z.cons[f[1]])
                                break
                        oks.append('x.%s == %s' % (f[1], ex if ex else 'v.%s' % f[1]))
            # payload of a: headers between a and p
            hp = []
            for q in reversed([z for z in ch if a in chain(z)]):
                for g in groups(q):
                    if g[0] == 'payload':
                        continue

                    def fv(name, q=q):
                        for z in [p] + ch:
                            if z is q:
                                break
                            if name in z.cons:
                                t = [f for f in q.fields if f[0] in ('type', 'scalar') and f[1] == name][0]
                                return ev(t[2], z.cons[name])
                        return 'v.%s' % name
                    if g[0] == 'bits':
                        t = []
                        for f, sh, w in g[1]:
                            if f[0] == 'reserved':
                                continue
                            x = 'code_%s(%s)' % (f[2], fv(f[1])) if f[0] == 'type' else fv(f[1])
                            t.append(x if sh == 0 else '(%s << %d)' % (x, sh))
                        hp.append('seq![(%s) as u8]' % ' | '.join(t))
                    elif g[0] == 'scalar':
                        hp.append('%s(%s)' % (W[g[2]], fv(g[1])))
                    elif g[0] == 'reserved':
                        hp.append('Seq::new(%d, |i: int| 0u8)' % (g[1] // 8))
                    elif g[0] == 'type':
                        hp.append('seq![code_%s(%s)]' % (g[2], fv(g[1])))
            oks.append('x.payload@ == %s' % ' + '.join([rw(h) for h in hp] + ['%sencp_%s(%s)' % (C, n, d)]))
            if a.name == 'ControlPacket' and p.name not in ('CorePacket', 'SessionConfigPacket', 'SessionControlPacket', 'AndroidPacket'):
                k = ch[-2]
                of = [f for f in k.fields if f[0] == 'type'][0]
                oks.append('x.payload@.len() >= 3 && x.payload@[0] == %d && x.payload@[1] == 0 && x.payload@[2] == 0' % dict(enums[of[2]].vals)[camel(next(z.cons['oid'] for z in [p] + ch if 'oid' in z.cons))])
            V('open spec fn try_from_ens(v: %s, r: core::result::Result<Self, Self::Error>) -> bool {' % src)
            V('    %s' % cs[0])
            for o in oks:
                V('    && (r matches Ok(x) ==> (%s))' % o)
            V('}')
            if src[0] == '&':
                V('@fn packets::uci::VTryFrom<&%s> for %s::try_from' % (n, a.name))
                V('@start')
                V('proof { reveal(%sencf_%s); reveal(%sencf_%s); reveal(%sencp_%s); %s }' % (C, n, C, a.name, C, a.name, ' '.join('reveal(%sencp_%s); reveal(%sencf_%s);' % (C, z.name, C, z.name) for z in ch if z is not a)))

# decoders
def cons_conds(p, pv='parent'):
    out = []
    for f, v in p.cons.items():
        for a in chain(p):
            for g in a.fields:
                if g[0] == 'type' and g[1] == f:
                    out.append('%s.%s == %s' % (pv, f, ev(g[2], v)))
    return out


for n in cov:
    p = pkts[n]
    if not p.parent or n not in dec and not is_bits(p):
        continue
    par = p.parent
    if is_bits(p):
        okc = '%srel_%s(parent.payload@, x)' % (C, n)
        valc = '%sval_%s(parent.payload@)' % (C, n)
    else:
        okc = '%sencp_%s(x) == parent.payload@ && %swf_%s(x)' % (C, n, C, n)
        valc = '%sval_%s(parent.payload@)' % (C, n)
    # inherited fields
    inh = []
    for a in chain(p):
        for f in a.fields:
            if f[0] in ('type', 'scalar') and not any(f[1] in z.cons for z in [p] + chain(p)):
                inh.append('x.%s == parent.%s' % (f[1], f[1]))
    cc = cons_conds(p)
    bad = ' && '.join(cc + [valc])
    ok = ' && '.join([okc] + inh)
    for src, d in (('&' + par, 'v'), (par, 'v')):
        V('@impl packets::uci::VTryFrom<%s> for %s' % (src, n))
        V('open spec fn try_from_ens(v: %s, r: core::result::Result<Self, Self::Error>) -> bool {' % src)
        V('    ((r is Ok) == (%s))' % bad.replace('parent', 'v'))
        V('    && (r matches Ok(x) ==> (%s))' % ok.replace('parent', 'v'))
        V('}')
    V('@fn packets::uci::%s::decode_partial' % n)
    V('@ens E01: (r is Ok) == (%s)' % bad)
    V('@ens E01: r matches Ok(x) ==> (%s)' % ok)
    V('@start')
    V('proof { reveal(%sencp_%s); }' % (C, n))


def decode_loops(n, b0):
    """Contracts of the array loops of a decoder over the bytes b0."""
    p = pkts[n]
    off, ln = '0', 0
    known = {}
    sized = set()
    out = []
    for g in groups(p):
        k = g[0]
        if k in ('count', 'size'):
            known[g[1]] = rw('(%s) as int' % u_of(g[2], b0, off))
            sized.add(g[1]) if k == 'size' else None
            off = add(off, g[2] // 8)
        elif k == 'scalar':
            off = add(off, g[2] // 8)
        elif k == 'type' and g[2] in enums:
            off = add(off, 1)
        elif k == 'type':
            off = add(off, sum(width(pkts[g[2]], f) for f in pkts[g[2]].fields) // 8)
        elif k == 'array':
            if g[3]:
                ln += 1
                out.append('@loop %d' % ln)
                out.append('@inv %s@.len() == $I && %s.len() >= %s + %s && buf@ == %s.subrange(%s + $I, %s.len() as int)' % (g[1], b0, off, g[3], b0, off, b0))
                out.append('@inv %s@ == %s.subrange(%s, %s + $I)' % (g[1], b0, off, off))
                off = add(off, int(g[3]))
                continue
            if g[1] not in known:
                break
            cnt = known[g[1]]
            ln += 1
            out.append('@loop %d' % ln)
            if g[2] == '8':
                v = g[1] if g[1] in sized else 'vx_out'
                bad = '' if g[1] in sized else ' && vx_bad is None'
                out.append('@inv $N == %s && $I <= $N && %s@.len() == $I%s && %s.len() >= %s + $N && buf@ == %s.subrange(%s + $I, %s.len() as int)' % (cnt, v, bad, b0, off, b0, off, b0))
                out.append('@inv %s@ == %s.subrange(%s, %s + $I)' % (v, b0, off, off))
                off = '%s + %s' % (off, cnt)
            elif g[2] in enums:
                out.append('@inv $N == %s && $I <= $N && %s.len() >= %s + $N' % (cnt, b0, off))
                out.append('@inv vx_bad is None ==> vx_out@.len() == $I && buf@ == %s.subrange(%s + $I, %s.len() as int)' % (b0, off, b0))
                out.append('@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> %sof_%s(#[trigger] %s[%s + j]) == Some(vx_out@[j]))' % (C, g[2], b0, off))
                out.append('@inv vx_bad is Some ==> 0 < $I && %sof_%s(%s[%s + $I - 1]) is None' % (C, g[2], b0, off))
                off = '%s + %s' % (off, cnt)
            else:
                s = g[2]
                out.append('@inv $N == %s && $I <= $N && %s.len() >= %s' % (cnt, b0, off))
                out.append('@inv vx_bad is None ==> vx_out@.len() == $I && buf@.len() <= %s.len() - (%s)' % (b0, off))
                out.append('@inv vx_bad is None ==> %s.subrange(%s, %s.len() as int) == %scat_%s(vx_out@) + buf@' % (b0, off, b0, C, s))
                out.append('@inv vx_bad is None ==> (forall|j: int| 0 <= j < $I ==> %swf_%s(#[trigger] vx_out@[j]))' % (C, s))
                out.append('@inv vx_bad is None ==> %slens_%s(%s, %s.subrange(%s, %s.len() as int)) == (if %slens_%s(%s - $I, buf@) < 0 { -1int } else { %s.len() - (%s) - buf@.len() + %slens_%s(%s - $I, buf@) })' % (C, s, cnt, b0, off, b0, C, s, cnt, b0, off, C, s, cnt))
                out.append('@inv vx_bad is Some ==> %slens_%s(%s, %s.subrange(%s, %s.len() as int)) < 0' % (C, s, cnt, b0, off, b0))
                out.append('@loopstart let ghost vx_gv = vx_out@;')
                out.append('@loopend proof { if vx_bad is None { %slem_catpush_%s(vx_gv, vx_out@[$I - 1]); assert(vx_out@ == vx_gv.push(vx_out@[$I - 1])); } }' % (C, s))
                off = '%s + %slens_%s(%s, %s.subrange(%s, %s.len() as int))' % (off, C, s, cnt, b0, off, b0)
    return out


for n in dec:
    p = pkts[n]
    if p.parent:
        fn, b0 = '%s::decode_partial' % n, 'parent.payload@'
    else:
        fn, b0 = 'Packet for %s::decode' % n, 'vx_b@'
    V('@fn packets::uci::%s' % fn)
    if not p.parent:
        V('@start')
        V('let ghost vx_b = buf; proof { reveal(%sencp_%s); }' % (C, n))
    for l in decode_loops(n, b0):
        V(l)

# specialize
for n in cov:
    p = pkts[n]
    kids = [k for k in order if pkts[k].parent == n]
    if not kids or n == 'SessionInfoNtf':
        continue
    V('@fn packets::uci::%s::specialize' % n)
    V('@ens DET: r == %sspec_specialize_%s(*self)' % (C, n))
    R('    /// The result of %s::specialize, a pure function of the packet.' % n)
    R('    pub uninterp spec fn spec_specialize_%s(p: %s) -> core::result::Result<%sChild, crate::stubs::pdl_runtime::DecodeError>;' % (n, n, n))
    alls = []
    seen = set()
    nones = []
    for k in kids:
        q = pkts[k]
        cc = cons_conds(q, 'self')
        key = tuple(cc)
        if key in seen:
            continue
        seen.add(key)
        nones.append('(%s)' % ' && '.join(cc))
        if k in dec or (k in cov and is_bits(q)):
            if is_bits(q):
                okc = '%srel_%s(self.payload@, x)' % (C, k)
            else:
                okc = '%sencp_%s(x) == self.payload@ && %swf_%s(x)' % (C, k, C, k)
            inh = []
            for a in chain(q):
                for f in a.fields:
                    if f[0] in ('type', 'scalar') and not any(f[1] in z.cons for z in [q] + chain(q)):
                        inh.append('x.%s == self.%s' % (f[1], f[1]))
            V('@ens E01: (%s) ==> ((r is Ok) == %sval_%s(self.payload@))' % (' && '.join(cc), C, k))
            V('@ens E01: (%s) ==> (r matches Ok(c) ==> (c matches %sChild::%s(x) && %s))' % (' && '.join(cc), n, k, ' && '.join([okc] + inh)))
    V('@ens E01: (!(%s)) ==> (r matches Ok(c) && c is None)' % ' || '.join(nones))
    # what a child implies
    for k in kids:
        q = pkts[k]
        cc = cons_conds(q, 'self')
        V('@ens E01: (r matches Ok(c) && c is %s) ==> (%s)' % (k, ' && '.join(cc)))

# what the specialized command says about itself
R('    } // verus!')
R('}')
unc = [n for n in order if n not in cov]
for n in unc:
    V('@trust packets::uci::%s::*' % n)
    V('@trust packets::uci::* for %s::*' % n)
    V('@trust packets::uci::*%s> for *' % n)
open(outdir + '/30_codec.rs', 'w').write('\n'.join(rs) + '\n')
open(outdir + '/codec.vc', 'w').write('\n'.join(vc) + '\n')
print(len(cov), 'packets covered,', len(unc), 'not covered:', ' '.join(unc))
print(len(dec), 'decodable')
