"""Decoding of families of inputs described by the specification (not by the writers).

Every family is one abstract input: a frame whose fields are free within the family. The outcome of
v4::read / v5::read over the whole family is compared with what MQTT prescribes.
"""
import time
from dom import *
import dom
import eng as E
from eng import Engine, State
import codec
import models
import spec
from spec import Tok, byte, be, raw, vi, opt
from jobs import guarded, prog, LIMIT, READS, leaves
from codec import PTYPE, field_of, variant, infeasible


class Val:
    """an arbitrary representable value of a packet type; `present`: the only properties it has"""
    def __init__(self, v, ty, case=(), present=None, base=('properties',), pre=True):
        dom.reset()
        dom.LENB = codec.short_fields
        self.p = p = prog()
        self.v, self.ty = v, ty
        self.eng = e = Engine(p)
        e.deadline = time.time() + LIMIT
        i = codec.find_writer(p, v, ty)
        self.self = ('opq', 'self', p.tys[p.insts[i]['sig_in'][0]]['to'])
        self.st = State()
        self.pc = codec.precondition(e, self.st, self.self, v, ty) if pre else T
        for path, name in case:
            self.pc = AND(self.pc, variant(e, field_of(e, self.st, self.self, *path), name))
        if present is not None:
            key = 'Will' if base[0] == 'last_will' else ty
            for n, _, wt in spec.PROPS[key]:
                x = field_of(e, self.st, self.self, *(base + ('Some', n)))
                if x[0] == 'e':
                    g = variant(e, x, 'Some')
                    self.pc = AND(self.pc, g if n in present else NOT(g))
                else:
                    g = GE(models.seqlen(e, x[1]), 1)
                    self.pc = AND(self.pc, g if n in present else NOT(g))
        self.img = spec.Img(e, self.st, self.self, v, ty)
        self.label = '%s::%s' % (v, ty)

    def image(self, order=1):
        self.img.order = order
        return self.img.image(self.pc)


def tosegs(eng, toks, pc):
    out = []
    for t in toks:
        if t.k == 'byte':
            out.append(('b', t.a if t.a[1] is not None else ibits(as_bits(t.a, 8))))
        elif t.k == 'be':
            out.append(('be', t.a, t.b))
        elif t.k == 'raw':
            out += list(t.a)
        elif t.k == 'vi':
            out += vibytes(t.a, pc)
        elif t.k == 'opt':
            if IMPL(pc, t.a):
                out += tosegs(eng, t.b, pc)
            elif AND(pc, t.a) != F:
                out.append(('alt', t.a, tuple(tosegs(eng, t.b, AND(pc, t.a)))))
        elif t.k == 'each':
            out.append(('each', t.a, tuple(tosegs(eng, t.b, pc))))
        elif t.k == 'props':
            out += tosegs(eng, t.a, pc)
        else:
            raise AssertionError(t.k)
    return out


def vibytes(p, pc):
    p = psimp(p, pc)
    c = p.const()
    if c is not None:
        bs = []
        while True:
            b = c & 127
            c >>= 7
            bs.append(('b', iconst(b | (128 if c else 0))))
            if not c:
                return bs
    out = []
    # nested: first byte, then more while larger
    def bt(i, q):
        more = GE(p, 1 << (7 * (i + 1))) if i < 3 else F
        low = as_bits(ipoly(field(p, 7 * i, 7)), 8)[:7]
        one, two = ('b', ibits(low + (F,))), ('b', ibits(low + (T,)))
        if AND(q, more) == F or codec.refutes(AND(q, more)):
            return [one]
        if IMPL(q, more):
            return [two] + bt(i + 1, q)
        return [('alt', NOT(more), (one,)), ('alt', more, tuple([two] + bt(i + 1, AND(q, more))))]
    return bt(0, pc)


def frame(eng, header, body, pc):
    n = psimp(spec.toklen(eng, body, pc), pc)
    return [header, vi('remaining length', n)] + list(body), AND(pc, NOT(GE(n, 268435456)))


def decode(V, toks, pc, tail=True):
    """outcomes of the version's read: (state, 'Ok'|error name, packet variant, fields)"""
    e = V.eng
    segs = tuple(tosegs(e, toks, pc))
    t = (('sl', 'tail', P(0), psym(('len', 'tail'))),) if tail else ()
    st = State(pc)
    st.mem[('st', 0)] = ('seq', segs + t)
    V.tail = t
    out = []
    for q, res in e.call_inst(st, V.p.byname[READS[V.v]], [('ref', ('st', 0), ()), ipoly(P(1 << 30))], 'feed', 0):
        res = e.force1(res)
        for i, g, f in e.ecases(q, res):
            s = q.assume(g)
            if s.pc == F or infeasible(s.pc):
                continue
            nm = e.T[res[1]]['variants'][i]['name']
            if nm == 'Ok':
                pk = e.force1(f[0])
                for i2, g2, f2 in e.ecases(s, pk):
                    s2 = s.assume(g2)
                    if s2.pc != F and not infeasible(s2.pc):
                        out.append((s2, 'Ok', e.T[pk[1]]['variants'][i2]['name'], f2))
            else:
                er = e.force1(f[0])
                for i2, g2, f2 in e.ecases(s, er):
                    s2 = s.assume(g2)
                    if s2.pc != F and not infeasible(s2.pc):
                        out.append((s2, e.T[er[1]]['variants'][i2]['name'], None, f2))
    return out


def finish(r, V):
    r.absorb(V.eng)
    for o in V.eng.obls:
        if not o.ok:
            r.add('decode-panic', False, '%s|%s|%s' % (o.fn, o.kind, o.what), o.what, o.fn, o.line, o.stack)
    if V.eng.unmodelled:
        r.undecided.append('calls outside the model: ' + ', '.join(sorted({n for n, _ in V.eng.unmodelled})[:4]))


def check_value(r, V, outs, tag, key, want=None, skip=()):
    """every outcome is the packet itself, with the rest left in the stream"""
    e = V.eng
    rd = READS[V.v]
    n = 0
    for s, nm, vn, f in outs:
        n += 1
        if nm != 'Ok':
            r.add(tag, False, key, 'valid packet rejected with %s' % nm, rd)
            continue
        if vn != V.ty:
            r.add(tag, False, key, 'decoded as %s' % vn, rd)
            continue
        rest = e.force1(s.mem[('st', 0)])
        r.add(tag, rest[0] == 'seq' and codec.segs_equal(e, rest[1], V.tail, s.pc), key + '|rest',
              'the frame is not consumed exactly', rd)
        if f:
            for path, a, b in codec.mismatch(e, f[0], want or V.self, s.pc):
                ps = codec.show_path(e, path)
                if any(ps.startswith(x) for x in skip):
                    continue
                t = tag + '-props' if 'properties' in ps else tag
                r.add(t, False, '%s|%s' % (key, ps), 'field %s is not what the packet carries' % ps, rd)
            for path in leaves(e, V.self):
                r.add(tag + '-props' if 'properties' in path else tag, True, '%s|%s' % (key, path), '')
    r.add(tag, n > 0, key, 'no outcome', rd)


def reject(r, V, toks, pc, tag, key, what, ok=()):
    """no member of the family is accepted"""
    e = V.eng
    n = 0
    if infeasible(pc):
        return
    for s, nm, vn, f in decode(V, toks, pc):
        n += 1
        r.add(tag, nm != 'Ok', key, what, READS[V.v])
    r.add(tag, n > 0, key, 'no outcome', READS[V.v])


# ------------------------------------------------------------------ the specified image decodes to the value
@guarded
def accept(r, v, ty, case, order):
    V = Val(v, ty, case)
    for g, toks in V.image(order):
        pc = AND(V.pc, g, NOT(GE(toks[1].a, 268435456)))
        if infeasible(pc):
            continue
        check_value(r, V, decode(V, toks, pc), 'accept', V.label)
    finish(r, V)


def free_byte(name):
    s = ('v', name)
    BOUNDS[s] = (0, 255)
    return [B.atom(('bit', psym(s), i)) for i in range(8)]


def bits_are(bits, k, lo=0, n=8):
    g = T
    for i in range(n):
        g = AND(g, bits[lo + i] if (k >> i) & 1 else NOT(bits[lo + i]))
    return g


def replace(toks, label, new):
    out = []
    hit = 0
    for t in toks:
        if t.k == 'opt':
            b, h = replace(t.b, label, new)
            hit += h
            out.append(Tok('opt', t.label, t.a, b))
        elif t.label == label:
            out += new if isinstance(new, list) else [new]
            hit += 1
        else:
            out.append(t)
    return out, hit


# ------------------------------------------------------------------ tables of codes
CODEF = {'ConnAck': ('code',), 'PubAck': ('reason',), 'PubRec': ('reason',), 'PubRel': ('reason',),
         'PubComp': ('reason',), 'Disconnect': ('reason_code',)}


def code_inputs(V):
    """(label, tokens, bits) of frames with a free code"""
    e, v, ty = V.eng, V.v, V.ty
    bits = free_byte('code')
    c = byte('code', ibits(bits))
    h = byte('fixed header byte', spec.HEADER[ty])
    pk = be('packet identifier', psym(('v', 'self.pkid')), 2)
    BOUNDS[('v', 'self.pkid')] = (0, 65535)
    zero = vi('property length', P(0))
    if ty == 'ConnAck':
        sp = byte('flags', ibits([B.atom(('bit', psym(('v', 'sp')), 0))] + [F] * 7))
        BOUNDS[('v', 'sp')] = (0, 1)
        yield 'code', h, [sp, c] + ([zero] if v == 'v5' else []), bits
    elif ty == 'Disconnect':
        yield 'code only', h, [c], bits
        yield 'code and empty properties', h, [c, zero], bits
    elif ty in ('SubAck', 'UnsubAck'):
        l = psym(('v', 'self.pkid'))
        yield 'single code', h, [pk] + ([zero] if v == 'v5' else []) + [c], bits
    else:
        yield 'code only', h, [pk, c], bits
        yield 'code and empty properties', h, [pk, c, zero], bits


@guarded
def codes(r, v, ty):
    """each code byte decodes to the variant MQTT assigns to it, all others are rejected"""
    if v == 'v4' and ty == 'SubAck':
        table = dict(spec.QOS)
        table['Failure'] = 0x80
    else:
        table = spec.CODES[(v, ty)]
    n = len(list(code_inputs(Val(v, ty))))
    for k in range(n):
        V = Val(v, ty)
        e = V.eng
        label, h, body, bits = list(code_inputs(V))[k]
        toks, pc = frame(e, h, body, T)
        key = '%s|%s' % (V.label, label)
        accepted = {}
        for s, nm, vn, f in decode(V, toks, pc):
            if nm != 'Ok':
                for name, num in table.items():
                    ok = infeasible(AND(s.pc, bits_are(bits, num)))
                    r.add('code-table', ok, '%s|%s' % (key, name), 'code 0x%02x (%s) is rejected with %s' % (num, name, nm), READS[v])
                continue
            if vn != ty or not f:
                r.add('code-table', False, key, 'decoded as %s' % vn, READS[v])
                continue
            for g, name in variants_of(e, s, f[0], v, ty):
                q = AND(s.pc, g)
                if infeasible(q):
                    continue
                num = table.get(name)
                ok = num is not None and infeasible(AND(q, NOT(bits_are(bits, num))))
                r.add('code-table', ok, '%s|%s' % (key, name), 'a byte other than 0x%02x is decoded as %s' % (num or 0, name), READS[v])
                accepted[name] = OR(accepted.get(name, F), q)
        for name, num in table.items():
            q = accepted.get(name, F)
            r.add('code-table', AND(q, bits_are(bits, num)) != F, '%s|%s|accepted' % (key, name),
                  'code 0x%02x is never decoded as %s' % (num, name), READS[v])
        finish(r, V)


def variants_of(e, s, val, v, ty):
    """(guard, variant name) of the code in a decoded packet"""
    if ty in CODEF:
        x = field_of(e, s, val, *CODEF[ty])
    else:
        l = field_of(e, s, val, 'return_codes' if ty == 'SubAck' else 'reasons')
        segs = e.simpsegs(l[1], s.pc)
        x = None
        if len(segs) == 1 and segs[0][0] in ('elem',):
            x = segs[0][1]
        elif len(segs) == 1 and segs[0][0] == 'b':
            x = segs[0][1]
        if x is None:
            yield T, '(not exactly one code)'
            return
    x = e.force1(x)
    if x[0] == 'alt':
        for g, y in x[1]:
            for h, n in variants_of_enum(e, e.force1(y)):
                yield AND(g, h), n
        return
    for h, n in variants_of_enum(e, x):
        yield h, n


def variants_of_enum(e, x):
    if x[0] != 'e':
        yield T, '(unknown)'
        return
    for i, g, f in x[2]:
        n = e.T[x[1]]['variants'][i]['name']
        if f and n == 'Success':
            for h, m in variants_of_enum(e, e.force1(f[0])):
                yield AND(g, h), m
        else:
            yield g, n


# ------------------------------------------------------------------ publish flags and packet identifier
@guarded
def publish(r, v):
    V = Val(v, 'Publish', pre=False)
    e = V.eng
    bits = free_byte('flags')
    fl = bits[:4]
    h = byte('fixed header byte', ibits(fl + [T, T, F, F]))
    fo = V.img.fo
    topic = spec.string(e, 'topic', fo('topic')[1])
    pk = be('packet identifier', as_poly(fo('pkid')), 2)
    zero = [vi('property length', P(0))] if v == 'v5' else []
    pay = raw('payload', fo('payload')[1])
    q0, q1 = fl[1], fl[2]
    nz = GE(as_poly(fo('pkid')), 1)
    rd = READS[v]
    for label, g, body in (('QoS 0', AND(NOT(q0), NOT(q1)), topic + zero + [pay]),
                           ('QoS 1 or 2', AND(ITE(q0, NOT(q1), q1), nz), topic + [pk] + zero + [pay])):
        toks, pc = frame(e, h, body, g)
        for s, nm, vn, f in decode(V, toks, pc):
            key = '%s|%s' % (V.label, label)
            if nm != 'Ok' or vn != 'Publish':
                r.add('publish', False, key, 'rejected with %s' % nm, rd)
                continue
            o = lambda n: field_of(e, s, f[0], n)
            for n, b in (('dup', fl[3]), ('retain', fl[0])):
                x = o(n)[1]
                r.add('publish', infeasible(AND(s.pc, ITE(x, NOT(b), b))), key + '|' + n, '%s is not its flag bit' % n, rd)
            lo, hi = V.img.guard2(o('qos'), spec.QOS)
            ok = infeasible(AND(s.pc, OR(ITE(lo, NOT(q0), q0), ITE(hi, NOT(q1), q1))))
            r.add('publish', ok, key + '|qos', 'QoS is not what the flags say', rd)
            pkv = as_poly(o('pkid'))
            if label == 'QoS 0':
                r.add('publish', pzero(pkv, s.pc), key + '|pkid', 'a packet identifier at QoS 0', rd)
            else:
                r.add('publish', pzero(psub(pkv, as_poly(fo('pkid'))), s.pc), key + '|pkid', 'packet identifier differs', rd)
            for n in ('topic', 'payload'):
                r.add('publish', codec.segs_equal(e, o(n)[1], fo(n)[1], s.pc), key + '|' + n, '%s differs' % n, rd)
    # QoS 3, and identifier 0
    for label, g in (('QoS 3', AND(q0, q1)), ('identifier 0', AND(ITE(q0, NOT(q1), q1), NOT(nz)))):
        toks, pc = frame(e, h, topic + [pk] + zero + [pay], g)
        reject(r, V, toks, pc, 'publish', '%s|%s' % (V.label, label), 'a publish with %s is accepted' % label)
    finish(r, V)


# ------------------------------------------------------------------ subscription options
@guarded
def suboptions(r, v):
    V = Val(v, 'Subscribe', pre=False)
    e = V.eng
    bits = free_byte('options')
    rd = READS[v]
    c, el = V.img.coll('filters')
    path = field_of(e, V.st, el, 'path')[1]
    pk = be('packet identifier', as_poly(V.img.fo('pkid')), 2)
    zero = [vi('property length', P(0))] if v == 'v5' else []
    body = [pk] + zero + spec.string(e, 'filter', path) + [byte('options', ibits(bits))]
    h = byte('fixed header byte', 0x82)
    res = AND(NOT(bits[6]), NOT(bits[7]))
    if v == 'v4':
        res = AND(res, NOT(bits[2]), NOT(bits[3]), NOT(bits[4]), NOT(bits[5]))
    q3 = AND(bits[0], bits[1])
    r3 = AND(bits[4], bits[5]) if v == 'v5' else F
    toks, pc = frame(e, h, body, AND(res, NOT(q3), NOT(r3)))
    key = V.label + '|options'
    n = 0
    for s, nm, vn, f in decode(V, toks, pc):
        if nm != 'Ok' or vn != 'Subscribe':
            r.add('suboptions', False, key, 'valid options rejected with %s' % nm, rd)
            continue
        segs = e.simpsegs(field_of(e, s, f[0], 'filters')[1], s.pc)
        if len(segs) != 1 or segs[0][0] != 'elem':
            r.add('suboptions', False, key, 'not exactly one filter', rd)
            continue
        n += 1
        x = segs[0][1]
        o = lambda m: field_of(e, s, x, m)
        lo, hi = V.img.guard2(o('qos'), spec.QOS)
        cmp = [('qos', lo, bits[0]), ('qos', hi, bits[1])]
        if v == 'v5':
            lo, hi = V.img.guard2(o('retain_forward_rule'), spec.RETAIN)
            cmp += [('retain_forward_rule', lo, bits[4]), ('retain_forward_rule', hi, bits[5]),
                    ('nolocal', o('nolocal')[1], bits[2]), ('preserve_retain', o('preserve_retain')[1], bits[3])]
        for m, a, b in cmp:
            r.add('suboptions', infeasible(AND(s.pc, ITE(a, NOT(b), b))), key + '|' + m, '%s is not its option bits' % m, rd)
        r.add('suboptions', codec.segs_equal(e, o('path')[1], path, s.pc), key + '|path', 'filter differs', rd)
    r.add('suboptions', n > 0, key, 'no outcome', rd)
    toks, pc = frame(e, h, body, q3)
    reject(r, V, toks, pc, 'suboptions', key + '|QoS 3', 'a subscription with QoS 3 is accepted')
    if v == 'v5':
        toks, pc = frame(e, h, body, AND(r3, NOT(q3)))
        reject(r, V, toks, pc, 'suboptions', key + '|retain 3', 'retain handling 3 is accepted')
    # no filter at all
    toks, pc = frame(e, h, [pk] + zero, T)
    reject(r, V, toks, pc, 'empty-list', V.label + '|empty', 'a subscribe without filters is accepted')
    V2 = Val(v, 'Unsubscribe', pre=False)
    pk = be('packet identifier', as_poly(V2.img.fo('pkid')), 2)
    toks, pc = frame(V2.eng, byte('fixed header byte', 0xA2), [pk] + zero, T)
    reject(r, V2, toks, pc, 'empty-list', V2.label + '|empty', 'an unsubscribe without filters is accepted')
    finish(r, V2)


# ------------------------------------------------------------------ connect
@guarded
def connect(r, v):
    rd = READS[v]

    def parts(V, **k):
        e, fo = V.eng, V.img.fo
        d = {'name': [be('nl', P(4), 2)] + [byte('name', c) for c in b'MQTT'],
             'level': [byte('level', 4 if v == 'v4' else 5)], 'flags': [byte('flags', 2)],
             'keep': [be('keep alive', fo('keep_alive'), 2)],
             'props': [vi('property length', P(0))] if v == 'v5' else [],
             'id': spec.string(e, 'client id', fo('client_id')[1]), 'rest': []}
        d.update(k)
        return d['name'] + d['level'] + d['flags'] + d['keep'] + d['props'] + d['id'] + d['rest']
    h = byte('fixed header byte', 0x10)
    key = '%s::Connect' % v
    # protocol name: any four bytes but MQTT, any other length
    V = Val(v, 'Connect', pre=False)
    bs = [free_byte('n%d' % i) for i in range(4)]
    isq = AND(*[bits_are(b, c) for b, c in zip(bs, b'MQTT')])
    toks, pc = frame(V.eng, h, parts(V, name=[be('nl', P(4), 2)] + [byte('n', ibits(b)) for b in bs]), NOT(isq))
    reject(r, V, toks, pc, 'connect', key + '|protocol name', 'another protocol name of four bytes is accepted')
    for n in (0, 3, 5, 6):
        V = Val(v, 'Connect', pre=False)
        bs = [free_byte('n%d' % i) for i in range(n)]
        toks, pc = frame(V.eng, h, parts(V, name=[be('nl', P(n), 2)] + [byte('n', ibits(b)) for b in bs]), T)
        reject(r, V, toks, pc, 'connect', key + '|protocol name of %d bytes' % n, 'a protocol name of %d bytes is accepted' % n)
    # protocol level
    V = Val(v, 'Connect', pre=False)
    lv = free_byte('level')
    toks, pc = frame(V.eng, h, parts(V, level=[byte('level', ibits(lv))]), AND(NOT(bits_are(lv, 4)), NOT(bits_are(lv, 5))))
    reject(r, V, toks, pc, 'connect', key + '|protocol level', 'a protocol level other than 4 and 5 is accepted')
    # flags without a will
    V = Val(v, 'Connect', pre=False)
    fl = free_byte('flags')
    bad = AND(NOT(fl[2]), OR(fl[3], fl[4], fl[5]), NOT(fl[6]), NOT(fl[7]))
    toks, pc = frame(V.eng, h, parts(V, flags=[byte('flags', ibits(fl))]), bad)
    reject(r, V, toks, pc, 'connect', key + '|will flags without will', 'will QoS or retain without a will is accepted')
    # will QoS 3
    V = Val(v, 'Connect', pre=False)
    fl = free_byte('flags')
    fo = V.img.fo
    w = ([vi('property length', P(0))] if v == 'v5' else []) + \
        spec.string(V.eng, 'will topic', fo('last_will', 'Some', 'topic')[1]) + \
        spec.string(V.eng, 'will message', fo('last_will', 'Some', 'message')[1])
    toks, pc = frame(V.eng, h, parts(V, flags=[byte('flags', ibits(fl))], rest=w),
                     AND(fl[2], fl[3], fl[4], NOT(fl[6]), NOT(fl[7])))
    reject(r, V, toks, pc, 'connect', key + '|will QoS 3', 'will QoS 3 is accepted')
    # all flags free, every field present as the flags say
    V = Val(v, 'Connect', pre=False)
    e = V.eng
    fl = free_byte('flags')
    fo = V.img.fo
    un, pw = fo('login', 'Some', 'username')[1], fo('login', 'Some', 'password')[1]
    wt, wm = fo('last_will', 'Some', 'topic')[1], fo('last_will', 'Some', 'message')[1]
    w = ([vi('property length', P(0))] if v == 'v5' else []) + spec.string(e, 'will topic', wt) + \
        spec.string(e, 'will message', wm)
    rest = [opt(fl[2], w), opt(fl[7], spec.string(e, 'user name', un)), opt(fl[6], spec.string(e, 'password', pw))]
    g = AND(NOT(fl[0]), OR(fl[2], AND(NOT(fl[3]), NOT(fl[4]), NOT(fl[5]))), NOT(AND(fl[3], fl[4])))
    toks, pc = frame(e, h, parts(V, flags=[byte('flags', ibits(fl))], rest=rest), g)
    nn = 0
    for s, nm, vn, f in decode(V, toks, pc):
        k2 = key + '|flags'
        if nm != 'Ok' or vn != 'Connect':
            r.add('connect', False, k2, 'valid flags rejected with %s' % nm, rd)
            continue
        nn += 1
        o = lambda *n: field_of(e, s, f[0], *n)
        same = lambda a, b, q=T: infeasible(AND(s.pc, q, ITE(a, NOT(b), b)))
        r.add('connect', same(o('clean_session')[1], fl[1]), k2 + '|clean session', 'clean session is not its flag', rd)
        hw = variant(e, o('last_will'), 'Some')
        r.add('connect', same(hw, fl[2]), k2 + '|will', 'will presence is not its flag', rd)
        if AND(s.pc, hw) != F:
            lo, hi = V.img.guard2(o('last_will', 'Some', 'qos'), spec.QOS)
            r.add('connect', same(lo, fl[3], hw) and same(hi, fl[4], hw), k2 + '|will qos', 'will QoS is not its flag bits', rd)
            r.add('connect', same(o('last_will', 'Some', 'retain')[1], fl[5], hw), k2 + '|will retain', 'will retain is not its flag', rd)
            for n, a in (('topic', wt), ('message', wm)):
                r.add('connect', codec.segs_equal(e, o('last_will', 'Some', n)[1], a, AND(s.pc, hw)), k2 + '|will ' + n, 'will %s differs' % n, rd)
        hl = variant(e, o('login'), 'Some')
        want = OR(AND(fl[7], GE(models.seqlen(e, un), 1)), AND(fl[6], GE(models.seqlen(e, pw), 1)))
        r.add('connect', same(hl, want), k2 + '|login', 'login presence is not what the flags say', rd)
        if AND(s.pc, hl) != F:
            for n, a, b in (('username', un, fl[7]), ('password', pw, fl[6])):
                x = o('login', 'Some', n)[1]
                r.add('connect', codec.segs_equal(e, x, a, AND(s.pc, hl, b)) and
                      codec.segs_equal(e, x, (), AND(s.pc, hl, NOT(b))), k2 + '|' + n, '%s differs' % n, rd)
        r.add('connect', codec.segs_equal(e, o('client_id')[1], fo('client_id')[1], s.pc), k2 + '|client id', 'client id differs', rd)
        r.add('connect', pzero(psub(as_poly(o('keep_alive')), as_poly(fo('keep_alive'))), s.pc), k2 + '|keep alive', 'keep alive differs', rd)
    r.add('connect', nn > 0, key + '|flags', 'no outcome', rd)
    finish(r, V)


# ------------------------------------------------------------------ property blocks
def prop_places(v='v5'):
    """(packet, base path of the property set, table)"""
    for ty in spec.PROPS:
        if ty == 'Will':
            yield 'Connect', ('last_will', 'Some', 'properties'), spec.PROPS[ty]
        else:
            yield ty, ('properties',), spec.PROPS[ty]


def place_case(ty, base):
    if ty == 'Connect':
        return ((('last_will',), 'Some' if base[0] == 'last_will' else 'None'),
                (('properties',), 'Some' if base[0] != 'last_will' else 'None')) + \
            (((base, 'Some'),) if base[0] == 'last_will' else ())
    return ((base, 'Some'),)


def block_parts(V, base, table):
    """(header, tokens before the block, block label, tokens after) of the fully flattened image"""
    pc = V.pc
    for g, toks in V.image():
        q = AND(pc, g)
        if infeasible(q):
            continue
        fl = resolve(toks, q)
        if fl is None:
            continue
        k = [i for i, t in enumerate(fl) if t.label == 'property length']
        i = k[-1] if base[0] == 'last_will' else k[0]
        j = i + 1
        while j < len(fl) and fl[j].k == 'prop':
            j += 1
        return q, fl[0], fl[2:i], fl[i + 1:j], fl[j:]


def resolve(toks, pc):
    """options decided by pc; property items marked"""
    out = []
    for t in toks:
        if t.k == 'props':
            out += resolve(t.a, pc)
        elif t.k == 'opt':
            if AND(pc, t.a) == F:
                continue
            if IMPL(pc, t.a):
                b = resolve(t.b, pc)
                if b and b[0].k == 'byte' and b[0].label.startswith('identifier of'):
                    out.append(Tok('prop', t.label, b))
                else:
                    out += b
            else:
                out.append(t)
        elif t.k == 'each' and t.b and t.b[0].label.startswith('identifier of'):
            if AND(pc, GE(psym(('N', t.a)), 1)) == F or IMPL(pc, NOT(GE(psym(('N', t.a)), 1))):
                continue
            out.append(Tok('prop', t.label, t.b))
        else:
            out.append(t)
    return out


def flatten(l):
    out = []
    for t in l:
        out += t.a if t.k == 'prop' else [t]
    return out


def partials(t, tag):
    """proper prefixes of a token: (tokens, condition)"""
    if t.k == 'byte':
        yield [], T
    elif t.k == 'be':
        for n in range(t.b):
            yield [Tok('byte', t.label, ipoly(field(t.a, 8 * (t.b - 1 - i), 8))) for i in range(n)], T
    elif t.k == 'raw':
        if len(t.a) == 1 and t.a[0][0] == 'sl':
            b, o, n = t.a[0][1:]
            s = ('v', 'cut.' + tag)
            BOUNDS[s] = (0, 65535)
            yield [raw(t.label, (('sl', b, o, psym(s)),))], NOT(GE(psub(psym(s), n), 0))
    elif t.k == 'vi':
        yield [], T


@guarded
def block(r, ty, base, name):
    """one property: wrong property lengths, truncated frames"""
    case = place_case(ty, base)
    lab = 'v5::%s%s|%s' % (ty, ' will' if base[0] == 'last_will' else '', name)
    wt = next(w for n, _, w in spec.PROPS['Will' if base[0] == 'last_will' else ty] if n == name)

    def fresh():
        V = Val('v5', ty, case, present=(name,), base=base)
        q, h, before, items, after = block_parts(V, base, None)
        # a single element of list properties
        assert len(items) == 1 and items[0].k == 'prop', [i.k for i in items]
        return V, q, h, before, items[0].a, after
    # the property length ends inside the property
    V, q, h, before, item, after = fresh()
    n = spec.toklen(V.eng, item, q)
    d = ('v', 'D')
    BOUNDS[d] = (1, 1 << 20)
    body = before + [vi('property length', psym(d))] + item + after
    toks, pc = frame(V.eng, h, body, AND(q, NOT(GE(psub(psym(d), n), 0))))
    reject(r, V, toks, pc, 'block-length', lab + '|short', 'a property reaching past the end of its property block is accepted')
    finish(r, V)
    # the property length reaches past the end of the frame
    V, q, h, before, item, after = fresh()
    n = spec.toklen(V.eng, item, q)
    d = ('v', 'D')
    BOUNDS[d] = (1, 1 << 20)
    body = before + [vi('property length', padd(n, psym(d)))] + item
    toks, pc = frame(V.eng, h, body, q)
    reject(r, V, toks, pc, 'block-length', lab + '|long', 'a property length reaching past the end of the frame is accepted')
    finish(r, V)
    # the frame ends inside the property
    k = 0
    while True:
        V, q, h, before, item, after = fresh()
        cuts = [(i, c, g) for i, t in enumerate(item) for c, g in partials(t, 't')]
        if k >= len(cuts):
            break
        i, c, g = cuts[k]
        k += 1
        body = before + [vi('property length', spec.toklen(V.eng, item, q))] + item[:i] + c
        toks, pc = frame(V.eng, h, body, AND(q, g))
        reject(r, V, toks, pc, 'truncated', '%s|%s' % (lab, item[i].label), 'a frame ending inside the property is accepted')
        finish(r, V)
    # text must be UTF-8
    if wt in ('str', 'pair'):
        m = len([t for t in item if t.k == 'raw'])
        for k in range(m):
            V, q, h, before, item, after = fresh()
            ii = [i for i, t in enumerate(item) if t.k == 'raw'][k]
            item = utf_item(item, ii)
            body = before + [vi('property length', spec.toklen(V.eng, item, q))] + item + after
            toks, pc = frame(V.eng, h, body, q)
            utf8(r, V, toks, pc, '%s|%s' % (lab, item[ii].label))
            finish(r, V)


@guarded
def lengths(r, ty, base):
    """property lengths with nothing behind them, cut, or of more than four bytes"""
    case = place_case(ty, base)
    lab = 'v5::%s%s' % (ty, ' will' if base[0] == 'last_will' else '')
    name = spec.PROPS['Will' if base[0] == 'last_will' else ty][0][0]

    def fresh():
        V = Val('v5', ty, case, present=(name,), base=base)
        q, h, before, _, after = block_parts(V, base, None)
        return V, q, h, before, after

    V, q, h, before, after = fresh()
    d = ('v', 'D')
    BOUNDS[d] = (1, 1 << 27)
    toks, pc = frame(V.eng, h, before + [vi('property length', psym(d))], q)
    reject(r, V, toks, pc, 'block-length', lab + '|bare', 'a property length with no bytes behind it is accepted')
    finish(r, V)
    for k in (1, 2, 3, 4):
        V, q, h, before, after = fresh()
        bs = [free_byte('vb%d' % i)[:7] + [T] for i in range(k)]
        body = before + [byte('property length', ibits(b)) for b in bs]
        if k == 4:
            # whatever follows
            BOUNDS[('len', 'junk')] = (0, 1 << 27)
            body.append(raw('rest', (('sl', 'junk', P(0), psym(('len', 'junk'))),)))
        toks, pc = frame(V.eng, h, body, q)
        if k == 4:
            reject(r, V, toks, pc, 'block-length', lab + '|five', 'a property length of more than four bytes is accepted')
        else:
            reject(r, V, toks, pc, 'truncated', lab + '|cut %d' % k, 'a frame ending inside the property length is accepted')
        finish(r, V)


def utf_item(toks, i):
    """the text at i becomes arbitrary bytes"""
    toks = list(toks)
    BOUNDS[('len', 'blob')] = (0, 65535)
    n = psym(('len', 'blob'))
    toks[i] = raw(toks[i].label, (('sl', 'blob', P(0), n),))
    toks[i - 1] = be(toks[i - 1].label, n, 2)
    return toks


def utf8(r, V, toks, pc, key):
    e = V.eng
    n = 0
    for s, nm, vn, f in decode(V, toks, pc):
        n += 1
        if nm != 'Ok':
            continue
        g = OR(NOT(GE(psym(('len', 'blob')), 1)), B.atom(('utf8', (('sl', 'blob', P(0), psym(('len', 'blob'))),))))
        r.add('utf8', infeasible(AND(s.pc, NOT(g))), key, 'text that is not UTF-8 is accepted', READS[V.v])
    r.add('utf8', n > 0, key, 'no outcome', READS[V.v])


@guarded
def badids(r, ty, base, known):
    """identifiers that are not admissible in this packet"""
    key = 'Will' if base[0] == 'last_will' else ty
    table = spec.PROPS[key]
    case = place_case(ty, base)
    lab = 'v5::%s%s' % (ty, ' will' if base[0] == 'last_will' else '')
    allowed = {p for _, p, _ in table}
    first = table[0][0]
    V = Val('v5', ty, case, present=(first,), base=base)
    q, h, before, items, after = block_parts(V, base, None)
    bits = free_byte('id')
    g = T
    for p in allowed:
        g = AND(g, NOT(bits_are(bits, p)))
    inset = OR(*[bits_are(bits, p) for p in spec.IDS])
    g = AND(g, inset if known else NOT(inset))
    BOUNDS[('len', 'junk')] = (0, 65535)
    n = psym(('len', 'junk'))
    body = before + [vi('property length', padd(n, P(1))), byte('id', ibits(bits)), raw('junk', (('sl', 'junk', P(0), n),))] + after
    toks, pc = frame(V.eng, h, body, AND(q, g))
    e = V.eng
    cnt = 0
    for s, nm, vn, f in decode(V, toks, pc):
        cnt += 1
        ok = nm != 'Ok'
        if not ok:
            ids = [i for i in range(256) if i not in allowed and not infeasible(AND(s.pc, bits_are(bits, i)))]
            r.add('propid', False, lab + '|inadmissible', 'property identifiers %s are accepted in this packet' % ids[:8], READS['v5'])
        else:
            r.add('propid', True, lab + '|inadmissible', '')
    r.add('propid', cnt > 0, lab + '|inadmissible', 'no outcome', READS['v5'])
    finish(r, V)


# ------------------------------------------------------------------ truncated frames and text of the fixed part
def id_types():
    return {p: w for t in spec.PROPS.values() for _, p, w in t}


def foreign_ids(ty, base):
    """{wire type: identifiers that are not admissible in this place}"""
    table = spec.PROPS['Will' if base[0] == 'last_will' else ty]
    allowed = {p for _, p, _ in table}
    out = {}
    for p, w in sorted(id_types().items()):
        if p not in allowed:
            out.setdefault(w, []).append(p)
    return out


def value_tokens(e, wt):
    """a well-formed property value of the wire type"""
    def sym(n, hi):
        BOUNDS[('v', n)] = (0, hi)
        return psym(('v', n))

    def text(n, u=True):
        BOUNDS[('len', n)] = (0, 65535)
        if u:
            models.UTF8.add(n)
        return spec.string(e, n, (('sl', n, P(0), psym(('len', n))),))
    if wt == 'u8':
        return [byte('value', ibits(free_byte('pv')))]
    if wt in ('u16', 'u32'):
        n = int(wt[1:]) // 8
        return [be('value', sym('pv', 256 ** n - 1), n)]
    if wt == 'vi':
        return [vi('value', sym('pv', 268435455))]
    if wt == 'str':
        return text('pvs')
    if wt == 'bin':
        return text('pvb', False)
    return text('pvk') + text('pvv')


@guarded
def misplaced(r, ty, base, wt):
    """well-formed properties of one wire type that are not admissible in this packet, alone and after another"""
    case = place_case(ty, base)
    lab = 'v5::%s%s' % (ty, ' will' if base[0] == 'last_will' else '')
    table = spec.PROPS['Will' if base[0] == 'last_will' else ty]
    cnt = 0
    for second in (False, True):
        V = Val('v5', ty, case, present=(table[0][0],), base=base)
        q, h, before, items, after = block_parts(V, base, None)
        bits = free_byte('id')
        g = OR(*[bits_are(bits, p) for p in foreign_ids(ty, base)[wt]])
        item = (items[0].a if second else []) + [byte('id', ibits(bits))] + value_tokens(V.eng, wt)
        body = before + [vi('property length', spec.toklen(V.eng, item, AND(q, g)))] + item + after
        toks, pc = frame(V.eng, h, body, AND(q, g))
        for s, nm, vn, f in decode(V, toks, pc):
            cnt += 1
            ids = [i for i in foreign_ids(ty, base)[wt] if nm == 'Ok' and not infeasible(AND(s.pc, bits_are(bits, i)))]
            r.add('propid', not ids, lab + '|misplaced', 'well-formed properties with identifiers %s are accepted in this '
                  'packet' % ids[:8], READS['v5'])
        finish(r, V)
    r.add('propid', cnt > 0, lab + '|misplaced', 'no outcome', READS['v5'])


def base_case(v, ty):
    if v == 'v4':
        return ((('last_will',), 'Some'),) if ty == 'Connect' else ()
    if ty == 'Connect':
        return ((('last_will',), 'Some'), (('properties',), 'None'), (('last_will', 'Some', 'properties'), 'None'))
    return ((('properties',), 'None'),) if ty in spec.PROPS else ()


SHORT_OK = {'PubAck', 'PubRec', 'PubRel', 'PubComp', 'Disconnect'}


def fixed_shapes(v, ty):
    """(Val, condition, header, body tokens) of the packet without properties"""
    V = Val(v, ty, base_case(v, ty))
    out = []
    for g, toks in V.image():
        q = AND(V.pc, g)
        if ty == 'Connect':
            e, fo = V.eng, V.img.fo
            q = AND(q, variant(e, fo('login'), 'Some'), GE(models.seqlen(e, fo('login', 'Some', 'username')[1]), 1),
                    GE(models.seqlen(e, fo('login', 'Some', 'password')[1]), 1))
            if v == 'v5':
                q = AND(q, variant(e, fo('protocol'), 'V5'))
        if ty == 'Publish':
            q = AND(q, NOT(variant(V.eng, V.img.fo('qos'), 'AtMostOnce')))
        if infeasible(q):
            continue
        out.append((V, q, toks[0], resolve(toks[2:], q)))
    return out


@guarded
def fixed(r, v, ty):
    n = len(fixed_shapes(v, ty))
    for k in range(n):
        i = j = 0
        while True:
            sh = fixed_shapes(v, ty)
            V, q, h, body = sh[k]
            lab = '%s|fixed part' % V.label
            cuts = []
            for a, t in enumerate(body):
                if t.k == 'each':
                    for b, u in enumerate(t.b):
                        cuts += [(a, b, c, g) for c, g in partials(u, 't') if b or c]
                elif ty == 'Publish' and t.label == 'payload':
                    pass
                elif v == 'v5' and ty in SHORT_OK and t.label in ('reason code', 'property length'):
                    pass
                else:
                    cuts += [(a, None, c, g) for c, g in partials(t, 't')]
            if i >= len(cuts):
                break
            a, b, c, g = cuts[i]
            i += 1
            pre = body[:a]
            if b is not None:
                pre = pre + [body[a]] + list(body[a].b[:b])
                what = body[a].b[b].label
            else:
                what = body[a].label
            toks, pc = frame(V.eng, h, pre + c, AND(q, g))
            reject(r, V, toks, pc, 'truncated', '%s|%s' % (lab, what), 'a frame ending inside or before "%s" is accepted' % what)
            finish(r, V)
        # text
        while True:
            V, q, h, body = fixed_shapes(v, ty)[k]
            where = []
            for a, t in enumerate(body):
                if t.k == 'each':
                    where += [(a, b) for b, u in enumerate(t.b) if u.k == 'raw']
                elif t.k == 'raw' and t.label not in ('payload', 'will message'):
                    where.append((a, None))
            if j >= len(where):
                break
            a, b = where[j]
            j += 1
            if b is None:
                body = utf_item(body, a)
                what = body[a].label
            else:
                body = body[:a + 1] + utf_item(list(body[a].b), b) + body[a + 1:]
                what = 'topic filter'
            toks, pc = frame(V.eng, h, body, q)
            utf8(r, V, toks, pc, '%s::%s|%s' % (v, ty, what))
            finish(r, V)


# ------------------------------------------------------------------ short forms of acknowledgements
@guarded
def short(r, ty):
    rd = READS['v5']
    h = byte('fixed header byte', spec.HEADER[ty])
    table = spec.CODES[('v5', ty)]
    ok0 = next(n for n, k in table.items() if k == 0)
    fld = CODEF[ty]
    for label in ('empty', 'code', 'code and empty properties'):
        V = Val('v5', ty, pre=False)
        e = V.eng
        pk = [be('packet identifier', as_poly(V.img.fo('pkid')), 2)] if ty != 'Disconnect' else []
        code = byte('code', V.img.code(V.img.fo(*fld), table))
        body = pk + {'empty': [], 'code': [code], 'code and empty properties': [code, vi('pl', P(0))]}[label]
        toks, pc = frame(e, h, body, T)
        key = '%s|%s' % (V.label, label)
        n = 0
        for s, nm, vn, f in decode(V, toks, pc):
            n += 1
            if nm != 'Ok' or vn != ty:
                r.add('short-form', False, key, 'rejected with %s' % nm, rd)
                continue
            o = lambda *x: field_of(e, s, f[0], *x)
            if pk:
                r.add('short-form', pzero(psub(as_poly(o('pkid')), as_poly(V.img.fo('pkid'))), s.pc), key + '|pkid', 'packet identifier differs', rd)
            r.add('short-form', infeasible(AND(s.pc, NOT(variant(e, o('properties'), 'None')))), key + '|properties', 'properties out of nothing', rd)
            if label == 'empty':
                good = infeasible(AND(s.pc, NOT(variant(e, o(*fld), ok0))))
            else:
                good = not codec.mismatch(e, o(*fld), V.img.fo(*fld), s.pc)
            r.add('short-form', good, key + '|reason', 'reason differs', rd)
        r.add('short-form', n > 0, key, 'no outcome', rd)
        finish(r, V)


# ------------------------------------------------------------------ lists of jobs
def J(kind, fn, *a):
    nm = '%s %s' % (kind, ' '.join(str(x) if not isinstance(x, tuple) else '/'.join(str(y[-1]) if isinstance(y, tuple) else str(y) for y in x) for x in a))
    return (nm, fn, (nm,) + a)


def jobs_accept(p, vs=('v4', 'v5'), orders=(1, -1)):
    out = []
    for v in vs:
        for _, ty in codec.PACKETS[v]:
            for c in codec.cases(p, v, ty):
                for o in orders:
                    if o != 1 and not any(n == 'Some' and x[-1] == 'properties' for x, n in c):
                        continue
                    out.append(J('decode of image', accept, v, ty, c, o))
    out.sort(key=lambda j: -sum(1 for _, n in j[2][3] if n == 'Some'))
    return out


def jobs_codes(p):
    return [J('codes', codes, v, ty) for v, ty in list(spec.CODES) + [('v4', 'SubAck')]]


def jobs_short(p):
    return [J('short forms', short, ty) for ty in ('PubAck', 'PubRec', 'PubRel', 'PubComp', 'Disconnect')]


def jobs_block(p):
    return [J('block', block, ty, base, n) for ty, base, tb in prop_places() for n, _, _ in tb] + \
        [J('property length', lengths, ty, base) for ty, base, _ in prop_places()]


def jobs_badids(p):
    return [J('identifiers', badids, ty, base, k) for ty, base, _ in prop_places() for k in (True, False)] + \
        [J('misplaced', misplaced, ty, base, w) for ty, base, _ in prop_places() for w in foreign_ids(ty, base)]


def jobs_fixed(p):
    return [J('fixed part', fixed, v, ty) for v in ('v4', 'v5') for _, ty in codec.PACKETS[v] if not ty.startswith('Ping') and (v, ty) != ('v4', 'Disconnect')]


def jobs_misc(p):
    return [J('publish', publish, v) for v in ('v4', 'v5')]


def jobs_sub(p):
    return [J('subscribe options', suboptions, v) for v in ('v4', 'v5')]


def jobs_connect(p):
    return [J('connect', connect, v) for v in ('v4', 'v5')]
