"""Framing and dispatch of v4::read, v5::read and check against the fixed header grammar of MQTT.

The inputs are partitioned by how much of the fixed header is there and how the announced length
relates to the limit and to what is available; each class is analysed for all its members at once.
"""
import time
from dom import *
import dom
import eng as E
from eng import Engine, State
import codec
import decode
import models
from jobs import guarded, prog, LIMIT, READS, CHECK
from codec import PTYPE

FRAMING = ('InsufficientBytes', 'PayloadSizeLimitExceeded', 'MalformedRemainingLength')


def classes():
    out = [('empty stream', 'none', 0), ('one byte', 'none', 1)]
    out += [('%d length bytes, all continued' % k, 'part', k) for k in (1, 2, 3)]
    out += [('four length bytes, all continued', 'malformed', 4)]
    for k in (1, 2, 3, 4):
        out += [('%d-byte length, over the limit' % k, 'over', k),
                ('%d-byte length, incomplete' % k, 'short', k),
                ('%d-byte length, complete' % k, 'full', k)]
    return out


class Case:
    """the stream of one class: header byte, length bytes, rest"""
    def __init__(self, kind, k):
        self.kind, self.k = kind, k
        self.max = psym(('v', 'max'))
        BOUNDS[('v', 'max')] = (0, (1 << 64) - 1)
        self.pc = T
        segs = []
        if kind == 'none':
            if k:
                segs.append(('b', self.hbyte()))
        else:
            segs.append(('b', self.hbyte()))
            self.V = P(0)
            for i in range(k):
                s = ('v', 'len%d' % i)
                BOUNDS[s] = (0, 127)
                cont = kind in ('part', 'malformed') or i < k - 1
                bits = [B.atom(('bit', psym(s), j)) for j in range(7)] + [T if cont else F]
                segs.append(('b', ibits(bits)))
                self.V = padd(self.V, pscale(psym(s), 1 << (7 * i)))
            self.R = psym(('len', 'rest'))
            if kind not in ('part',):
                segs.append(('sl', 'rest', P(0), self.R))
            over = GE(padd(self.V, P(-1)), 0) if False else NOT(GE(psub(self.max, self.V), 0))
            full = GE(psub(self.R, self.V), 0)
            if kind == 'over':
                self.pc = over
            elif kind == 'short':
                self.pc = AND(NOT(over), NOT(full))
            elif kind == 'full':
                self.pc = AND(NOT(over), full)
        self.segs = tuple(segs)

    def hbyte(self):
        s = ('v', 'header')
        BOUNDS[s] = (0, 255)
        self.h = [B.atom(('bit', psym(s), j)) for j in range(8)]
        return ibits(self.h)


class Exact(decode.Contract):
    """notes whether packet readers are given exactly the frame"""
    def __init__(self, case):
        decode.Contract.__init__(self)
        self.case = case
        self.exact = []

    def generalise(self, eng, st, fh, by):
        by = eng.force1(by)
        if by[0] == 'ref':
            by = eng.force(st, eng.getp(st, by[1], by[2]))
        c = self.case
        if by[0] == 'seq' and c.kind == 'full':
            want = c.segs[:-1] + (('sl', 'rest', P(0), c.V),)
            self.exact.append(codec.segs_equal(eng, by[1], want, st.pc))
        else:
            self.exact.append(False)
        return decode.Contract.generalise(self, eng, st, fh, by)


def run(name, kind, k, pc=None):
    p = prog()
    dom.reset()
    e = Engine(p)
    e.deadline = time.time() + LIMIT
    inst = p.byname[name]
    x = p.insts[inst]
    case = Case(kind, k)
    c = Exact(case)
    e.hook = c
    st = State(case.pc)
    if pc is not None:
        st.pc = AND(st.pc, pc(case))
    args = []
    for j, t in enumerate(x['sig_in']):
        ty = p.tys[t]
        if ty['k'] == 'ref':
            st.mem[('arg', j)] = ('seq', case.segs)
            args.append(('ref', ('arg', j), ()))
        elif ty['k'] == 'adt':
            args.append(('iter', case.segs, 'ref'))
        else:
            args.append(ipoly(case.max))
    rs = e.call_inst(st, inst, args, 'entry', 0)
    # results of readers never are framing errors (proved with the readers)
    ass = T
    for n, ok in c.calls:
        if not ok:
            continue
        rt = p.insts[p.byname[n]]['sig_out']
        v = e.force1(('opq', 'ret.' + n, rt))
        for i, g, f in v[2]:
            if e.T[rt]['variants'][i]['name'] == 'Err':
                er = e.force1(f[0])
                for nm in FRAMING[:2]:
                    ass = AND(ass, NOT(AND(g, codec.variant(e, er, nm))))
    out = []
    for s, v in rs:
        v = e.force1(v)
        for i, g, f in e.ecases(s, v):
            q = s.assume(AND(g, ass))
            if q.pc == F or codec.infeasible(q.pc):
                continue
            out.append((q, e.T[v[1]]['variants'][i]['name'], f))
    return e, c, case, out


def errs(e, q, f):
    er = e.force1(f[0])
    for i, g, x in e.ecases(q, er):
        s = q.assume(g)
        if s.pc == F or codec.infeasible(s.pc):
            continue
        yield s, e.T[er[1]]['variants'][i]['name'], x


def same_stream(e, q, segs):
    b = e.force1(q.mem[('arg', 0)])
    return b[0] == 'seq' and codec.segs_equal(e, b[1], segs, q.pc)


@guarded
def frame(r, name, label, kind, k):
    e, c, case, outs = run(name, kind, k)
    lab = '%s|%s' % (name, label)
    isread = name != CHECK
    n = 0

    def bad(tag, what):
        r.add(tag, False, lab, '%s: %s' % (label, what), name)
    for q, nm, f in outs:
        if nm == 'Ok':
            n += 1
            if kind != 'full':
                bad({'over': 'frame-limit', 'malformed': 'frame-malformed'}.get(kind, 'frame-need'),
                    'accepted although the frame is %s' % {'over': 'over the size limit',
                                                           'malformed': 'malformed'}.get(kind, 'incomplete'))
            elif isread:
                consumed(r, e, q, case, lab, label, name)
            else:
                header(r, e, q, f, case, lab, label)
            continue
        if kind == 'full':
            n += 1
            er = e.force1(f[0])
            for i, g, x in er[2]:
                en = e.T[er[1]]['variants'][i]['name']
                if not isread or en in FRAMING[:2]:
                    ok = codec.infeasible(AND(q.pc, g))
                    r.add(('frame-need', 'frame-limit', 'frame-malformed')[FRAMING.index(en)] if en in FRAMING[:3] else 'frame-need', ok, lab,
                          '%s: %s for a complete frame within the limit' % (label, en), name)
            if isread:
                consumed(r, e, q, case, lab, label, name)
            continue
        for s, en, x in errs(e, q, f):
            n += 1
            if isread:
                r.add('frame-consume', same_stream(e, s, case.segs), lab, '%s: the stream is changed although %s is returned'
                      % (label, en), name)
            want = {'none': 0, 'part': 0, 'short': 0, 'over': 1, 'malformed': 2}[kind]
            tag = ('frame-need', 'frame-limit', 'frame-malformed')[want]
            if en != FRAMING[want]:
                if en == FRAMING[2]:
                    bad('frame-malformed', 'returns %s for a well-formed length' % en)
                bad(tag, 'returns %s, expected %s' % (en, FRAMING[want]))
                continue
            r.add(tag, True, lab, '')
            if want == 0:
                v = as_poly(e.force1(x[0]))
                if kind == 'short':
                    d = psub(v, psub(case.V, case.R))
                    ok = pzero(d, s.pc) or isame(ipoly(v), ipoly(psub(case.V, case.R)), s.pc)
                    r.add('frame-need', ok, lab, '%s: asks for %s bytes, %s are missing' % (
                        label, repr(psimp(v, s.pc))[:80], repr(psub(case.V, case.R))[:80]), name)
                else:
                    hi = 2 - case.k if kind == 'none' else 1
                    ok = prove_ge(v, 1, s.pc) and prove_ge(pscale(v, -1), -hi, s.pc)
                    r.add('frame-need', ok, lab, '%s: asks for %s bytes, at most %d are known to be missing and at '
                          'least 1' % (label, repr(psimp(v, s.pc))[:80], hi), name)
            elif want == 1 and x:
                v = e.force1(x[0])
                if v[0] == 'i':
                    ok = pzero(psub(as_poly(v), case.V), s.pc)
                    r.add('frame-limit', ok, lab, '%s: reports a size of %s' % (label, repr(as_poly(v))[:80]), name)
    r.engine(e, 'decode-panic')
    for ok, (rn, _) in zip(c.exact, c.calls):
        r.add('frame-content', ok, '%s|%s' % (lab, rn), '%s: the packet reader does not get exactly the bytes of the frame' % label, rn)
    r.add('frame-need', n > 0, lab, 'no outcome', name)


def consumed(r, e, q, case, lab, label, name):
    want = (('sl', 'rest', case.V, psub(case.R, case.V)),)
    ok = same_stream(e, q, want)
    b = e.force1(q.mem[('arg', 0)])
    r.add('frame-consume', ok, lab, '%s: what stays in the stream is not what follows the frame' % label, name)


def method(e, name, v, s):
    """call of a public method of FixedHeader on a value"""
    p = prog()
    for i, x in enumerate(p.insts):
        if x['local'] and x['name'].split('::')[-2:] == ['FixedHeader', name] and 'body' in x:
            s = s.copy()
            s.mem[('hdr', 0)] = v
            return e.call_inst(s, i, [('ref', ('hdr', 0), ())], 'method', 0)
    return []


def header(r, e, q, f, case, lab, label):
    want = padd(case.V, P(1 + case.k))
    n = 0
    for s, v in method(e, 'frame_length', f[0], q):
        n += 1
        ok = isame(ipoly(want), e.force1(v), s.pc) or pzero(psub(as_poly(e.force1(v)), want), s.pc)
        r.add('frame-check', ok, lab, '%s: frame_length() is %s' % (label, repr(as_poly(e.force1(v)))[:100]), CHECK)
    for s, v in method(e, 'packet_type', f[0], q):
        v = e.force1(v)
        for i, g, x in e.ecases(s, v):
            t = s.assume(g)
            if t.pc == F or codec.infeasible(t.pc):
                continue
            if e.T[v[1]]['variants'][i]['name'] == 'Ok':
                pt = e.force1(x[0])
                for i2, g2, _ in e.ecases(t, pt):
                    pc = AND(t.pc, g2)
                    vn = e.T[pt[1]]['variants'][i2]['name']
                    ok = vn in PTYPE and codec.infeasible(AND(pc, NOT(nibble(case, PTYPE[vn]))))
                    r.add('dispatch', ok, '%s|%s' % (lab, vn), 'packet_type() is %s for another type number' % vn, CHECK)
            else:
                for ty, k in PTYPE.items():
                    r.add('dispatch', codec.infeasible(AND(t.pc, nibble(case, k))), '%s|%s' % (lab, ty),
                          'packet_type() rejects type number %d' % k, CHECK)
    r.add('frame-check', n > 0, lab, 'no frame_length()', CHECK)


def nibble(case, k):
    g = T
    for i in range(4):
        b = case.h[4 + i]
        g = AND(g, b if (k >> i) & 1 else NOT(b))
    return g


@guarded
def dispatch(r, name, k):
    """packet type of what read returns, for every type number"""
    for empty in (True, False):
        zero = lambda c: NOT(GE(c.V, 1)) if empty else GE(c.V, 1)
        e, c, case, outs = run(name, 'full', k, zero)
        seen = set()
        for q, nm, f in outs:
            if nm != 'Ok':
                continue
            pk = e.force1(f[0])
            for i, g, x in e.ecases(q, pk):
                pc = AND(q.pc, g)
                if codec.infeasible(pc):
                    continue
                vn = e.T[pk[1]]['variants'][i]['name']
                lab = '%s|%s%s' % (name, vn, '|empty' if empty else '')
                ok = vn in PTYPE and codec.infeasible(AND(pc, NOT(nibble(case, PTYPE[vn]))))
                r.add('dispatch', ok, lab, 'a %s is returned for another packet type number' % vn, name)
                if empty:
                    pl = vn in ('PingReq', 'PingResp') or vn == 'Disconnect'
                    r.add('dispatch', pl, lab, 'a %s is returned for a frame without the fields it needs' % vn, name)
                seen.add(vn)
        for vn in (('PingReq', 'PingResp', 'Disconnect') if empty else PTYPE):
            r.add('dispatch', vn in seen, '%s|%s%s|never' % (name, vn, '|empty' if empty else ''),
                  'no %s is ever returned%s' % (vn, ' for an empty one' if empty else ''), name)
    r.absorb(e)


def jobs_frames():
    return [('frame %s, %s' % (n, l), frame, ('frame %s, %s' % (n, l), n, l, kind, k))
            for n in (CHECK, READS['v4'], READS['v5']) for l, kind, k in classes()]


def jobs_dispatch():
    return [('dispatch %s %d' % (n, k), dispatch, ('dispatch %s %d' % (n, k), n, k))
            for n in (READS['v4'], READS['v5']) for k in (1, 2, 3, 4)]
