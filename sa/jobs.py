"""Analysis jobs. Each returns a Report of tagged obligations; properties select tags."""
import time
from dom import *
import dom
import eng as E
from eng import Engine, State
import harness
from harness import Report
import decode
import codec
import spec
import models

READS = {'v4': 'mqttbytes::v4::read', 'v5': 'mqttbytes::v5::read'}
CHECK = 'mqttbytes::check'


class Rep(Report):
    """obligations carry a tag; the undecided ones say why"""
    def __init__(self, name):
        super().__init__(name)
        self.tags = []            # (tag, key, ok)
        self.undecided = []
        self.eng = None

    def add(self, tag, ok, key, what, fn='', line=0, stack=(), cond=None, sure=False):
        self.tags.append((tag, key, bool(ok)))
        if not ok:
            f = harness.Finding(key, what, fn, line, stack, cond).d()
            f['tag'] = tag
            f['job'] = self.name
            f['sure'] = sure
            self.findings.append(f)
        return ok

    def engine(self, e, tag, loops=None, seen=None):
        """obligations raised by the abstract interpreter itself"""
        for o in e.obls:
            self.add(tag, o.ok, '%s|%s|%s' % (o.fn, o.kind, o.what), '%s: %s' % (o.kind, o.what), o.fn, o.line, o.stack,
                     [('' if b else 'not ') + showatom(k)[:160] for k, b in (o.cube or [])][:8] if not o.ok else None, o.sure)
        if loops:
            for l in e.loops:
                fn = l.name if isinstance(l.name, str) else str(l.name)
                self.add(loops, l.progress, '%s|loop' % fn, 'loop need not make progress', fn, l.line)
        self.absorb(e)
        if e.unmodelled:
            self.undecided.append('calls outside the model: ' + ', '.join(sorted({n for n, _ in e.unmodelled})[:4]))

    def pure(self, e, tag):
        for f in e.fns:
            self.add(tag, True, f, f)
        for what, fn in e.effects:
            self.add(tag, False, '%s|%s' % (fn, what), what, fn)


def guarded(fn):
    """limits of the analysis are recorded, not reported as violations"""
    def run(name, *a):
        r = Rep(name)
        try:
            HAVOC.clear()
            WIDE.clear()
            fn(r, *a)
            if WIDE and fn.__name__ not in ('reader', 'entry'):
                r.undecided.append('loop without a summary: ' + ', '.join(sorted(set(WIDE))[:4]))
            if HAVOC:
                r.undecided.append('values outside the model: ' + ', '.join(sorted(set(HAVOC))[:4]))
        except E.Budget as x:
            r.undecided.append('budget: %s' % x)
        except (RecursionError, MemoryError) as x:
            r.undecided.append(type(x).__name__)
        except Exception as x:
            import traceback
            r.undecided.append('analysis limit: ' + traceback.format_exc(limit=-4))
        r.eng = None
        return r
    run.__name__ = fn.__name__
    return run


def prog():
    return harness.PROG


LIMIT = 240


# ------------------------------------------------------------------ decoding
@guarded
def entry(r, name):
    """the entry points on arbitrary input, packet readers replaced by their contract"""
    e, c, st, rs = decode.run_entry(prog(), name, deadline=LIMIT)
    r.engine(e, 'decode-panic', 'decode-loop')
    r.pure(e, 'pure')
    r.info['readers'] = sorted({n for n, ok in c.calls if ok})
    for n, ok in c.calls:
        r.add('reader-contract', True, n, 'reader called with the exact frame' if ok else 'reader analysed in place', n)
    allocs(r, e, psym(('len', 'a0')))


def undivided(n):
    """(p, d): n <= p/d, with the quotients in n replaced by their dividends"""
    d = 1
    while True:
        for (s, g), c in n.t.items():
            if s is not None and c > 0 and (s[0] == 'div' or s[0] == 'bf' and s[3] is None):
                k, p = (s[2], s[1]) if s[0] == 'div' else (1 << s[2], s[1])
                t = dict(n.t)
                del t[(s, g)]
                n = padd(pscale(Poly(t), k), pscale(p, c))
                d *= k
                break
        else:
            return n, d


def fits(n, have, pc, depth=4):
    """n <= 4096 or n <= have"""
    n = psimp(n, pc)
    if pbounds(n, pc)[1] <= 4096 or prove_ge(psub(have, n), 0, pc):
        return True
    p, d = undivided(n)
    if d > 1 and prove_ge(psub(pscale(have, d), p), 0, pc):
        return True
    vs = sorted({v for (s, g) in n.t for v in B.support(g)})
    if vs and depth:
        x = B.atom(B.atoms[vs[0]])
        return all(q == F or codec.infeasible(q) or fits(n, have, q, depth - 1) for q in (AND(pc, x), AND(pc, NOT(x))))
    return False


def quotients(n, pc):
    """pc with what a bound on a quotient says about its dividend"""
    for v in sorted({v for g in [pc] + [g for _, g in n.t] for v in B.support(g)}):
        k = B.atoms[v]
        if k[0] == 'ge' and len(k[1].t) == 1:
            (s, g), c = next(iter(k[1].t.items()))
            if s is not None and g == T and c > 0 and (s[0] == 'div' or s[0] == 'bf' and s[3] is None):
                m, p = (s[2], s[1]) if s[0] == 'div' else (1 << s[2], s[1])
                pc = AND(pc, OR(NOT(B.atom(k)), GE(p, -(-k[2] // c) * m)))
    return pc


def allocs(r, e, have):
    """sizes passed to allocation requests are bounded by the bytes at hand"""
    for fn, n, pc, stack in e.allocs:
        if codec.infeasible(pc):
            continue
        if n is None:
            r.undecided.append('allocation size outside the model in ' + fn)
            continue
        ok = fits(n, have, quotients(n, pc))
        if not ok and any(s is not None and s[0] == 'v' and 'havoc' in s[1] for (s, g) in n.t):
            r.undecided.append('allocation size outside the model in ' + fn)
            continue
        r.add('decode-alloc', ok, '%s|allocation' % fn, 'allocation size not bounded by the frame: %s' % (repr(n)[:120]),
              fn, 0, stack)


@guarded
def reader(r, name, rd):
    """one packet reader on an arbitrary frame whose length matches its header"""
    e, c, st, rs = decode.run_entry(prog(), name, rd, deadline=LIMIT)
    r.engine(e, 'decode-panic', 'decode-loop')
    r.pure(e, 'pure')
    allocs(r, e, padd(psym(('v', 'hdr.len')), psym(('v', 'hdr.rem'))))
    n = 0
    for st2, rs in c.results:
        for s, v in rs:
            n += 1
            v = e.force1(v)
            for i, g, f in e.ecases(s, v):
                q = s.assume(g)
                if q.pc == F or not f:
                    continue
                er = e.force1(f[0])
                if er[0] != 'e':
                    continue
                for i2, g2, _ in e.ecases(q, er):
                    nm = e.T[er[1]]['variants'][i2]['name']
                    tag = {'InsufficientBytes': 'frame-need', 'PayloadSizeLimitExceeded': 'frame-limit'}.get(nm)
                    if tag:
                        r.add(tag, codec.infeasible(AND(q.pc, g2)), '%s|%s' % (rd, nm),
                              '%s returned for a complete frame within the limit' % nm, rd)
            for tag in ('frame-need', 'frame-limit'):
                r.add(tag, True, '%s|never' % rd, '')
    r.info['outcomes'] = n


# ------------------------------------------------------------------ encoding
def is_ok(name):
    return name == 'Ok'


@guarded
def write(r, v, ty, case):
    """X::write on every representable value: image, lengths, return value, append-only"""
    w = codec.Writer(prog(), v, ty, case=case, deadline=LIMIT)
    e = w.eng
    fn = prog().insts[w.inst]['name']
    r.engine(e, 'encode-panic', 'encode-loop')
    r.pure(e, 'pure')
    okg = 0
    lab = '%s::%s' % (v, ty)
    for s, name, f, app in w.outcomes():
        if codec.infeasible(s.pc):
            continue
        if app is None:
            r.add('append-only', False, '%s|existing bytes' % lab, 'bytes already in the buffer are changed', fn)
            continue
        r.add('append-only', True, '%s|existing bytes|%s' % (lab, name), '')
        if name != 'Ok':
            # a representable packet that fits is never refused
            for g, toks in spec.Img(e, State(), w.self, v, ty).image(s.pc):
                pc = AND(s.pc, g, NOT(GE(toks[1].a, 268435456)))
                r.add('write-ok', codec.infeasible(pc), '%s|refused' % lab, 'write refuses a packet that fits its length field', fn)
            continue
        okg += 1
        n = models.seqlen(e, app)
        ret = as_poly(e.force1(f[0]))
        d = psub(ret, n)
        ok = pzero(d, s.pc) or isame(ipoly(ret), ipoly(n), s.pc)
        r.add('return-count', ok, '%s|returned count' % lab,
              'returned count differs from the bytes appended by %s' % repr(psimp(pnorm(d), s.pc))[:160], fn)
        for g, toks in spec.Img(e, State(), w.self, v, ty).image(s.pc):
            pc = AND(s.pc, g)
            if codec.infeasible(pc):
                continue
            cm = spec.Cmp(e)
            try:
                cm.run(app, toks, pc)
            except spec.Diff as d:
                tag = image_tag(d.label, ty)
                r.add(tag, False, '%s|%s' % (lab, d.label), '%s: %s' % (d.label, d.what), fn)
            for l in cm.labels:
                r.add(image_tag(l, ty), True, '%s|%s' % (lab, l), '')
    r.add('write-ok', okg > 0, '%s|no successful outcome' % lab, 'write never succeeds', fn)


def strings(e, st, v, pre=()):
    """(path, length, condition under which it is present) of the text and binary fields of a value"""
    v = e.force1(v)
    while v[0] == 'ref':
        v = e.force1(e.getp(st, v[1], v[2]))
    if v[0] == 'agg' and v[1] is not None and 'variants' in e.T[v[1]]:
        for f, x in zip(e.T[v[1]]['variants'][0]['fields'], v[2]):
            yield from strings(e, st, x, pre + (f['name'],))
    elif v[0] == 'agg':
        for i, x in enumerate(v[2]):
            yield from strings(e, st, x, pre + (str(i),))
    elif v[0] == 'e':
        for i, g, f in v[2]:
            for x in f:
                for p, n, h in strings(e, st, x, pre):
                    yield p, n, AND(g, h)
    elif v[0] == 'seq':
        s = v[1]
        if len(s) == 1 and s[0][0] == 'sl':
            yield pre, s[0][3], T
        elif len(s) == 1 and s[0][0] == 'map':
            for p, n, h in strings(e, st, s[0][2], pre + ('[]',)):
                yield p, n, AND(GE(psym(('N', s[0][1])), 1), h)


@guarded
def wild(r, v, ty, case):
    """X::write on every value whatsoever: panics, failed writes, texts that do not fit"""
    w = codec.Writer(prog(), v, ty, case=case, deadline=LIMIT, pre=False, short=False)
    e = w.eng
    fn = prog().insts[w.inst]['name']
    r.engine(e, 'encode-panic', 'encode-loop')
    r.pure(e, 'pure')
    lab = '%s::%s' % (v, ty)
    n = 0
    for s, name, f, app in w.outcomes():
        if codec.infeasible(s.pc):
            continue
        n += 1
        if name == 'Ok':
            for path, ln, g in strings(e, s, w.self):
                if path[-1] == 'payload':
                    continue
                ps = '.'.join(path)
                ok = codec.infeasible(AND(s.pc, g, GE(ln, 65536)))
                r.add('oversize', ok, '%s|%s' % (lab, ps),
                      'write succeeds although %s is longer than its two byte length prefix can say' % ps, fn)
            continue
        er = e.force1(f[0])
        for i, g, x in e.ecases(s, er):
            pc = AND(s.pc, g)
            if codec.infeasible(pc):
                continue
            en = e.T[er[1]]['variants'][i]['name']
            k = models.seqlen(e, app) if app is not None else None
            if k is None:
                r.add('write-atomic', False, '%s|%s|existing bytes' % (lab, en),
                      'write returns %s and has changed bytes that were in the buffer' % en, fn)
                continue
            one, more = GE(k, 1), GE(k, 2)
            r.add('write-atomic', codec.infeasible(AND(pc, more)), '%s|%s|several bytes' % (lab, en),
                  'write returns %s but leaves several bytes of the packet in the buffer' % en, fn)
            r.add('write-atomic', codec.infeasible(AND(pc, one, NOT(more))), '%s|%s|one byte' % (lab, en),
                  'write returns %s but leaves the first byte of the packet in the buffer' % en, fn)
    r.add('encode-panic', n > 0, '%s|no outcome' % lab, 'no outcome', fn)


def image_tag(label, ty):
    if label == 'fixed header byte':
        return 'image-header'
    if label in ('remaining length', 'property length', 'end of packet'):
        return 'image-length'
    if label.startswith('identifier of'):
        return 'image-propid'
    if label in ('reason code', 'return code', 'return codes'):
        return 'image-code'
    if label == 'subscription options':
        return 'image-suboptions'
    if ty == 'Connect' and label in ('connect flags', 'protocol level', 'protocol name', 'protocol name length'):
        return 'image-connect'
    if label == 'packet identifier':
        return 'image-pkid'
    return 'image-body'


def tail_of(e, s):
    return ('sl', 'tail', P(0), psym(('len', 'tail')))


@guarded
def roundtrip(r, v, ty, case):
    """read(write(x) ++ tail) = x, leaving exactly tail"""
    p = prog()
    w = codec.Writer(p, v, ty, case=case, deadline=LIMIT)
    e = w.eng
    lab = '%s::%s' % (v, ty)
    rd = READS[v]
    n = 0
    for s, name, f, app in w.outcomes():
        if name != 'Ok' or app is None or codec.infeasible(s.pc):
            continue
        n += 1
        s2 = State(s.pc, {('arg', 0): s.mem[('arg', 0)]})
        s2.mem[('st', 0)] = ('seq', app + (tail_of(e, s),))
        e.deadline = time.time() + LIMIT
        for q, res in e.call_inst(s2, p.byname[rd], [('ref', ('st', 0), ()), ipoly(P(1 << 30))], 'rt', 0):
            res = e.force1(res)
            for i, g, f2 in e.ecases(q, res):
                q2 = q.assume(g)
                if codec.infeasible(q2.pc):
                    continue
                nm = e.T[res[1]]['variants'][i]['name']
                if nm != 'Ok':
                    er = e.force1(f2[0])
                    er = [e.T[er[1]]['variants'][k]['name'] for k, g3, _ in e.ecases(q2, er)]
                    r.add('roundtrip', False, '%s|rejected' % lab,
                          'what write produces is rejected by read: %s' % '/'.join(er[:4]), rd)
                    continue
                rest = e.force1(q2.mem[('st', 0)])
                ok = rest[0] == 'seq' and codec.segs_equal(e, rest[1], (tail_of(e, s),), q2.pc)
                r.add('roundtrip-rest', ok, '%s|rest' % lab, 'read does not consume exactly what write produced', rd)
                pk = e.force1(f2[0])
                for i2, g2, f3 in e.ecases(q2, pk):
                    pc = AND(q2.pc, g2)
                    if codec.infeasible(pc):
                        continue
                    vn = e.T[pk[1]]['variants'][i2]['name']
                    ok = vn == ty
                    r.add('roundtrip', ok, '%s|packet type' % lab, 'decoded as %s' % vn, rd)
                    if not ok or not f3:
                        continue
                    ms = codec.mismatch(e, f3[0], w.self, pc)
                    for path, a, b in ms:
                        ps = codec.show_path(e, path)
                        tag = 'roundtrip-props' if 'properties' in ps else 'roundtrip'
                        r.add(tag, False, '%s|%s' % (lab, ps), 'field %s is not preserved' % ps, rd)
                    for path in leaves(e, w.self):
                        tag = 'roundtrip-props' if 'properties' in path else 'roundtrip'
                        r.add(tag, True, '%s|%s' % (lab, path), '')
    # panics while decoding what was written
    for o in e.obls:
        if not o.ok:
            r.add('decode-panic', False, '%s|%s|%s' % (o.fn, o.kind, o.what), o.what, o.fn, o.line, o.stack)
    r.absorb(e)
    if e.unmodelled:
        r.undecided.append('calls outside the model: ' + ', '.join(sorted({x for x, _ in e.unmodelled})[:4]))
    r.add('roundtrip', n > 0, '%s|no successful write' % lab, 'write never succeeds', lab)


def leaves(e, v, depth=0, pre=''):
    v = e.force1(v)
    out = []
    if depth > 4:
        return [pre]
    if v[0] == 'agg' and v[1] is not None and 'variants' in e.T[v[1]]:
        for f, x in zip(e.T[v[1]]['variants'][0]['fields'], v[2]):
            out += leaves(e, x, depth + 1, (pre + '.' if pre else '') + f['name'])
        return out
    if v[0] == 'e':
        t = e.T[v[1]]
        for i, g, f in v[2]:
            for x in f:
                out += leaves(e, x, depth + 1, (pre + '.' if pre else '') + t['variants'][i]['name'])
        return out or [pre]
    return [pre]
