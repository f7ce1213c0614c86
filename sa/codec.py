"""Writers, their wire images, and round trips through the decoder."""
import time
from dom import *
import dom
import eng as E
from eng import Engine, State, top
import loops
import models
from decode import MAXREM

PACKETS = {
    'v4': [('connect', 'Connect'), ('connack', 'ConnAck'), ('publish', 'Publish'), ('puback', 'PubAck'),
           ('pubrec', 'PubRec'), ('pubrel', 'PubRel'), ('pubcomp', 'PubComp'), ('subscribe', 'Subscribe'),
           ('suback', 'SubAck'), ('unsubscribe', 'Unsubscribe'), ('unsuback', 'UnsubAck'),
           ('ping', 'PingReq'), ('ping', 'PingResp'), ('disconnect', 'Disconnect')],
    'v5': [('connect', 'Connect'), ('connack', 'ConnAck'), ('publish', 'Publish'), ('puback', 'PubAck'),
           ('pubrec', 'PubRec'), ('pubrel', 'PubRel'), ('pubcomp', 'PubComp'), ('subscribe', 'Subscribe'),
           ('suback', 'SubAck'), ('unsubscribe', 'Unsubscribe'), ('unsuback', 'UnsubAck'),
           ('ping', 'PingReq'), ('ping', 'PingResp'), ('disconnect', 'Disconnect')],
}
PTYPE = {'Connect': 1, 'ConnAck': 2, 'Publish': 3, 'PubAck': 4, 'PubRec': 5, 'PubRel': 6, 'PubComp': 7,
         'Subscribe': 8, 'SubAck': 9, 'Unsubscribe': 10, 'UnsubAck': 11, 'PingReq': 12, 'PingResp': 13,
         'Disconnect': 14}


def find_writer(prog, v, ty):
    """the public `write` of packet type ty"""
    for i, x in enumerate(prog.insts):
        n = x['name'].split('::')
        if x['local'] and n[-1] == 'write' and len(n) >= 4 and n[-2] == ty and n[1] == v and 'body' in x:
            return i
    return None


def field_of(eng, st, v, *names):
    """self.a.b.c of an abstract value; None when absent"""
    for n in names:
        v = eng.force1(v)
        while v[0] == 'ref':
            v = eng.force1(eng.getp(st, v[1], v[2]))
        if v[0] == 'e':
            t = eng.T[v[1]]
            if n == 'Some':
                for i, g, f in v[2]:
                    if t['variants'][i]['name'] == 'Some':
                        v = f[0]
                        break
                else:
                    return None
                continue
            return None
        if v[0] != 'agg' or v[1] is None:
            return None
        fs = eng.T[v[1]].get('variants')
        if not fs:
            return None
        for i, f in enumerate(fs[0]['fields']):
            if f['name'] == n:
                v = v[2][i]
                break
        else:
            return None
    return eng.force1(v)


def variant(eng, v, name):
    """guard under which the enum value v is the variant `name`"""
    v = eng.force1(v)
    t = eng.T[v[1]]
    for i, g, f in v[2]:
        if t['variants'][i]['name'] == name:
            return g
    return F


def nonempty(eng, v):
    """some optional field is present or some list is not empty"""
    v = eng.force1(v)
    g = F
    for f in v[2]:
        f = eng.force1(f)
        if f[0] == 'e' and eng.T[f[1]]['def'].split('::')[-1] == 'Option':
            g = OR(g, variant(eng, f, 'Some'))
        elif f[0] == 'seq':
            g = OR(g, GE(models.seqlen(eng, f[1]), 1))
    return g


def precondition(eng, st, self, v, ty):
    """values the protocol can represent (everything else is stated as a precondition)"""
    pc = T
    fo = lambda *n: field_of(eng, st, self, *n)
    if ty == 'Publish':
        q0 = variant(eng, fo('qos'), 'AtMostOnce')
        z = NOT(GE(as_poly(fo('pkid')), 1))
        pc = AND(pc, ITE(q0, z, NOT(z)))
    if ty in ('Subscribe', 'Unsubscribe'):
        for n in ('filters', 'topics'):
            l = fo(n)
            if l is not None:
                pc = AND(pc, GE(models.seqlen(eng, l[1]), 1))
    if ty in ('SubAck',) or ty == 'UnsubAck' and v == 'v5':
        for n in ('return_codes', 'reasons', 'reason_codes'):
            l = fo(n)
            if l is not None and l[0] == 'seq':
                pc = AND(pc, GE(models.seqlen(eng, l[1]), 1))
    for n in ('id', 'subscription_identifiers'):
        x = fo('properties', 'Some', n)
        if x is None:
            continue
        if x[0] == 'e':
            x = fo('properties', 'Some', n, 'Some')
            x = field_of(eng, st, self, 'properties', 'Some', n, 'Some') if x is None else x
        pth = None
        if x is not None and x[0] == 'seq':
            pth = 'self.properties.Some.0.%s[*]' % n
        elif x is not None and x[0] == 'i':
            pth = 'self.properties.Some.0.%s.Some.0' % n
        if pth:
            BOUNDS[('v', pth)] = (0, MAXREM)
    props = fo('properties')
    if props is not None and props[0] == 'e':
        pc = AND(pc, OR(NOT(variant(eng, props, 'Some')), nonempty(eng, fo('properties', 'Some'))))
    if ty == 'Connect':
        lg = fo('login')
        u, w = fo('login', 'Some', 'username'), fo('login', 'Some', 'password')
        pc = AND(pc, OR(variant(eng, lg, 'None'), GE(models.seqlen(eng, u[1]), 1), GE(models.seqlen(eng, w[1]), 1)))
        if v == 'v5':
            wp = fo('last_will', 'Some', 'properties')
            pc = AND(pc, OR(NOT(variant(eng, wp, 'Some')), nonempty(eng, fo('last_will', 'Some', 'properties', 'Some'))))
            v4 = variant(eng, fo('protocol'), 'V4')
            has = OR(variant(eng, props, 'Some'), AND(variant(eng, fo('last_will'), 'Some'), variant(eng, wp, 'Some')))
            pc = AND(pc, NOT(AND(v4, has)))
    return pc


def cases(prog, v, ty):
    """partition of the values of a packet type by the presence of its property sets"""
    opts = [('properties',)]
    if ty == 'Connect':
        opts = [('last_will',), ('properties',), ('last_will', 'Some', 'properties')]
    dom.reset()
    e = Engine(prog)
    i = find_writer(prog, v, ty)
    if i is None:
        return [()]
    self = ('opq', 'self', prog.tys[prog.insts[i]['sig_in'][0]]['to'])
    out = [()]
    for o in opts:
        x = field_of(e, State(), self, *o)
        if x is None or x[0] != 'e':
            continue
        nw = []
        for c in out:
            if any(p == o[:len(p)] and n == 'None' for p, n in c):
                nw.append(c)
            else:
                nw += [c + ((o, 'None'),), c + ((o, 'Some'),)]
        out = nw
    return out


def short_fields(path):
    return BIG if path.split('.')[-1] in ('payload', 'tail', 'out') else 65535


class Writer:
    """one run of X::write on an arbitrary value"""
    def __init__(self, prog, v, ty, pre=True, short=True, deadline=None, case=()):
        dom.reset()
        if short:
            dom.LENB = short_fields
        self.eng = e = Engine(prog)
        if deadline:
            e.deadline = time.time() + deadline
        self.v, self.ty = v, ty
        i = self.inst = find_writer(prog, v, ty)
        if i is None:
            raise KeyError('no %s::%s::write' % (v, ty))
        x = prog.insts[i]
        st = State()
        st.mem[('arg', 0)] = ('opq', 'self', prog.tys[x['sig_in'][0]]['to'])
        st.mem[('arg', 1)] = ('seq', (('sl', 'out', P(0), psym(('len', 'out'))),))
        self.self = st.mem[('arg', 0)]
        self.pre = precondition(e, st, self.self, v, ty) if pre else T
        st.pc = self.pre
        for path, name in case:
            x = field_of(e, st, self.self, *path)
            st.pc = AND(st.pc, variant(e, x, name))
        self.case = case
        if st.pc == F:
            self.rs = []
            return
        self.rs = e.call_inst(st, i, [('ref', ('arg', 0), ()), ('ref', ('arg', 1), ())], 'entry', 0)

    def outcomes(self):
        """(state, ok?, value, appended segments | None)"""
        for s, val in self.rs:
            val = self.eng.force1(val)
            t = self.eng.T[val[1]]
            for i, g, f in self.eng.ecases(s, val):
                q = s.assume(g)
                buf = self.eng.force1(q.mem[('arg', 1)])
                app = None
                if buf[0] == 'seq' and buf[1] and buf[1][0][0] == 'sl' and buf[1][0][1] == 'out' and \
                        not buf[1][0][2].t and buf[1][0][3] == psym(('len', 'out')):
                    app = buf[1][1:]
                yield q, t['variants'][i]['name'], f, app


# ------------------------------------------------------------------ comparing values
def show_path(eng, path):
    return '.'.join(str(x) for x in path)


def mismatch(eng, a, b, pc, path=()):
    """leaves where the values may differ when pc holds"""
    if a is b or a == b or pc == F:
        return []
    a, b = eng.force1(a), eng.force1(b)
    if a == b:
        return []
    if a[0] == 'alt':
        return sum((mismatch(eng, x, b, AND(pc, g), path) for g, x in a[1]), [])
    if b[0] == 'alt':
        return sum((mismatch(eng, a, x, AND(pc, g), path) for g, x in b[1]), [])
    if a[0] == 'i' and b[0] == 'i':
        return [] if isame(a, b, pc) or isame(isimp(a, pc), isimp(b, pc), pc) else [(path, a, b)]
    if a[0] == 'b' and b[0] == 'b':
        d = AND(pc, ITE(a[1], NOT(b[1]), b[1]))
        return [] if infeasible(d) else [(path, a, b)]
    if a[0] == 'agg' and b[0] == 'agg' and len(a[2]) == len(b[2]):
        ty = b[1] if b[1] is not None else a[1]
        names = None
        if ty is not None and 'variants' in eng.T[ty]:
            names = [f['name'] for f in eng.T[ty]['variants'][0]['fields']]
        return sum((mismatch(eng, x, y, pc, path + ((names[i] if names else i),))
                    for i, (x, y) in enumerate(zip(a[2], b[2]))), [])
    if a[0] == 'e' and b[0] == 'e':
        da = {i: (g, f) for i, g, f in a[2]}
        db = {i: (g, f) for i, g, f in b[2]}
        out = []
        t = eng.T[b[1]]
        for i in sorted(set(da) | set(db)):
            n = t['variants'][i]['name']
            ga, fa = da.get(i, (F, None))
            gb, fb = db.get(i, (F, None))
            d = AND(pc, ITE(ga, NOT(gb), gb))
            if not infeasible(d):
                out.append((path + (n,), ('b', ga), ('b', gb)))
                continue
            if fa is not None and fb is not None:
                for k, (x, y) in enumerate(zip(fa, fb)):
                    out += mismatch(eng, x, y, AND(pc, ga, gb), path + (n, k))
        return out
    if loops.seqlike(a) and loops.seqlike(b):
        return [] if segs_equal(eng, a[1], b[1], pc) else [(path, a, b)]
    return [(path, a, b)]


def infeasible(g):
    if g == F:
        return True
    # settle linear consequences
    for _ in range(3):
        h = g
        for v in sorted(B.support(g)):
            k = B.atoms[v]
            if k[0] != 'ge':
                continue
            nd = [n for c, n in GE_TH[k[1]] if c == k[2]]
            if nd:
                g = strengthen(g, nd[0])
                if g == F:
                    return True
        # a literal forced both ways
        if g == h:
            break
    return contradictory(g)


def refutes(pc):
    return dom.refuted(pc)


def contradictory(g, budget=64):
    """every path of g contradicts linear facts"""
    todo = [g]
    n = 0
    while todo:
        x = todo.pop()
        n += 1
        if n > budget:
            return False
        # split on the first undecided ge atom
        ch = False
        for v in sorted(B.support(x)):
            k = B.atoms[v]
            if k[0] != 'ge':
                continue
            nd = next((n_ for c, n_ in GE_TH[k[1]] if c == k[2]), None)
            if nd is None:
                continue
            if IMPL(x, nd):
                if prove_ge(pscale(k[1], -1), 1 - k[2], x):
                    x = F
                    break
            elif AND(x, nd) == F:
                if prove_ge(k[1], k[2], x):
                    x = F
                    break
            else:
                y = strengthen(x, nd)
                if y == F:
                    x = F
                    break
                if y != x:
                    todo.append(y)
                else:
                    todo += [AND(x, nd), AND(x, NOT(nd))]
                ch = True
                break
        if x == F:
            continue
        if not ch and bitrange(x) != F:
            return False
    return True


def bitrange(g):
    """g with the bits of symbols confined to what the comparisons in g leave for them"""
    seen = set()
    for v in B.support(g):
        k = B.atoms[v]
        if k[0] == 'bit' and k[1] not in seen and len(k[1].t) == 1:
            seen.add(k[1])
            n = bounds_of(next(iter(k[1].t))[0])[1].bit_length()
            if n > 40:
                continue
            lo, hi = pbounds(k[1], g)
            for c, nd in GE_TH.get(k[1], ()):
                if IMPL(g, nd):
                    lo = max(lo, c)
                elif AND(g, nd) == F:
                    hi = min(hi, c - 1)
            bits = [B.atom(('bit', k[1], i)) for i in range(n)]
            if lo > 0:
                g = AND(g, dom.bits_ge_const(bits, lo))
            if hi + 1 < 1 << n:
                g = AND(g, NOT(dom.bits_ge_const(bits, hi + 1)))
            if g == F:
                break
    return g


def flat(eng, segs, pc):
    """simplify; expand be segments lazily"""
    return list(eng.simpsegs(segs, pc))


def segs_equal(eng, a, b, pc, depth=0):
    """the two segment lists denote the same bytes / elements whenever pc holds"""
    return first_diff(eng, a, b, pc, depth) is None


def first_diff(eng, a, b, pc, depth=0):
    """None when equal, else (guard, segment of a, segment of b)"""
    if pc == F or infeasible(pc):
        return None
    if depth > 80:
        return pc, None, None
    a, b = flat(eng, a, pc), flat(eng, b, pc)
    while True:
        a = drop_empty(a, pc)
        b = drop_empty(b, pc)
        if not a and not b:
            return None
        if a and b:
            x, y = a[0], b[0]
            if x == y:
                a, b = a[1:], b[1:]
                continue
            kx, ky = x[0], y[0]
            if kx == 'alt' and ky == 'alt' and AND(pc, ITE(x[1], NOT(y[1]), y[1])) == F:
                d = first_diff(eng, x[2], y[2], AND(pc, x[1]), depth + 1)
                if d is None:
                    a, b = a[1:], b[1:]
                    continue
        if a and a[0][0] == 'alt' or b and b[0][0] == 'alt':
            g = a[0][1] if a and a[0][0] == 'alt' else b[0][1]
            return first_diff(eng, a, b, AND(pc, g), depth + 1) or first_diff(eng, a, b, AND(pc, NOT(g)), depth + 1)
        if not a or not b:
            # what remains must be empty
            r = a or b
            n = models.seqlen(eng, tuple(r))
            if pzero(n, pc) or prove_ge(pscale(n, -1), 0, pc):
                return None
            return pc, a[:1] or None, b[:1] or None
        x, y = a[0], b[0]
        kx, ky = x[0], y[0]
        if kx == 'be' and ky == 'be' and x[2] == y[2]:
            if not pzero(psub(psimp(x[1], pc), psimp(y[1], pc)), pc):
                return pc, x, y
            a, b = a[1:], b[1:]
            continue
        if kx == 'be' and (ky == 'b' or ky == 'be'):
            a[0:1] = [('b', models.be_byte(x, k)) for k in range(x[2])]
            if ky == 'be':
                b[0:1] = [('b', models.be_byte(y, k)) for k in range(y[2])]
            continue
        if ky == 'be' and kx == 'b':
            b[0:1] = [('b', models.be_byte(y, k)) for k in range(y[2])]
            continue
        if kx == 'b' and ky == 'b':
            if not isame(x[1], y[1], pc):
                return pc, x, y
            a, b = a[1:], b[1:]
            continue
        if kx == 'elem' and ky == 'elem':
            if mismatch(eng, x[1], y[1], pc):
                return pc, x, y
            a, b = a[1:], b[1:]
            continue
        if kx == 'map' and ky == 'map' and x[1] == y[1]:
            if mismatch(eng, x[2], y[2], pc):
                return pc, x, y
            a, b = a[1:], b[1:]
            continue
        if kx == 'each' and ky == 'each' and x[1] == y[1]:
            d = first_diff(eng, x[2], y[2], pc, depth + 1)
            if d is not None:
                return d
            a, b = a[1:], b[1:]
            continue
        if kx == 'sl' and ky == 'sl' and x[1] == y[1] and pzero(psub(x[2], y[2]), pc):
            dl = psub(x[3], y[3])
            if pzero(dl, pc):
                a, b = a[1:], b[1:]
                continue
            if prove_ge(dl, 0, pc):
                a[0:1] = [('sl', x[1], pnorm(padd(x[2], y[3])), pnorm(dl))]
                b = b[1:]
                continue
            if prove_ge(pscale(dl, -1), 0, pc):
                b[0:1] = [('sl', y[1], pnorm(padd(y[2], x[3])), pnorm(pscale(dl, -1)))]
                a = a[1:]
                continue
        return pc, x, y


def drop_empty(a, pc):
    while a:
        s = a[0]
        if s[0] == 'alt':
            q = AND(pc, s[1])
            if q == F:
                a = a[1:]
                continue
            if q == pc:
                a = list(s[2]) + a[1:]
                continue
        elif s[0] == 'sl' and pzero(s[3], pc):
            a = a[1:]
            continue
        elif s[0] in ('map', 'each') and isinstance(s[1], str) and IMPL(pc, NOT(GE(psym(('N', s[1])), 1))):
            a = a[1:]
            continue
        break
    return a
