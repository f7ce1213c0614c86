"""Abstract interpreter over monomorphic MIR (see DESIGN.md).

Dataflow over the control-flow graph in reverse post-order; states are joined at every merge point
(values become guarded), except that states whose live Result/ControlFlow values have different
known variants are kept apart. Loops are closed by head splitting, by closed forms over
collections, by bounded unrolling, or by havoc with verified inductive relations.
"""
from dom import *
import dom
import heapq
import time


class Fork(Exception):
    def __init__(self, guards):
        self.guards = guards


class NeedEach(Exception):
    """a stream whose head is an abstract collection was read"""
    def __init__(self, loc):
        self.loc = loc


class NeedSplit(Exception):
    """an undecided alternative at the head of a stream must be split at the loop head"""
    def __init__(self, guard):
        self.guard = guard


class Imprecise(Exception):
    pass


class Budget(Exception):
    pass


class Diverge(Exception):
    """the operation cannot return (panics)"""


UTF8 = set()
ALWAYS_TOP = ('top', '?')
UNIT = ('agg', None, ())


BENIGN = ('uninit', 'utf8 error', 'arg', 'ret', 'gone')


def top(tag):
    if tag not in BENIGN:
        HAVOC.append('unknown value: ' + tag)
    return ('top', tag)


class State:
    __slots__ = ('pc', 'mem', 'tag')

    def __init__(self, pc=T, mem=None, tag=None):
        self.pc = pc
        self.mem = mem if mem is not None else {}
        self.tag = tag          # join-preserving annotation (used by checks)

    def copy(self):
        return State(self.pc, dict(self.mem), self.tag)

    def assume(self, g):
        s = self.copy()
        s.pc = AND(self.pc, g)
        return s


class Obl:
    __slots__ = ('fn', 'kind', 'what', 'ok', 'line', 'stack', 'cube', 'sure')

    def __init__(self, fn, kind, what, ok, line, stack, cube, sure=False):
        self.sure = sure
        self.fn, self.kind, self.what, self.ok = fn, kind, what, ok
        self.line, self.stack, self.cube = line, stack, cube

    def key(self):
        return (self.fn, self.kind, self.what)


class Frame:
    __slots__ = ('inst', 'body', 'fid', 'name', 'depth', 'parent', 'line')

    def __init__(self, inst, body, fid, name, depth, parent):
        self.inst, self.body, self.fid, self.name = inst, body, fid, name
        self.depth, self.parent, self.line = depth, parent, 0


class LoopLog:
    """what one abstract iteration of a loop does (havoc or generic-element mode)"""
    def __init__(self, **k):
        self.__dict__.update(k)


RESULTISH = ('Result', 'ControlFlow')


# calls that reach outside the arguments
EFFECTFUL = tuple('std::%s::' % m for m in (
    'io', 'env', 'fs', 'net', 'process', 'thread', 'time', 'os', 'sys', 'backtrace', 'random', 'hash::random', 'alloc')) + (
    'std::collections::hash_map::RandomState', 'std::panic::set_hook', 'std::panic::take_hook', 'libc::', 'core::fmt::rt::Argument::<\'_>::new_pointer')


class Engine:
    def __init__(self, prog):
        self.p = prog
        self.T = prog.tys
        self.obls = []
        self.loops = []
        self.allocs = []
        self.effects = []
        self.unmodelled = []
        self.fns = set()
        self.callsites = 0
        self.fids = {}
        self.steps = 0
        self.deadline = None
        self.maxsteps = 4000000
        self.frames = []
        self.hook = None           # hook(engine, inst, args, state) -> None | [(state, ret)]
        self.partition_err = True
        self.quiet = 0
        self.widen_terms = 8
        self.split_enum = ()       # adt heads that are never joined across variants
        self.loop_alts = []
        self.cur_site = None
        self.topics = None
        import models
        self.models = models.TABLE
        self.mod = models

    # ------------------------------------------------------------ logs (transactional)
    def mark(self):
        return (len(self.obls), len(self.loops), len(self.allocs), len(self.effects))

    def rollback(self, m):
        del self.obls[m[0]:]
        del self.loops[m[1]:]
        del self.allocs[m[2]:]
        del self.effects[m[3]:]

    def where(self):
        return self.frames[-1] if self.frames else None

    def fnname(self):
        for f in reversed(self.frames):
            if f.inst is not None and self.p.insts[f.inst]['local']:
                return self.p.insts[f.inst]['name']
        return '?'

    def stack(self):
        return [self.p.insts[f.inst]['name'] + (':%d' % f.line if f.line else '')
                for f in self.frames if f.inst is not None and self.p.insts[f.inst]['local']]

    def oblige(self, st, cond, kind, what):
        """cond must hold in st; returns the state in which it does (or None)"""
        st2 = self.settle(st, cond)
        ok = IMPL(st2.pc, cond)
        f = None
        for x in reversed(self.frames):
            if x.inst is not None and self.p.insts[x.inst]['local']:
                f = x
                break
        self.obls.append(Obl(self.fnname(), kind, what, ok, f.line if f else 0, self.stack(),
                             None if ok else cube(AND(st2.pc, NOT(cond))),
                             # nothing imprecise has happened on the way here
                             not (ok or HAVOC or WIDE or self.unmodelled)))
        if ok:
            return st2
        pc = AND(st2.pc, cond)
        if pc == F:
            return None
        s = st2.copy()
        s.pc = pc
        return s

    def settle(self, st, cond):
        if cond <= 1:
            return st
        pc = strengthen(st.pc, cond)
        if pc != st.pc:
            st = st.copy()
            st.pc = pc
        return st

    def check_split(self, f):
        if self.loop_alts and f.guards[0] in self.loop_alts[-1]:
            raise NeedSplit(f.guards[0])

    # ------------------------------------------------------------ types / values
    def bitsof(self, ty):
        t = self.T[ty]
        if t['k'] == 'int':
            return t['bits']
        if t['k'] == 'bool':
            return 1
        if t['k'] == 'char':
            return 32
        return 64

    def expand(self, path, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            s = ('v', path)
            if s not in BOUNDS:
                if t['signed']:
                    BOUNDS[s] = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1)
                else:
                    BOUNDS[s] = (0, (1 << t['bits']) - 1)
            if t['bits'] == 8 and not t['signed']:
                return ibits(B.atom(('bit', psym(s), i)) for i in range(8))
            return ipoly(psym(s))
        if k == 'bool':
            return ('b', B.atom(('v', path)))
        if k in ('ref', 'ptr'):
            return ('ref', ('cv', ('opq', path + '.*', t['to'])), ())
        if k == 'str':
            UTF8.add(path)
            return self.opqbytes(path)
        if k in ('slice', 'array'):
            e = self.T[t['to']]
            if k == 'slice':
                if e['k'] == 'int' and e['bits'] == 8:
                    return self.opqbytes(path)
                return ('seq', (('map', path, ('opq', path + '[*]', t['to'])),))
            if t['len'] is not None and t['len'] <= 64:
                els = [self.force1(('opq', '%s[%d]' % (path, i), t['to'])) for i in range(t['len'])]
                if e['k'] == 'int' and e['bits'] == 8:
                    return ('seq', tuple(('b', x) for x in els))
                return ('seq', tuple(('elem', x) for x in els))
            return top(path)
        if k == 'tuple':
            return ('agg', ty, tuple(('opq', '%s.%d' % (path, i), f) for i, f in enumerate(t['fields'])))
        if k == 'adt':
            d = t['def'].split('::')[-1]
            if d == 'String':
                UTF8.add(path)
                return self.opqbytes(path)
            if d in ('Bytes', 'BytesMut'):
                return self.opqbytes(path)
            if d == 'Vec':
                e = self.T[t['args'][0]]
                if e['k'] == 'int' and e['bits'] == 8:
                    return self.opqbytes(path)
                return ('seq', (('map', path, ('opq', path + '[*]', t['args'][0])),))
            if d == 'Iter' and 'slice' in t['def'] and t['args']:
                e = [a for a in t['args'] if isinstance(a, int)]
                if e:
                    e = self.T[e[-1]]
                    if e['k'] == 'int' and e['bits'] == 8:
                        return ('iter', self.opqbytes(path)[1], 'ref')
                    return ('iter', (('map', path, ('opq', path + '[*]', [a for a in t['args'] if isinstance(a, int)][-1])),), 'ref')
            if d == 'Box':
                return ('ref', ('cv', ('opq', path + '.*', t['args'][0])), ())
            if 'variants' in t:
                if t['ak'] == 'struct':
                    return ('agg', ty, tuple(('opq', '%s.%s' % (path, f['name']), f['ty'])
                                             for f in t['variants'][0]['fields']))
                if t['ak'] == 'enum':
                    cases = []
                    rest = T
                    n = len(t['variants'])
                    for i, v in enumerate(t['variants']):
                        if i == n - 1:
                            g = rest
                        else:
                            a = B.atom(('disc', path, v['name']))
                            g = AND(rest, a)
                            rest = AND(rest, NOT(a))
                        cases.append((i, g, tuple(('opq', '%s.%s.%s' % (path, v['name'], f['name']), f['ty'])
                                                  for f in v['fields'])))
                    return ('e', ty, tuple(cases))
        return top(path)

    def opqbytes(self, path):
        return ('seq', (('sl', path, P(0), psym(('len', path))),))

    def force1(self, v):
        while v[0] == 'opq':
            v = self.expand(v[1], v[2])
        return v

    def force(self, st, v):
        v = self.force1(v)
        if v[0] == 'alt':
            live = [(g, x) for g, x in v[1] if AND(st.pc, g) != F]
            if len(live) == 1:
                return self.force(st, live[0][1])
            if not live:
                raise Diverge()
            raise Fork([g for g, _ in live])
        return v

    def ecases(self, st, v):
        """feasible cases of an enum value under the path guard"""
        return [(i, g, f) for i, g, f in v[2] if AND(st.pc, g) != F]

    # ------------------------------------------------------------ joins
    def joinv(self, g, a, b, pc):
        if a == b:
            return a
        ka, kb = a[0], b[0]
        if ka == 'opq' or kb == 'opq':
            a, b = self.force1(a), self.force1(b)
            if a == b:
                return a
            ka, kb = a[0], b[0]
        if ka == 'i' and kb == 'i':
            return ijoin(g, a, b)
        if ka == 'b' and kb == 'b':
            return ('b', ITE(g, a[1], b[1]))
        if ka == 'agg' and kb == 'agg' and len(a[2]) == len(b[2]):
            return ('agg', a[1], tuple(self.joinv(g, x, y, pc) for x, y in zip(a[2], b[2])))
        if ka == 'e' and kb == 'e':
            da = {i: (h, f) for i, h, f in a[2]}
            db = {i: (h, f) for i, h, f in b[2]}
            out = []
            for i in sorted(set(da) | set(db)):
                if i in da and i in db:
                    h = ITE(g, da[i][0], db[i][0])
                    f = tuple(self.joinv(g, x, y, pc) for x, y in zip(da[i][1], db[i][1]))
                elif i in da:
                    h, f = AND(g, da[i][0]), da[i][1]
                else:
                    h, f = AND(NOT(g), db[i][0]), db[i][1]
                h = B.restrict(h, pc) if pc != F else h
                if h != F:
                    out.append((i, h, f))
            return ('e', a[1], tuple(out))
        if ka == 'seq' and kb == 'seq':
            return ('seq', self.joinsegs(g, a[1], b[1], pc))
        if ka == 'iter' and kb == 'iter':
            return ('iter', self.joinsegs(g, a[1], b[1], pc)) + a[2:]
        if ka == 'top':
            return a
        if kb == 'top':
            return b
        la = a[1] if ka == 'alt' else ((T, a),)
        lb = b[1] if kb == 'alt' else ((T, b),)
        m = []
        for gg, l in ((g, la), (NOT(g), lb)):
            for h, v in l:
                x = AND(gg, h)
                if x == F:
                    continue
                for k in range(len(m)):
                    if m[k][1] == v:
                        m[k] = (OR(m[k][0], x), v)
                        break
                else:
                    m.append((x, v))
        if len(m) == 1:
            return m[0][1]
        return ('alt', tuple(m))

    def joinsegs(self, g, a, b, pc):
        if a == b:
            return a
        i = 0
        pre = []
        while i < len(a) and i < len(b):
            x, y = a[i], b[i]
            if x == y:
                pre.append(x)
            elif x[0] == 'b' and y[0] == 'b' and self.similar(a, b, i):
                pre.append(('b', ijoin(g, x[1], y[1])))
            elif x[0] == 'elem' and y[0] == 'elem':
                pre.append(('elem', self.joinv(g, x[1], y[1], pc)))
            elif x[0] == 'be' and y[0] == 'be' and x[2] == y[2]:
                pre.append(('be', pjoin(g, x[1], y[1]), x[2]))
            elif x[0] == 'sl' and y[0] == 'sl' and x[1] == y[1] and x[2] == y[2] and \
                    i == len(a) - 1 and i == len(b) - 1:
                pre.append(('sl', x[1], x[2], pjoin(g, x[3], y[3])))
            elif x[0] == 'sl' and y[0] == 'sl' and x[1] == y[1] and \
                    i == len(a) - 1 and i == len(b) - 1 and \
                    pzero(psub(padd(x[2], x[3]), padd(y[2], y[3])), T):
                pre.append(('sl', x[1], pjoin(g, x[2], y[2]), pjoin(g, x[3], y[3])))
            else:
                break
            i += 1
        a, b = a[i:], b[i:]
        suf = []
        while a and b and a[-1] == b[-1]:
            suf.append(a[-1])
            a, b = a[:-1], b[:-1]
        return tuple(pre) + self.joinmid(g, a, b, pc) + tuple(reversed(suf))

    def similar(self, a, b, i):
        """two bytes that are worth merging bit by bit"""
        x, y = a[i][1], b[i][1]
        if x[1] is None or y[1] is None:
            return True
        p, q = as_bits(x, 8), as_bits(y, 8)
        cx, cy = all(u <= 1 for u in p), all(u <= 1 for u in q)
        if cx and cy or not cx and not cy and all(u == F or v == F for u, v in zip(p, q) if u != v) and \
                not any(u == v > 1 for u, v in zip(p, q)):
            return [s[0] for s in a[i:]] == [s[0] for s in b[i:]]
        n = sum(u != v for u, v in zip(p, q))
        if n <= 2:
            return True
        return [s[0] for s in a[i:]] == [s[0] for s in b[i:]]

    def joinmid(self, g, a, b, pc):
        """join of two tails without a common start or end"""
        if a and b:
            # optional tails that begin alike are joined inside one alternative
            ha, ta = (a[0][1], a[0][2]) if len(a) == 1 and a[0][0] == 'alt' else (T, a)
            hb, tb = (b[0][1], b[0][2]) if len(b) == 1 and b[0][0] == 'alt' else (T, b)
            if (ha != T or hb != T) and ta and tb:
                x, y = ta[0], tb[0]
                if x == y and x[0] != 'alt' or x[0] == 'b' and y[0] == 'b' and x[1][1] is not None and \
                        y[1][1] is not None and sum(u != v for u, v in zip(as_bits(x[1], 8), as_bits(y[1], 8))) <= 2 \
                        and any(u > 1 for u in as_bits(x[1], 8)):
                    return (('alt', ITE(g, ha, hb), self.joinsegs(g, ta, tb, pc)),)
        out = []
        if a:
            out += self.gatesegs(g, a)
        if b:
            out += self.gatesegs(NOT(g), b)
        return tuple(out)

    def gatesegs(self, g, s):
        if len(s) == 1 and s[0][0] == 'alt':
            h = AND(g, s[0][1])
            return [('alt', h, s[0][2])] if h != F else []
        return [('alt', g, tuple(s))]

    def simpv(self, v, pc, d=0):
        k = v[0]
        if k == 'i':
            return isimp(v, pc)
        if k == 'b':
            if IMPL(pc, v[1]):
                return ('b', T)
            if AND(pc, v[1]) == F:
                return ('b', F)
            return ('b', B.restrict(v[1], pc))
        if k == 'agg':
            return ('agg', v[1], tuple(self.simpv(x, pc) for x in v[2]))
        if k == 'e':
            out = []
            for i, g, f in v[2]:
                q = AND(pc, g)
                if q == F:
                    continue
                out.append((i, T if q == pc else B.restrict(g, pc), tuple(self.simpv(x, q) for x in f)))
            return ('e', v[1], tuple(out))
        if k == 'seq':
            return ('seq', self.simpsegs(v[1], pc))
        if k == 'iter':
            return ('iter', self.simpsegs(v[1], pc)) + v[2:]
        if k == 'alt':
            m = [(g, x) for g, x in v[1] if AND(pc, g) != F]
            if len(m) == 1:
                return self.simpv(m[0][1], pc)
            return ('alt', tuple(m))
        return v

    def simpsegs(self, segs, pc):
        out = []
        for s in segs:
            k = s[0]
            if k == 'alt':
                q = AND(pc, s[1])
                if q == F:
                    continue
                if q == pc:
                    out.extend(self.simpsegs(s[2], pc))
                    continue
                out.append(('alt', B.restrict(s[1], pc), self.simpsegs(s[2], q)))
            elif k == 'sl':
                l = psimp(s[3], pc)
                if l.const() == 0:
                    continue
                out.append(('sl', s[1], self.simpoff(s[2], s[3], l, pc), l))
            elif k == 'b':
                out.append(('b', isimp(s[1], pc)))
            elif k == 'be':
                out.append(('be', psimp(s[1], pc), s[2]))
            elif k == 'elem':
                out.append(('elem', self.simpv(s[1], pc)))
            else:
                out.append(s)
        return tuple(out)

    def simpoff(self, off, ln, l, pc):
        """simplify the offset so that offset + length keeps its form"""
        if len(off.t) > 1 and any(g != T for (_, g) in off.t):
            end = pnorm(padd(off, ln))
            if len(end.t) <= len(off.t):
                return psub(psimp(end, pc), l)
        return psimp(off, pc)

    def separate(self, p1, p2, where):
        """guard that is true in state 1 and false in state 2"""
        if AND(p1, p2) != F:
            a = B.atom(('nd', where, fresh(('nd', where))))
            return a, OR(AND(p1, a), AND(p2, NOT(a)))
        pc = OR(p1, p2)
        sup = B.support(p1) & B.support(p2)
        for v in sorted(sup):
            if B.cof(p1, v, False) == F and B.cof(p2, v, True) == F:
                return B.mk(v, F, T), pc
            if B.cof(p1, v, True) == F and B.cof(p2, v, False) == F:
                return B.mk(v, T, F), pc
        return B.restrict(p1, pc), pc

    def join(self, s1, s2, where):
        if s1 is None:
            return s2
        if s1.pc == F:
            return s2
        if s2.pc == F:
            return s1
        # identical memories need no gating
        g = None
        pc = OR(s1.pc, s2.pc)
        mem = {}
        for k, a in s1.mem.items():
            b = s2.mem.get(k)
            if b is None:
                continue
            if a is b or a == b:
                mem[k] = a
                continue
            if g is None:
                g, pc = self.separate(s1.pc, s2.pc, where)
            mem[k] = self.joinv(g, a, b, pc)
        return State(pc, mem, s1.tag if s1.tag == s2.tag else None)

    # ------------------------------------------------------------ partitioning
    def vkey(self, st, v, d=0):
        if v[0] == 'e':
            t = self.T[v[1]]
            hd = t['def'].split('::')[-1]
            if hd in RESULTISH or d or hd in self.split_enum:
                live = self.ecases(st, v)
                if len(live) == 1:
                    i, g, f = live[0]
                    if d == 0 and hd in RESULTISH:
                        sub = tuple(self.vkey(st, self.force1(x), 1) for x in f
                                    if x[0] == 'e' and self.T[x[1]]['def'].split('::')[-1] in ('Error',) + RESULTISH)
                        return (i,) + sub
                    return i
                return None
        return None

    def pkey(self, fr, st, b):
        out = []
        live = fr.body.live[b]
        for l in sorted(live):
            v = st.mem.get((fr.fid, l))
            if v is None:
                continue
            if v[0] == 'e':
                k = self.vkey(st, v)
                if k is not None:
                    out.append((l, k))
        return tuple(out) + ((st.tag,) if st.tag is not None else ())

    def prune(self, fr, st, b):
        live = fr.body.live[b]
        fid = fr.fid
        dead = [k for k in st.mem if k[0] == fid and k[1] not in live and k[1] != 0]
        if dead:
            st = st.copy()
            for k in dead:
                del st.mem[k]
        return st

    def merge(self, fr, b, states):
        groups = {}
        for s in states:
            if s.pc == F:
                continue
            s = self.prune(fr, s, b)
            groups.setdefault(self.pkey(fr, s, b), []).append(s)
        out = []
        for k, l in groups.items():
            s = l[0]
            for o in l[1:]:
                s = self.join(s, o, (fr.fid, b))
            if len(l) > 1:
                # guards that became irrelevant
                s = State(s.pc, {r: self.simpv(v, s.pc) if v[0] != 'opq' and not (r[0] == 'arg' and v[0] == 'seq') else v
                                 for r, v in s.mem.items()}, s.tag)
                if self.widen_terms:
                    self.widen(s)
            out.append(s)
        return out

    def widen(self, s):
        """the position in an opaque stream became a large case distinction: name it"""
        for r, v in s.mem.items():
            if v[0] in ('seq', 'iter') and len(v[1]) == 1 and v[1][0][0] == 'sl' and \
                    len(v[1][0][3].t) > self.widen_terms:
                _, base, off, ln = v[1][0]
                end = pnorm(padd(off, ln))
                if len(end.t) > 4:
                    continue
                sy = ('v', '%s.%d.rest' % (base, fresh('rest')))
                BOUNDS[sy] = (0, BIG)
                p = psym(sy)
                s.mem[r] = (v[0], (('sl', base, psub(end, p), p),)) + v[2:]
                for (u, g) in list(ln.t):
                    if g == T and u is not None and u[0] == 'v' and u[1].endswith('rest'):
                        for c in (1, 0):
                            if prove_ge(psub(psym(u), ln), c, s.pc):
                                s.pc = AND(s.pc, GE(psub(psym(u), p), c))
                                break
                # integers that move with the position keep their relation to it
                for q, w in s.mem.items():
                    if w[0] == 'i' and w[2] is not None and any(g != T for (_, g) in w[2].t):
                        best = None
                        for sg in (1, -1):
                            d = padd(w[2], ln, sg)
                            c = punguard(d, s.pc)
                            if c is None:
                                c = pnorm(psimp(d, s.pc))
                            if len(c.t) < len(w[2].t) and (best is None or len(c.t) < len(best[0].t)):
                                best = (c, sg)
                        if best is not None:
                            s.mem[q] = ipoly(padd(best[0], p, -best[1]))

    # ------------------------------------------------------------ memory
    def root(self, st, r):
        if r[0] == 'cv':
            return r[1]
        v = st.mem.get(r)
        if v is None:
            return None
        return v

    def resolve(self, fr, st, place):
        """MIR place -> (root, path)"""
        r, path = (fr.fid, place[0]), ()
        for e in place[1:]:
            k = e[0]
            if k == 'deref':
                v = self.getp(st, r, path)
                v = self.force(st, v)
                if v[0] == 'ref':
                    r, path = v[1], v[2]
                elif v[0] == 'top':
                    r, path = ('cv', v), ()
                else:
                    # Box and friends are kept by value
                    pass
            elif k == 'field':
                path += (('f', e[1], e[2]),)
            elif k == 'down':
                path += (('d', e[1]),)
            elif k == 'index':
                iv = self.getp(st, (fr.fid, e[1]), ())
                path += (('x', self.force(st, iv)),)
            elif k == 'cindex':
                if e[3]:
                    path += (('xe', e[1]),)
                else:
                    path += (('x', iconst(e[1])),)
            elif k == 'subslice':
                path += (('s', e[1], e[2], e[3]),)
            elif k == 'ocast':
                pass
        return r, path

    def getp(self, st, r, path):
        v = self.root(st, r)
        if v is None:
            return top('uninit')
        return self.walk(st, v, path)

    def walk(self, st, v, path):
        for n, e in enumerate(path):
            if v[0] in ('opq', 'alt'):
                v = self.force(st, v)
            k = e[0]
            if v[0] == 'top':
                return v
            if k == 'f':
                if v[0] == 'agg':
                    if e[1] >= len(v[2]):
                        return top('field')
                    v = v[2][e[1]]
                elif v[0] == 'e':
                    # field of a single-variant view
                    live = self.ecases(st, v)
                    if len(live) == 1 and e[1] < len(live[0][2]):
                        v = live[0][2][e[1]]
                    else:
                        return top('field of enum')
                elif v[0] == 'ref' and e[1] == 0:
                    v = v          # Box/Unique/NonNull wrappers
                else:
                    return top('field of ' + v[0])
            elif k == 'd':
                if v[0] == 'e':
                    for i, g, f in v[2]:
                        if i == e[1]:
                            v = ('agg', None, f)
                            break
                    else:
                        return top('absent variant')
                else:
                    return top('variant of ' + v[0])
            elif k in ('x', 'xe'):
                if v[0] != 'seq':
                    return top('index of ' + v[0])
                v = self.mod.seq_index(self, st, v[1], e)
            elif k == 's':
                if v[0] != 'seq':
                    return top('subslice')
                v = self.mod.seq_subslice(self, st, v[1], e)
        return v

    def setp(self, st, r, path, val):
        if r[0] == 'cv':
            top('write through a shared constant')
            return
        if not path:
            st.mem[r] = val
            return
        v = st.mem.get(r, top('uninit'))
        st.mem[r] = self.upd(st, v, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        if v[0] in ('opq', 'alt'):
            v = self.force(st, v)
        e = path[0]
        k = e[0]
        if v[0] == 'top':
            if v == ('top', 'uninit') and k == 'f':
                # field-wise initialisation
                f = [top('uninit')] * (e[1] + 1)
                f[e[1]] = self.upd(st, top('uninit'), path[1:], val)
                return ('agg', None, tuple(f))
            return v
        if k == 'f':
            if v[0] == 'agg':
                f = list(v[2])
                while len(f) <= e[1]:
                    f.append(top('uninit'))
                f[e[1]] = self.upd(st, f[e[1]], path[1:], val)
                return ('agg', v[1], tuple(f))
        if k == 'd' and v[0] == 'e':
            out = []
            for i, g, f in v[2]:
                if i == e[1]:
                    n = self.upd(st, ('agg', None, f), path[1:], val)
                    f = n[2] if n[0] == 'agg' else f
                out.append((i, g, f))
            return ('e', v[1], tuple(out))
        if k in ('x', 'xe') and v[0] == 'seq':
            return ('seq', self.mod.seq_store(self, st, v[1], e, path[1:], val))
        return top('upd')

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o[0]
        if k in ('copy', 'move'):
            p = o[1]
            if len(p) == 1:
                v = st.mem.get((fr.fid, p[0]))
                if v is None:
                    return top('uninit')
                return v
            r, path = self.resolve(fr, st, p)
            return self.getp(st, r, path)
        if k == 'const':
            return self.const(o[1], o[2])
        if k == 'rtcheck':
            return ('b', F)
        return top('operand')

    def const(self, ty, j):
        t = self.T[ty]
        if 'int' in j:
            if t['k'] == 'int' and t['bits'] == 8 and not t['signed']:
                return ibits(T if (j['int'] >> i) & 1 else F for i in range(8))
            return iconst(j['int'])
        if 'bool' in j:
            return ('b', T if j['bool'] else F)
        if 'str' in j:
            return ('ref', ('cv', ('seq', tuple(('b', ibits(T if (c >> i) & 1 else F for i in range(8)))
                                                for c in j['str']))), ())
        if 'static' in j:
            self.effects.append(('static %s' % j['static'], self.fnname()))
            return top('static ' + j['static'])
        if 'ref' in j:
            to = t.get('to')
            if to is not None and self.T[to]['k'] == 'slice' and 'array' in j['ref']:
                return ('ref', ('cv', self.constarr(self.T[to]['to'], j['ref']['array'])), ())
            return ('ref', ('cv', self.const(to, j['ref']) if to is not None else top('const')), ())
        if 'array' in j:
            return self.constarr(t['to'], j['array'])
        if 'tuple' in j:
            return ('agg', ty, tuple(self.const(f, x) for f, x in zip(t['fields'], j['tuple'])))
        if 'variant' in j:
            vs = t.get('variants')
            if vs is None:
                return top('const ' + t['name'])
            fs = tuple(self.const(f['ty'], x) for f, x in zip(vs[j['variant']]['fields'], j['fields']))
            if t['ak'] == 'enum':
                return ('e', ty, ((j['variant'], T, fs),))
            return ('agg', ty, fs)
        if 'zst' in j:
            if t['k'] in ('fndef', 'closure'):
                return ('fn', ty) if t['k'] == 'fndef' else ('agg', ty, ())
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt' and t.get('ak') == 'struct' and 'variants' in t:
                return ('agg', ty, tuple(self.const(f['ty'], {'zst': 1}) for f in t['variants'][0]['fields']))
            if t['k'] == 'adt' and t.get('ak') == 'enum' and len(t.get('variants', [])) == 1:
                return ('e', ty, ((0, T, ()),))
            if t['k'] == 'array':
                return ('seq', ())
            return top('zst ' + t['name'])
        return top('const ' + t['name'])

    def constarr(self, ety, arr):
        e = self.T[ety]
        vals = [self.const(ety, x) for x in arr]
        if e['k'] == 'int' and e['bits'] == 8:
            return ('seq', tuple(('b', v) for v in vals))
        return ('seq', tuple(('elem', v) for v in vals))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k in ('ref', 'addr'):
            rt, path = self.resolve(fr, st, r[1])
            v = self.getp(st, rt, path) if path and path[-1][0] in ('x', 'xe', 's') else None
            if v is not None and rt[0] != 'cv' and not (k == 'ref' and r[2]):
                return ('ref', ('cv', v), ())
            return ('ref', rt, path)
        if k == 'len':
            rt, path = self.resolve(fr, st, r[1])
            v = self.force(st, self.getp(st, rt, path))
            if v[0] == 'seq':
                return ipoly(self.mod.seqlen(self, v[1]))
            return self.havoc_int('len', 64)
        if k == 'discr':
            rt, path = self.resolve(fr, st, r[1])
            v = self.force(st, self.getp(st, rt, path))
            return self.discr(st, v, r[2])
        if k in ('bin', 'cbin'):
            a = self.force(st, self.operand(fr, st, r[2]))
            b = self.force(st, self.operand(fr, st, r[3]))
            return self.binop(st, r[1], a, b, r[4], k == 'cbin')
        if k == 'un':
            a = self.force(st, self.operand(fr, st, r[2]))
            if r[1] == 'Not':
                if a[0] == 'b':
                    return ('b', NOT(a[1]))
                if a[0] == 'i':
                    w = self.bitsof(r[3])
                    return ibits(NOT(x) for x in as_bits(a, w))
            if r[1] == 'Neg' and a[0] == 'i':
                return ipoly(pscale(as_poly(a), -1))
            if r[1] == 'PtrMetadata':
                if a[0] == 'ref':
                    v = self.force(st, self.getp(st, a[1], a[2]))
                    if v[0] == 'seq':
                        return ipoly(self.mod.seqlen(self, v[1]))
                return self.havoc_int('meta', 64)
            return top('unop')
        if k == 'cast':
            a = self.operand(fr, st, r[2])
            return self.cast(st, r[1], a, r[4], r[3])
        if k == 'agg':
            ops = tuple(self.operand(fr, st, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'tuple':
                return ('agg', None, ops)
            if kk[0] == 'adt':
                t = self.T[kk[1]]
                if t.get('ak') == 'enum':
                    return ('e', kk[1], ((kk[2], T, ops),))
                return ('agg', kk[1], ops)
            if kk[0] == 'closure':
                return ('agg', kk[1], ops)
            if kk[0] == 'array':
                e = self.T[kk[1]]
                if e['k'] == 'int' and e['bits'] == 8:
                    return ('seq', tuple(('b', self.force(st, o)) for o in ops))
                return ('seq', tuple(('elem', o) for o in ops))
            if kk[0] == 'rawptr':
                return ops[0] if ops else top('rawptr')
            return top('aggregate')
        if k == 'repeat':
            n = r[2]
            a = self.force(st, self.operand(fr, st, r[1]))
            if n is not None and n <= 256:
                if a[0] == 'i' and a[1] is not None and len(a[1]) == 8:
                    return ('seq', (('b', a),) * n)
                return ('seq', (('elem', a),) * n)
            return top('repeat')
        if k == 'tls':
            self.effects.append(('thread-local', self.fnname()))
            return top('tls')
        return top('rvalue ' + k)

    def discr(self, st, v, ty):
        if v[0] == 'e':
            t = self.T[v[1]]
            live = self.ecases(st, v)
            w = self.bitsof(ty) if ty is not None else 64
            ds = [(t['variants'][i].get('discr', i), g) for i, g, _ in live]
            if len(ds) == 1:
                return iconst(ds[0][0])
            n = max((d.bit_length() for d, _ in ds), default=1)
            if n > w or any(d < 0 for d, _ in ds):
                n = w
            n = max(n, 1)
            if n > 16:
                return top('discr')
            bits = []
            for i in range(n):
                bits.append(OR(*[g for d, g in ds if (d >> i) & 1]))
            return ibits(bits)
        if v[0] == 'agg':
            return iconst(0)
        return self.havoc_int('discr', 8)

    def havoc_int(self, tag, w):
        HAVOC.append('%s in %s' % (tag, self.fnname()))
        s = ('v', 'havoc.%s.%d' % (tag, fresh('havoc')))
        BOUNDS[s] = (0, (1 << w) - 1)
        if w == 8:
            return ibits(B.atom(('bit', psym(s), i)) for i in range(8))
        return ipoly(psym(s))

    def havoc_bool(self, tag):
        HAVOC.append('%s in %s' % (tag, self.fnname()))
        return ('b', B.atom(('havoc', tag, fresh('havoc'))))

    def typerange(self, ty):
        t = self.T[ty]
        w = self.bitsof(ty)
        if t.get('signed'):
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def binop(self, st, op, a, b, ty, checked):
        op = op.replace('Unchecked', '')
        if a[0] == 'b' or b[0] == 'b':
            if a[0] == 'b' and b[0] == 'b':
                x, y = a[1], b[1]
                r = {'Eq': lambda: ITE(x, y, NOT(y)), 'Ne': lambda: ITE(x, NOT(y), y),
                     'BitAnd': lambda: AND(x, y), 'BitOr': lambda: OR(x, y),
                     'BitXor': lambda: ITE(x, NOT(y), y), 'Lt': lambda: AND(NOT(x), y),
                     'Gt': lambda: AND(x, NOT(y)), 'Le': lambda: OR(NOT(x), y),
                     'Ge': lambda: OR(x, NOT(y))}.get(op)
                if r:
                    return ('b', r())
            return self.havoc_bool('binop')
        if a[0] != 'i' or b[0] != 'i':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.havoc_bool('cmp')
            if op == 'Cmp':
                return top('cmp')
            v = self.havoc_int('binop', self.bitsof(ty) if ty is not None else 64)
            return ('agg', None, (v, self.havoc_bool('ovf'))) if checked else v
        if op in ('Eq', 'Ne'):
            e = ieq(a, b)
            return ('b', e if op == 'Eq' else NOT(e))
        if op == 'Ge':
            return ('b', ige(a, b))
        if op == 'Lt':
            return ('b', NOT(ige(a, b)))
        if op == 'Le':
            return ('b', ige(b, a))
        if op == 'Gt':
            return ('b', NOT(ige(b, a)))
        if op == 'Cmp':
            lt, gt = NOT(ige(a, b)), NOT(ige(b, a))
            oty = self.p.ty_of('std::cmp::Ordering')
            if oty is None:
                return top('ordering')
            return ('e', oty, tuple(c for c in ((0, lt, ()), (1, AND(NOT(lt), NOT(gt)), ()), (2, gt, ()))
                                    if c[1] != F))
        w = self.bitsof(ty)
        lo, hi = self.typerange(ty)
        ca, cb = ival(a), ival(b)
        if op in ('Add', 'Sub', 'Mul'):
            if ca is not None and cb is not None:
                r = P({'Add': ca + cb, 'Sub': ca - cb, 'Mul': ca * cb}[op])
            elif op == 'Add':
                if a[1] is not None and b[1] is not None and \
                        all(x == F or y == F for x, y in zip(as_bits(a, w), as_bits(b, w))):
                    v = ibits(OR(x, y) for x, y in zip(as_bits(a, w), as_bits(b, w)))
                    return ('agg', None, (v, ('b', F))) if checked else v
                r = merge_fields(padd(as_poly(a), as_poly(b)))
            elif op == 'Sub':
                r = psub(as_poly(a), as_poly(b))
            else:
                if cb is not None:
                    r = pscale(as_poly(a), cb)
                elif ca is not None:
                    r = pscale(as_poly(b), ca)
                else:
                    r = self.pmul(as_poly(a), as_poly(b))
            r = pnorm(psimp(r, st.pc)) if len(r.t) > 2 else r
            bad = OR(NOT(GE(r, lo)), GE(r, hi + 1))
            if bad != F:
                st2 = self.settle(st, bad)
                if st2 is not st:
                    st.pc = st2.pc
                if AND(st.pc, bad) == F:
                    bad = F
            v = ipoly(r)
            if checked:
                return ('agg', None, (v, ('b', bad)))
            if bad != F:
                return ipoly(field(r, 0, w)) if op != 'Sub' else self.havoc_int('wrap', w)
            return v
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                for x, c in ((a, cb), (b, ca)):
                    if c is not None and c >= 0 and x[1] is None and (c + 1) & c == 0:
                        return ipoly(field(x[2], 0, c.bit_length()))
            n = w
            if op == 'BitAnd':
                for c in (ca, cb):
                    if c is not None:
                        n = min(n, max(c.bit_length(), 1))
            x, y = as_bits(a, n), as_bits(b, n)
            if op != 'BitAnd' and w > 8 and all(p == F or q == F for p, q in zip(x, y)) and \
                    (a[1] is None or b[1] is None or any(z != F for z in x[8:] + y[8:])):
                # disjoint bits: a sum
                return ipoly(merge_fields(padd(as_poly(a), as_poly(b))))
            f = {'BitAnd': lambda p, q: AND(p, q), 'BitOr': lambda p, q: OR(p, q),
                 'BitXor': lambda p, q: ITE(p, NOT(q), q)}[op]
            r = [f(p, q) for p, q in zip(x, y)]
            return ibits(r + [F] * (min(w, 8) - len(r)) if len(r) < min(w, 8) else r)
        if op in ('Shl', 'Shr'):
            if cb is None:
                # amount known per guard
                q = psimp(as_poly(b), st.pc)
                cells = pcells([(g, c) for (s_, g), c in q.t.items()], st.pc, 9) \
                    if all(s_ is None for (s_, _) in q.t) else None
                if cells and all(0 <= k < w for k in cells):
                    v = None
                    for k, g in sorted(cells.items()):
                        x = self.binop(st, op, a, iconst(k), ty, False)
                        v = x if v is None else ijoin(g, x, v)
                else:
                    v = self.havoc_int('shift', w)
                return ('agg', None, (v, ('b', F))) if checked else v
            if op == 'Shr':
                if a[1] is not None:
                    r = a[1][cb:] or (F,)
                    v = ibits(r + (F,) * (min(w, 8) - len(r)))
                else:
                    v = ipoly(field(a[2], cb, None))
            else:
                if a[1] is not None:
                    v = ibits(((F,) * cb + a[1])[:w])
                else:
                    r = pscale(a[2], 1 << cb)
                    if pbounds(r, st.pc)[1] > hi:
                        v = ibits(((F,) * cb + as_bits(a, w))[:w])
                    else:
                        v = ipoly(r)
            return ('agg', None, (v, ('b', F))) if checked else v
        if op in ('Div', 'Rem'):
            if cb is not None and cb > 0:
                if cb & (cb - 1) == 0 and not self.T[ty].get('signed'):
                    k = cb.bit_length() - 1
                    if a[1] is not None:
                        r = (a[1][k:] or (F,)) if op == 'Div' else a[1][:k] or (F,)
                        return ibits(r + (F,) * (min(w, 8) - len(r)))
                    return ipoly(field(a[2], k, None) if op == 'Div' else field(a[2], 0, k))
                if ca is not None and ca >= 0:
                    return iconst(ca // cb if op == 'Div' else ca % cb)
                s = (op.lower(), as_poly(a), cb)
                l, h = pbounds(as_poly(a), st.pc)
                BOUNDS[s] = (0, max(h, 0) // cb) if op == 'Div' else (0, cb - 1)
                return ipoly(psym(s))
            return self.havoc_int('div', w)
        return top('binop ' + op)

    def pmul(self, a, b):
        t = P(0)
        for (s, g), c in a.t.items():
            for (s2, g2), c2 in b.t.items():
                if s is None:
                    ss = s2
                elif s2 is None:
                    ss = s
                else:
                    x, y = sorted((s, s2), key=sid)
                    ss = ('mul', x, y)
                    lx, ly = bounds_of(x), bounds_of(y)
                    BOUNDS[ss] = (max(0, lx[0] * ly[0]), lx[1] * ly[1])
                gg = AND(g, g2)
                if gg != F:
                    t = padd(t, Poly({(ss, gg): c * c2}))
        return t

    def cast(self, st, kind, a, fty, tty):
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr') or kind.startswith('PointerCoercion'):
            if kind.startswith('PointerCoercion') and 'ClosureFnPointer' in kind:
                return a
            if kind == 'Transmute':
                v = self.force(st, a)
                ft, tt = self.T[fty], self.T[tty]
                if ft['k'] == tt['k'] or {ft['k'], tt['k']} <= {'ref', 'ptr', 'adt'}:
                    return v
                if v[0] == 'i' and tt['k'] == 'int':
                    return v
                return top('transmute')
            return a
        if kind == 'IntToInt':
            a = self.force(st, a)
            tt = self.T[tty]
            w = self.bitsof(tty)
            if a[0] == 'b':
                return ibits((a[1],) + (F,) * 7)
            if a[0] != 'i':
                return self.havoc_int('cast', w)
            if a[1] is not None:
                b = a[1][:w]
                return ibits(b)
            p = a[2]
            lo, hi = self.typerange(tty)
            c = p.const()
            if c is not None:
                c &= (1 << w) - 1
                if tt.get('signed') and c >> (w - 1):
                    c -= 1 << w
                if w == 8 and not tt.get('signed'):
                    return ibits(T if (c >> i) & 1 else F for i in range(8))
                return iconst(c)
            l, h = pbounds(p, st.pc)
            if l >= lo and h <= hi:
                return a
            bad = OR(NOT(GE(p, lo)), GE(p, hi + 1))
            st2 = self.settle(st, bad)
            if AND(st2.pc, bad) == F:
                st.pc = st2.pc
                return a
            if l >= 0:
                return ipoly(field(p, 0, w))
            return self.havoc_int('trunc', w)
        return top('cast ' + kind)

    # ------------------------------------------------------------ execution
    def fid(self, parent, site, inst):
        k = (parent, site, inst)
        i = self.fids.get(k)
        if i is None:
            i = self.fids[k] = len(self.fids) + 1
        return i

    def call_inst(self, st, inst, args, site, parent_fid=0):
        """run instance on argument values; list of (state, return value)"""
        x = self.p.insts[inst]
        if len(self.frames) > 60:
            raise Imprecise('call depth')
        if self.hook is not None:
            r = self.hook(self, inst, args, st)
            if r is not None:
                return r
        m = None if x['local'] and 'body' in x and x['kind'] != 'shim' else self.model(x)
        if m is not None:
            r = m(self, st, args, x)
            if r is not None:
                return r
        body = self.p.body(inst)
        if body is None:
            return self.unknown_call(st, x, args)
        if x['local']:
            self.fns.add(x['name'])
        fid = self.fid(parent_fid, site, inst)
        fr = Frame(inst, body, fid, x['name'], len(self.frames), parent_fid)
        if any(f.inst == inst for f in self.frames) and sum(1 for f in self.frames if f.inst == inst) > 4:
            raise Imprecise('recursion')
        st = st.copy()
        if body.spread is not None:
            # rust-call ABI: the last argument is a tuple
            pass
        for i in range(body.nargs):
            st.mem[(fid, i + 1)] = args[i] if i < len(args) else top('arg')
        self.frames.append(fr)
        try:
            exits, rets = self.run_blocks(fr, {0: [st]}, None, None)
        finally:
            self.frames.pop()
        out = []
        for s, v in rets:
            s = s.copy()
            for k in [k for k in s.mem if k[0] == fid]:
                del s.mem[k]
            out.append((s, v))
        return out

    def model(self, x):
        h, tr, m = x['norm']
        t = self.models
        for k in ((h, tr, m), ('*', tr, m) if tr else None, (h, None, m) if tr is None else None):
            if k is not None and k in t:
                return t[k]
        return None

    def unknown_call(self, st, x, args):
        if x['name'].lstrip('<').startswith(EFFECTFUL):
            import codec
            if not codec.infeasible(st.pc):
                self.effects.append(('call of ' + x['name'].split('::<')[0], self.fnname()))
        self.unmodelled.append((x['name'], self.fnname()))
        # an unknown callee may change whatever it was given mutably
        st = st.copy()
        for a, t in zip(args, x.get('sig_in', [])):
            if self.T[t]['k'] == 'ref' and self.T[t].get('mut'):
                a = self.force1(a)
                if a[0] == 'ref' and a[1][0] != 'cv':
                    self.setp(st, a[1], a[2], top('havoc by ' + x['name']))
        if x.get('sig_out') is not None and self.T[x['sig_out']]['k'] == 'never':
            return []
        n = fresh('unknown')
        return [(st, ('opq', 'ret.%s.%d' % (x['norm'][2], n), x['sig_out'])
                 if x.get('sig_out') is not None else top('ret'))]

    def run_blocks(self, fr, entries, region, header):
        """-> exits {block: [states]}, rets [(state, value)]"""
        body = fr.body
        pending = {}
        heap = []
        exits = {}
        rets = []

        def push(b, s, src=None):
            if s.pc == F:
                return
            if region is not None and (b not in region or (b == header and src is not None)):
                exits.setdefault(b, []).append(s)
                return
            if b not in pending:
                pending[b] = []
                heapq.heappush(heap, (body.rpo[b], b))
            pending[b].append(s)
        for b, l in entries.items():
            for s in l:
                push(b, s)
        while heap:
            _, b = heapq.heappop(heap)
            states = self.merge(fr, b, pending.pop(b))
            for s in states:
                if b in body.loops and b != header:
                    ex, rt = self.run_loop(fr, b, s)
                    rets.extend(rt)
                    for t, l in ex.items():
                        for o in l:
                            push(t, o, b)
                else:
                    for t, o, v in self.exec_block(fr, b, s):
                        if t is None:
                            rets.append((o, v))
                        else:
                            push(t, o, b)
        if region is None:
            rets = self.merge_rets(fr, rets)
        return exits, rets

    def merge_rets(self, fr, rets):
        """join return states with the same known result variant"""
        groups = {}
        for s, v in rets:
            if s.pc == F:
                continue
            k = self.vkey(s, v) if v[0] == 'e' else None
            groups.setdefault((k, s.tag), []).append((s, v))
        out = []
        for k, l in groups.items():
            if len(l) == 1:
                out.append(l[0])
                continue
            acc = None
            for s, v in l:
                s = s.copy()
                for x in [x for x in s.mem if x[0] == fr.fid]:
                    del s.mem[x]
                s.mem[('ret', fr.fid)] = v
                acc = self.join(acc, s, (fr.fid, 'ret')) if acc is not None else s
            v = acc.mem.pop(('ret', fr.fid))
            acc = State(acc.pc, {r: self.simpv(x, acc.pc) if x[0] != 'opq' and not (r[0] == 'arg' and x[0] == 'seq') else x
                                 for r, x in acc.mem.items()}, acc.tag)
            out.append((acc, self.simpv(v, acc.pc)))
        return out

    def exec_block(self, fr, b, st):
        """-> list of (target|None, state, retval)"""
        out = []
        stmts = fr.body.blocks[b]['s']
        work = [(0, st)]
        while work:
            i, s = work.pop()
            try:
                s = s.copy()
                while i < len(stmts):
                    self.steps += 1
                    x = stmts[i]
                    if x[0] == '=':
                        fr.line = x[3]
                        v = self.rvalue(fr, s, x[2])
                        if s.pc == F:
                            break
                        p = x[1]
                        if len(p) == 1:
                            s.mem[(fr.fid, p[0])] = v
                        else:
                            r, path = self.resolve(fr, s, p)
                            self.setp(s, r, path, v)
                    elif x[0] == 'setdiscr':
                        r, path = self.resolve(fr, s, x[1])
                        v = self.getp(s, r, path)
                        if v[0] == 'e':
                            self.setp(s, r, path, ('e', v[1], ((x[2], T, v[2][0][2] if v[2] else ()),)))
                        else:
                            self.setp(s, r, path, top('setdiscr'))
                    elif x[0] == 'copynonoverlapping':
                        top('raw copy')
                    i += 1
                if s.pc == F:
                    continue
                if self.steps > self.maxsteps or (self.deadline and time.time() > self.deadline):
                    raise Budget('analysis budget exceeded in %s' % self.fnname())
                out.extend(self.terminator(fr, b, s))
            except Fork as f:
                self.check_split(f)
                for g in f.guards:
                    n = s.assume(g)
                    if n.pc != F:
                        # values under the narrower guard
                        work.append((i, n))
            except Diverge:
                pass
        return out

    def terminator(self, fr, b, st):
        t = fr.body.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st, None)]
        if k == 'return':
            v = st.mem.get((fr.fid, 0), UNIT)
            return [(None, st, v)]
        if k == 'drop':
            return [(t[2], st, None)]
        if k in ('unreachable', 'resume', 'abort'):
            return []
        if k == 'switch':
            v = self.force(st, self.operand(fr, st, t[1]))
            return self.switch(fr, b, st, v, t)
        if k == 'assert':
            fr.line = t[5]
            v = self.force(st, self.operand(fr, st, t[1]))
            c = v[1] if v[0] == 'b' else self.havoc_bool('assert')[1]
            if not t[2]:
                c = NOT(c)
            s = self.oblige(st, c, 'panic', t[3])
            return [(t[4], s, None)] if s is not None else []
        if k == 'call':
            return self.call(fr, b, st, t)
        if k == 'asm':
            self.effects.append(('asm', self.fnname()))
            return []
        raise Imprecise('terminator ' + k)

    def switch(self, fr, b, st, v, t):
        out = []
        rest = T
        if v[0] == 'b':
            for val, tgt in t[2]:
                c = NOT(v[1]) if val == 0 else v[1]
                out.append((c, tgt))
                rest = AND(rest, NOT(c))
        elif v[0] == 'i':
            w = self.bitsof(t[4])
            for val, tgt in t[2]:
                if self.T[t[4]].get('signed') and val >> (w - 1):
                    val -= 1 << w
                c = ieq(v, iconst(val))
                out.append((c, tgt))
                rest = AND(rest, NOT(c))
        else:
            nd = []
            for val, tgt in t[2]:
                a = self.havoc_bool('switch')[1]
                nd.append((AND(rest, a), tgt))
                rest = AND(rest, NOT(a))
            out = nd
        out.append((rest, t[3]))
        res = []
        for c, tgt in out:
            if c == F:
                continue
            s = self.settle(st, c)
            pc = AND(s.pc, c)
            if pc == F:
                continue
            n = s.copy()
            n.pc = pc
            res.append((tgt, n, None))
        return res

    def call(self, fr, b, st, t):
        _, fty, fop, argops, argtys, dest, dty, target, line = t
        fr.line = line
        self.callsites += 1
        args = [self.operand(fr, st, o) for o in argops]
        ft = self.T[fty] if fty is not None else None
        inst = ft.get('inst') if ft is not None and ft['k'] == 'fndef' else None
        if inst is None:
            if ft is not None and ft['k'] == 'fndef':
                x = {'name': ft['name'], 'norm': ('', None, ft['def'].split('::')[-1]), 'sig_in': argtys,
                     'sig_out': dty, 'args': ft['args']}
            else:
                x = {'name': 'fn pointer', 'norm': ('', None, 'fnptr'), 'sig_in': argtys, 'sig_out': dty,
                     'args': []}
                fv = self.force(st, self.operand(fr, st, fop))
                if fv[0] == 'fn':
                    inst = self.T[fv[1]].get('inst')
                elif fv[0] == 'agg' and fv[1] is not None and self.T[fv[1]]['k'] == 'closure':
                    rs = self.apply(st, fv, args, ('fnptr', b), fr.fid)
                    return self.finish_call(fr, b, rs, dest, target)
        if inst is not None:
            args, argtys = self.untuple(st, inst, args, argtys)
            self.cur_dty = dty
            self.cur_argtys = argtys
            self.cur_site = (b, fr.fid)
            rs = self.call_inst(st, inst, args, b, fr.fid)
        else:
            rs = self.unknown_call(st, x, args)
        return self.finish_call(fr, b, rs, dest, target)

    def untuple(self, st, inst, args, argtys):
        """`Fn*::call*(f, (a, b))` resolved to the closure body takes its arguments one by one"""
        if len(args) != 2 or not argtys or len(argtys) != 2:
            return args, argtys
        x = self.p.insts[inst]
        if '{closure' not in x['name'] or x['kind'] == 'shim':
            return args, argtys
        body = self.p.body(inst)
        t = self.T[argtys[1]]
        if body is None or t['k'] != 'tuple' or body.spread is not None:
            return args, argtys
        if body.nargs == 2 and body.locals[2] == argtys[1]:
            return args, argtys
        v = self.force(st, args[1])
        if v[0] == 'agg' and body.nargs == 1 + len(v[2]):
            return [args[0]] + list(v[2]), [argtys[0]] + list(t['fields'])
        return args, argtys

    def finish_call(self, fr, b, rs, dest, target):
        out = []
        if target is None:
            return []
        for s, v in rs:
            if s.pc == F:
                continue
            s = s.copy()
            if len(dest) == 1:
                s.mem[(fr.fid, dest[0])] = v
            else:
                r, path = self.resolve(fr, s, dest)
                self.setp(s, r, path, v)
            out.append((target, s, None))
        return out

    def apply(self, st, f, args, site, parent):
        """call a closure / fn item value with plain arguments"""
        f = self.force(st, f)
        env = None
        if f[0] == 'ref':
            env = f
            f = self.force(st, self.getp(st, f[1], f[2]))
            while f[0] == 'ref':
                env = f
                f = self.force(st, self.getp(st, f[1], f[2]))
        if f[0] == 'fn':
            t = self.T[f[1]]
            if t.get('inst') is None:
                raise Imprecise('unresolved fn item')
            x = self.p.insts[t['inst']]
            if 'body' not in x and self.model(x) is None:
                # tuple-struct / variant constructors have shim bodies; anything else is unknown
                pass
            return self.call_inst(st, t['inst'], list(args), site, parent)
        if f[0] == 'agg' and f[1] is not None and self.T[f[1]]['k'] == 'closure':
            t = self.T[f[1]]
            inst = t['inst']
            body = self.p.body(inst)
            if body is None:
                raise Imprecise('closure without body')
            by_ref = t.get('ck') in ('Fn', 'FnMut')
            if by_ref:
                if env is None:
                    st = st.copy()
                    k = ('env', (parent, site))
                    st.mem[k] = f
                    env = ('ref', k, ())
                a0 = env
            else:
                a0 = f
            if body.nargs == 1 + len(args):
                a = [a0] + list(args)
            elif body.nargs == 2:
                a = [a0, ('agg', None, tuple(args))]
            else:
                raise Imprecise('closure arity')
            return self.call_inst(st, inst, a, site, parent)
        raise Imprecise('call of ' + f[0])

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, h, st):
        region = fr.body.loops[h]

        def body(s):
            ex, rt = self.run_blocks(fr, {h: [s]}, region, h)
            backs = self.merge(fr, h, ex.pop(h, []))
            outs = []
            for t, l in ex.items():
                for o in l:
                    outs.append((t, o, None))
            for o, v in rt:
                outs.append((None, o, v))
            return backs, outs
        key = (fr.fid, h)
        live = fr.body.live[h]

        def relevant(r):
            return r[0] != fr.fid or r[1] in live
        outs = self.loop(key, st, body, relevant, self.p.insts[fr.inst]['name'],
                         lambda l: fr.body.locals[l[1]] if l[0] == fr.fid else None)
        ex, rt = {}, []
        for t, o, v in outs:
            if t is None:
                rt.append((o, v))
            else:
                ex.setdefault(t, []).append(o)
        return ex, rt

    def loop(self, key, st, body, relevant, name, tyof):
        import loops
        if self.topics is not None:
            return self.topics.run(self, key, st, body, relevant, name, tyof)
        return loops.run(self, key, st, body, relevant, name, tyof)

    # ------------------------------------------------------------ entry
    def call_by_name(self, name, st, args):
        i = self.p.byname.get(name)
        if i is None:
            raise KeyError(name)
        return self.call_inst(st, i, args, ('entry', name), 0)
