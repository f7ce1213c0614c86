"""Analysis of the decode entry points: v4::read, v5::read, check.

The packet readers are called with a frame whose length equals the length announced by the fixed
header. That contract is proved at each call site; the reader is then analysed for an arbitrary
frame satisfying it (assume/guarantee), so the analysis of the readers does not depend on how the
length was encoded.
"""
from dom import *
import dom
import eng as E
from eng import Engine, State, top

MAXREM = 268435455


def is_adt(eng, ty, name):
    t = eng.T[ty]
    while t['k'] in ('ref', 'ptr'):
        t = eng.T[t['to']]
    return t['k'] == 'adt' and t['def'].split('::')[-1] == name


def packet_result(eng, ty):
    """Result<T, _> of a packet struct: the callee decodes one kind of packet"""
    t = eng.T[ty]
    if t['k'] != 'adt' or t['def'].split('::')[-1] != 'Result':
        return False
    try:
        p = eng.T[t['variants'][0]['fields'][0]['ty']]
    except (KeyError, IndexError):
        return False
    return p['k'] == 'adt' and len(p.get('variants', [])) == 1


def entry_args(eng, st, inst, prefix='a'):
    x = eng.p.insts[inst]
    out = []
    for k, t in enumerate(x['sig_in']):
        ty = eng.T[t]
        if ty['k'] == 'ref':
            v = ('opq', '%s%d' % (prefix, k), ty['to'])
            st.mem[('arg', k)] = v
            out.append(('ref', ('arg', k), ()))
        else:
            out.append(('opq', '%s%d' % (prefix, k), t))
    return out


class Contract:
    """generalise calls of packet readers"""
    def __init__(self, focus=None):
        self.focus = focus
        self.calls = []           # (name, ok)
        self.results = []         # outcomes of the focus
        self.busy = False

    def __call__(self, eng, inst, args, st):
        x = eng.p.insts[inst]
        if self.busy or not x['local'] or 'body' not in x or x['kind'] == 'shim':
            return None
        ih = ib = None
        for k, t in enumerate(x['sig_in']):
            if is_adt(eng, t, 'FixedHeader'):
                ih = k
            elif is_adt(eng, t, 'Bytes'):
                ib = k
        if ih is None or ib is None or len(args) != len(x['sig_in']):
            return None
        if not packet_result(eng, x['sig_out']):
            return None
        g = self.generalise(eng, st, args[ih], args[ib])
        if g is None:
            self.calls.append((x['name'], False))
            return None
        st2, fh, by = g
        self.calls.append((x['name'], True))
        a2 = list(args)
        for k, v in ((ih, fh), (ib, by)):
            a = eng.force1(args[k])
            if a[0] == 'ref':
                r = ('gen', k)
                st2.mem[r] = v
                a2[k] = ('ref', r, ())
            else:
                a2[k] = v
        if self.focus == x['name']:
            self.busy = True
            try:
                rs = eng.call_inst(st2, inst, a2, ('focus',), 0)
            finally:
                self.busy = False
            self.results.append((st2, rs))
        # the caller sees an arbitrary result; the frame it lent is used up
        st3 = st.copy()
        for k in (ih, ib):
            a = eng.force1(args[k])
            if a[0] == 'ref' and a[1][0] != 'cv' and eng.T[x['sig_in'][k]].get('mut'):
                eng.setp(st3, a[1], a[2], ('opq', 'after.%s' % x['name'], eng.T[x['sig_in'][k]]['to']))
        return [(st3, ('opq', 'ret.' + x['name'], x['sig_out']))]

    def generalise(self, eng, st, fh, by):
        fh, by = eng.force1(fh), eng.force1(by)
        if fh[0] == 'ref':
            fh = eng.force(st, eng.getp(st, fh[1], fh[2]))
        if by[0] == 'ref':
            by = eng.force(st, eng.getp(st, by[1], by[2]))
        if fh[0] != 'agg' or by[0] != 'seq' or fh[1] is None:
            return None
        names = [f['name'] for f in eng.T[fh[1]]['variants'][0]['fields']]
        d = {n: eng.force1(v) for n, v in zip(names, fh[2])}
        if set(d) != {'byte1', 'fixed_header_len', 'remaining_len'} or any(v[0] != 'i' for v in d.values()):
            return None
        h, r = as_poly(d['fixed_header_len']), as_poly(d['remaining_len'])
        if h.t == psym(('v', 'hdr.len')).t:
            return st.copy(), fh, by
        n = eng.mod.seqlen(eng, by[1])
        pc = st.pc
        for p, lo, hi in ((h, 2, 5), (r, 0, MAXREM)):
            if not prove_ge(p, lo, pc) or not prove_ge(pscale(p, -1), -hi, pc):
                return None
        if not isame(ipoly(n), ipoly(padd(h, r)), pc):
            return None
        hs, rs = ('v', 'hdr.len'), ('v', 'hdr.rem')
        BOUNDS[hs] = (2, 5)
        BOUNDS[rs] = (0, MAXREM)
        keep = set()
        if d['byte1'][1] is not None:
            for b in d['byte1'][1]:
                keep |= {B.atoms[v] for v in B.support(b)}
        st2 = State(B.exists(pc, lambda k: k not in keep), {}, None)
        fs = {'byte1': d['byte1'], 'fixed_header_len': ipoly(psym(hs)), 'remaining_len': ipoly(psym(rs))}
        return st2, ('agg', fh[1], tuple(fs[x] for x in names)), \
            ('seq', (('sl', 'frame', P(0), padd(psym(hs), psym(rs))),))


def run_entry(prog, name, focus=None, deadline=None):
    import time
    dom.reset()
    eng = Engine(prog)
    if deadline:
        eng.deadline = time.time() + deadline
    c = Contract(focus)
    eng.hook = c
    st = State()
    inst = prog.byname[name]
    args = entry_args(eng, st, inst)
    rs = eng.call_inst(st, inst, args, 'entry', 0)
    return eng, c, st, rs


def readers(prog, name):
    eng, c, st, rs = run_entry(prog, name)
    return sorted({n for n, ok in c.calls if ok})
