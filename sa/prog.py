"""The dumped program: types, instances, control-flow facts."""
import json


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def head(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('&mut ', '&', 'mut ', '*const ', '*mut ', 'dyn '):
            if t.startswith(p):
                t = t[len(p):].strip()
                ch = True
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
            ch = ' ' in t
    if t.startswith('['):
        return 'array' if ';' in t and t.endswith(']') and _top_semi(t) else 'slice'
    if t.startswith('('):
        return 'tuple'
    if t.startswith('{closure'):
        return 'closure'
    if t.startswith('fn(') or t.startswith('fn item') or t.startswith('{fn'):
        return 'fn'
    t = strip_generics(t).strip().rstrip(':')
    return t.split('::')[-1].strip()


def _top_semi(t):
    d = 0
    for i, c in enumerate(t[1:-1]):
        if c in '[(<':
            d += 1
        elif c in '])>':
            d -= 1
        elif c == ';' and d == 0:
            return True
    return False


def _match(s, i):
    d = 0
    while i < len(s):
        if s[i] == '<':
            d += 1
        elif s[i] == '>' and s[i - 1] != '-':
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(s) - 1


def _split_as(inner):
    d = 0
    for i, c in enumerate(inner):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and inner[i - 1] != '-'):
            d -= 1
        elif d == 0 and inner.startswith(' as ', i):
            return inner[:i], inner[i + 4:]
    return inner, None


def norm(name):
    """(self head, trait, method) of a resolved instance name"""
    s = name
    if s.startswith('<'):
        j = _match(s, 0)
        a, b = _split_as(s[1:j])
        rest = strip_generics(s[j + 1:]).strip(':')
        m = rest.split('::')
        m = [x for x in m if x]
        return head(a), (head(b) if b else None), '::'.join(m)
    k = s.find('<impl ')
    if k >= 0:
        j = _match(s, k)
        inner = s[k + 6:j]
        d = 0
        tr = None
        for i, c in enumerate(inner):
            if c in '<([{':
                d += 1
            elif c in ')]}' or (c == '>' and inner[i - 1] != '-'):
                d -= 1
            elif d == 0 and inner.startswith(' for ', i):
                tr, inner = inner[:i], inner[i + 5:]
                break
        rest = [x for x in strip_generics(s[j + 1:]).split('::') if x]
        return head(inner), (head(tr) if tr else None), '::'.join(rest)
    p = [x for x in strip_generics(s).split('::') if x]
    if len(p) >= 2:
        return p[-2], None, p[-1]
    return '', None, p[-1]


class Body:
    def __init__(self, j):
        self.nargs = j['args']
        self.spread = j['spread']
        self.locals = j['locals']
        self.names = {}
        for l, n in j['names']:
            self.names.setdefault(l, n)
        self.span = j['span']
        self.blocks = j['blocks']
        self.prep()

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[7]] if t[7] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def prep(self):
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        # postorder from block 0
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.order = rpo
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in self.succ[b]:
                preds[x].append(b)
        self.preds = preds
        # dominators
        dom = {b: None for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b] if dom[p] is not None]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in rpo:
            for x in self.succ[b]:
                if x in dom[b]:
                    body = self.loops.setdefault(x, {x})
                    wl = [b]
                    while wl:
                        y = wl.pop()
                        if y not in body:
                            body.add(y)
                            wl.extend(preds[y])
        self.irreducible = any(self.rpo[x] <= self.rpo[b] and x not in dom[b]
                               for b in rpo for x in self.succ[b])
        # RPO that keeps every loop's blocks before its exits: fine for merging since the
        # scheduler always pops the smallest index and loops are run as a unit
        self.liveness()

    def liveness(self):
        use, dfn = {}, {}
        borrowed = set()

        def pl_use(p, u):
            u.add(p[0])
            for e in p[1:]:
                if e[0] == 'index':
                    u.add(e[1])

        def op_use(o, u):
            if o[0] in ('copy', 'move'):
                pl_use(o[1], u)

        def rv_use(r, u):
            k = r[0]
            if k in ('ref', 'addr'):
                if not (len(r[1]) > 1 and r[1][1][0] == 'deref'):
                    borrowed.add(r[1][0])
                pl_use(r[1], u)
            elif k in ('len', 'discr'):
                pl_use(r[1], u)
            elif k in ('use', 'repeat'):
                op_use(r[1], u)
            elif k in ('bin', 'cbin'):
                op_use(r[2], u)
                op_use(r[3], u)
            elif k in ('un', 'cast'):
                op_use(r[2], u)
            elif k == 'agg':
                for o in r[2]:
                    op_use(o, u)
        for b in self.order:
            u, d = set(), set()

            def use_set(s):
                u.update(x for x in s if x not in d)
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    t = set()
                    rv_use(s[2], t)
                    if len(s[1]) > 1:
                        pl_use(s[1], t)
                    use_set(t)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == 'assume':
                    t = set()
                    op_use(s[1], t)
                    use_set(t)
                elif s[0] == 'setdiscr':
                    use_set({s[1][0]})
            t = self.blocks[b]['t']
            x = set()
            if t[0] == 'switch':
                op_use(t[1], x)
            elif t[0] == 'call':
                op_use(t[2], x)
                for o in t[3]:
                    op_use(o, x)
                if len(t[5]) > 1:
                    pl_use(t[5], x)
            elif t[0] == 'assert':
                op_use(t[1], x)
            elif t[0] == 'return':
                x.add(0)
            use_set(x)
            if t[0] == 'call' and len(t[5]) == 1:
                d.add(t[5][0])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {b: live[b] | borrowed for b in self.order}
        self.borrowed = borrowed


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        self.tys = j['tys']
        self.insts = j['insts']
        self.roots = j['roots']
        self._bodies = {}
        self.byname = {}
        for i, x in enumerate(self.insts):
            if x is None:
                continue
            x['id'] = i
            x['norm'] = norm(x['name'])
            self.byname.setdefault(x['name'], i)
        self.tyname = {}
        for i, t in enumerate(self.tys):
            self.tyname.setdefault(t['name'], i)

    def body(self, i):
        if i not in self._bodies:
            b = self.insts[i].get('body')
            self._bodies[i] = Body(b) if b else None
        return self._bodies[i]

    def ty_of(self, name):
        return self.tyname.get(name)

    def adt(self, defname):
        for i, t in enumerate(self.tys):
            if t['k'] == 'adt' and t['def'] == defname:
                return i
        return None

    def adthead(self, ty):
        t = self.tys[ty]
        if t['k'] == 'adt':
            return t['def'].split('::')[-1]
        return t['k']
