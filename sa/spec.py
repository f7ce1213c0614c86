"""What the MQTT 3.1.1 / 5.0 documents prescribe, written down independently of the code.

Wire images are lists of tokens over the abstract packet value:
  byte(v) be(v, n) raw(segs) str(segs) vi(v) opt(guard, toks) each(coll, toks) props(items)
"""
from dom import *
import os
import dom
import eng as E
import models
from codec import field_of, variant, infeasible, refutes

# ------------------------------------------------------------------ tables of the protocol
CONNACK4 = {'Success': 0, 'RefusedProtocolVersion': 1, 'BadClientId': 2, 'ServiceUnavailable': 3,
            'BadUserNamePassword': 4, 'NotAuthorized': 5}
CONNACK5 = {'Success': 0x00, 'UnspecifiedError': 0x80, 'MalformedPacket': 0x81, 'ProtocolError': 0x82,
            'ImplementationSpecificError': 0x83, 'UnsupportedProtocolVersion': 0x84,
            'ClientIdentifierNotValid': 0x85, 'BadUserNamePassword': 0x86, 'NotAuthorized': 0x87,
            'ServerUnavailable': 0x88, 'ServerBusy': 0x89, 'Banned': 0x8A, 'BadAuthenticationMethod': 0x8C,
            'TopicNameInvalid': 0x90, 'PacketTooLarge': 0x95, 'QuotaExceeded': 0x97, 'PayloadFormatInvalid': 0x99,
            'RetainNotSupported': 0x9A, 'QoSNotSupported': 0x9B, 'UseAnotherServer': 0x9C, 'ServerMoved': 0x9D,
            'ConnectionRateExceeded': 0x9F}
PUBACK5 = {'Success': 0x00, 'NoMatchingSubscribers': 0x10, 'UnspecifiedError': 0x80,
           'ImplementationSpecificError': 0x83, 'NotAuthorized': 0x87, 'TopicNameInvalid': 0x90,
           'PacketIdentifierInUse': 0x91, 'QuotaExceeded': 0x97, 'PayloadFormatInvalid': 0x99}
PUBREL5 = {'Success': 0x00, 'PacketIdentifierNotFound': 0x92}
SUBACK5 = {'QoS0': 0, 'QoS1': 1, 'QoS2': 2, 'Unspecified': 0x80, 'ImplementationSpecific': 0x83,
           'NotAuthorized': 0x87, 'TopicFilterInvalid': 0x8F, 'PkidInUse': 0x91, 'QuotaExceeded': 0x97,
           'SharedSubscriptionsNotSupported': 0x9E, 'SubscriptionIdNotSupported': 0xA1,
           'WildcardSubscriptionsNotSupported': 0xA2}
UNSUBACK5 = {'Success': 0x00, 'NoSubscriptionExisted': 0x11, 'UnspecifiedError': 0x80,
             'ImplementationSpecificError': 0x83, 'NotAuthorized': 0x87, 'TopicFilterInvalid': 0x8F,
             'PacketIdentifierInUse': 0x91}
DISCONNECT5 = {'NormalDisconnection': 0x00, 'DisconnectWithWillMessage': 0x04, 'UnspecifiedError': 0x80,
               'MalformedPacket': 0x81, 'ProtocolError': 0x82, 'ImplementationSpecificError': 0x83,
               'NotAuthorized': 0x87, 'ServerBusy': 0x89, 'ServerShuttingDown': 0x8B, 'KeepAliveTimeout': 0x8D,
               'SessionTakenOver': 0x8E, 'TopicFilterInvalid': 0x8F, 'TopicNameInvalid': 0x90,
               'ReceiveMaximumExceeded': 0x93, 'TopicAliasInvalid': 0x94, 'PacketTooLarge': 0x95,
               'MessageRateTooHigh': 0x96, 'QuotaExceeded': 0x97, 'AdministrativeAction': 0x98,
               'PayloadFormatInvalid': 0x99, 'RetainNotSupported': 0x9A, 'QoSNotSupported': 0x9B,
               'UseAnotherServer': 0x9C, 'ServerMoved': 0x9D, 'SharedSubscriptionNotSupported': 0x9E,
               'ConnectionRateExceeded': 0x9F, 'MaximumConnectTime': 0xA0,
               'SubscriptionIdentifiersNotSupported': 0xA1, 'WildcardSubscriptionsNotSupported': 0xA2}
QOS = {'AtMostOnce': 0, 'AtLeastOnce': 1, 'ExactlyOnce': 2}
RETAIN = {'OnEverySubscribe': 0, 'OnNewSubscribe': 1, 'Never': 2}
CODES = {('v4', 'ConnAck'): CONNACK4, ('v5', 'ConnAck'): CONNACK5, ('v5', 'PubAck'): PUBACK5,
         ('v5', 'PubRec'): PUBACK5, ('v5', 'PubRel'): PUBREL5, ('v5', 'PubComp'): PUBREL5,
         ('v5', 'SubAck'): SUBACK5, ('v5', 'UnsubAck'): UNSUBACK5, ('v5', 'Disconnect'): DISCONNECT5}

HEADER = {'Connect': 0x10, 'ConnAck': 0x20, 'PubAck': 0x40, 'PubRec': 0x50, 'PubRel': 0x62, 'PubComp': 0x70,
          'Subscribe': 0x82, 'SubAck': 0x90, 'Unsubscribe': 0xA2, 'UnsubAck': 0xB0, 'PingReq': 0xC0,
          'PingResp': 0xD0, 'Disconnect': 0xE0}

# (field, identifier, wire type)
S, BIN, U8, U16, U32, VI, PAIR = 'str', 'bin', 'u8', 'u16', 'u32', 'vi', 'pair'
REASON = [('reason_string', 31, S), ('user_properties', 38, PAIR)]
PROPS = {
    'Connect': [('session_expiry_interval', 17, U32), ('receive_maximum', 33, U16), ('max_packet_size', 39, U32),
                ('topic_alias_max', 34, U16), ('request_response_info', 25, U8), ('request_problem_info', 23, U8),
                ('user_properties', 38, PAIR), ('authentication_method', 21, S), ('authentication_data', 22, BIN)],
    'Will': [('delay_interval', 24, U32), ('payload_format_indicator', 1, U8), ('message_expiry_interval', 2, U32),
             ('content_type', 3, S), ('response_topic', 8, S), ('correlation_data', 9, BIN),
             ('user_properties', 38, PAIR)],
    'ConnAck': [('session_expiry_interval', 17, U32), ('receive_max', 33, U16), ('max_qos', 36, U8),
                ('retain_available', 37, U8), ('max_packet_size', 39, U32), ('assigned_client_identifier', 18, S),
                ('topic_alias_max', 34, U16), ('reason_string', 31, S), ('user_properties', 38, PAIR),
                ('wildcard_subscription_available', 40, U8), ('subscription_identifiers_available', 41, U8),
                ('shared_subscription_available', 42, U8), ('server_keep_alive', 19, U16),
                ('response_information', 26, S), ('server_reference', 28, S), ('authentication_method', 21, S),
                ('authentication_data', 22, BIN)],
    'Publish': [('payload_format_indicator', 1, U8), ('message_expiry_interval', 2, U32), ('topic_alias', 35, U16),
                ('response_topic', 8, S), ('correlation_data', 9, BIN), ('user_properties', 38, PAIR),
                ('subscription_identifiers', 11, VI), ('content_type', 3, S)],
    'PubAck': REASON, 'PubRec': REASON, 'PubRel': REASON, 'PubComp': REASON, 'SubAck': REASON, 'UnsubAck': REASON,
    'Subscribe': [('id', 11, VI), ('user_properties', 38, PAIR)],
    'Unsubscribe': [('user_properties', 38, PAIR)],
    'Disconnect': [('session_expiry_interval', 17, U32), ('reason_string', 31, S), ('user_properties', 38, PAIR),
                   ('server_reference', 28, S)],
}
IDS = {1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42}


# ------------------------------------------------------------------ tokens
def deep(p, pc):
    """the form with the operands of its bit fields simplified under pc (None: no change)"""
    r = P(0)
    ch = False
    for (s, g), c in p.t.items():
        if s is not None and s[0] == 'bf':
            w = AND(pc, g)
            if w == F:
                ch = True
                continue
            q = deep(s[1], w) or s[1]
            q = psimp(q, w)
            if q is not s[1] and q.t != s[1].t:
                ch = True
                f = fit_fields(field(q, s[2], s[3]), w)
                r = padd(r, pgate(pscale(f, c), g))
                continue
        r = padd(r, Poly({(s, g): c}))
    return psimp(r, pc) if ch else None


SHOWN = int(os.environ.get("SHOWN", "50"))


class Tok:
    __slots__ = ('k', 'label', 'a', 'b')

    def __init__(self, k, label, a, b=None):
        self.k, self.label, self.a, self.b = k, label, a, b


def byte(label, v):
    return Tok('byte', label, iconst(v) if isinstance(v, int) else v)


def be(label, v, n):
    return Tok('be', label, v if isinstance(v, Poly) else as_poly(v), n)


def raw(label, segs):
    return Tok('raw', label, tuple(segs))


def string(eng, label, segs):
    return [be(label + ' length', models.seqlen(eng, segs), 2), raw(label, segs)]


def vi(label, p):
    return Tok('vi', label, p)


def opt(g, toks, label=''):
    return Tok('opt', label, g, list(toks))


def each(coll, toks, label=''):
    return Tok('each', label, coll, list(toks))


def vilen(p):
    return padd(padd(padd(P(1), pind(GE(p, 128))), pind(GE(p, 16384))), pind(GE(p, 2097152)))


def toklen(eng, toks, pc=T):
    t = P(0)
    for k in toks:
        if k.k == 'byte':
            n = P(1)
        elif k.k == 'be':
            n = P(k.b)
        elif k.k == 'raw':
            n = models.seqlen(eng, k.a)
        elif k.k == 'vi':
            n = vilen(psimp(k.a, pc))
        elif k.k == 'opt':
            g = T if IMPL(pc, k.a) else B.restrict(k.a, pc) if AND(pc, k.a) != F else F
            n = pgate(toklen(eng, k.b, AND(pc, g)), g) if g != F else P(0)
        elif k.k == 'each':
            n = models.coll_sum(k.a, toklen(eng, k.b, pc))
        t = padd(t, n)
    return psimp(pnorm(t), pc)


# ------------------------------------------------------------------ building images
class Img:
    def __init__(self, eng, st, self_, v, ty, order=1):
        self.e, self.st, self.s, self.v, self.ty = eng, st, self_, v, ty
        self.order = order
        self.pc = T

    def fo(self, *n):
        return field_of(self.e, self.st, self.s, *n)

    def seg(self, *n):
        return self.fo(*n)[1]

    def has(self, *n):
        return variant(self.e, self.fo(*n), 'Some')

    def code(self, val, table):
        """number of an enum value"""
        val = self.e.force1(val)
        p = P(0)
        t = self.e.T[val[1]]
        for i, g, f in val[2]:
            p = padd(p, pgate(P(table[t['variants'][i]['name']]), g))
        return ipoly(pnorm(p))

    def bit(self, val, k):
        g = self.e.force1(val)[1]
        return (k, g)

    def flags(self, *bits):
        a = [F] * 8
        for k, g in bits:
            a[k] = g
        return ibits(a)

    def guard2(self, val, table):
        """two bits of an enum value"""
        lo = hi = F
        val = self.e.force1(val)
        t = self.e.T[val[1]]
        for i, g, f in val[2]:
            n = table[t['variants'][i]['name']]
            lo = OR(lo, g) if n & 1 else lo
            hi = OR(hi, g) if n & 2 else hi
        return lo, hi

    def coll(self, *n):
        """(collection, element value)"""
        s = self.fo(*n)[1]
        assert len(s) == 1 and s[0][0] == 'map', s
        return s[0][1], s[0][2]

    def prop(self, base, name, pid, wt):
        """token of one property"""
        e = self.e
        if wt == PAIR:
            c, el = self.coll(*(base + (name,)))
            el = e.force1(el)
            k, v = e.force1(el[2][0]), e.force1(el[2][1])
            return each(c, [byte('identifier of ' + name, pid)] + string(e, name + ' key', k[1]) +
                        string(e, name + ' value', v[1]), name)
        x = self.fo(*(base + (name,)))
        if x[0] == 'seq':
            c, el = self.coll(*(base + (name,)))
            return each(c, [byte('identifier of ' + name, pid), vi(name, as_poly(e.force1(el)))], name)
        g = variant(e, x, 'Some')
        x = self.fo(*(base + (name, 'Some')))
        t = [byte('identifier of ' + name, pid)]
        if wt in (S, BIN):
            t += string(e, name, x[1])
        elif wt == VI:
            t.append(vi(name, as_poly(x)))
        elif wt == U8:
            t.append(byte(name, x))
        else:
            t.append(be(name, x, {U16: 2, U32: 4}[wt]))
        return opt(g, t, name)

    def items(self, base, table):
        l = [self.prop(base, *r) for r in table]
        if self.order == -1:
            l.reverse()
        elif self.order > 1:
            k = self.order % len(l)
            l = l[k:] + l[:k]
        return l

    def block(self, opath, table):
        """property block; absent properties are an empty block"""
        x = self.fo(*opath)
        some = variant(self.e, x, 'Some')
        its = self.items(opath + ('Some',), table)
        n = toklen(self.e, its, AND(self.pc, some))
        return [vi('property length', psimp(pgate(n, some), self.pc)), opt(some, [Tok('props', 'properties', its)], 'properties')]

    # -------------------------------------------------------------- bodies
    def image(self, pc=T):
        """[(guard, tokens of the whole packet)]"""
        out = []
        self.pc = pc
        fn = getattr(self, 'p_' + self.ty.lower())
        for k, (g, first, body) in enumerate(fn()):
            self.pc = AND(pc, g)
            if self.pc == F:
                continue
            g, first, body = fn()[k]
            b = flatprops(body)
            out.append((g, [first, vi('remaining length', toklen(self.e, b, self.pc))] + body))
            self.pc = pc
        return out

    def one(self, body):
        return [(T, byte('fixed header byte', HEADER[self.ty]), body)]

    def p_connect(self):
        e, v5 = self.e, self.v == 'v5'
        proto = self.fo('protocol')
        lv = P(0)
        t = e.T[proto[1]]
        level = self.code(proto, {'V4': 4, 'V5': 5})
        p5 = variant(e, proto, 'V5') if v5 else F
        will, login = self.has('last_will'), self.has('login')
        q0, q1 = self.guard2(self.fo('last_will', 'Some', 'qos'), QOS)
        un, pw = self.seg('login', 'Some', 'username'), self.seg('login', 'Some', 'password')
        hu = AND(login, GE(models.seqlen(e, un), 1))
        hp = AND(login, GE(models.seqlen(e, pw), 1))
        ret = e.force1(self.fo('last_will', 'Some', 'retain'))[1]
        cs = e.force1(self.fo('clean_session'))[1]
        flags = self.flags((1, cs), (2, will), (3, AND(will, q0)), (4, AND(will, q1)), (5, AND(will, ret)),
                           (6, hp), (7, hu))
        b = [be('protocol name length', P(4), 2)] + [byte('protocol name', c) for c in b'MQTT'] + \
            [byte('protocol level', level), byte('connect flags', flags), be('keep alive', self.fo('keep_alive'), 2)]
        if v5:
            b.append(opt(p5, self.block(('properties',), PROPS['Connect']), 'properties'))
        b += string(e, 'client id', self.seg('client_id'))
        w = []
        if v5:
            w.append(opt(p5, self.block(('last_will', 'Some', 'properties'), PROPS['Will']), 'will properties'))
        w += string(e, 'will topic', self.seg('last_will', 'Some', 'topic'))
        w += string(e, 'will message', self.seg('last_will', 'Some', 'message'))
        b.append(opt(will, w, 'will'))
        b.append(opt(hu, string(e, 'user name', un), 'user name'))
        b.append(opt(hp, string(e, 'password', pw), 'password'))
        return self.one(b)

    def p_connack(self):
        sp = self.e.force1(self.fo('session_present'))[1]
        b = [byte('acknowledge flags', self.flags((0, sp))),
             byte('return code', self.code(self.fo('code'), CODES[(self.v, self.ty)]))]
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['ConnAck'])
        return self.one(b)

    def p_publish(self):
        e = self.e
        dup, ret = e.force1(self.fo('dup'))[1], e.force1(self.fo('retain'))[1]
        q0, q1 = self.guard2(self.fo('qos'), QOS)
        h = byte('fixed header byte', self.flags((0, ret), (1, q0), (2, q1), (3, dup), (4, T), (5, T)))
        b = string(e, 'topic', self.seg('topic'))
        b.append(opt(OR(q0, q1), [be('packet identifier', self.fo('pkid'), 2)], 'packet identifier'))
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['Publish'])
        b.append(raw('payload', self.seg('payload')))
        return [(T, h, b)]

    def pkid(self):
        return be('packet identifier', self.fo('pkid'), 2)

    def ack(self):
        if self.v == 'v4':
            return self.one([self.pkid()])
        h = byte('fixed header byte', HEADER[self.ty])
        code = self.code(self.fo('reason'), CODES[(self.v, self.ty)])
        none = NOT(self.has('properties'))
        ok = variant(self.e, self.fo('reason'), 'Success')
        short = AND(none, ok)
        mid = AND(none, NOT(ok))
        return [(short, h, [self.pkid()]),
                (mid, h, [self.pkid(), byte('reason code', code)]),
                (NOT(none), h, [self.pkid(), byte('reason code', code)] +
                 self.block(('properties',), PROPS[self.ty]))]

    p_puback = p_pubrec = p_pubrel = p_pubcomp = ack

    def p_subscribe(self):
        e = self.e
        b = [self.pkid()]
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['Subscribe'])
        c, el = self.coll('filters')
        f = lambda n: field_of(e, self.st, el, n)
        t = string(e, 'topic filter', f('path')[1])
        q0, q1 = self.guard2(f('qos'), QOS)
        bits = [(0, q0), (1, q1)]
        if self.v == 'v5':
            r0, r1 = self.guard2(f('retain_forward_rule'), RETAIN)
            bits += [(2, e.force1(f('nolocal'))[1]), (3, e.force1(f('preserve_retain'))[1]), (4, r0), (5, r1)]
        t.append(byte('subscription options', self.flags(*bits)))
        b.append(each(c, t, 'filters'))
        return self.one(b)

    def p_unsubscribe(self):
        e = self.e
        b = [self.pkid()]
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['Unsubscribe'])
        c, el = self.coll('topics' if self.v == 'v4' else 'filters')
        b.append(each(c, string(e, 'topic filter', e.force1(el)[1]), 'filters'))
        return self.one(b)

    def p_suback(self):
        b = [self.pkid()]
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['SubAck'])
        c, el = self.coll('return_codes')
        el = self.e.force1(el)
        if self.v == 'v5':
            code = self.code(el, SUBACK5)
        else:
            t = self.e.T[el[1]]
            p = P(0)
            for i, g, f in el[2]:
                n = t['variants'][i]['name']
                p = padd(p, pgate(P(0x80), g) if n == 'Failure' else pgate(as_poly(self.code(f[0], QOS)), g))
            code = ipoly(pnorm(p))
        b.append(each(c, [byte('return code', code)], 'return codes'))
        return self.one(b)

    def p_unsuback(self):
        b = [self.pkid()]
        if self.v == 'v5':
            b += self.block(('properties',), PROPS['UnsubAck'])
            c, el = self.coll('reasons')
            b.append(each(c, [byte('reason code', self.code(el, UNSUBACK5))], 'reasons'))
        return self.one(b)

    def p_pingreq(self):
        return self.one([])

    p_pingresp = p_pingreq

    def p_disconnect(self):
        if self.v == 'v4':
            return self.one([])
        h = byte('fixed header byte', 0xE0)
        code = self.code(self.fo('reason_code'), DISCONNECT5)
        none = NOT(self.has('properties'))
        ok = variant(self.e, self.fo('reason_code'), 'NormalDisconnection')
        return [(AND(none, ok), h, []),
                (AND(none, NOT(ok)), h, [byte('reason code', code)]),
                (NOT(none), h, [byte('reason code', code)] + self.block(('properties',), PROPS['Disconnect']))]


def flatprops(toks):
    out = []
    for t in toks:
        if t.k == 'props':
            out += t.a if not isinstance(t.a, tuple) else list(t.a)
        elif t.k in ('opt', 'each'):
            out.append(Tok(t.k, t.label, t.a, flatprops(t.b)))
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------ comparing an image with what is written
class Diff(Exception):
    def __init__(self, label, what):
        self.label, self.what = label, what


def showseg(s):
    if s is None:
        return 'nothing'
    if s[0] == 'b':
        c = ival(s[1])
        return 'byte 0x%02x' % c if c is not None else 'byte %s' % repr(as_poly(s[1]))[:60]
    if s[0] == 'be':
        return 'u%d %s' % (8 * s[2], repr(s[1])[:60])
    if s[0] == 'sl':
        return 'bytes of ' + str(s[1])
    if s[0] == 'alt':
        return 'if %s: %s' % (show(s[1])[:60], ' '.join(showseg(x) for x in s[2][:2]))
    if s[0] in ('each', 'map'):
        return 'for each of %s' % (s[1],)
    return s[0]


def first_id(segs):
    return ival(segs[0][1]) if segs and segs[0][0] == 'b' else None


class Cmp:
    """compare written segments with an image; the property items of a block may come in any order"""
    def __init__(self, eng):
        self.e = eng
        self.obls = 0
        self.labels = set()

    def run(self, act, toks, pc, done=None):
        """raises Diff"""
        e = self.e
        stack = [(tuple(act), tuple(toks), pc)]
        n = 0
        while stack:
            act, toks, pc = stack.pop()
            n += 1
            if n > 4000:
                raise E.Budget('image comparison')
            if pc == F or refutes(pc):
                continue
            stack += self.step(act, toks, pc)

    def norm(self, act, pc):
        from codec import drop_empty
        return tuple(drop_empty(list(self.e.simpsegs(act, pc)), pc))

    def step(self, act, toks, pc):
        e = self.e
        while True:
            act = self.norm(act, pc)
            if not toks:
                if act:
                    n = models.seqlen(e, act)
                    if pzero(n, pc) or prove_ge(pscale(n, -1), 0, pc):
                        return []
                    if act[0][0] == 'alt':
                        return self.split(act, toks, pc, act[0][1])
                    if infeasible(pc):
                        return []
                    raise Diff('end of packet', 'bytes follow the end of the packet: ' + showseg(act[0]))
                self.obls += 1
                return []
            t = toks[0]
            self.labels.add(t.label)
            if t.k == 'opt':
                g = t.a
                if IMPL(pc, g):
                    toks = tuple(t.b) + toks[1:]
                    continue
                if AND(pc, g) == F or not t.b:
                    toks = toks[1:]
                    continue
                if act and act[0][0] == 'alt':
                    a = act[0][1]
                    if AND(pc, ITE(a, NOT(g), g)) == F and not any(x.k == 'props' for x in t.b):
                        try:
                            self.run(act[0][2], t.b, AND(pc, g))
                            act, toks = act[1:], toks[1:]
                            continue
                        except Diff:
                            pass
                return self.split(act, toks, pc, g)
            if t.k == 'props':
                its = list(t.a)
                # items not matched yet, by identifier
                if not its:
                    toks = toks[1:]
                    continue
                if len(its) == 1:
                    toks = (its[0],) + toks[1:]
                    continue
                pid = None
                if act and act[0][0] in ('alt', 'each'):
                    pid = first_id(act[0][2])
                elif act and act[0][0] == 'b':
                    pid = ival(act[0][1])
                k = next((i for i, x in enumerate(its) if ival(x.b[0].a) == pid), None)
                if k is None:
                    # what comes next is not a property: the others must be absent
                    k = 0
                toks = (its[k], Tok('props', t.label, its[:k] + its[k + 1:])) + toks[1:]
                continue
            if t.k == 'each':
                N1 = GE(psym(('N', t.a)), 1)
                if AND(pc, N1) == F:
                    toks = toks[1:]
                    continue
                if act and act[0][0] == 'alt':
                    return self.split(act, toks, pc, act[0][1])
                if act and act[0][0] == 'each' and act[0][1] == t.a:
                    self.run(act[0][2], t.b, AND(pc, N1))
                    self.obls += 1
                    act, toks = act[1:], toks[1:]
                    continue
                if act and act[0][0] == 'map' and act[0][1] == t.a and len(t.b) == 1:
                    self.byte_eq(('b', ibits(as_bits(act[0][2], 8))), t.b[0], AND(pc, N1))
                    act, toks = act[1:], toks[1:]
                    continue
                if infeasible(AND(pc, N1)):
                    toks = toks[1:]
                    continue
                raise Diff(t.label, 'expected one item per element of %s, found %s' % (t.a, showseg(act[0] if act else None)))
            # scalar tokens
            if t.k == 'raw':
                n = models.seqlen(e, t.a)
                if pzero(n, pc):
                    toks = toks[1:]
                    continue
                x, y = self.norm(t.a, pc), act
                if x and y and x[0] == y[0]:
                    toks = ((Tok('raw', t.label, x[1:]),) if len(x) > 1 else ()) + toks[1:]
                    act = act[1:]
                    self.obls += 1
                    continue
                if x and y and x[0][0] == 'sl' and y[0][0] == 'sl' and x[0][1] == y[0][1] and \
                        pzero(psub(x[0][2], y[0][2]), pc) and pzero(psub(x[0][3], y[0][3]), pc):
                    toks = ((Tok('raw', t.label, x[1:]),) if len(x) > 1 else ()) + toks[1:]
                    act = act[1:]
                    self.obls += 1
                    continue
                if y and y[0][0] == 'alt':
                    return self.split(act, toks, pc, y[0][1])
                g = GE(n, 1)
                if AND(pc, g) != F and not IMPL(pc, g):
                    return self.split(act, toks, pc, g)
                if infeasible(pc):
                    return []
                raise Diff(t.label, 'expected %s, found %s' % (showseg(x[0] if x else None), showseg(y[0] if y else None)))
            if t.k == 'vi':
                return self.varint(act, toks, pc)
            if act and act[0][0] == 'alt':
                return self.split(act, toks, pc, act[0][1])
            if act and act[0][0] in ('each', 'map'):
                N1 = GE(psym(('N', act[0][1])), 1)
                if not infeasible(AND(pc, N1)):
                    raise Diff(t.label, 'expected %s, found %s' % (t.label, showseg(act[0])))
                act = act[1:]
                continue
            if act and act[0][0] == 'sl':
                l = act[0][3]
                if not prove_ge(l, 1, pc):
                    return self.split(act, toks, pc, GE(l, 1))
            if not act:
                if infeasible(pc):
                    return []
                raise Diff(t.label, '%s is missing' % t.label)
            if t.k == 'be':
                if act[0][0] == 'be' and act[0][2] == t.b:
                    a = psimp(act[0][1], pc)
                    if pzero(psub(a, psimp(t.a, pc)), pc) or \
                            pzero(psub(fit_fields(field(a, 0, 8 * t.b), pc), fit_fields(field(t.a, 0, 8 * t.b), pc)), pc):
                        self.obls += 1
                        act, toks = act[1:], toks[1:]
                        continue
                    if infeasible(pc):
                        return []
                    raise Diff(t.label, 'expected %s, found %s' % (repr(t.a)[:80], repr(a)[:80]))
                bs = tuple(Tok('byte', t.label, ipoly(field(t.a, 8 * (t.b - 1 - i), 8))) for i in range(t.b))
                toks = bs + toks[1:]
                continue
            if act[0][0] == 'be':
                act = tuple(('b', models.be_byte(act[0], k)) for k in range(act[0][2])) + act[1:]
                continue
            if act[0][0] == 'sl':
                # literal bytes of an unknown slice never equal a field
                if infeasible(pc):
                    return []
                raise Diff(t.label, 'expected %s, found %s' % (t.label, showseg(act[0])))
            self.byte_eq(act[0], t, pc)
            act, toks = act[1:], toks[1:]

    def byte_eq(self, seg, t, pc):
        self.obls += 1
        a, b = isimp(seg[1], pc), isimp(t.a, pc)
        if isame(a, b, pc) or self.fields_eq(as_poly(a), as_poly(b), pc):
            return
        if t.b is not None and isinstance(t.b, Poly) and self.fields_eq(as_poly(seg[1]), t.b, pc):
            return
        da, db = deep(as_poly(a), pc), deep(as_poly(b), pc)
        if da is not None or db is not None:
            if da is not None:
                a = ipoly(da)
            if db is not None:
                b = ipoly(db)
            if isame(a, b, pc) or self.fields_eq(as_poly(a), as_poly(b), pc):
                return
        x, y = as_bits(a, 8), as_bits(b, 8)
        if all(infeasible(AND(pc, ITE(p, NOT(q), q))) for p, q in zip(x, y)):
            return
        if infeasible(pc):
            return
        ca, cb = ival(a), ival(b)
        if ca is not None and cb is not None:
            raise Diff(t.label, 'expected 0x%02x, found 0x%02x' % (cb, ca))
        bad = [i for i in range(8) if AND(pc, ITE(x[i], NOT(y[i]), y[i])) != F]
        raise Diff(t.label, 'bits %s differ: expected %s, found %s' % (
            bad, [show(y[i])[:SHOWN] for i in bad[:3]], [show(x[i])[:SHOWN] for i in bad[:3]]))

    def fields_eq(self, a, b, pc):
        """constants plus one bit field each, of equal forms"""
        d = psub(a, b)
        fs = [(s, g, c) for (s, g), c in d.t.items() if s is not None and s[0] == 'bf']
        if len(fs) != 2:
            return False
        (s, g, c), (s2, g2, c2) = fs
        if s[2:] != s2[2:] or g != g2 or c != -c2 or not pzero(psub(s[1], s2[1]), AND(pc, g)):
            return False
        t = dict(d.t)
        del t[(s, g)]
        del t[(s2, g2)]
        d = psimp(Poly(t), pc)
        if any(x is not None for x, _ in d.t) or len(d.t) > 6:
            return False
        work = {0: pc}
        for (_, h), k in d.t.items():
            nw = {}
            for acc, w in work.items():
                for q, x in ((AND(w, h), acc + k), (AND(w, NOT(h)), acc)):
                    if q != F:
                        nw[x] = OR(nw.get(x, F), q)
            work = nw
        return all(infeasible(w) for x, w in work.items() if x)

    def split(self, act, toks, pc, g):
        out = []
        for h in (g, NOT(g)):
            q = AND(pc, h)
            if q != F:
                out.append((act, toks, q))
        return out

    def varint(self, act, toks, pc):
        t = toks[0]
        out = []
        lo = 0
        v = psimp(t.a, pc)
        c = v.const()
        for k, hi in enumerate((128, 16384, 2097152, 268435456)):
            if c is not None:
                q = pc if lo <= c < hi else F
            else:
                q = AND(pc, GE(v, lo) if lo else T, NOT(GE(v, hi)))
            l, lo = lo, hi
            if q == F or refutes(q) or k and infeasible(q):
                continue
            bs = []
            for i in range(k + 1):
                f = field(v, 7 * i, 7)
                c7 = P(128 if i < k else 0)
                bs.append(Tok('byte', t.label, ipoly(padd(fit_fields(psimp(f, q), q), c7)), padd(f, c7)))
            out.append((act, tuple(bs) + toks[1:], q))
        return out
