"""The properties: statement, quantifier, and the jobs and tags that decide each."""
import codec
import decode
import feeds
import frames
import jobs
import topics


# ------------------------------------------------------------------ job lists
def j_entries(prog):
    return [(n, jobs.entry, (n, n)) for n in (jobs.CHECK, jobs.READS['v4'], jobs.READS['v5'])]


def j_readers(prog):
    out = []
    for v in ('v4', 'v5'):
        n = jobs.READS[v]
        for rd in decode.readers(prog, n):
            out.append((rd, jobs.reader, (rd, n, rd)))
    # the heavy ones first
    return sorted(out, key=lambda j: (0 if j[0].split('::')[-2] in ('Connect', 'Publish', 'ConnAck', 'Disconnect') and 'v5' in j[0] else 1, j[0]))


def each_case(prog, fn, kind, vs=('v4', 'v5'), only=None):
    out = []
    for v in vs:
        for _, ty in codec.PACKETS[v]:
            if only and ty not in only:
                continue
            for c in codec.cases(prog, v, ty):
                nm = '%s %s::%s %s' % (kind, v, ty, '/'.join(n for _, n in c))
                out.append((nm, fn, (nm, v, ty, c)))
    out.sort(key=lambda j: -sum(1 for _, n in j[2][3] if n == 'Some') * 10 - (j[2][2] in ('Connect', 'ConnAck', 'Publish')))
    return out


def j_writes(prog, **k):
    return each_case(prog, jobs.write, 'write', **k)


def j_wild(prog, **k):
    return each_case(prog, jobs.wild, 'any value', **k)


def j_rts(prog, **k):
    return each_case(prog, jobs.roundtrip, 'roundtrip', **k)


def j_feeds(*kinds):
    return lambda p: [j for k in kinds for j in getattr(feeds, 'jobs_' + k)(p)]


def plus(*ls):
    return lambda p: [j for l in ls for j in l(p)]


j_frames = lambda p: frames.jobs_frames()
j_dispatch = lambda p: frames.jobs_dispatch()


def j_topics(*fns):
    return lambda p: [j for j in topics.jobs_topics() if j[2][1] in fns]


V5TYPES = ('Connect', 'ConnAck', 'Publish', 'PubAck', 'PubRec', 'PubRel', 'PubComp', 'Subscribe', 'SubAck',
           'Unsubscribe', 'UnsubAck', 'Disconnect')


class Prop:
    def __init__(self, id, title, statement, quant, why, anchors, jobs, tags, over=('inputs',), note='', only=None,
                 mech=(), tech='', level='proof', floor=1, na=None, deep=None):
        self.id, self.title, self.statement, self.quant, self.why = id, title, statement, quant, why
        self.anchors, self.jobs, self.tags, self.over, self.note = anchors, jobs, set(tags.split()), list(over), note
        self.only = only          # predicate on findings
        self.mech = [{'name': n, 'where': w} for n, w in mech]
        self.tech, self.level, self.floor, self.na, self.deep = tech, level, floor, na, deep


RD = ['src/lib.rs', 'src/v4/mod.rs', 'src/v5/mod.rs', 'src/v4/*.rs', 'src/v5/*.rs']
FR = ['src/lib.rs', 'src/v4/mod.rs', 'src/v5/mod.rs']
WR = ['src/v4/*.rs', 'src/v5/*.rs', 'src/lib.rs']
V5 = ['src/v5/*.rs', 'src/lib.rs']
INTERP = 'decode entry points and packet readers (assume/guarantee at the reader calls)'
FRAMES = 'framing code over a partition of all streams by fixed header, size limit and available bytes'
IMAGE = 'each encoder on an arbitrary packet value; the abstract byte string compared with the MQTT wire layout'
FEED = 'the decoder on families of frames described by the MQTT layout with the varied fields left free'
RT = 'decoder composed with encoder on an arbitrary packet value; decoded fields compared with the original symbolically'
TOPIC = 'topic functions over lists of unknown levels, loop states enumerated to a fixpoint against the MQTT matching rules'

PROPS = [
    Prop('C01', 'Decoding never panics on any input',
         'Decoding returns a packet or an error for every byte stream and every size limit, in both protocol versions and '
         'in the frame check: no read past the end, no arithmetic overflow, no failed unwrap or index.',
         'every content and length of the input stream and every size limit',
         'A panic needs one particular truncation or length field among unboundedly many; the tests feed a few dozen frames.',
         RD, plus(j_entries, j_readers), 'decode-panic', tech=INTERP,
         mech=[('frame check before the readers', 'src/lib.rs check'), ('checked reads', 'src/lib.rs read_u8/read_u16/read_u32/read_mqtt_bytes'),
               ('per packet readers', 'src/v4/*.rs, src/v5/*.rs read')]),
    Prop('C02', 'A read takes exactly one whole frame, or nothing',
         'When the first frame of the stream is complete and within the size limit, a read removes exactly that frame and '
         'decodes only its bytes, whether it returns a packet or an error; otherwise the stream is left as it was. Hence the '
         'packets decoded do not depend on how the bytes arrived.',
         'every stream: all header bytes, all 1 to 4 byte lengths, all available sizes, all limits and all following bytes',
         'Depends on where the stream is cut and what follows; tests use single complete frames.',
         FR, j_frames, 'frame-consume frame-content', over=('inputs', 'histories'), tech=FRAMES,
         mech=[('split of one frame', 'src/v4/mod.rs read, src/v5/mod.rs read'), ('frame length', 'src/lib.rs check, FixedHeader')]),
    Prop('C03', 'More bytes are asked for exactly when the frame is incomplete',
         'The decoder and the frame check ask for more bytes exactly when the stream does not yet hold the whole first frame, '
         'and never for a complete one; the number asked for is at least one, never more than what is missing, and exactly '
         'what is missing once the length is known.',
         'every stream prefix, header byte, announced length and available size; every content of a complete frame',
         'A wrong verdict stalls a connection only for particular cuts or particular truncated fields inside a complete frame.',
         RD, plus(j_frames, j_readers), 'frame-need', tech=FRAMES + '; error values of every packet reader',
         mech=[('framing', 'src/lib.rs check, parse_fixed_header, length'), ('field reads', 'src/lib.rs read_*')]),
    Prop('C04', 'The size limit is enforced exactly',
         'A frame whose announced remaining length exceeds the given limit is refused with the size limit error carrying that '
         'length, before it is complete and without touching the stream; one within the limit never gets that error.',
         'every announced length and limit, every amount of available bytes',
         'Off by one and order of checks show only at the limit; tests use generous limits.',
         FR, plus(j_frames, j_readers), 'frame-limit', tech=FRAMES,
         mech=[('limit check', 'src/lib.rs check')]),
    Prop('C05', 'The remaining length is decoded as MQTT prescribes',
         'A remaining length of one to four bytes is decoded as base 128 little endian, the frame length reported by the frame '
         'check is header, length bytes and that value, and a fourth byte with the continuation bit is a malformed length.',
         'every sequence of length bytes',
         'There are 2^28 lengths in four size classes; tests exercise a few small ones.',
         FR, j_frames, 'frame-check frame-malformed', tech=FRAMES,
         mech=[('variable byte integer', 'src/lib.rs length'), ('frame length', 'src/lib.rs FixedHeader::frame_length')]),
    Prop('C06', 'Declared remaining and property lengths equal the bytes that follow',
         'In everything an encoder produces for a representable packet, the remaining length equals the number of bytes after '
         'it and each property length equals the size of its property block, both as minimal variable byte integers.',
         'every representable packet, any combination of optional fields, any string, payload and list size',
         'Wrong accounting shows only for particular combinations of optional fields or at the borders of the size classes.',
         WR, j_writes, 'image-length', tech=IMAGE,
         mech=[('length computation', 'len of each packet and property set'), ('length encoding', 'src/lib.rs write_remaining_length')]),
    Prop('C07', 'An encoder returns the number of bytes it appended',
         'Whenever encoding a representable packet succeeds with a count, exactly that many bytes were appended to the buffer; a representable packet within '
         'the protocol size limit is never refused.',
         'every representable packet', 'Callers rarely look at the count; tests compare it for single samples at most.',
         WR, j_writes, 'return-count write-ok', tech=IMAGE, mech=[('returned counts', 'write of each packet')]),
    Prop('C08', 'Encoding only appends to the buffer',
         'Whatever the buffer already holds, encoding a packet leaves those bytes unchanged and in place, whether it succeeds or fails.',
         'every packet and every previous buffer content', 'Tests encode into empty buffers.',
         WR, plus(j_writes, j_wild), 'append-only', tech=IMAGE,
         mech=[('back-patched connect flags', 'src/v4/connect.rs write, src/v5/connect.rs write')]),
    Prop('C09', 'A failed encoding leaves the buffer untouched',
         'When encoding a packet returns an error, no byte has been appended to the buffer.',
         'every packet, including ones MQTT cannot represent',
         'The error paths need packets above 256 MB or values the tests never build.',
         WR, j_wild, 'write-atomic', tech='each encoder on an arbitrary packet value; buffer contents at every error return',
         mech=[('error returns', 'write of each packet, src/lib.rs write_remaining_length')]),
    Prop('C10', 'MQTT 3.1.1 packets survive encoding and decoding',
         'For every representable MQTT 3.1.1 packet, decoding what its encoder produced, followed by any further bytes, '
         'returns a packet equal to it and leaves exactly the further bytes.',
         'every representable packet and every following bytes',
         'Equality must hold for every field value and length; tests use one sample per packet.',
         ['src/v4/*.rs', 'src/lib.rs'], lambda p: j_rts(p, vs=('v4',)), 'roundtrip roundtrip-rest', tech=RT,
         mech=[('reader and writer of each packet', 'src/v4/*.rs')]),
    Prop('C11', 'MQTT 5 packets survive encoding and decoding',
         'For every representable MQTT 5 packet, decoding what its encoder produced, followed by any further bytes, '
         'returns the same packet type with equal fields (properties aside) and leaves exactly the further bytes.',
         'every representable packet and every following bytes',
         'Equality must hold for every field value and combination of optional parts; tests use one sample per packet.',
         V5, lambda p: j_rts(p, vs=('v5',)), 'roundtrip roundtrip-rest', tech=RT,
         mech=[('reader and writer of each packet', 'src/v5/*.rs')]),
    Prop('C12', 'MQTT 5 property sets survive encoding and decoding',
         'For every representable MQTT 5 packet with any non-empty subset of its properties, decoding what its encoder produced '
         'returns equal property sets, including those of the Will.',
         'every subset and value of the properties of each packet, any number of user properties and subscription identifiers',
         'There are 2^17 subsets for one packet alone; tests use the full set.',
         V5, lambda p: [j for j in j_rts(p, vs=('v5',)) if any(n == 'Some' and x[-1] == 'properties' for x, n in j[2][3])],
         'roundtrip-props roundtrip', tech=RT,
         only=lambda f: f['tag'] == 'roundtrip-props' or 'rejected' in f['key'],
         mech=[('reader and writer of each property set', 'src/v5/*.rs')]),
    Prop('C13', 'Packet types are told apart by the first byte, both ways',
         'A decoded packet has the type whose number is in the upper four bits of the first byte, numbers 0 and 15 are refused, '
         'a frame without content is accepted only as ping or disconnect, and every encoder starts with the first byte MQTT prescribes for its packet, '
         'flag bits included.',
         'every first byte and frame; every packet value',
         'Each test fixes one packet type.',
         RD, plus(j_dispatch, j_frames, j_writes), 'dispatch image-header', tech=FRAMES + '; first byte of every encoder output',
         mech=[('type number', 'src/lib.rs FixedHeader::packet_type'), ('dispatch', 'src/v4/mod.rs read, src/v5/mod.rs read')]),
    Prop('C14', 'Return and reason codes are the ones MQTT assigns',
         'Each return or reason code is encoded as the number MQTT assigns to it for that packet; each assigned number is '
         'decoded to that code, and every unassigned number is rejected.',
         'all 256 bytes in every packet carrying a code, both versions; every code when encoding',
         'Nearly all codes appear in no test.',
         WR, plus(j_feeds('codes'), j_writes), 'code-table image-code', tech=FEED,
         mech=[('code tables', 'connect_return, connect_code, reason, codes and TryFrom of the packet modules')]),
    Prop('C15', 'MQTT 5 properties have their identifiers, types and places',
         'Each property is encoded with the identifier and wire type MQTT assigns to it; a decoder accepts the properties of '
         'its packet (for the Will, the Will properties) in table order and in reverse and returns the values they carry; an identifier not allowed in '
         'that packet, known or unknown, is rejected.',
         'all identifiers 0-255 in every property block, all property values, all subsets',
         'Tests use one full block per packet in the order the encoder uses.',
         V5, plus(j_feeds('badids', 'accept'), j_writes), 'propid accept-props image-propid', tech=FEED,
         mech=[('property identifiers', 'src/v5/mod.rs PropertyType'), ('property readers', 'extract/read of the property sets')]),
    Prop('C16', 'A property block ends exactly where its length says',
         'A property that reaches past the end of its property block, a property length reaching past the end of '
         'the frame, and a property length that is not a variable byte integer of at most four bytes, are rejected as errors.',
         'every property of every packet, every wrong property length',
         'Needs a length that lies by a particular amount.',
         V5, j_feeds('block'), 'block-length', tech=FEED,
         mech=[('cursor against property length', 'extract/read of the property sets')]),
    Prop('C17', 'Truncated fields and text that is not UTF-8 are rejected',
         'A frame that ends before or inside a mandatory field or inside a property is rejected, and so is text that is not '
         'valid UTF-8 in topics, filters, identifiers, credentials and properties; an accepted frame never yields made-up field values.',
         'every cut position of every field of every packet; every byte string in the place of a text',
         'Tests have a handful of truncated frames and no invalid text.',
         RD, j_feeds('fixed', 'block'), 'truncated utf8', tech=FEED,
         mech=[('checked reads', 'src/lib.rs read_mqtt_string, read_mqtt_bytes, read_u8, read_u16, read_u32')]),
    Prop('C18', 'Publish: flags and packet identifier',
         'DUP, QoS and RETAIN of a publish are exactly the flag bits of its first byte in both directions, QoS 3 is rejected, and the packet '
         'identifier is present, and not 0, exactly when the QoS is above 0.',
         'all 16 flag combinations, all identifiers, topics and payloads, both versions',
         'Tests use one flag combination per test.',
         ['src/v4/publish.rs', 'src/v5/publish.rs'],
         plus(j_feeds('misc'), lambda p: j_writes(p, only=('Publish',)), lambda p: j_wild(p, only=('Publish',))),
         'publish image-header image-pkid publish-pkid', tech=FEED,
         mech=[('publish reader and writer', 'src/v4/publish.rs, src/v5/publish.rs')]),
    Prop('C19', 'Connect: protocol, flags and optional fields',
         'A connect is accepted only with protocol name MQTT and level 4 or 5; clean session, will QoS, will retain and the presence of will, '
         'user name and password are what the flags byte says, and contradictory will flags or will QoS 3 are rejected. Encoding sets exactly the flags of the fields '
         'it writes.',
         'all 256 flag bytes, all levels and names, all field contents, both versions',
         'Tests cover two flag bytes.',
         ['src/v4/connect.rs', 'src/v5/connect.rs'], plus(j_feeds('connect'), lambda p: j_writes(p, only=('Connect',))),
         'connect image-connect', tech=FEED,
         mech=[('connect reader and writer', 'src/v4/connect.rs, src/v5/connect.rs')]),
    Prop('C20', 'Subscriptions: options byte and lists that are not empty',
         'The options of each subscription are exactly the bits of its options byte in both directions, QoS 3 and retain handling 3 '
         'are rejected, and a subscribe or unsubscribe without any filter is rejected.',
         'all option bytes MQTT allows, any number of filters, both versions',
         'Tests use one or two option bytes.',
         ['src/v4/subscribe.rs', 'src/v5/subscribe.rs', 'src/v4/unsubscribe.rs', 'src/v5/unsubscribe.rs'],
         plus(j_feeds('sub'), lambda p: j_writes(p, only=('Subscribe',))), 'suboptions empty-list image-suboptions', tech=FEED,
         mech=[('filters', 'src/v4/subscribe.rs, src/v5/subscribe.rs')]),
    Prop('C21', 'Decoding terminates and allocates no more than the frame warrants',
         'Decoding any stream ends after a number of steps bounded by its length, encoding ends for every packet, and decoding never asks for '
         'memory beyond the size of the frame it has been given.',
         'every stream, every packet',
         'Needs a crafted length field or list; tests do not measure allocation.',
         RD, plus(j_entries, j_readers, j_wild), 'decode-loop decode-alloc encode-loop', tech='ranking argument for every loop and bound for every allocation size reached from the entry points',
         mech=[('property and list loops', 'src/v4/*.rs, src/v5/*.rs'), ('variable byte integer', 'src/lib.rs length, write_remaining_length')]),
    Prop('C22', 'Coding and matching have no side effects',
         'Decoding, encoding and the topic functions depend on and change nothing but their arguments: they print nothing and touch no global state, '
         'files, clock, environment or threads.',
         'every call of the public coding and topic functions',
         'Output to stderr or hidden state does not change the values the tests compare.',
         RD + ['src/topic.rs'], plus(j_entries, j_readers, j_wild, j_topics('has_wildcards', 'valid_topic', 'valid_filter', 'matches')), 'pure',
         tech='effect analysis over every function reachable from the entry points', over=('inputs', 'histories'),
         mech=[('all coding functions', 'src/**')]),
    Prop('C23', 'Encoding never panics',
         'Encoding returns a count or an error for every packet value that can be built: no arithmetic overflow, slice or unwrap panic.',
         'every packet value, including ones MQTT cannot represent', 'Needs a particular size or combination.',
         WR, plus(j_wild, j_writes), 'encode-panic', tech=IMAGE,
         mech=[('encoders', 'write and len of every packet and property set')]),
    Prop('C24', 'Wildcards in topic names are found',
         'A string has wildcards exactly when it contains + or #, and a topic name is valid exactly when it does not.',
         'every string', 'The tests try seven strings.',
         ['src/topic.rs'], j_topics('has_wildcards', 'valid_topic'), 'topic-wild topic-panic', tech=TOPIC,
         mech=[('wildcard tests', 'src/topic.rs has_wildcards, valid_topic')]),
    Prop('C25', 'Topic filters are validated as MQTT prescribes',
         'A topic filter is valid exactly when it is not empty, # appears only alone in its last level and + only alone in a level.',
         'every string, any number of levels', 'The tests try eleven filters.',
         ['src/topic.rs'], j_topics('valid_filter'), 'topic-filter topic-panic', tech=TOPIC,
         mech=[('filter validation', 'src/topic.rs valid_filter')]),
    Prop('C26', 'Topics match filters as MQTT prescribes',
         'For a valid topic name not beginning with $ and a valid filter, matching is true exactly when the levels agree one by one, + standing for any one level '
         'and # for the parent and all levels below; a filter beginning with a wildcard never matches a topic beginning with $.',
         'every valid topic and filter, any number and content of levels, including empty levels',
         'The tests try two dozen pairs.',
         ['src/topic.rs'], j_topics('matches'), 'topic-match topic-dollar topic-panic', tech=TOPIC,
         mech=[('matching', 'src/topic.rs matches')]),
    Prop('C27', 'Texts too long for their length prefix are not silently cut',
         'Encoding does not succeed for a packet with a string or binary field longer than the 65535 bytes its length prefix can express.',
         'every packet, every string or binary field and length',
         'No test has a string of 64 KB.',
         WR, j_wild, 'oversize', tech='each encoder on an arbitrary packet value; lengths of texts at every successful return',
         mech=[('length prefix', 'src/lib.rs write_mqtt_bytes')]),
    Prop('C28', 'The bytes written are the MQTT layout',
         'For every representable packet the bytes appended are exactly the fields in the order and encoding MQTT prescribes for that packet '
         'and version, with absent optional parts left out.',
         'every representable packet, any combination of optional parts',
         'Symmetric mistakes in encoder and decoder pass round trip tests; byte images are tested for single samples.',
         WR, j_writes, 'image-body image-header image-length image-propid image-code image-suboptions image-connect image-pkid', tech=IMAGE,
         mech=[('encoders', 'write of every packet and property set')]),
    Prop('C29', 'Everything MQTT allows an encoder to send is decoded to what it says',
         'Every frame MQTT prescribes for a representable packet, built independently of this encoder, with its properties in table order or in reverse, '
         'is accepted and decoded to that packet type with the fields the bytes carry.',
         'every representable packet, every combination of optional parts',
         'Tests decode a few sample frames.',
         RD, j_feeds('accept'), 'accept', tech=FEED,
         mech=[('readers', 'read of every packet and property set')]),
    Prop('C30', 'MQTT 5 acknowledgements and disconnects may be shortened',
         'The shortened forms of the MQTT 5 acknowledgements and disconnect (without reason, or without properties) are accepted with reason success '
         'or the given reason and no properties.',
         'all reasons and identifiers in the shortened frames',
         'Tests cover one short form of some packets.',
         V5, j_feeds('short'), 'short-form', tech=FEED,
         mech=[('short frames', 'src/v5/puback.rs, pubrec.rs, pubrel.rs, pubcomp.rs, disconnect.rs read')]),
]
NA = []
BY = {p.id: p for p in PROPS}
