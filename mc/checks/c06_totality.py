"""C06: hostile bytes end in a message or a message error"""
from golem_messages import exceptions
from golem_messages.message import base

from mc import clock
from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'MemoryError and exceptions which are not errors (KeyboardInterrupt...) '
    'raised by the caller\'s decryption are left out',
]


class Raw:
    """CBOR inserted as it is"""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return 'Raw({!r})'.format(self.data[:20])


def encode(value):
    """reference encoder with raw parts"""
    if isinstance(value, Raw):
        return value.data
    if isinstance(value, (list, tuple)):
        return ref.cbor([None] * len(value))[:-len(value) or None] \
            + b''.join(encode(v) for v in value)
    if isinstance(value, dict):
        head = ref.cbor({i: None for i in range(len(value))})
        size = len(b''.join(ref.cbor(i) + b'\xf6' for i in range(len(value))))
        head = head[:len(head) - size]
        return head + b''.join(
            encode(k) + encode(v) for k, v in value.items())
    return ref.cbor(value)


SMALL_JUNK = [None, 0, 'x', [], {'x': 1}]
JUNK = [
    None, 0, 1, -1, 2 ** 63, -2 ** 70, 2 ** 300, 2 ** 1100, -2 ** 1100, True, False, 0.5,
    float('nan'), float('inf'), '', 'x', 'ż', '\x00', 'a' * 200, b'',
    b'\xff', b'\0' * 65, [], [None], ['x', 1], [1, 2, 3], [[], [], []],
    [True, []], [False, [1, 2, 3]], [True, None], [True, [None]],
    [False, [[2002, 1, False], b'', []]], [['x']], [['x', 1]], {},
    {'x': 1}, {1: 2}, {None: None}, {'key': 'k'}, {'__class__': 1},
    {'': {'': {}}},
    Raw(b'\xf7'),  # undefined
    Raw(b'\xf9\x7c\x00'),  # half float
    Raw(b'\x5f\x41\x61\xff'),  # indefinite length
    Raw(b'\x9f\xff'),
    Raw(b'\xbf\xff'),
    Raw(b'\xc1\x1a\x00\x00\x00\x01'),  # tagged time
    Raw(b'\xc2\x60'),  # a text as a big number
    Raw(b'\xd8\x23\x61\x2a'),  # tagged regexp
    Raw(b'\xd8\x1c\x81\xd8\x1d\x00'),  # a list which holds itself
    Raw(b'\xd8\x1c\xa1\x61x\xd8\x1d\x00'),  # a dictionary like that
    Raw(b'\xd8\x1d\x07'),  # a reference to nothing
    Raw(b'\xc4\x82\x1a\x3b\x9a\xc9\xff\x01'),  # a decimal fraction
    Raw(b'\xd9\x01\x02\x81\x01'),  # a set
    Raw(b'\xd8\x1e\x82\x01\x00'),  # a rational number
    Raw(b'\x62\xff\xfe'),  # not UTF-8
    Raw(b'\xa1\x80\x01'),  # unhashable key
    Raw(b'\xff'),
    Raw(b'\x1c'),  # reserved
    Raw(b'\xf8\x00'),
    Raw(b'\x9b\x00\xff\xff\xff\xff\xff\xff\xff'),  # too short
    Raw(b'\x5b\x00\x00\xff\xff\xff\xff\xff\xff'),
]


def identity(data):
    return data


def judge(ch, data, name, decrypt=identity, check_time=False, key=None):
    ch.step()
    try:
        result = base.Message.deserialize(
            data, decrypt, check_time, sender_public_key=key)
    except exceptions.MessageError as e:
        ch.see(name, type(e).__name__)
        return None
    except (MemoryError, OSError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        ch.fail('{}:escaped {}'.format(name, type(e).__name__),
                '{!r} from {}'.format(e, engine.short(data, 600)))
    type_ = int.from_bytes(data[:2], 'big')
    ch.check(isinstance(result, base.Message), name + ':not a message',
             type(result).__name__)
    ch.check(type_ in golden.TYPES, name + ':unknown type', type_)
    ch.equal('{}.{}'.format(
        type(result).__module__.rsplit('.', 1)[1], type(result).__name__),
             golden.TYPES[type_].name, name + ':wrong class')
    ch.see(name, 'loaded')
    return result


def wire(name, slots, encrypted=False, sig=None):
    payload = encode(slots)
    return ref.header(golden.BY_NAME[name][0], w.TS, encrypted) \
        + (sig or b'\0' * golden.SIG_LEN) + payload \
        + (ref.version_suffix(mc_load.RELEASE)
           if name == 'base.Hello' else b'')


_PLAIN = {}


def plain(name):
    """slots with everything optional present"""
    if name not in _PLAIN:
        spec = golden.BY_NAME[name][1]
        over = {}
        for slot in w.OMIT.get(name, ()):
            over[slot] = w.build(spec.nested[slot][0])
        if name == 'tasks.TaskToCompute':
            over['promissory_note_sig'] = [27, b'\1' * 32, b'\2' * 32]
        msg = w.build(name, **over)
        _PLAIN[name] = w.slots_spec(name, msg)
    return _PLAIN[name]


def paths(value, depth, prefix=()):
    """all the places in a plain value"""
    yield prefix
    if not depth:
        return
    if isinstance(value, dict):
        for key in value:
            yield from paths(value[key], depth - 1, prefix + (key, ))
    elif isinstance(value, list):
        for i, item in enumerate(value):
            yield from paths(item, depth - 1, prefix + (i, ))


def replaced(value, path, junk):
    if not path:
        return junk
    if isinstance(value, dict):
        result = dict(value)
    else:
        result = list(value)
    result[path[0]] = replaced(value[path[0]], path[1:], junk)
    return result


_PATHS = {}


def all_paths(name, depth):
    key = name, depth
    if key not in _PATHS:
        _PATHS[key] = list(paths(plain(name), depth))
    return _PATHS[key]


def junk(names, depth, alphabet, least=0):
    """one place anywhere is replaced by junk"""
    def scenario(ch):
        name = ch.pick('class', names)
        path = ch.pick('place', [
            p for p in all_paths(name, depth) if len(p) >= least] or [()])
        value = ch.pick('junk', alphabet)
        judge(ch, wire(name, replaced(plain(name), path, value)), name)
    return scenario


def two_junks(names, depth, alphabet):
    """two different fields replaced by junk"""
    def scenario(ch):
        name = ch.pick('class', names)
        slots = plain(name)
        if len(slots) < 2:
            return
        first = ch.pick('first', range(len(slots) - 1))
        second = ch.pick('second', range(first + 1, len(slots)))
        changed = replaced(slots, (first, 1), ch.pick('junk', alphabet))
        changed = replaced(changed, (second, 1), ch.pick('junk', alphabet))
        judge(ch, wire(name, changed), name)
    return scenario


def structure(ch):
    """dictionaries with missing, additional and renamed entries"""
    name = ch.pick('class', w.names())
    places = [
        p for p in all_paths(name, 9)
        if p and isinstance(lookup(plain(name), p), (dict, list))]
    if not places:
        return
    place = ch.pick('place', places)
    value = lookup(plain(name), place)
    if isinstance(value, dict):
        op = ch.pick('op', ['add', 'clear', 'number key'] + [
            ('remove', k) for k in value])
        value = dict(value)
        if op == 'add':
            value['unknown'] = 1
        elif op == 'clear':
            value = {}
        elif op == 'number key':
            value[1] = 1
        else:
            del value[op[1]]
    else:
        op = ch.pick('op', ['add', 'clear', 'double', 'reverse'] + [
            ('remove', i) for i in range(min(len(value), 4))])
        value = list(value)
        if op == 'add':
            value.append(None)
        elif op == 'clear':
            value = []
        elif op == 'double':
            value += value
        elif op == 'reverse':
            value.reverse()
        else:
            del value[op[1]]
    judge(ch, wire(name, replaced(plain(name), place, value)), name)


def lookup(value, path):
    for key in path:
        value = value[key]
    return value


def substitute(names, values):
    """every byte of a real message"""
    def scenario(ch):
        name = ch.pick('class', names)
        data = wire(name, plain(name))
        offset = ch.pick('offset', range(len(data)))
        value = ch.pick('value', values)
        changed = bytearray(data)
        if isinstance(value, tuple):
            changed[offset] ^= value[0]
        else:
            changed[offset] = value
        judge(ch, bytes(changed), name)
    return scenario


def truncate(ch):
    name = ch.pick('class', w.names())
    data = wire(name, plain(name))
    length = ch.pick('length', range(len(data)))
    key = ch.pick('key', (None, w.OTHER.pub))
    judge(ch, data[:length], name, key=key)


def short(ch):
    """nothing and little more"""
    type_ = ch.pick('type', sorted(golden.TYPES) + [4, 999, 65535])
    first = ch.pick('first', [b''] + [bytes([i]) for i in range(256)])
    second = ch.pick('second', (b'', b'\0', b'\x60', b'\x80', b'\xf6',
                                b'\xff'))
    flag = ch.pick('flag', (0, 1, 2, 255))
    data = ref.header(type_, w.TS, False)[:10] + bytes([flag]) \
        + b'\1' * golden.SIG_LEN + first + second
    if type_ == 0:
        data += ch.pick('version', (
            b'', ref.version_suffix(mc_load.RELEASE), b'\xff' * 32,
            b'\x05' * 32, b'\x03\xff\xfe\xfd' + b'\0' * 28))
    name = golden.TYPES[type_].name if type_ in golden.TYPES else 'none'
    judge(ch, data, name)


class Strange(Exception):
    pass


def decryption(ch):
    """whatever decryption answers"""
    name = ch.pick('class', w.names())

    def raising(error):
        def decrypt(_data):
            raise error
        decrypt.__name__ = 'raising ' + type(error).__name__
        return decrypt

    def answering(value):
        def decrypt(_data):
            return value
        decrypt.__name__ = 'answering {!r}'.format(value)
        return decrypt
    option = ch.pick('decrypt', [
        raising(e) for e in (
            ValueError('v'), TypeError(), KeyError('k'), IndexError(),
            AttributeError('a'), AssertionError(), RuntimeError(),
            ZeroDivisionError(), UnicodeDecodeError('a', b'', 0, 1, 'r'),
            Strange('s'), StopIteration(), RecursionError(),
            exceptions.MessageError('m'), exceptions.DecryptionError('d'),
            exceptions.FieldError('f'),
        )
    ] + [answering(v) for v in (
        None, '', 'text', b'', b'\xff', 0, 1.5, [], [['a', 1]], {}, object,
        bytearray(b'\x80'), b'\x80', b'\x80\x80')] + ['not callable', None])
    key = ch.pick('key', (None, w.OTHER.pub, b''))
    encrypted = ch.flag('flag')
    judge(ch, wire(name, plain(name), encrypted), name, option, key=key)


def nesting(ch):
    """deep nesting"""
    name = ch.pick('class', w.names())
    depth = ch.pick('depth', (10, 500, 2000, 20000))
    head = ch.pick('head', (b'\x81', b'\xa1\x60', b'\xc1', b'\x82\xf4'))
    slot = ch.pick('slot', ['(all)'] + list(golden.BY_NAME[name][1].slots))
    junk_ = Raw(head * depth + b'\xf6')
    slots = junk_ if slot == '(all)' else [[slot, junk_]]
    judge(ch, wire(name, slots), name)


def times(ch):
    """timestamps"""
    clock.set_time(w.TS)
    name = ch.pick('class', w.names())
    timestamp = ch.pick('timestamp', [0, 1, 2 ** 31, 2 ** 32, 2 ** 63,
                                      2 ** 64 - 1, golden.MIN_TIMESTAMP,
                                      golden.MIN_TIMESTAMP + 1, w.TS,
                                      golden.MAX_TIMESTAMP - 1,
                                      golden.MAX_TIMESTAMP,
                                      253402300800, 10 ** 15])
    data = wire(name, plain(name))
    data = data[:2] + timestamp.to_bytes(8, 'big') + data[10:]
    judge(ch, data, name, check_time=ch.flag('check time'))


def scenarios(tier):
    names = w.names()
    tiny = ['base.RandVal', 'p2p.Ping', 'base.Disconnect',
            'tasks.StartSessionResponse', 'p2p.RemoveTaskContainer',
            'p2p.Peers', 'concents.FileTransferToken']
    flat = [n for n in names if not golden.BY_NAME[n][1].nested]
    result = [
        engine.Scenario('truncate', truncate),
        engine.Scenario('short', short),
        engine.Scenario('decryption', decryption),
        engine.Scenario('nesting', nesting),
        engine.Scenario('times', times),
        engine.Scenario('structure', structure),
        engine.Scenario('junk in the structure and flat fields',
                        junk(flat, 12, JUNK)),
    ]
    nested = [n for n in names if golden.BY_NAME[n][1].nested]
    if tier == 'quick':
        result += [
            engine.Scenario('junk in nested messages',
                            junk(nested, 7, JUNK)),
            engine.Scenario('junk in deeply nested messages',
                            junk(nested, 20, SMALL_JUNK[1:3], least=8)),
            engine.Scenario('two junks', two_junks(names, 2, SMALL_JUNK)),
            engine.Scenario('substitute', substitute(
                tiny, list(range(0, 256, 3)) + [0xff])),
            engine.Scenario('substitute everywhere', substitute(
                names, [(1, ), (0x20, )])),
        ]
    else:
        result += [
            engine.Scenario('junk in nested messages',
                            junk(nested, 30, JUNK)),
            engine.Scenario('two junks', two_junks(names, 2, JUNK)),
            engine.Scenario('substitute', substitute(
                tiny, list(range(256)))),
            engine.Scenario('substitute everywhere', substitute(
                names, [(1, ), (2, ), (4, ), (8, ), (16, ), (0x20, ), (64, ),
                        (128, ), 0xff, 0xf6, 0x80])),
        ]
    return result
