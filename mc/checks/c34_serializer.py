"""C34: the serializer"""
import collections
import datetime
import decimal
import struct
import uuid

from golem_messages import exceptions
from golem_messages import serializer

from mc import engine
from mc import ref

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'values are made of the standard types; dictionaries have text keys',
    'what the CBOR library makes of encodings which no peer produces (tags, '
    'indefinite lengths, truncated text) is not judged, only that it either '
    'answers or raises SerializationError',
]


def same(one, other):
    """equal, with the same types everywhere"""
    if type(one) is not type(other):
        return False
    if isinstance(one, list):
        return len(one) == len(other) and all(map(same, one, other))
    if isinstance(one, dict):
        return list(one) == list(other) and all(
            same(k, l) and same(one[k], other[l])
            for k, l in zip(one, other))
    if isinstance(one, float):
        return struct.pack('!d', one) == struct.pack('!d', other)
    return one == other


def judge(ch, value, exact=True):
    ch.step(2)
    ch.compared += 2
    data = serializer.dumps(value)
    if type(data) is not bytes or exact and data != ref.cbor(value):
        ch.fail('dumps', '{}: {} instead of {}'.format(
            engine.short(value), engine.short(data),
            engine.short(ref.cbor(value))))
    back = serializer.loads(data)
    if not same(back, value):
        ch.fail('loads', '{}: {}'.format(
            engine.short(value), engine.short(back)))


LEAVES = (
    None, True, False, 0, 1, -1, 24, 2 ** 64, 1.0, -0.0, '', 'a', 'ż', b'',
    b'a', b'\xff',
)
FEW = (None, False, 0, 1.0, 'a', b'a')
KEYS = ('', 'a', 'ż', '1')


def value_of(ch, size, leaves):
    """any value with at most that many parts"""
    kinds = [('leaf', leaf) for leaf in leaves]
    kinds += [('list', n) for n in range(0, min(size, 4))]
    kinds += [('dict', n) for n in range(0, min(size, 3))]
    kind, arg = ch.pick('value', kinds)
    if kind == 'leaf':
        return arg
    left = size - 1
    items = []
    for i in range(arg):
        # later items need one part each
        share = left - (arg - 1 - i)
        item = value_of(ch, share, leaves)
        left -= parts(item)
        items.append(item)
    if kind == 'list':
        return items
    names = KEYS[:arg] if arg < 2 else ch.pick(
        'keys', [KEYS[:arg], KEYS[arg - 1::-1], KEYS[-arg:]])
    return dict(zip(names, items))


def parts(value):
    if isinstance(value, list):
        return 1 + sum(map(parts, value))
    if isinstance(value, dict):
        return 1 + sum(map(parts, value.values()))
    return 1


def nested(size, leaves):
    def scenario(ch):
        value = value_of(ch, size, leaves)
        judge(ch, value)
        ch.see(parts(value))
    return scenario


def integers(bits):
    def scenario(ch):
        bit = ch.pick('bit', range(bits))
        for delta in range(-3, 4):
            for value in ((1 << bit) + delta, -(1 << bit) + delta,
                          (1 << bit) * 3 // 2 + delta):
                judge(ch, value)
                judge(ch, [value, {'a': value}])
        ch.see(bit)
    return scenario


def small_integers(ch):
    base = ch.pick('base', range(-70000, 70000, 1000))
    for value in range(base, base + 1000):
        judge(ch, value)
    ch.see(base)


def floats(ch):
    exponent = ch.pick('exponent', range(2048))
    for sign in (0, 1):
        for mantissa in (0, 1, 2, 1 << 51, (1 << 51) + 1, (1 << 52) - 1,
                         1 << 42, 1 << 29, 0x123456789abcd):
            bits = sign << 63 | exponent << 52 | mantissa
            value, = struct.unpack('!d', struct.pack('!Q', bits))
            judge(ch, value)
    ch.see(exponent)


LONG = (65534, 65535, 65536, 65537, 70001)


def lengths(ch):
    length = ch.pick('length', list(range(0, 301)) + list(LONG))
    judge(ch, b'\0' * length)
    judge(ch, b'\xff' * length)
    judge(ch, 'a' * length)
    judge(ch, 'ż' * length)
    judge(ch, '\U0001f600' * length)
    judge(ch, [None] * length)
    judge(ch, [b'x'] * length)
    judge(ch, {str(i): i for i in range(length)})
    judge(ch, {'k' * length: 'v' * length})
    judge(ch, [0] * length + [[1]])
    ch.see(length)


PLANES = [
    n for n in range(0, 0x110000, 0x100) if not 0xd800 <= n < 0xe000]


def text(ch):
    start = ch.pick('code points', PLANES)
    whole = ''.join(map(chr, range(start, start + 0x100)))
    judge(ch, whole)
    judge(ch, {whole: whole})
    if start < 0x1000 or not start % 0x1000:
        for code in range(start, start + 0x100):
            judge(ch, chr(code))
            judge(ch, {chr(code): chr(code)})
    ch.see(start)


def deep(ch):
    kind = ch.pick('kind', ('list', 'dict', 'both'))
    depth = ch.pick('depth', range(1, 101))
    value = 'a'
    for i in range(depth):
        if kind == 'list' or kind == 'both' and i % 2:
            value = [value]
        else:
            value = {'k': value}
    judge(ch, value)


# failures

class Broken:
    pass


class BrokenDict(dict):
    def items(self):
        raise KeyError('broken')


class BrokenList(list):
    def __iter__(self):
        raise ZeroDivisionError('broken')


def circular(kind):
    value = [] if kind == 'list' else {}
    if kind == 'list':
        value.append(value)
    elif kind == 'dict':
        value['a'] = value
    else:
        value['a'] = [value]
    return value


def very_deep():
    value = []
    for _ in range(100000):
        value = [value]
    return value


BAD = collections.OrderedDict((
    ('object', object),
    ('instance', Broken),
    ('class', lambda: Broken),
    ('set', lambda: {1}),
    ('frozenset', lambda: frozenset((1, ))),
    ('complex', lambda: 1j),
    ('function', lambda: len),
    ('lambda', lambda: lambda: None),
    ('datetime', lambda: datetime.datetime(2019, 1, 1)),
    ('decimal', lambda: decimal.Decimal(1)),
    ('uuid', lambda: uuid.UUID(int=1)),
    ('range', lambda: range(3)),
    ('iterator', lambda: iter([1])),
    ('generator', lambda: (i for i in (1, 2))),
    ('ellipsis', lambda: Ellipsis),
    ('exception', lambda: ValueError('a')),
    ('module', lambda: struct),
    ('lone surrogate', lambda: '\ud800'),
    ('surrogate among others', lambda: 'a\udfffb'),
    ('bytearray', lambda: bytearray(b'a')),
    ('memoryview', lambda: memoryview(b'a')),
    ('circular list', lambda: circular('list')),
    ('circular dict', lambda: circular('dict')),
    ('circular', lambda: circular('both')),
    ('very deep', very_deep),
    ('failing dict', lambda: BrokenDict({'a': 1})),
    ('failing list', lambda: BrokenList([1])),
))
PLACES = (
    lambda v: v,
    lambda v: [v],
    lambda v: [1, 'a', v],
    lambda v: {'a': v},
    lambda v: {'a': 1, 'b': [None, {'c': v}]},
    lambda v: [['slot', v], ['other', 1]],
)


def wrapped(ch, func, value, what, answers=False):
    """raises SerializationError, or may answer"""
    ch.step()
    ch.compared += 1
    try:
        result = func(value)
    except exceptions.SerializationError:
        return False
    except Exception as e:  # pylint: disable=broad-except
        ch.fail('other exception', '{}: {}'.format(what, type(e)))
    if not answers:
        ch.fail('no exception', '{}: {}'.format(what, engine.short(result)))
    return True


def unserializable(ch):
    name = ch.pick('value', list(BAD))
    place = ch.pick('place', range(len(PLACES)))
    value = PLACES[place](BAD[name]())
    wrapped(ch, serializer.dumps, value, name, name in (
        # a different library may learn these
        'bytearray', 'memoryview', 'datetime', 'decimal', 'uuid', 'range'))
    ch.see(name)


def undecodable(ch):
    name = ch.pick('bytes', (
        None, 0, 5, True, 1.5, 'a', '', [], [1], {}, object(), Broken,
        b'', b'\xff', b'\x1c', b'\xfb\0', b'\x19\1', b'\x18', b'\x82\1',
        b'\xa1\x61a', b'\xa1\x80\1', b'\xa1\xa0\1', b'\x61\xff',
        b'\x62\xc3\x28', b'\x81' * 100000, b'\xa1\x61a' * 100000,
        b'\xc2' * 100000, b'\x9b' + b'\xff' * 8, b'\xbb' + b'\xff' * 8,
        b'\x9a\xff\xff\xff\xff', b'\x81\x18', b'\xa1\x18'))
    wrapped(ch, serializer.loads, name, engine.short(name))
    ch.see(engine.short(name, 20))


def reference(data):
    try:
        return True, ref.uncbor(data)
    except (ValueError, TypeError, RecursionError):
        return False, None


def judge_bytes(ch, data):
    ch.step()
    ch.compared += 1
    try:
        got = serializer.loads(data)
    except exceptions.SerializationError:
        valid, _ = reference(data)
        if valid:
            ch.fail('refused', data.hex())
        return
    except Exception as e:  # pylint: disable=broad-except
        ch.fail('other exception', '{}: {}'.format(data.hex(), type(e)))
    valid, value = reference(data)
    if valid and not same(got, value):
        ch.fail('decoded', '{}: {} instead of {}'.format(
            data.hex(), engine.short(got), engine.short(value)))


def short_bytes(length):
    def scenario(ch):
        first = ch.pick('first', range(256))
        judge_bytes(ch, bytes([first]))
        if length > 2:
            seconds = [ch.pick('second', range(256))]
        else:
            seconds = range(256)
        for second in seconds:
            judge_bytes(ch, bytes([first, second]))
            for third in range(256) if length > 2 else (
                    0, 1, 0x41, 0x61, 0x81, 0xa0, 0xff):
                judge_bytes(ch, bytes([first, second, third]))
        ch.see(first)
    return scenario


VALID = [
    [['task_id', 'abc'], ['n', 2 ** 40], ['none', None], ['b', b'\1\2']],
    {'a': [1, 2.5, True], 'b': {'c': None, 'd': -70000}},
    [2 ** 70, -2 ** 70, 'żółw', 'a' * 30, [[[]]], {}],
]


def mutated(ch):
    index = ch.pick('encoding', range(len(VALID)))
    data = serializer.dumps(VALID[index])
    at = ch.pick('at', range(len(data)))
    for value in range(256):
        judge_bytes(ch, data[:at] + bytes([value]) + data[at + 1:])
    for value in (0, 0x1b, 0x40, 0x61, 0x80, 0xa1, 0xc2, 0xf6, 0xfb, 0xff):
        judge_bytes(ch, data[:at] + bytes([value]) + data[at:])
    judge_bytes(ch, data[:at])
    judge_bytes(ch, data[at:])
    judge_bytes(ch, data[:at] + data[at + 1:])
    ch.see(index, at)


class Base(BaseException):
    pass


ERRORS = (
    Exception, ValueError, TypeError, KeyError, AttributeError, EOFError,
    OverflowError, RecursionError, MemoryError, OSError, StopIteration,
    AssertionError, NotImplementedError, UnicodeError, struct.error,
    exceptions.SerializationError, exceptions.MessageError, Warning,
)


def wrapper(ch):
    """the tool itself with any exception"""
    error = ch.pick('error', ERRORS)
    args = ch.pick('arguments', ((), ('a', ), (1, 'b'), ('{}', ), ('%s', )))
    target = ch.pick('wrap with', (
        exceptions.SerializationError, exceptions.FieldError))

    def fail(*_args, **_kwargs):
        raise error(*args)

    def answer(*given, **kwargs):
        return given, kwargs

    ch.step(2)
    try:
        serializer.wrap_error(target)(fail)(1, a=2)
    except Exception as e:  # pylint: disable=broad-except
        ch.check(type(e) is target, 'wrap_error',
                 lambda: '{} became {}'.format(error, type(e)))
    else:
        ch.fail('swallowed', error)
    ch.equal(serializer.wrap_error(target)(answer)(1, *args, b=error),
             ((1, ) + args, {'b': error}), 'arguments')


def scenarios(tier):
    quick = tier == 'quick'
    return [
        engine.Scenario('nested', nested(5, FEW) if quick
                        else nested(6, FEW)),
        engine.Scenario('more leaves', nested(3, LEAVES) if quick
                        else nested(5, LEAVES)),
        engine.Scenario('integers', integers(600 if quick else 4000)),
        engine.Scenario('small integers', small_integers),
        engine.Scenario('floats', floats),
        engine.Scenario('lengths', lengths),
        engine.Scenario('text', text),
        engine.Scenario('deep', deep),
        engine.Scenario('unserializable', unserializable),
        engine.Scenario('undecodable', undecodable),
        engine.Scenario('short bytes', short_bytes(2 if quick else 3)),
        engine.Scenario('mutated', mutated),
        engine.Scenario('wrapper', wrapper),
    ]
