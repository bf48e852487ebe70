"""C32: equality of messages"""
import copy

from golem_messages import datastructures
from golem_messages import shortcuts
from golem_messages.message import base

from mc import alphabet
from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'contents which Python takes for equal but which are of different types '
    '(1, 1.0 and True) are not compared',
    'messages which are complete, or of different kinds',
    'nested messages have their encryption flags in common',
]


def strict(value):
    """comparable form with types"""
    if isinstance(value, dict):
        return 'dict', tuple(sorted(
            ((strict(k), strict(v)) for k, v in value.items()), key=repr))
    if isinstance(value, (list, tuple)):
        return 'list', tuple(strict(v) for v in value)
    return type(value).__name__, repr(value)


class Variant:
    def __init__(self, name, label, msg):
        self.label = label
        self.msg = msg
        plain = w.slots_spec(name, msg)
        version = getattr(msg, '_version', None)
        rest = (name, msg.header.type_, msg.header.timestamp, msg.sig,
                version)
        self.strict = strict(plain), rest
        self.loose = plain, rest


def with_sig(msg, sig):
    msg.sig = sig
    return msg


SIGS = (None, b'\0' * 65, b'\1' * 65, b'')


def variants(name, small):
    spec = golden.BY_NAME[name][1]
    original = w.build(name)
    sig = original.sig
    result = [('original', original)]

    def add(label, msg):
        result.append((label, msg))

    add('again', w.build(name))
    add('shallow copy', copy.copy(original))
    add('deep copy', copy.deepcopy(original))
    for other in SIGS:
        add('sig {!r}'.format(other), with_sig(
            w.build(name, signed=False), other))
    for timestamp in (w.TS + 1, w.TS - 1, w.TS + 2 ** 32, 0):
        msg = with_sig(w.build(name, signed=False), sig)
        msg.header = w.header(name, timestamp)
        add('at {}'.format(timestamp), msg)
    encrypted = w.build(name, signed=False)
    encrypted.encrypted = True
    add('encrypted', with_sig(encrypted, sig))
    for label, key in (('loaded', None), ('decrypted', w.PROVIDER)):
        data = shortcuts.dump(
            copy.copy(original), None if sig else w.OTHER.priv, key and key.pub)
        add(label, with_sig(shortcuts.load(
            data, w.PROVIDER.priv, None, False), sig))
    if name == 'base.Hello':
        for version in ('3.14.3', '3.14.2a', '', None):
            msg = with_sig(w.build(name, signed=False), sig)
            msg._version = version
            add('version {!r}'.format(version), msg)
    for slot in spec.slots:
        if slot in spec.nested:
            options = alphabet.nested_options(name, slot)
        else:
            options = alphabet.slot_options(name, slot, small)
        for option in options:
            msg = w.build(name, signed=False)
            setattr(msg, slot, alphabet.value_of(option))
            add('{}={}'.format(slot, engine.short(option, 60)),
                with_sig(msg, sig))
    return [Variant(name, label, msg) for label, msg in result]


# made once, used by all the forked executions
CACHE = {}


def made(name, small):
    if (name, small) not in CACHE:
        CACHE.clear()
        CACHE[name, small] = variants(name, small)
    return CACHE[name, small]


def compare(ch, one, two, expected, key, text=''):
    ch.step(4)
    ch.equal(one == two, expected, key, text)
    ch.equal(two == one, expected, key + ':symmetry', text)
    ch.equal(one != two, not expected, key + ':inequality', text)
    ch.equal(two != one, not expected, key + ':inequality', text)


def pairs(small):
    def scenario(ch):
        name = ch.pick('class', w.names())
        part = ch.pick('part', range(4))
        all_ = made(name, small)
        for i, one in enumerate(all_):
            if i % 4 != part:
                continue
            for two in all_[i:]:
                expected = one.strict == two.strict
                if not expected and one.loose == two.loose:
                    continue
                compare(ch, one.msg, two.msg, expected, name + (
                    ':equal' if expected else ':different'),
                        lambda: '{} and {}'.format(one.label, two.label))  # noqa pylint:disable=cell-var-from-loop
        ch.see(name, part, len(all_))
    return scenario


def kinds(ch):
    """messages of different kinds"""
    one_name = ch.pick('one', w.names())
    slots = {s: None for s in golden.BY_NAME[one_name][1].slots}
    for two_name in w.names():
        for how in ('natural', 'empty', 'header of the other'):
            if how == 'natural':
                one = w.build(one_name, signed=False)
                two = w.build(two_name, signed=False)
            else:
                one = w.cls(one_name)(header=w.header(one_name))
                two = w.cls(two_name)(header=w.header(
                    one_name if how == 'header of the other' else two_name))
            if two_name == one_name and how == 'natural':
                compare(ch, one, two, True, one_name + ':same kind', how)
            elif two_name != one_name:
                # even with an empty list of fields and the same header
                compare(ch, one, two, False, one_name + ':kinds',
                        '{} {}'.format(two_name, how))
    ch.see(one_name, len(slots))


def type_number(ch):
    """a message under a header of another kind"""
    name = ch.pick('class', w.names())
    one = w.build(name, signed=False)
    two = w.build(name, signed=False)
    two.header = datastructures.MessageHeader(
        w.type_of(name) + 1, w.TS, False)
    compare(ch, one, two, False, name + ':header')
    ch.see(name)


class Duck:
    """looks like a message"""
    header = w.header('base.RandVal')
    sig = None
    timestamp = w.TS
    encrypted = False
    _version = '3.14.2'

    def __init__(self, msg):
        self.__dict__.update({
            slot: getattr(msg, slot, None)
            for slot in type(msg).__slots__})
        self.header = msg.header
        self._slots = msg.slots()

    def slots(self):
        return self._slots


def strangers(ch):
    """things which are not messages"""
    name = ch.pick('class', w.names())
    msg = w.build(name)
    for stranger in (
            None, 0, 1, True, '', 'a', b'', [], (), {}, object(),
            msg.slots(), tuple(msg.slots()), dict(msg.slots()), msg.header,
            repr(msg), w.cls(name), msg.sig, (msg.header, msg.sig,
                                              msg.slots()),
            datastructures.NestedMessage(msg.header, msg.sig, msg.slots()),
            Duck(msg), w.plain(msg), [msg], (msg, )):
        compare(ch, msg, stranger, False, name + ':stranger',
                lambda: engine.short(stranger))  # noqa pylint:disable=cell-var-from-loop
    ch.see(name)


def histories(ch):
    """equality follows changes of contents"""
    name = ch.pick('class', [n for n in w.names()
                             if golden.BY_NAME[n][1].slots])
    slot = ch.pick('slot', golden.BY_NAME[name][1].slots)
    one = w.build(name)
    two = w.build(name)
    two.sig = one.sig
    ch.equal(one == two, True, name + ':before')
    before = getattr(two, slot)
    if slot in golden.BY_NAME[name][1].nested:
        other = w.build(golden.BY_NAME[name][1].nested[slot][0],
                        timestamp=w.TS - 1) \
            if before is None else None
        if isinstance(before, list):
            other = before + before
        elif other is None:
            other = copy.copy(before)
            other.sig = b'\2' * 65
    else:
        options = [
            o for o in map(alphabet.value_of, alphabet.slot_options(
                name, slot, True))
            if strict(w.plain(o)) != strict(w.plain(before))
            and w.plain(o) != w.plain(before)]
        if not options:
            return
        other = options[0]
    for msg, partner in ((two, one), (one, two)):
        setattr(msg, slot, other)
        compare(ch, msg, partner, False, name + ':changed', slot)
        setattr(msg, slot, before)
        compare(ch, msg, partner, True, name + ':changed back', slot)
    # once more through a header and a signature
    one.header = w.header(name, w.TS + 1)
    compare(ch, one, two, False, name + ':later')
    two.header = w.header(name, w.TS + 1)
    compare(ch, one, two, True, name + ':later too')
    one.sig = b'\3' * 65
    compare(ch, one, two, False, name + ':resigned')
    assert isinstance(one, base.Message)
    ch.see(name, slot)


def scenarios(tier):
    return [
        engine.Scenario('pairs', pairs(tier == 'quick')),
        engine.Scenario('kinds', kinds),
        engine.Scenario('type number', type_number),
        engine.Scenario('strangers', strangers),
        engine.Scenario('histories', histories),
    ]
