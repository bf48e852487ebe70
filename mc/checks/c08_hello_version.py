"""C08: greetings of compatible versions only"""
import re

import golem_messages
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import base

from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'our own version is a release or a development version (x.y.z+build), '
    'not a prerelease',
]
OURS = ('3.14.2', '0.0.1', '0.9.10', '3.0.0', '10.20.30', '3.14.0+dev5.gab',
        '1.0.0')
SEMVER = re.compile(
    r'(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)'
    r'(-[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?(\+[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?')
MALFORMED = (
    '', '0', '3', '3.14', 'v3.14.2', '3.14.2.1', '03.14.2', '3.014.2',
    '3.14.x', '3.14.*', ' 3.14.2', '3.14.-1', '>=3.14.0', '3,14,2', '3.14.2-',
    '3.14.2+', '3..2', '.14.2', 'None', '3.14.2 ', '=3.14.2', '^3.14.2', '*',
    '3.14.2-rc1-', '3.14.02', '1e1.14.2', '3_0.14.2', '+3.14.2',
)


def parse(version):
    match = SEMVER.fullmatch(version)
    if not match:
        return None
    return tuple(int(g) for g in match.groups()[:3]) + (match.group(4), )


def compatible(ours, theirs):
    theirs = parse(theirs)
    if theirs is None:
        return False
    ours = parse(ours)
    return ours[:2] == theirs[:2] and not (theirs[2] == 0 and theirs[3])


def hello_bytes(version_raw, timestamp=w.TS, payload=None, signed_as=None):
    slots = w.slots_spec('base.Hello', w.build('base.Hello', signed=False))
    payload = ref.cbor(slots) if payload is None else payload
    sig = b'\0' * golden.SIG_LEN
    if signed_as is not None:
        sig = ref.sign(w.OTHER.priv, ref.digest(
            0, timestamp, payload, signed_as))
    return ref.header(0, timestamp, False) + sig + payload + version_raw


def load(ch, data, key=None):
    ch.step()
    try:
        return shortcuts.load(data, None, key, check_time=False)
    except exceptions.MessageError as e:
        return e


def judge(ch, ours, theirs):
    golem_messages.__version__ = ours
    good = compatible(ours, theirs)
    data = hello_bytes(ref.version_suffix(theirs), signed_as=theirs)
    result = load(ch, data, w.OTHER.pub)
    text = 'ours {!r}, theirs {!r}: {!r}'.format(
        ours, theirs, engine.short(result))
    if good:
        ch.check(isinstance(result, base.Hello), 'rejected', text)
        ch.equal(result._version, theirs, 'version of the loaded one')
        ch.check(result.verify_signature(w.OTHER.pub) is True, 'signature')
        ch.equal(shortcuts.dump(result, None, None), data, 'dumped again')
        ch.step(2)
    else:
        ch.check(isinstance(result, exceptions.VersionMismatchError),
                 'accepted or another error', text)
        # nothing else matters
        for body in (b'\xff', b'\x80', b'junk' * 10):
            result = load(ch, hello_bytes(
                ref.version_suffix(theirs), payload=body))
            ch.check(isinstance(result, exceptions.VersionMismatchError),
                     'junk looked at', text)
    # somebody claiming another version than signed
    if good:
        for lie in ('{}.{}.{}'.format(*parse(theirs)[:2] + (p, ))
                    for p in (7, 70)):
            if lie == theirs:
                continue
            result = load(ch, hello_bytes(
                ref.version_suffix(lie), signed_as=theirs), w.OTHER.pub)
            ch.check(isinstance(result, exceptions.InvalidSignature),
                     'version not signed', repr(result))
    # a new one
    msg = w.build('base.Hello', signed=False)
    ch.equal(msg._version, ours, 'version of a new one')
    dumped = shortcuts.dump(msg, w.OTHER.priv, None)
    ch.step()
    ch.equal(dumped, hello_bytes(
        ref.version_suffix(ours), signed_as=ours), 'dumped new one')
    ch.see(ours, theirs, good)


def well_formed(numbers, patches):
    def scenario(ch):
        ours = ch.pick('ours', OURS)
        own = parse(ours)

        def around(number):
            return sorted({n for n in (
                number - 1, number, number + 1, number * 10, 0, 1,
                number * 10 + 4) + numbers if n >= 0})
        major = ch.pick('major', around(own[0]))
        minor = ch.pick('minor', around(own[1]))
        patch = ch.pick('patch', patches)
        pre = ch.pick('prerelease', ('', '-rc1', '-alpha.1', '-0'))
        build = ch.pick('build', ('', '+b1'))
        judge(ch, ours, '{}.{}.{}{}{}'.format(
            major, minor, patch, pre, build))
    return scenario


def malformed(ch):
    ours = ch.pick('ours', OURS)
    judge(ch, ours, ch.pick('theirs', MALFORMED + (
        '3.14.2-' + 'a' * 24, ours, '3.14.' + '9' * 25)))


def suffixes(ch):
    """raw bytes behind the payload"""
    golem_messages.__version__ = '3.14.2'
    op = ch.pick('op', ('byte', 'length', 'absent', 'short'))
    suffix = bytearray(ref.version_suffix('3.14.2'))
    if op == 'byte':
        suffix[ch.pick('position', range(1, 32))] = ch.pick(
            'value', (0, 0x80, 0xff, 0x20, 0x2e, 0x35))
    elif op == 'length':
        suffix[0] = ch.pick('value', range(256))
    elif op == 'absent':
        suffix = b''
    else:
        suffix = suffix[:ch.pick('length', range(32))]
    data = hello_bytes(bytes(suffix))
    result = load(ch, data)
    raw = data[-32:]
    text = raw[1:1 + min(raw[0], 31)].decode('ascii', 'replace')
    if '\n' in text:
        return
    good = compatible('3.14.2', text)
    if not good:
        ch.check(isinstance(result, exceptions.VersionMismatchError),
                 'unreadable version', '{!r}: {!r}'.format(raw, result))
    elif op in ('byte', 'length'):
        ch.check(isinstance(result, base.Hello), 'readable version',
                 '{!r}: {!r}'.format(raw, result))
        ch.equal(result._version, text, 'text of version')
    ch.see(op, good)


def scenarios(tier):
    numbers, patches = (), (0, 1, 2, 10)
    if tier != 'quick':
        numbers, patches = tuple(range(0, 22)), (0, 1, 2, 3, 9, 10, 11, 999)
    return [
        engine.Scenario('well formed', well_formed(numbers, patches)),
        engine.Scenario('malformed', malformed),
        engine.Scenario('suffixes', suffixes),
    ]
