"""C30: encodings of keys, ids and addresses"""
import uuid

from golem_messages import utils

from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'text which can be encoded in UTF-8; public keys of 64 bytes',
]
DIGITS = '0123456789abcdef'


def spell(data):
    return ''.join(DIGITS[b >> 4] + DIGITS[b & 15] for b in data)


def judge(ch, data):
    ch.step(2)
    raw = data.encode('utf-8') if isinstance(data, str) else bytes(data)
    got = utils.encode_hex(data)
    if got != spell(raw) or type(got) is not str:
        ch.fail('encode', '{!r}: {!r} instead of {!r}'.format(
            data, got, spell(raw)))
    back = utils.decode_hex(got)
    if back != raw or type(back) is not bytes:
        ch.fail('decode', '{!r}: {!r}'.format(data, back))
    ch.compared += 2


def all_bytes(length):
    def scenario(ch):
        first = ch.pick('first', [None] + list(range(256)))
        if first is None:
            judge(ch, b'')
            judge(ch, bytearray())
            judge(ch, '')
            return
        judge(ch, bytes([first]))
        judge(ch, bytearray([first]))
        for second in range(256):
            judge(ch, bytes([first, second]))
            if length < 3:
                continue
            for third in range(256):
                judge(ch, bytes([first, second, third]))
        ch.see(first)
    return scenario


def lengths(ch):
    length = ch.pick('length', range(0, 301))
    for fill in (b'\0', b'\xff', b'a', b'\x0f', b'\xf0', b'\x80'):
        judge(ch, fill * length)
        for special in (0, length // 2, length - 1):
            for value in (0, 1, 0xff, 0x0a):
                data = bytearray(fill * length)
                if data:
                    data[special] = value
                judge(ch, bytes(data))
                judge(ch, data)
    judge(ch, bytes(range(256)) * (length // 64))
    ch.see(length)


PLANES = [
    n for n in range(0, 0x110000, 0x100) if not 0xd800 <= n < 0xe000]


def text(ch):
    start = ch.pick('code points', PLANES)
    judge(ch, ''.join(map(chr, range(start, start + 0x100))))
    if start < 0x800 or not start % 0x1000:
        for code in range(start, start + 0x100):
            judge(ch, chr(code))
            judge(ch, '0' + chr(code) + 'f')
    ch.see(start)


OTHERS = (
    None, 0, 1, 255, -1, True, False, 1.5, [], [1], ['a'], (), (1, 2), {},
    {1: 2}, set(), object(), uuid.UUID(int=1), memoryview(b'ab'), str, bytes,
    iter(b'ab'), range(3),
)


def others(ch):
    value = ch.pick('value', OTHERS)
    ch.step()
    try:
        got = utils.encode_hex(value)
    except TypeError:
        ch.see('TypeError')
        return
    ch.fail('encoded', '{!r} as {!r}'.format(value, got))


def uuids(ch):
    kind = ch.pick('kind', ('bit', 'hole', 'byte', 'version', 'node'))
    if kind in ('bit', 'hole'):
        values = [1 << i for i in range(128)]
        if kind == 'hole':
            values = [2 ** 128 - 1 - v for v in values] + [0, 2 ** 128 - 1]
    elif kind == 'byte':
        position = ch.pick('position', range(16))
        values = [
            (int.from_bytes(bytes(range(1, 17)), 'big')
             & ~(255 << 8 * position)) | v << 8 * position
            for v in range(256)]
    elif kind == 'version':
        values = [
            uuid.uuid5(uuid.NAMESPACE_DNS, str(i)).int for i in range(64)]
        values += [
            uuid.uuid3(uuid.NAMESPACE_DNS, str(i)).int for i in range(64)]
    else:
        values = [
            uuid.UUID(w.make_id(i, key.pub)).int
            for key in w.KEYS for i in range(64)]
    for value in values:
        ch.step(2)
        one = uuid.UUID(int=value)
        data = utils.uuid_to_bytes32(one)
        ch.equal(data, value.to_bytes(16, 'big') + b'\0' * 16, 'bytes32')
        back = utils.bytes32_to_uuid(data)
        ch.check(type(back) is uuid.UUID and back == one, 'uuid',
                 lambda: '{} instead of {}'.format(back, one))
    ch.see(kind, len(values))


KEYS = [key.pub for key in w.KEYS] + [
    b'\0' * 64, b'\xff' * 64, b'\0' * 32 + b'\x01' * 32, b'\0' + b'z' * 63,
    b'0x' + b'a' * 62, b'0X' + b'1' * 62, b'a' * 64, bytes(range(64)),
    b'\x04' + b'k' * 63,
]


def addresses(ch):
    key = ch.pick('key', KEYS)
    position = ch.pick('position', (None, 0, 1, 31, 32, 63))
    values = range(256) if position is not None else (0, )
    for value in values:
        changed = bytearray(key)
        if position is not None:
            changed[position] = value
        changed = bytes(changed)
        expected = ref.address(changed)
        for form in (changed.hex(), '0x' + changed.hex(), changed,
                     changed.hex().upper(), '0x' + changed.hex().upper()):
            ch.step()
            ch.equal(utils.pubkey_to_address(form), expected, 'address',
                     engine.short(form))
    ch.see(key[:2], position)


def inverse(ch):
    """keys as they are kept in messages"""
    key = ch.pick('key', KEYS)
    ch.step(3)
    text_ = utils.encode_hex(key)
    ch.equal(len(text_), 128, 'length')
    ch.equal(utils.pubkey_to_address(text_), ref.address(key), 'address')
    ch.equal(utils.decode_hex(text_.encode()), key, 'from bytes')
    ch.equal(utils.decode_hex(text_.upper()), key, 'from upper case')
    ch.see(key[:2])


def scenarios(tier):
    return [
        engine.Scenario('bytes', all_bytes(2 if tier == 'quick' else 3)),
        engine.Scenario('lengths', lengths),
        engine.Scenario('text', text),
        engine.Scenario('other types', others),
        engine.Scenario('uuids', uuids),
        engine.Scenario('addresses', addresses),
        engine.Scenario('keys', inverse),
    ]
