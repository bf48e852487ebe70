"""C04: authenticated encryption for one recipient"""
import os

from pyelliptic import control

from golem_messages import cryptography
from golem_messages import shortcuts

from mc import bulk
from mc import engine
from mc import golden
from mc import ref
from mc import sizes
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'secp256k1, AES, SHA-256 and HMAC are trusted',
]
RECIPIENTS = (w.PROVIDER, w.REQUESTOR)
MAC_DATA = (b'', b'\0', b'mac', b'm' * 70)


def fill(length, kind):
    if kind == 'zeros':
        return b'\0' * length
    if kind == 'ones':
        return b'\xff' * length
    return bytes(i * 7 % 256 for i in range(length))


def attempt(ecies, data, key, mac_data):
    """the plaintext or the exception"""
    try:
        return ecies.decrypt(data, key.priv, mac_data)
    except Exception as e:  # pylint: disable=broad-except
        return e


def round_trip(lengths):
    def scenario(ch):
        length = ch.pick('length', lengths)
        kind = ch.pick('kind', ('count', 'zeros', 'ones'))
        key = ch.pick('recipient', RECIPIENTS)
        mac_data = ch.pick('mac data', MAC_DATA)
        data = fill(length, kind)
        ecies = cryptography.ECIES()
        encrypted = ecies.encrypt(data, key.pub, mac_data)
        ch.step()
        ch.equal(len(encrypted), length + 113, 'length')
        ch.equal(ecies.decrypt(encrypted, key.priv, mac_data), data,
                 'own decryption')
        other = cryptography.ECIES()
        ch.equal(other.decrypt(encrypted, key.priv, mac_data), data,
                 'decryption by another')
        ch.step(2)
        try:
            plain = ref.ecies_decrypt(encrypted, key.priv, mac_data)
        except ValueError as e:
            plain = e
        ch.equal(plain, data, 'reference decryption')
        if length > 8:
            ch.check(data not in encrypted, 'plaintext visible')
        # theirs; the counter of the cipher wraps around
        for iv in (b'\xff' * 16, b'\x00' * 15 + b'\x01'):
            theirs = ref.ecies_encrypt(
                data, key.pub, w.OTHER.priv, iv, mac_data)
            ch.equal(ecies.decrypt(theirs, key.priv, mac_data), data,
                     'decryption of theirs')
            ch.step()
        for other_key in w.KEYS:
            if other_key is not key:
                ch.check(isinstance(
                    attempt(ecies, encrypted, other_key, mac_data),
                    Exception), 'decrypted by another key')
        for other_mac in MAC_DATA + (mac_data + b'\0', mac_data[:-1]):
            if other_mac != mac_data:
                ch.check(isinstance(
                    attempt(ecies, encrypted, key, other_mac),
                    Exception), 'decrypted with other mac data')
        ch.see(length, kind, key, mac_data)
    return scenario


def tamper(lengths):
    def scenario(ch):
        length = ch.pick('length', lengths)
        mac_data = ch.pick('mac data', (b'', b'mac'))
        source = ch.pick('encrypted by', ('them', 'us'))
        data = fill(length, 'count')
        key = w.PROVIDER
        ecies = cryptography.ECIES()
        if source == 'us':
            encrypted = ecies.encrypt(data, key.pub, mac_data)
        else:
            encrypted = ref.ecies_encrypt(
                data, key.pub, w.OTHER.priv, b'\x07' * 16, mac_data)
        op = ch.pick('op', ('flip', 'cut', 'cut start', 'extend', 'remove',
                            'duplicate', 'swap keys'))
        if op == 'flip':
            bit = ch.pick('bit', range(len(encrypted) * 8))
            changed = bytearray(encrypted)
            changed[bit // 8] ^= 1 << bit % 8
            changed = bytes(changed)
        elif op == 'cut':
            changed = encrypted[:ch.pick('at', range(len(encrypted)))]
        elif op == 'cut start':
            changed = encrypted[ch.pick('at', range(1, len(encrypted))):]
        elif op == 'extend':
            changed = encrypted + ch.pick('tail', (b'\0', b'\xff' * 16))
        elif op == 'remove':
            at = ch.pick('at', range(len(encrypted)))
            changed = encrypted[:at] + encrypted[at + 1:]
        elif op == 'duplicate':
            at = ch.pick('at', range(len(encrypted)))
            changed = encrypted[:at + 1] + encrypted[at:]
        else:
            # another sender's ephemeral key
            changed = b'\x04' + ch.pick('key', w.KEYS + (w.PROVIDER, )).pub \
                + encrypted[65:]
        if changed == encrypted:
            return
        result = attempt(ecies, changed, key, mac_data)
        ch.step()
        ch.check(isinstance(result, Exception), 'accepted after ' + op,
                 'decrypted to {!r}'.format(result))
        # and it still works for the real one
        ch.equal(attempt(ecies, encrypted, key, mac_data), data, 'poisoned')
        ch.see(length, op, type(result).__name__)
    return scenario


def tamper_long(lengths):
    def scenario(ch):
        length = ch.pick('length', lengths)
        data = fill(length, 'count')
        key = w.PROVIDER
        ecies = cryptography.ECIES()
        encrypted = ecies.encrypt(data, key.pub)
        places = set(sizes.places(len(encrypted))) | {
            81 + p for p in sizes.places(length)}
        for at in sorted(places):
            changed = encrypted[:at] + bytes((encrypted[at] ^ 4, )) \
                + encrypted[at + 1:]
            ch.check(isinstance(attempt(ecies, changed, key, b''),
                                Exception), 'long accepted',
                     'byte {} of {}'.format(at, length))
            ch.check(isinstance(attempt(ecies, encrypted[:at], key, b''),
                                Exception), 'long accepted cut',
                     'at {} of {}'.format(at, length))
            ch.step(2)
        ch.equal(ecies.decrypt(encrypted, key.priv), data, 'poisoned')
        ch.see(length)
    return scenario


def freshness(ch):
    """no two encryptions with the same key and counter"""
    counter = [0]

    def urandom(num):
        counter[0] += 1
        return counter[0].to_bytes(num, 'big')
    control.urandom = urandom
    try:
        ecies = cryptography.ECIES()
        seen = set()
        for _ in range(4):
            key = ch.pick('recipient', RECIPIENTS)
            data = ch.pick('data', (b'', b'x' * 40))
            through = ch.pick('through', ('ecies', 'dump'))
            if through == 'ecies':
                encrypted = ecies.encrypt(data, key.pub)
            else:
                encrypted = shortcuts.dump(
                    w.build('base.RandVal'), None, key.pub)[
                        golden.HEADER_LEN + golden.SIG_LEN:]
            ch.step()
            ident = encrypted[:81]
            ch.check(ident not in seen, 'initialization vector reused')
            seen.add(ident)
    finally:
        control.urandom = os.urandom
    ch.see(len(seen))


def messages(ch):
    """which messages are encrypted, and that only a recipient reads them"""
    name = ch.pick('class', w.names())
    spec = golden.BY_NAME[name][1]
    signed = ch.flag('signed')
    key = ch.pick('recipient', (None, ) + RECIPIENTS)
    msg = w.build(name, signed=False)
    payload = ref.cbor(w.slots_spec(name, msg))
    data = shortcuts.dump(
        msg, w.OTHER.priv if signed else None, key.pub if key else None)
    ch.step()
    encrypted = key is not None and spec.encrypt
    ch.equal(data[10], int(encrypted), name + ':flag')
    ch.equal(msg.encrypted, encrypted, name + ':encrypted')
    if len(payload) > 8 or not encrypted:
        ch.equal(payload in data, not encrypted, name + ':payload')
    if not encrypted:
        return
    start = golden.HEADER_LEN + golden.SIG_LEN
    ch.equal(ref.ecies_decrypt(data[start:], key.priv), payload,
             name + ':reference decryption')
    for reader in w.KEYS:
        try:
            loaded = shortcuts.load(data, reader.priv, None, False)
        except shortcuts.base.exceptions.MessageError:
            loaded = None
        ch.step()
        ch.equal(loaded is not None, reader is key, name + ':read')
    position = ch.pick('tampered', (0, 1, 70, 81, -1))
    changed = bytearray(data)
    changed[start + position if position >= 0 else -1] ^= 1
    try:
        shortcuts.load(bytes(changed), key.priv, None, False)
    except shortcuts.base.exceptions.MessageError:
        pass
    else:
        ch.fail(name + ':tampered')
    ch.step()
    ch.see(name, key, signed, position)


def scenarios(tier):
    if tier == 'quick':
        lengths = list(range(0, 130)) + [
            255, 256, 1000, 4095, 4096, 65535, 65536, 65537, 2 ** 20 + 1]
        some = (0, 1, 40)
    else:
        lengths = list(range(0, 700)) + [
            2 ** i + j for i in range(10, 17) for j in (-1, 0, 1)
        ] + [2 ** 20 + 1]
        some = (0, 1, 15, 16, 17, 40, 100)
    return [
        engine.Scenario('round trip', round_trip(lengths)),
        engine.Scenario('tamper', tamper(some)),
        engine.Scenario('tamper with long data', tamper_long(
            sizes.LENGTHS if tier == 'quick' else sizes.THOROUGH)),
        engine.Scenario('freshness', freshness),
        bulk.encryptions(tier),
        bulk.senders(tier),
        engine.Scenario('messages', messages),
    ]
