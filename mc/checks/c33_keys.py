"""C33: key pairs, signatures and hashes"""
import pyelliptic
from golem_messages import cryptography
from golem_messages import exceptions

from mc import bulk
from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the stand-in for pyelliptic hands out the generated private keys which '
    'the explorer chooses, public coordinates always have 32 bytes',
    'an alternative encoding of the same signature, with n - s, is valid '
    'for the underlying library and is not judged',
]
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def num(value):
    return value.to_bytes(32, 'big')


SCALARS = [num(v) for v in (
    1, 2, 3, 255, 256, 2 ** 128, 2 ** 247, 2 ** 248 - 1, 2 ** 248, 2 ** 255,
    ORDER // 2, ORDER // 2 + 1, ORDER - 2, ORDER - 1)] \
    + [key.priv for key in w.KEYS] + [b'\0' + w.OTHER.priv[1:],
                                      b'0x' + w.OTHER.priv[2:],
                                      w.OTHER.priv[:-1] + b'\0']


def short_coordinates():
    """keys whose public coordinates start or end with a zero byte"""
    found = {}
    value = 1
    while len(found) < 4:
        pub = ref.public(num(value))
        for kind, byte in enumerate((pub[0], pub[32], pub[31], pub[63])):
            if not byte:
                found.setdefault(kind, num(value))
        value += 1
    return [found[kind] for kind in sorted(found)]


KEYS = SCALARS + short_coordinates()


def pairs(ch):
    priv = ch.pick('key', KEYS)
    ch.step(3)
    pub = ref.public(priv)
    ecc = cryptography.ECCx(priv)
    ch.equal(ecc.raw_pubkey, pub, 'public key')
    ch.equal(ecc.raw_privkey, priv, 'private key')
    ch.equal(cryptography.privtopub(priv), pub, 'privtopub')
    ch.equal(ecc.has_valid_keys(), True, 'valid')
    ch.equal(cryptography.verify_pubkey(pub), None, 'verify_pubkey')
    ch.see(pub)


def raises(ch, kind, func, key, what):
    """returns whether it answered"""
    ch.step()
    ch.compared += 1
    try:
        result = func()
    except kind:
        return
    except Exception as e:  # pylint: disable=broad-except
        ch.fail(key, '{}: {!r} instead of {}'.format(
            what, e, kind.__name__))
    ch.fail(key, '{}: {!r} instead of {}'.format(
        what, engine.short(result), kind.__name__))


def bad_private(ch):
    kind = ch.pick('kind', ('length', 'range'))
    if kind == 'length':
        length = ch.pick('length', [n for n in range(0, 70) if n != 32])
        for fill in (b'\1', b'\0', b'\xff', b'a'):
            raises(ch, exceptions.InvalidKeys,
                   lambda: cryptography.ECCx(fill * length),
                   'wrong length', engine.short(fill * length))
        return
    value = ch.pick('value', (0, ORDER, ORDER + 1, 2 ** 256 - 1))
    raises(ch, Exception, lambda: cryptography.ECCx(num(value)),
           'out of range', value)


def bad_public(ch):
    length = ch.pick('length', [n for n in range(0, 131) if n != 64])
    data = b'some data'
    sig = ref.sign(w.REQUESTOR.priv, data)
    whole = w.REQUESTOR.pub * 3
    for key in (whole[:length], b'\x04' + whole[:length - 1], b'\0' * length):
        if len(key) == 64:
            continue
        what = '{} bytes'.format(len(key))
        raises(ch, exceptions.InvalidKeys,
               lambda: cryptography.verify_pubkey(key), 'verify_pubkey', what)
        raises(ch, exceptions.InvalidKeys,
               lambda: cryptography.ecdsa_verify(key, sig, data),
               'ecdsa_verify', what)
    ch.see(length)


ANSWERS = {
    'good': w.REQUESTOR.priv,
    'another': w.OTHER.priv,
    'small': num(1),
    '31 bytes': w.OTHER.priv[1:],
    '30 bytes': w.OTHER.priv[2:],
    '16 bytes': b'\xff' * 16,
    '1 byte': b'\1',
}


def generated(depth):
    def scenario(ch):
        given = []

        def keys():
            while True:
                if len(given) < depth:
                    name = ch.pick('answer', list(ANSWERS))
                else:
                    name = 'good'
                given.append(ANSWERS[name])
                yield ANSWERS[name]

        pyelliptic.control.generated_keys = keys()
        try:
            ecc = cryptography.ECCx(None)
        finally:
            pyelliptic.control.generated_keys = None
        ch.step(len(given))
        priv = ecc.raw_privkey
        ch.equal(len(priv), 32, 'length')
        ch.equal(len(ecc.raw_pubkey), 64, 'length of public key')
        ch.equal(priv, given[-1], 'private key')
        ch.equal(ecc.raw_pubkey, ref.public(priv), 'public key')
        ch.equal(ecc.has_valid_keys(), True, 'valid')
        sig = ecc.sign(b'data')
        ch.equal(ref.recover(sig, b'data'), ref.public(priv), 'signature')
        ch.equal(ecc.verify(sig, b'data'), True, 'verify')
        ch.see(len(given), priv)
    return scenario


DATA = [
    b'', b'\0', b'a', b'\xff', 'a', '', 'żółw', '\U0001f600', b'a' * 31,
    b'a' * 32, b'a' * 33, b'\0' * 32, b'b' * 135, b'b' * 136, b'b' * 137,
    'b' * 136, b'x' * 5000, b'a\0', b'\0a',
]


def raw(data):
    return data.encode() if isinstance(data, str) else data


def both(ecc, pub):
    return (
        ('ECCx.verify', ecc.verify),
        ('ecdsa_verify',
         lambda sig, data: cryptography.ecdsa_verify(pub, sig, data)))


def signing(ch):
    priv = ch.pick('key', KEYS)
    pub = ref.public(priv)
    ecc = cryptography.ECCx(priv)
    for data in DATA:
        ch.step(4)
        for sig in (ecc.sign(data), cryptography.ecdsa_sign(priv, data)):
            ch.equal(len(sig), 65, 'length')
            ch.equal(ref.recover(sig, raw(data)), pub, 'signer',
                     engine.short(data))
            for name, func in both(ecc, pub):
                ch.equal(func(sig, data), True, name, engine.short(data))
    ch.see(pub)


MATRIX_KEYS = [key.priv for key in w.KEYS] + [num(1), num(ORDER - 1)]


def judge(ch, ecc, pub, sig, data, what):
    """accepted exactly if the signature is one of the key for the data"""
    if ref.recover(sig, raw(data)) == pub and len(sig) == 65:
        ch.see('equivalent')
        for name, func in both(ecc, pub):
            # see the assumptions
            ch.step()
            try:
                ch.equal(func(sig, data), True, name, what)
            except exceptions.InvalidSignature:
                pass
        return
    for name, func in both(ecc, pub):
        raises(ch, exceptions.InvalidSignature, lambda: func(sig, data),
               name, what)


def matrix(ch):
    signer = ch.pick('signer', MATRIX_KEYS)
    verifier = ch.pick('verifier', MATRIX_KEYS)
    ecc = cryptography.ECCx(verifier)
    pub = ref.public(verifier)
    for signed in DATA:
        sig = ref.sign(signer, raw(signed))
        for data in DATA:
            what = '{} for {}'.format(engine.short(signed),
                                      engine.short(data))
            if signer == verifier and raw(signed) == raw(data):
                for name, func in both(ecc, pub):
                    ch.step()
                    ch.equal(func(sig, data), True, name, what)
            else:
                judge(ch, ecc, pub, sig, data, what)
    ch.see(signer == verifier)


def flips(keys):
    def scenario(ch):
        priv = ch.pick('key', keys)
        what = ch.pick('flipped', ('signature', 'data', 'public key'))
        byte = ch.pick('byte', range(65 if what == 'signature' else
                                     40 if what == 'data' else 64))
        pub = ref.public(priv)
        data = bytes(range(100, 140))
        sig = ref.sign(priv, data)
        ecc = cryptography.ECCx(priv)
        for value in range(256):
            mask = value if what == 'signature' and byte == 64 else None
            if mask is None and bin(value).count('1') != 1:
                continue
            changed = bytearray({
                'signature': sig, 'data': data, 'public key': pub}[what])
            if mask is not None:
                changed[byte] = value
            else:
                changed[byte] ^= value
            changed = bytes(changed)
            if changed in (sig, data, pub):
                continue
            label = 'byte {} value {}'.format(byte, value)
            if what == 'signature':
                judge(ch, ecc, pub, changed, data, label)
            elif what == 'data':
                judge(ch, ecc, pub, sig, changed, label)
            else:
                raises(ch, exceptions.InvalidSignature,
                       lambda: cryptography.ecdsa_verify(changed, sig, data),
                       'public key', label)
        ch.see(what, byte)
    return scenario


NUMBERS = [num(v % 2 ** 256) for v in (
    0, 1, ORDER - 1, ORDER, ORDER + 1, 2 ** 256 - 1, ORDER // 2)]


def forged(ch):
    data = b'some data'
    sig = ref.sign(w.REQUESTOR.priv, data)
    left, right = sig[:32], sig[32:64]
    other = ref.sign(w.OTHER.priv, data)
    older = ref.sign(w.REQUESTOR.priv, b'older data')
    options = NUMBERS + [left, right, other[:32], other[32:64], older[:32],
                         older[32:64], left[::-1], right[::-1]]
    first = ch.pick('r', options)
    second = ch.pick('s', options)
    ecc = cryptography.ECCx(w.REQUESTOR.priv)
    for last in range(0, 256):
        if last > 8 and last not in (27, 28, 31, 128, 255):
            continue
        changed = first + second + bytes([last])
        if changed == sig:
            continue
        judge(ch, ecc, w.REQUESTOR.pub, changed, data, changed.hex())
    ch.see(first, second)


def lengths(ch):
    length = ch.pick('length', range(0, 201))
    data = b'some data'
    sig = ref.sign(w.REQUESTOR.priv, data)
    ecc = cryptography.ECCx(w.REQUESTOR.priv)
    for changed in ((sig * 4)[:length], sig[-length:] if length < 65 else sig
                    + b'\0' * (length - 65), sig.rjust(length, b'\0'),
                    b'\0' * length, b'\xff' * length):
        if changed == sig:
            continue
        judge(ch, ecc, w.REQUESTOR.pub, changed, data,
              '{} bytes'.format(len(changed)))
    ch.see(length)


def hashes(length):
    def judge_hash(ch, data):
        ch.step(2)
        ch.equal(cryptography.sha3(data), ref.sha3(raw(data)), 'sha3',
                 engine.short(data))
        ch.equal(cryptography.mk_privkey(data), ref.keccak(raw(data)),
                 'keccak', engine.short(data))

    def scenario(ch):
        size = ch.pick('size', range(length))
        for fill in (b'\0', b'\xff', b'a', b'\x80'):
            judge_hash(ch, fill * size)
        judge_hash(ch, 'a' * size)
        judge_hash(ch, 'ż' * size)
        judge_hash(ch, '\U0001f600' * size)
        judge_hash(ch, (bytes(range(256)) * 9)[size:2 * size])
        if size < 256:
            judge_hash(ch, bytes([size]))
            for second in range(256):
                judge_hash(ch, bytes([size, second]))
            judge_hash(ch, ''.join(map(chr, range(size * 16, size * 16 + 16))
                                   ))
        ch.see(size)
    return scenario


def scenarios(tier):
    quick = tier == 'quick'
    return [
        engine.Scenario('key pairs', pairs),
        bulk.generated_keys(tier),
        engine.Scenario('bad private keys', bad_private),
        engine.Scenario('bad public keys', bad_public),
        engine.Scenario('generated', generated(3 if quick else 5)),
        engine.Scenario('signing', signing),
        engine.Scenario('matrix', matrix),
        engine.Scenario('flips', flips(MATRIX_KEYS[:1 if quick else None])),
        engine.Scenario('forged', forged),
        engine.Scenario('lengths', lengths),
        engine.Scenario('hashes', hashes(300 if quick else 1200)),
    ]
