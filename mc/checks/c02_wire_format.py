"""C02: the bytes on the wire are what every other peer expects"""
from golem_messages import shortcuts
from golem_messages.message import base
from golem_messages.register import library

from mc import alphabet
from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import sizes
from mc import world as w
from mc.checks import c01_round_trip

LEVEL = 'model_checking'
ASSUMPTIONS = c01_round_trip.ASSUMPTIONS


def marker(data):
    return b'<<' + data[::-1] + b'>>'


def unmark(data):
    if data[:2] != b'<<' or data[-2:] != b'>>':
        raise ValueError('not encrypted')
    return data[2:-2][::-1]


def version_of(name):
    return mc_load.RELEASE if name == 'base.Hello' else None


def dumping(names, small):
    """what we send"""
    def scenario(ch):
        signed, encrypted = ch.pick('mode', (
            (False, False), (True, True), (True, False), (False, True)))
        name, msg = c01_round_trip.choose_message(
            ch, names, small, signed=False)
        type_, spec = golden.BY_NAME[name]
        slots = w.slots_spec(name, msg)
        timestamp = msg.timestamp
        data = msg.serialize(
            sign_as=w.OTHER.priv if signed else None,
            encrypt_func=marker if encrypted else None)
        ch.step()
        is_encrypted = encrypted and spec.encrypt
        version = version_of(name)
        payload = ref.cbor(slots)
        sig = data[golden.HEADER_LEN:golden.HEADER_LEN + golden.SIG_LEN]
        if signed and spec.sign:
            digest = ref.digest(type_, timestamp, payload, version)
            ch.equal(ref.recover(sig, digest), w.OTHER.pub,
                     name + ':signature')
        else:
            ch.equal(sig, b'\0' * golden.SIG_LEN, name + ':empty signature')
        expected = ref.wire(
            type_, timestamp, slots, is_encrypted, sig, version, marker)
        ch.check(data == expected, name + ':bytes', lambda: '{} vs {}'.format(
            engine.short(data, 500), engine.short(expected, 500)))
        ch.see(name, signed, encrypted, engine.fingerprint(expected))
    return scenario


def loading(names, small):
    """what they send"""
    def scenario(ch):
        signed, encrypted = ch.pick('mode', ((True, True), (False, False)))
        name, msg = c01_round_trip.choose_message(
            ch, names, small, signed=False)
        type_, spec = golden.BY_NAME[name]
        timestamp = msg.timestamp
        slots = w.slots_spec(name, msg)
        encrypted = encrypted and spec.encrypt
        signed = signed and spec.sign
        version = version_of(name)
        digest = ref.digest(type_, timestamp, ref.cbor(slots), version)
        sig = ref.sign(w.OTHER.priv, digest) if signed else None
        data = ref.wire(
            type_, timestamp, slots, encrypted, sig, version, marker)
        loaded = base.Message.deserialize(
            data, unmark, check_time=False,
            sender_public_key=w.OTHER.pub if signed else None)
        ch.step()
        ch.check(type(loaded) is type(msg), name + ':loaded type',
                 type(loaded).__name__)
        ch.equal(tuple(loaded.header), (type_, timestamp, bool(encrypted)),
                 name + ':loaded header')
        ch.equal(loaded.sig, sig or b'\0' * golden.SIG_LEN,
                 name + ':loaded sig')
        for (slot, got), (_, want) in zip(
                w.slots_spec(name, loaded), slots):
            ch.equal(got, want, '{}.{}:loaded'.format(name, slot))
        again = loaded.serialize(
            encrypt_func=marker if encrypted else None)
        ch.step()
        ch.check(again == data, name + ':bytes of relayed')
        ch.see(name, engine.fingerprint(data))
    return scenario


def registry(ch):
    """numbers, classes, flags and fields"""
    type_ = ch.pick('type', range(0, 1 << 13))
    known = type_ in golden.TYPES
    ch.equal(type_ in library, known, 'registered', type_)
    ch.step()
    if not known:
        return
    spec = golden.TYPES[type_]
    cls = library[type_]
    name = '{}.{}'.format(cls.__module__.rsplit('.', 1)[1], cls.__name__)
    ch.equal(name, spec.name, 'class of {}'.format(type_))
    ch.equal(library.get_type(cls), type_, 'number of ' + name)
    ch.check(issubclass(cls, base.Message), name + ':class')
    msg = w.build(name)
    ch.check(type(msg) is cls, name + ':class')
    ch.equal(tuple(s for s, _ in msg.slots()), spec.slots, name + ':fields')
    ch.see(type_, name)


def real_encryption(ch):
    """with the default encryption the payload decrypts by the reference"""
    name = ch.pick('class', w.names())
    type_, spec = golden.BY_NAME[name]
    msg = w.build(name, signed=False)
    slots = w.slots_spec(name, msg)
    data = shortcuts.dump(msg, w.REQUESTOR.priv, w.PROVIDER.pub)
    ch.step()
    version = version_of(name)
    tail = ref.version_suffix(version) if version else b''
    start = golden.HEADER_LEN + golden.SIG_LEN
    head, payload = data[:golden.HEADER_LEN], data[start:]
    if tail:
        ch.equal(payload[-len(tail):], tail, name + ':version')
        payload = payload[:-len(tail)]
    ch.equal(head, ref.header(type_, msg.timestamp, spec.encrypt),
             name + ':header')
    if spec.encrypt:
        payload = ref.ecies_decrypt(payload, w.PROVIDER.priv)
    ch.equal(payload, ref.cbor(slots), name + ':payload')
    # theirs
    wire = ref.wire(
        type_, msg.timestamp, slots, spec.encrypt, msg.sig, version,
        lambda p: ref.ecies_encrypt(
            p, w.PROVIDER.pub, w.OTHER.priv, b'\xff' * 16))
    loaded = shortcuts.load(
        wire, w.PROVIDER.priv, w.REQUESTOR.pub, check_time=False)
    ch.step()
    ch.equal(w.slots_spec(name, loaded), slots, name + ':theirs')
    ch.see(name, spec.encrypt)


def scenarios(tier):
    names = w.names()
    small = tier == 'quick'
    result = [
        engine.Scenario('registry', registry),
        engine.Scenario('default encryption', real_encryption),
        engine.Scenario('dump', dumping(names, small), bound=1),
        engine.Scenario('load', loading(names, small), bound=1),
        sizes.layout(tier),
    ]
    if tier != 'quick':
        result.append(engine.Scenario(
            'load two fields', loading(names, True), bound=2))
    assert alphabet.GENERIC
    return result
