"""C03: nothing but what the sender signed is accepted"""
from golem_messages import exceptions
from golem_messages import shortcuts

from mc import alphabet
from mc import bulk
from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import sizes
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'SHA-1 and ECDSA themselves are trusted; kinds of messages which are not '
    'signed by design are left out',
]

SIGNED = [n for n in w.names() if golden.BY_NAME[n][1].sign]
_CACHE = {}


def original(name, key=w.OTHER, timestamp=w.TS, encrypted=False):
    """(message, its bytes)"""
    ident = (name, key.name, timestamp, encrypted)
    if ident not in _CACHE:
        msg = w.build(name, signed=False, timestamp=timestamp, **(
            {'payment_ts': timestamp}
            if name == 'tasks.SubtaskResultsAccepted' else {}))
        if encrypted:
            # one fixed ciphertext
            type_ = golden.BY_NAME[name][0]
            plain = shortcuts.dump(msg, key.priv, None)
            start = golden.HEADER_LEN + golden.SIG_LEN
            data = ref.header(type_, timestamp, True) \
                + plain[golden.HEADER_LEN:start] \
                + ref.ecies_encrypt(
                    plain[start:], w.PROVIDER.pub, w.ETH.priv, b'\x01' * 16)
        else:
            data = shortcuts.dump(msg, key.priv, None)
        _CACHE[ident] = msg, data
    return _CACHE[ident]


def load(ch, data, key, private=None):
    """the loaded message or the error"""
    ch.step()
    try:
        return shortcuts.load(data, private, key, check_time=False)
    except exceptions.MessageError as e:
        return e


def rejected(result):
    return isinstance(result, exceptions.MessageError)


def keys(ch):
    name = ch.pick('class', SIGNED)
    signer = ch.pick('signer', (None, ) + w.KEYS)
    verifier = ch.pick('verifier', (None, ) + w.KEYS)
    encrypted = ch.flag('encrypted')
    msg = w.build(name, signed=False)
    data = shortcuts.dump(
        msg, signer.priv if signer else None,
        w.PROVIDER.pub if encrypted else None)
    ch.step()
    result = load(ch, data, verifier.pub if verifier else None,
                  w.PROVIDER.priv if encrypted else None)
    good = verifier is None or signer is verifier
    ch.check(good != rejected(result), name + ':keys',
             lambda: 'signed by {}, expected {}: {!r}'.format(
                 signer, verifier, result))
    if not good:
        ch.check(isinstance(result, exceptions.InvalidSignature),
                 name + ':error class', type(result).__name__)
    if signer and good and verifier:
        ch.check(result.verify_signature(verifier.pub) is True,
                 name + ':verify_signature')
    ch.see(name, signer, verifier, type(result).__name__)


def strict(ch, name, result, what):
    """nothing but the signed bytes will do"""
    ch.check(rejected(result), '{}:{} accepted'.format(name, what),
             lambda: engine.short(result))
    ch.see(name, what, type(result).__name__)


def judge(ch, name, result, msg, what):
    """rejected, or nothing was really changed"""
    if rejected(result):
        ch.check(True, '')
        ch.see(name, what, type(result).__name__)
        return
    difference = w.difference(msg, result)
    ch.check(difference is None, '{}:{} accepted'.format(name, what),
             difference)
    ch.see(name, what, 'same')


def tamper(names, masks, encrypted=False, stride=1):
    def scenario(ch):
        name = ch.pick('class', names)
        if encrypted and not golden.BY_NAME[name][1].encrypt:
            return
        msg, data = original(name, encrypted=encrypted)
        length = len(data)
        if stride > 1:
            # the header, the signature and the beginning completely, the
            # rest in steps
            offsets = list(range(min(length, 140))) + list(
                range(140, length, stride))
        else:
            offsets = range(length)
        offset = ch.pick('offset', offsets)
        mask = ch.pick('xor', masks)
        changed = bytearray(data)
        changed[offset] ^= mask
        kind = golden.TYPES.get(int.from_bytes(changed[:2], 'big'))
        if kind is not None and not kind.sign:
            # passed off as a kind which is never authenticated
            return
        private = w.PROVIDER.priv if encrypted else None
        result = load(ch, bytes(changed), w.OTHER.pub, private)
        if offset == 10:
            # the flag of encryption is not signed
            what = 'flag'
        elif offset < golden.HEADER_LEN:
            what = 'tampered header'
        elif offset < golden.HEADER_LEN + golden.SIG_LEN:
            what = 'tampered signature'
        else:
            what = 'tampered payload'
        padding = golden.HEADER_LEN + golden.SIG_LEN + len(data)
        if name == 'base.Hello':
            # what follows the version is not signed
            padding = length - 31 + len(mc_load.RELEASE)
        if what == 'flag' or offset >= padding:
            judge(ch, name, result, msg, what)
        else:
            strict(ch, name, result, what)
    return scenario


def respelled(slots):
    """[(name, payload)]: other payloads which say nearly the same"""
    result = [('reversed', ref.cbor(slots[::-1]))]
    if slots:
        result += [
            ('as a dictionary', ref.cbor(dict(
                (key, value) for key, value in slots))),
            ('indefinite length', b'\x9f' + ref.cbor(slots)[1:] + b'\xff'
             if len(slots) < 24 else None),
            ('without the last field', ref.cbor(slots[:-1])),
        ]
    for key, value in slots[:3]:
        result += [
            ('given twice', ref.cbor(slots + [[key, value]])),
            ('another one first', ref.cbor([[key, None]] + slots)),
        ]
    result += [
        ('unknown field', ref.cbor(slots + [['unknown', 1]])),
        ('unknown field first', ref.cbor([['unknown', None]] + slots)),
        ('field of all messages', ref.cbor(slots + [['sig', b'']])),
        ('hidden field', ref.cbor(slots + [['_version', '3.14.2']])),
        ('trailing', ref.cbor(slots) + b'\xf6'),
        ('wide head', b'\x98' + bytes([len(slots)])
         + ref.cbor(slots)[1 if len(slots) < 24 else 2:]
         if len(slots) < 24 else None),
    ]
    return [(what, payload) for what, payload in result
            if payload is not None and payload != ref.cbor(slots)]


def spelling(ch):
    """the signature is one of the bytes as they are received: it neither
    covers other bytes which say the same, nor does it depend on how the
    receiver would have written them"""
    name = ch.pick('class', SIGNED)
    encrypted = ch.flag('encrypted')
    if encrypted and not golden.BY_NAME[name][1].encrypt:
        return
    msg, data = original(name)
    type_ = golden.BY_NAME[name][0]
    slots = w.slots_spec(name, msg)
    what, payload = ch.pick('payload', respelled(slots))
    version = mc_load.RELEASE if name == 'base.Hello' else None

    def wire(sig):
        body = payload
        if encrypted:
            body = ref.ecies_encrypt(
                payload, w.PROVIDER.pub, w.ETH.priv, b'\x01' * 16)
        return ref.header(type_, msg.timestamp, encrypted) + sig + body + (
            ref.version_suffix(version) if version else b'')
    start = golden.HEADER_LEN
    borrowed = load(ch, wire(data[start:start + golden.SIG_LEN]),
                    w.OTHER.pub, w.PROVIDER.priv)
    strict(ch, name, borrowed, 'respelled')
    own = ref.sign(w.OTHER.priv, ref.digest(
        type_, msg.timestamp, payload, version))
    result = load(ch, wire(own), w.OTHER.pub, w.PROVIDER.priv)
    ch.check(not isinstance(result, exceptions.InvalidSignature),
             name + ':its own spelling refused', what)
    if what.startswith(('unknown', 'reversed', 'given twice', 'wide')):
        ch.check(not rejected(result), name + ':other spelling refused',
                 lambda: '{}: {!r}'.format(what, result))


def cut(names):
    def scenario(ch):
        name = ch.pick('class', names)
        msg, data = original(name)
        body = golden.HEADER_LEN + golden.SIG_LEN
        ops = ['cut', 'append', 'drop', 'double', 'insert']
        op = ch.pick('op', ops)
        if op == 'append':
            changed = data + ch.pick('tail', (
                b'\0', b'\xf6', b'\x80', data[body:], data))
        elif op == 'insert':
            where = ch.pick('where', (0, 2, 10, 11, 76, len(data) - 1))
            changed = data[:where] + ch.pick('what', (
                b'\0', b'\xf6', b'a')) + data[where:]
        else:
            step = max(1, (len(data) - 200) // 100)
            where = ch.pick('where', list(
                range(min(200, len(data)))) + list(
                    range(200, len(data), step)))
            if op == 'cut':
                changed = data[:where]
            elif op == 'drop':
                changed = data[:where] + data[where + 1:]
            else:
                changed = data[:where + 1] + data[where:]
        if changed == data:
            return
        judge(ch, name, load(ch, changed, w.OTHER.pub), msg, op)
    return scenario


def splice(ch):
    """parts of one message and parts of another by the same sender"""
    name = ch.pick('class', SIGNED)
    other = ch.pick('other', SIGNED)
    where = ch.pick('parts', (
        'abb', 'bab', 'bba', 'aab', 'aba', 'baa'))
    timestamp = ch.pick('timestamp', (w.TS, w.TS - 1))
    if other == name and timestamp == w.TS:
        return
    msg_a, a = original(name)
    msg_b, b = original(other, timestamp=timestamp)
    cuts = (0, golden.HEADER_LEN, golden.HEADER_LEN + golden.SIG_LEN, None)
    data = b''.join(
        (a if part == 'a' else b)[cuts[i]:cuts[i + 1]]
        for i, part in enumerate(where))
    if data in (a, b):
        return
    result = load(ch, data, w.OTHER.pub)
    msg = msg_a if where[0] == 'a' else msg_b
    judge(ch, '{}+{}'.format(name, other), result, msg, 'splice ' + where)


def timestamps(ch):
    """the sender's signature with another timestamp"""
    name = ch.pick('class', SIGNED)
    bit = ch.pick('bit', range(64))
    msg, data = original(name)
    changed = data[:2] + (w.TS ^ (1 << bit)).to_bytes(8, 'big') + data[10:]
    judge(ch, name, load(ch, changed, w.OTHER.pub), msg, 'timestamp')


def kinds(ch):
    """the sender's signature on a message passed off as another kind"""
    name = ch.pick('class', SIGNED)
    type_ = ch.pick('type', sorted(golden.TYPES))
    if type_ == golden.BY_NAME[name][0]:
        return
    msg, data = original(name)
    signed = golden.TYPES[type_].sign
    changed = type_.to_bytes(2, 'big') + data[2:]
    result = load(ch, changed, w.OTHER.pub)
    if not signed:
        # such messages are never authenticated
        return
    judge(ch, name, result, msg, 'kind')


def mutate(ch):
    """content modified in memory"""
    name = ch.pick('class', SIGNED)
    spec = golden.BY_NAME[name][1]
    msg, _ = original(name)
    msg = w.build(name, signed=False)
    digest = ref.digest(
        golden.BY_NAME[name][0], msg.timestamp,
        ref.cbor(w.slots_spec(name, msg)),
        msg._version if name == 'base.Hello' else None)
    msg.sign_message(w.OTHER.priv)
    ch.step()
    ch.equal(ref.recover(msg.sig, digest), w.OTHER.pub, name + ':signature')
    slots = list(spec.slots) + ['(timestamp)', '(signature)', '(type)', '(key)']
    if name == 'base.Hello':
        slots.append('(version)')
    slot = ch.pick('slot', slots)
    key = w.OTHER
    before = ref.cbor(w.slots_spec(name, msg))
    always = True
    if slot == '(timestamp)':
        msg.header = w.header(name, timestamp=w.TS + ch.pick('delta', (
            -1, 1, 2 ** 32)))
    elif slot == '(type)':
        msg.header = type(msg.header)(
            msg.header.type_ ^ 1, w.TS, False)
    elif slot == '(version)':
        msg._version = ch.pick('version', ('3.14.1', '3.14.20', ''))
    elif slot == '(signature)':
        bit = ch.pick('bit', range(0, 520))
        sig = bytearray(msg.sig)
        sig[bit // 8] ^= 1 << bit % 8
        msg.sig = bytes(sig)
    elif slot == '(key)':
        key = ch.pick('key', [k for k in w.KEYS if k is not w.OTHER])
    else:
        always = False
        if slot in spec.nested:
            options = alphabet.nested_options(name, slot)
        else:
            options = alphabet.slot_options(name, slot)
        if not options:
            options = ['', 'x']
        value = alphabet.value_of(ch.pick('value', options))
        setattr(msg, slot, value)
        if isinstance(value, tuple):
            return
    changed = always or ref.cbor(w.slots_spec(name, msg)) != before
    ch.step()
    try:
        answer = msg.verify_signature(key.pub)
    except exceptions.InvalidSignature:
        answer = False
    ch.check(answer is (not changed), '{}:mutated {}'.format(name, slot),
             'verify_signature answers {} after a change'.format(answer))
    ch.see(name, slot, changed, answer)


def dishonest_nested(ch):
    """a nested message altered by whoever sends the outer one is not what
    its author signed"""
    name = ch.pick('class', [
        n for n in w.names() if golden.BY_NAME[n][1].nested])
    spec = golden.BY_NAME[name][1]
    msg = w.build(name, signed=False)
    slot = ch.pick('nested', [
        s for s in spec.nested if getattr(msg, s) is not None])
    inner = getattr(msg, slot)
    if isinstance(inner, list):
        inner = inner[0]
    inner_name = spec.nested[slot][0]
    inner_spec = golden.BY_NAME[inner_name][1]
    author = w.signer(inner_name)
    field = ch.pick('field', [
        s for s in inner_spec.slots
        if s not in inner_spec.nested and s not in (
            'ethsig', 'requestor_id', 'requestor_ethereum_public_key')
    ] + ['(timestamp)'])
    before = ref.cbor(w.slots_spec(inner_name, inner))
    if field == '(timestamp)':
        inner.header = w.header(inner_name, timestamp=w.TS + 1)
    else:
        options = alphabet.slot_options(inner_name, field, small=True)
        if not options:
            return
        setattr(inner, field, alphabet.value_of(ch.pick('value', options)))
        if ref.cbor(w.slots_spec(inner_name, inner)) == before:
            return
    data = shortcuts.dump(msg, w.OTHER.priv, None)
    ch.step()
    loaded = load(ch, data, w.OTHER.pub)
    if rejected(loaded):
        # against some rule; as good
        ch.see(name, slot, field, type(loaded).__name__)
        return
    inner = getattr(loaded, slot)
    if isinstance(inner, list):
        inner = inner[0]
    ch.step()
    try:
        answer = inner.verify_signature(author.pub)
    except exceptions.InvalidSignature:
        answer = False
    ch.check(answer is False, '{}.{}:altered {}'.format(name, slot, field),
             'altered nested message still verifies')
    ch.see(name, slot, field, answer)


def scenarios(tier):
    result = [
        engine.Scenario('keys', keys),
        bulk.signers(tier),
        engine.Scenario('timestamps', timestamps),
        engine.Scenario('kinds', kinds),
        engine.Scenario('spelling', spelling),
        engine.Scenario('splice', splice),
        engine.Scenario('mutate', mutate),
        engine.Scenario('altered nested message', dishonest_nested),
        engine.Scenario('cut', cut(SIGNED)),
        sizes.tamper(tier),
    ]
    if tier == 'quick':
        result.append(engine.Scenario(
            'tamper', tamper(SIGNED, (0x01, ))))
        result.append(engine.Scenario(
            'tamper every byte', tamper(
                ['base.RandVal', 'base.Hello', 'tasks.TaskToCompute',
                 'tasks.WantToComputeTask'], (0x01, 0x80))))
        result.append(engine.Scenario(
            'tamper encrypted', tamper(SIGNED, (0x01, ), True, stride=29)))
    else:
        result.append(engine.Scenario(
            'tamper every byte', tamper(
                SIGNED, (0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff))))
        result.append(engine.Scenario(
            'tamper encrypted', tamper(SIGNED, (0x01, 0x80), True)))
    return result
