"""Long messages: whatever holds for short contents holds for long ones"""
from golem_messages import exceptions
from golem_messages import shortcuts

from mc import alphabet
from mc import engine
from mc import golden
from mc import load
from mc import ref
from mc import world as w

# limits of CBOR lengths, of blocks and of buffers
LENGTHS = [255, 256, 4095, 4096, 4097, 65535, 65536, 65537, 2 ** 20 + 1]
THOROUGH = [2 ** i + j for i in range(8, 19) for j in (-1, 0, 1)] + [
    2 ** 20, 2 ** 20 + 1, 2 ** 22]
ITEMS = [23, 24, 25, 255, 256, 257, 1000, 65536]

CONTENTS = {
    'text': lambda n: 'x' * n,
    'bytes': lambda n: b'z' * n,
    'letters of two bytes': lambda n: 'ż' * (n // 2),
    'list': lambda n: [i % 7 for i in range(n)],
    'dict': lambda n: {'k{}'.format(i): i for i in range(n)},
}
# layers of a task assignment around an offer with a lot of extra data
CHAIN = [
    ('tasks.TaskToCompute', 'want_to_compute_task', w.REQUESTOR),
    ('tasks.ReportComputedTask', 'task_to_compute', w.PROVIDER),
    ('tasks.AckReportComputedTask', 'report_computed_task', w.REQUESTOR),
    ('concents.ForceSubtaskResults', 'ack_report_computed_task', w.PROVIDER),
    ('concents.ForceSubtaskResultsRejected', 'force_subtask_results',
     w.CONCENT),
]


def free_slot(name):
    """a field which may have any content"""
    spec = golden.BY_NAME[name][1]
    for slot in spec.slots:
        if slot not in spec.nested and slot not in spec.enums \
                and alphabet.slot_options(name, slot)[:4] \
                == alphabet.GENERIC[:4]:
            return slot
    return None


NAMES = [n for n in w.names() if free_slot(n)]


def choose(ch, tier, names):
    name = ch.pick('class', names)
    content = ch.pick('content', sorted(CONTENTS))
    if content in ('list', 'dict'):
        lengths = ITEMS
    else:
        lengths = LENGTHS if tier == 'quick' else THOROUGH
    length = ch.pick('length', lengths)
    return name, content, length, {
        free_slot(name): CONTENTS[content](length)}


def signer(name):
    return w.OTHER if golden.BY_NAME[name][1].sign else None


def round_trip(tier):
    def scenario(ch):
        name, content, length, fields = choose(ch, tier, NAMES)
        encrypted = ch.flag('encrypted')
        msg = w.build(name, signed=False, **fields)
        key = signer(name)
        data = shortcuts.dump(
            msg, w.OTHER.priv, w.PROVIDER.pub if encrypted else None)
        loaded = shortcuts.load(
            data, w.PROVIDER.priv if encrypted else None, w.OTHER.pub,
            check_time=False)
        ch.step(2)
        ch.check(w.slots_spec(name, loaded) == w.slots_spec(name, msg),
                 name + ':long content')
        ch.check(loaded == msg, name + ':long not equal')
        ch.check(loaded.sig == msg.sig, name + ':long sig')
        if key:
            ch.check(loaded.verify_signature(key.pub), name + ':long verify')
        ch.check(shortcuts.dump(loaded, None, None)
                 == shortcuts.dump(msg, None, None), name + ':long again')
        ch.step(3)
        ch.see(name, content, length)
    return engine.Scenario('long contents', scenario)


def layout(tier):
    def scenario(ch):
        name, content, length, fields = choose(ch, tier, NAMES)
        encrypted = ch.flag('encrypted')
        msg = w.build(name, signed=False, **fields)
        type_, spec = golden.BY_NAME[name]
        data = shortcuts.dump(
            msg, w.OTHER.priv, w.PROVIDER.pub if encrypted else None)
        ch.step()
        payload = ref.cbor(w.slots_spec(name, msg))
        encrypted = encrypted and spec.encrypt
        start = golden.HEADER_LEN + golden.SIG_LEN
        ch.check(data[:golden.HEADER_LEN] == ref.header(
            type_, msg.timestamp, encrypted), name + ':long header')
        got = data[start:]
        if encrypted:
            got = ref.ecies_decrypt(got, w.PROVIDER.priv)
        version = load.RELEASE if name == 'base.Hello' else None
        ch.check(got == payload + (
            ref.version_suffix(version) if version else b''),
                 name + ':long payload')
        if spec.sign:
            sig = data[golden.HEADER_LEN:start]
            ch.check(ref.recover(sig, ref.digest(
                type_, msg.timestamp, payload, version)) == w.OTHER.pub,
                     name + ':long signature')
        ch.see(name, content, length)
    return engine.Scenario('long contents', scenario)


def places(length):
    """offsets at and around the limits of blocks, first and last"""
    result = {0, 1, length // 2, length - 2, length - 1}
    for i in range(4, length.bit_length() + 1):
        for j in (-1, 0, 1, 100):
            result.add(2 ** i + j)
    return sorted(p for p in result if 0 <= p < length)


def tamper(tier):
    """a byte of it is changed"""
    made = {}

    def scenario(ch):
        name = ch.pick('class', [
            n for n in NAMES if golden.BY_NAME[n][1].sign])
        length = ch.pick('length', (5000, 70000, 2 ** 20 + 200)
                         if tier == 'quick' else THOROUGH)
        encrypted = ch.flag('encrypted') \
            if golden.BY_NAME[name][1].encrypt else False
        ident = name, length, encrypted
        if ident not in made:
            made.clear()
            msg = w.build(name, signed=False, **{
                free_slot(name): 'x' * length})
            data = shortcuts.dump(
                msg, w.OTHER.priv, w.PROVIDER.pub if encrypted else None)
            made[ident] = data
        data = made[ident]
        priv = w.PROVIDER.priv if encrypted else None
        shortcuts.load(data, priv, w.OTHER.pub, False)
        start = golden.HEADER_LEN + golden.SIG_LEN
        # the text, and whatever follows it
        text = data.find(b'x' * 64) if not encrypted else start
        end = len(data)
        if name == 'base.Hello':
            end -= 32  # the padding of the version means nothing
        for place in places(end - text):
            at = text + place
            changed = data[:at] + bytes((data[at] ^ 1, )) + data[at + 1:]
            ch.step()
            try:
                shortcuts.load(changed, priv, w.OTHER.pub, False)
            except exceptions.MessageError:
                continue
            ch.fail(name + ':long tampered', 'byte {}'.format(at))
        for cut in (1, 16, 1000, 4096, len(data) // 2):
            ch.step()
            try:
                shortcuts.load(data[:-cut], priv, w.OTHER.pub, False)
            except exceptions.MessageError:
                continue
            ch.fail(name + ':long cut', '{} bytes'.format(cut))
        ch.see(ident)
    return engine.Scenario('long contents', scenario)


def relay(tier):
    """a long offer, handed on and on"""
    def scenario(ch):
        length = ch.pick('length', LENGTHS if tier == 'quick' else THOROUGH)
        encrypted = ch.flag('encrypted')
        depth = ch.pick('layers', range(1, len(CHAIN) + 1))
        text = 'x' * length
        msg = w.build('tasks.WantToComputeTask', signed=False,
                      extra_data={'k': text})
        msg.sign_message(w.PROVIDER.priv)
        first = w.slots_spec('tasks.WantToComputeTask', msg)
        authors = [w.PROVIDER]
        for name, slot, author in CHAIN[:depth]:
            msg = w.build(name, signed=False, **{slot: msg})
            authors.append(author)
            data = shortcuts.dump(
                msg, author.priv, w.ETH.pub if encrypted else None)
            msg = shortcuts.load(
                data, w.ETH.priv if encrypted else None, author.pub, False)
            ch.step(2)
        inner = msg
        for level in range(depth, -1, -1):
            ch.check(inner.verify_signature(authors[level].pub),
                     'long signature inside')
            ch.step()
            if level:
                inner = getattr(inner, CHAIN[level - 1][1])
        ch.check(w.slots_spec('tasks.WantToComputeTask', inner) == first,
                 'long content inside')
        for place in places(length):
            inner.extra_data = {
                'k': text[:place] + 'y' + text[place + 1:]}
            ch.step()
            try:
                inner.verify_signature(w.PROVIDER.pub)
            except exceptions.InvalidSignature:
                continue
            ch.fail('long content changed inside', 'at {}'.format(place))
        ch.see(length, depth)
    return engine.Scenario('long contents', scenario)
