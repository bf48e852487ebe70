"""C09: signatures of nested messages survive relaying"""
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import base
from golem_messages.message import tasks

from mc import alphabet
from mc import engine
from mc import golden
from mc import ref
from mc import sizes
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a definition of a subtask given as a plain dictionary has all its keys, '
    'in whatever order',
]
NESTING = [n for n in w.names() if golden.BY_NAME[n][1].nested]
RELAYS = (w.REQUESTOR, w.PROVIDER, w.CONCENT)


def name_of(msg):
    return '{}.{}'.format(
        type(msg).__module__.rsplit('.', 1)[1], type(msg).__name__)


def verifies(msg, key):
    try:
        return msg.verify_signature(key.pub)
    except exceptions.InvalidSignature:
        return False


def children(msg, path=''):
    """[(path, nested message)...] at any depth"""
    result = []
    for slot in golden.BY_NAME[name_of(msg)][1].nested:
        value = getattr(msg, slot)
        for child in value if isinstance(value, list) else [value]:
            if child is None:
                continue
            where = path + '.' + slot
            result.append((where, child))
            result += children(child, where)
    return result


def snapshot(msg):
    return [
        (path, name_of(child), child.header.type_, child.timestamp,
         child.sig, ref.cbor(w.slots_spec(name_of(child), child)))
        for path, child in children(msg)
    ]


def author(path, name, signers):
    return signers.get(path) or w.signer(name)


def compare(ch, msg, expected, when, deep):
    actual = snapshot(msg)
    ch.equal([a[:2] for a in actual], [e[:2] for e in expected],
             when + ':structure')
    for got, want in zip(actual, expected):
        ch.check(got[2:4] == want[2:4], '{}:header of {}'.format(
            when, want[1]))
        ch.check(got[4] == want[4], '{}:signature of {}'.format(
            when, want[1]))
        ch.check(got[5] == want[5], '{}:content of {}'.format(
            when, want[1]))
    for path, child in children(msg):
        name = name_of(child)
        key = w.signer(name)
        ch.check(verifies(child, key) is True,
                 '{}:{} does not verify'.format(when, name), path)
        if deep:
            for other in w.KEYS:
                if other is not key:
                    ch.check(verifies(child, other) is False,
                             '{}:{} verifies for another'.format(when, name))
        ch.step()


def prepare(ch, name):
    include = golden.BY_NAME[name][1].nested \
        if ch.flag('all optional') else ()
    return w.build(name, signed=False, include=include)


def relay(hops, names):
    def scenario(ch):
        name = ch.pick('class', names)
        msg = prepare(ch, name)
        expected = snapshot(msg)
        compare(ch, msg, expected, 'made', False)
        for hop in range(hops):
            mode = ch.pick('mode', (
                'plain', 'signed', 'encrypted', 'signed encrypted',
                'sign, dump'))
            key = RELAYS[hop % 3]
            if 'sign' in mode:
                msg.sig = None
            if mode == 'sign, dump':
                msg.sign_message(key.priv)
            data = shortcuts.dump(
                msg,
                key.priv if mode.startswith('signed') else None,
                w.OTHER.pub if 'encrypted' in mode else None)
            ch.step()
            compare(ch, msg, expected, 'dumped', False)
            msg = shortcuts.load(
                data,
                w.OTHER.priv if 'encrypted' in mode else None,
                key.pub if 'sign' in mode else None,
                check_time=False)
            ch.step()
            compare(ch, msg, expected, 'loaded', hop == hops - 1)
        ch.see(name, hops, len(expected))
        # extracted and sent on its own
        for path, child in children(msg):
            inner = name_of(child)
            data = shortcuts.dump(child, None, None)
            alone = shortcuts.load(
                data, None, w.signer(inner).pub, check_time=False)
            ch.step(2)
            ch.check(w.difference(child, alone) is None,
                     'extracted {}'.format(inner), path)
    return scenario


def nested_after_transport(ch):
    """a received message is nested in a new one"""
    name = ch.pick('class', NESTING)
    spec = golden.BY_NAME[name][1]
    slot = ch.pick('slot', list(spec.nested))
    inner_name, _, is_list = spec.nested[slot]
    author_ = w.signer(inner_name)
    inner = w.build(inner_name, signed=False)
    encrypted = ch.flag('received encrypted')
    data = shortcuts.dump(
        inner, author_.priv, w.OTHER.pub if encrypted else None)
    received = shortcuts.load(
        data, w.OTHER.priv if encrypted else None, author_.pub,
        check_time=False)
    ch.step(2)
    sig = received.sig
    over = {slot: [received] if is_list else received}
    if name == 'concents.VerdictReportComputedTask':
        # built with the same content anyway
        pass
    outer = w.build(name, signed=False, **over)
    mode = ch.pick('mode', ('plain', 'signed', 'signed encrypted'))
    data = shortcuts.dump(
        outer,
        w.CONCENT.priv if 'signed' in mode else None,
        w.OTHER.pub if 'encrypted' in mode else None)
    loaded = shortcuts.load(
        data, w.OTHER.priv if 'encrypted' in mode else None,
        w.CONCENT.pub if 'signed' in mode else None, check_time=False)
    ch.step(2)
    result = getattr(loaded, slot)
    if is_list:
        result = result[0]
    ch.equal(received.sig, sig, inner_name + ':signature touched')
    ch.equal(result.sig, sig, inner_name + ':signature lost')
    ch.check(verifies(result, author_) is True,
             inner_name + ':signature not valid any more')
    ch.check(w.difference(received, result) is None,
             inner_name + ':content', lambda: w.difference(received, result))
    ch.check(result == received, inner_name + ':not equal')
    ch.see(name, slot, mode, encrypted)


def several_outers(ch):
    """one nested message in several outer ones, signed in between"""
    inner_name = ch.pick('inner', (
        'tasks.TaskToCompute', 'tasks.ReportComputedTask',
        'p2p.RemoveTask', 'concents.ForceGetTaskResult'))
    inner = w.build(inner_name)
    sig, author_ = inner.sig, w.signer(inner_name)
    content = ref.cbor(w.slots_spec(inner_name, inner))
    places = [
        (n, s) for n in NESTING
        for s, (c, _, _) in golden.BY_NAME[n][1].nested.items()
        if c == inner_name]
    for _ in range(2):
        name, slot = ch.pick('outer', places)
        is_list = golden.BY_NAME[name][1].nested[slot][2]
        outer = w.build(
            name, signed=False, **{slot: [inner] if is_list else inner})
        op = ch.pick('op', ('sign', 'dump', 'dump encrypted', 'hash'))
        if op == 'sign':
            outer.sign_message(w.OTHER.priv)
        elif op == 'hash':
            outer.get_short_hash()
        else:
            shortcuts.dump(outer, w.OTHER.priv,
                           w.PROVIDER.pub if 'encrypted' in op else None)
        ch.step()
        ch.equal(inner.sig, sig, inner_name + ':signature replaced')
        ch.equal(ref.cbor(w.slots_spec(inner_name, inner)), content,
                 inner_name + ':content replaced')
        ch.check(isinstance(inner, base.Message)
                 and verifies(inner, author_) is True,
                 inner_name + ':signature broken')
    ch.see(inner_name)


def unsigned_nested(ch):
    """a nested message which is not signed (yet) stays so"""
    name = ch.pick('class', NESTING)
    msg = prepare(ch, name)
    victims = children(msg)
    victim = ch.pick('unsigned', range(len(victims) + 1))
    chosen = [c for i, (_, c) in enumerate(victims)
              if victim in (i, len(victims))]
    sig = ch.pick('signature', (None, b'\0' * 65, b''))
    for child in chosen:
        child.sig = sig
    expected = snapshot(msg)
    for op in (ch.pick('op', ('sign', 'dump', 'dump signed', 'encrypted',
                              'hash', 'slots', 'equal', 'repr', 'verify')),
               'dump'):
        if op == 'sign':
            msg.sign_message(w.OTHER.priv)
        elif op == 'hash':
            msg.get_short_hash()
        elif op == 'slots':
            msg.slots()
        elif op == 'repr':
            repr(msg)
        elif op == 'verify':
            msg.sign_message(w.OTHER.priv)
            msg.verify_signature(w.OTHER.pub)
        elif op == 'equal':
            ch.check(msg == msg, name + ':not equal to itself')
        else:
            if op != 'dump':
                msg.sig = None
            data = shortcuts.dump(
                msg, None if op == 'dump' else w.OTHER.priv,
                w.PROVIDER.pub if op == 'encrypted' else None)
        ch.step()
        ch.equal(snapshot(msg), expected,
                 '{}:nested changed by {}'.format(name, op))
    if name == 'concents.VerdictReportComputedTask' \
            and victim < len(victims):
        # both of its branches have to say the same
        return
    loaded = shortcuts.load(
        data, w.PROVIDER.priv if msg.encrypted else None, None, False)
    ch.step()
    ch.equal(snapshot(loaded), expected, name + ':nested changed on load')
    # it can be signed now
    for child in chosen:
        if child.sig is None:
            child.sign_message(w.OTHER.priv)
            ch.check(verifies(child, w.OTHER) is True,
                     name + ':signed afterwards')
    ch.see(name, victim)


def _definitions():
    """the definition of a subtask as a plain dictionary in other orders"""
    keys = list(w.ctd_dict())
    for order in (keys[::-1], keys[3:] + keys[:3], sorted(keys)):
        yield alphabet.Thunk(
            'plain definition ' + ','.join(order),
            (lambda order: lambda: {
                k: w.ctd_dict()[k] for k in order})(order))
        yield alphabet.Thunk(
            'definition ' + ','.join(order),
            (lambda order: lambda: tasks.ComputeTaskDef(
                [(k, w.ctd_dict()[k]) for k in order]))(order))
    yield alphabet.Thunk(
        'changed definition', lambda: changed_definition(w.ctd_dict()))


def changed_definition(content):
    """keys were removed and set again"""
    result = tasks.ComputeTaskDef(content)
    for key in ('task_id', 'deadline'):
        value = dict.pop(result, key)
        result[key] = value
    return result


MIXED = [
    {'z': 1, 'a': 2, 1: 3, 'm': {'y': 0, 'b': 0}},
    [{'b': 1, 'a': 2}, {'a': 2, 'b': 1}],
]


def options_of(name, slot):
    result = alphabet.slot_options(name, slot)
    if (name, slot) == ('tasks.TaskToCompute', 'compute_task_def'):
        return result + list(_definitions())
    if result and result[:4] == alphabet.GENERIC[:4]:
        return result + MIXED
    return result


def values(places):
    """whatever the nested message says"""
    def scenario(ch):
        name, slot = ch.pick('place', places)
        inner_name, _, is_list = golden.BY_NAME[name][1].nested[slot]
        fields = [
            s for s in golden.BY_NAME[inner_name][1].slots
            if s not in golden.BY_NAME[inner_name][1].nested]
        if not fields:
            return
        field = ch.pick('field', fields)
        options = options_of(inner_name, field)
        if not options:
            return
        value = alphabet.value_of(ch.pick('value', options))
        inner = w.build(inner_name, signed=False, **{field: value})
        author_ = w.signer(inner_name)
        inner.sign_message(author_.priv)
        outer = w.build(
            name, signed=False, **{slot: [inner] if is_list else inner})
        hops = ch.pick('hops', (1, 2))
        for hop in range(hops):
            outer.sig = None
            data = shortcuts.dump(outer, RELAYS[hop].priv, None)
            outer = shortcuts.load(
                data, None, RELAYS[hop].pub, check_time=False)
            ch.step(2)
        got = getattr(outer, slot)
        got = got[0] if is_list else got
        ch.equal(got.sig, inner.sig, inner_name + ':signature lost')
        ch.equal(ref.cbor(w.slots_spec(inner_name, got)),
                 ref.cbor(w.slots_spec(inner_name, inner)),
                 '{}.{}:content'.format(inner_name, field))
        ch.check(verifies(got, author_) is True,
                 '{}.{}:signature not valid any more'.format(
                     inner_name, field))
        ch.see(name, slot, field, hops)
    return scenario


def places_of(every):
    """(outer, slot)...; just one for each kind which is nested, or all"""
    result = []
    kinds = set()
    for name in NESTING:
        if name == 'concents.VerdictReportComputedTask':
            # both of its branches have to say the same
            continue
        for slot, (kind, _, _) in golden.BY_NAME[name][1].nested.items():
            if every or kind not in kinds:
                kinds.add(kind)
                result.append((name, slot))
    return result


def scenarios(tier):
    hops = 2 if tier == 'quick' else 3
    return [
        engine.Scenario('one hop', relay(1, NESTING)),
        engine.Scenario('relay', relay(hops, NESTING)),
        engine.Scenario('nested after transport', nested_after_transport),
        engine.Scenario('several outers', several_outers),
        engine.Scenario('unsigned nested', unsigned_nested),
        engine.Scenario('values', values(places_of(tier != 'quick'))),
        sizes.relay(tier),
    ]
