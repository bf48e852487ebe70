"""C35: absent, unknown and reordered fields"""
import itertools

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import tasks

from mc import alphabet
from mc import clock
from mc import engine
from mc import golden
from mc import load as load_
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'field lists which are not lists of pairs with text names are not judged',
    'a message of the task chain which lacks a field that its arrival checks '
    'need may be refused',
    'names which are attributes of the class (methods, constants) are not '
    'used as unknown fields',
]

DEFAULTS = {
    ('tasks.WantToComputeTask', 'num_subtasks'): lambda: 1,
    ('tasks.WantToComputeTask', 'concent_enabled'): lambda: False,
    ('tasks.TaskToCompute', 'concent_enabled'): lambda: False,
    ('tasks.TaskFailure', 'reason'):
        lambda: tasks.TaskFailure.REASON.ComputationError,
    ('p2p.Peers', 'peers'): list,
    ('p2p.Tasks', 'tasks'): list,
    ('p2p.ResourcePeers', 'resource_peers'): list,
    ('p2p.Gossip', 'gossip'): list,
}
# fields without which an arriving message may be refused; SEE: assumptions
NEEDED = {
    'tasks.TaskToCompute': None,
    'tasks.SubtaskResultsAccepted': ('payment_ts', 'report_computed_task'),
    'tasks.SubtaskResultsRejected': ('reason', 'report_computed_task'),
    'concents.VerdictReportComputedTask': (
        'ack_report_computed_task', 'force_report_computed_task'),
}


def may_refuse(name, missing):
    if name not in NEEDED:
        return False
    needed = NEEDED[name]
    return bool(missing) and (needed is None or bool(
        set(needed) & set(missing)))


def fresh_fields(name):
    """the contents of all the fields of a valid message, by name"""
    msg = w.build(name, signed=False)
    return {slot: getattr(msg, slot)
            for slot in golden.BY_NAME[name][1].slots}


def subsets(slots, limit):
    """which fields are there: everything but few, or only few"""
    slots = tuple(slots)
    sizes = set(range(limit + 1)) | set(
        range(len(slots) - limit, len(slots) + 1))
    if len(slots) < 6:
        sizes = set(range(len(slots) + 1))
    return [c for size in sorted(sizes) if size >= 0
            for c in itertools.combinations(slots, size)]


def default(name, slot):
    return DEFAULTS.get((name, slot), lambda: None)()


def expect(ch, name, msg, fields):
    """`fields` and the defaults, nothing else"""
    for slot in golden.BY_NAME[name][1].slots:
        got = getattr(msg, slot)
        want = fields[slot] if fields.get(slot) is not None \
            else default(name, slot)
        ch.compared += 1
        if want is None or isinstance(want, (bool, int, str)):
            good = type(got) is type(want) and got == want
        else:
            good = w.difference(want, got) is None
        if not good:
            ch.fail('{}.{}:{}'.format(
                name, slot, 'given' if slot in fields else 'absent'),
                '{} instead of {}'.format(
                    engine.short(got), engine.short(want)))


def constructed(limit):
    def scenario(ch):
        name = ch.pick('class', w.names())
        slots = golden.BY_NAME[name][1].slots
        given = ch.pick('given', subsets(slots, limit))
        rest = ch.pick('rest', ('left out', 'None'))
        with_header = ch.pick('header', (True, False))
        fields = {k: v for k, v in fresh_fields(name).items() if k in given}
        kwargs = dict(fields)
        if rest == 'None':
            kwargs.update((slot, None) for slot in slots
                          if slot not in given)
        now = w.TS + 77
        clock.set_time(now, 999999)
        if with_header:
            kwargs['header'] = w.header(name)
        ch.step()
        msg = w.cls(name)(**kwargs)
        expect(ch, name, msg, fields)
        ch.equal(msg.sig, None, name + ':sig')
        header = w.header(name) if with_header else w.header(name, now)
        ch.equal(tuple(msg.header), tuple(header), name + ':header')
        # defaults belong to one message only
        for slot in slots:
            value = getattr(msg, slot)
            if isinstance(value, list) and slot not in fields:
                value.append('changed')
                ch.step()
                other = w.cls(name)(**kwargs)
                ch.equal(getattr(other, slot), default(name, slot),
                         '{}.{}:shared'.format(name, slot))
        ch.see(name, given)
    return scenario


def values(ch):
    """whatever a field is given, it keeps"""
    name = ch.pick('class', w.names())
    slots = [s for s in golden.BY_NAME[name][1].slots]
    if not slots:
        return
    slot = ch.pick('slot', slots)
    spec = golden.BY_NAME[name][1]
    options = alphabet.nested_options(name, slot) if slot in spec.nested \
        else alphabet.slot_options(name, slot)
    if (name, slot) == ('tasks.WantToComputeTask', 'num_subtasks'):
        options = options + [0, -1, 2 ** 70]
    if (name, slot) not in DEFAULTS and slot not in spec.nested:
        options = options + [0, False, '', b'', [], {}]
    if not options:
        return
    value = alphabet.value_of(ch.pick('value', options))
    ch.step()
    msg = w.cls(name)(header=w.header(name), **{slot: value})
    expect(ch, name, msg, {slot: value})
    ch.see(name, slot)


EXTRA_VALUES = (
    None, 0, True, 'a', b'\xff', [], [1, [2]], {}, {'a': {'b': None}},
    [False, None], [True, [[1, 2], b'', []]], 2 ** 70,
)
EXTRA_NAMES = (
    'unknown', '', '_', '_private', '__class__', '__slots__', '__dict__',
    'header', 'sig', 'slots', 'timestamp', 'encrypted', 'ENCRYPT', 'SIGN',
    'TYPE', '_type', 'serialize', 'load_slots', 'MSG_SLOTS', 'ENUM_SLOTS',
    'deserialized', 'self', 'Unknown', 'is_valid', 'x' * 300, 'ż',
    # the names of fields need not even be texts
    0, -2 ** 70, None, 1.5, b'rand_val',
)


def other_names(name):
    slots = set(golden.BY_NAME[name][1].slots)
    names = set()
    for spec in golden.TYPES.values():
        names.update(spec.slots)
    for slot in slots:
        names.update((slot.upper(), slot + ' ', '_' + slot, slot + '_',
                      slot[:-1], ' ' + slot))
    klass = w.cls(name)
    return sorted(
        n for n in names - slots if not hasattr(klass, n)) + [
            'unknown', 'header_', 'x' * 100, 'ż', 'Sig']


def unknown_given(ch):
    name = ch.pick('class', w.names())
    extra = ch.pick('extra', other_names(name))
    complete = ch.pick('rest', (False, True))
    for value in (None, 0, 'a', [1]):
        kwargs = fresh_fields(name) if complete else {}
        kwargs[extra] = value
        ch.step()
        ch.compared += 1
        try:
            msg = w.cls(name)(header=w.header(name), **kwargs)
        except AttributeError:
            continue
        ch.fail(name + ':unknown field', '{}={!r} is accepted: {!r}'.format(
            extra, value, engine.short(msg)))
    ch.see(name)


# loading

def wire_fields(name):
    msg = w.build(name, signed=False)
    return msg, w.slots_spec(name, msg)


def load(ch, name, slots, signed, encrypted):
    """the message, or the exception"""
    spec = golden.BY_NAME[name][1]
    encrypted = encrypted and spec.encrypt
    sig = None
    version = load_.RELEASE if name == 'base.Hello' else None
    if signed:
        sig = ref.sign(w.OTHER.priv, ref.digest(
            golden.BY_NAME[name][0], w.TS, ref.cbor(slots), version))
    data = ref.wire(
        golden.BY_NAME[name][0], w.TS, slots, encrypted, sig,
        version,
        crypt=lambda payload: ref.ecies_encrypt(
            payload, w.PROVIDER.pub, w.CONCENT.priv, b'i' * 16))
    ch.step()
    try:
        return shortcuts.load(
            data, w.PROVIDER.priv, w.OTHER.pub if signed else None, False)
    except exceptions.MessageError as e:
        return e


def expect_loaded(ch, name, got, fields, missing, what):
    if isinstance(got, exceptions.MessageError):
        ch.compared += 1
        if may_refuse(name, missing):
            ch.see('refused')
            return
        ch.fail('{}:{} refused'.format(name, what), repr(got))
    ch.check(type(got) is w.cls(name), name + ':type', type(got))
    expect(ch, name, got, fields)


def modes(ch, name):
    spec = golden.BY_NAME[name][1]
    return ch.pick('mode', [
        (signed, encrypted)
        for signed, encrypted in ((False, False), (True, False),
                                  (False, True))
        if spec.sign >= signed and spec.encrypt >= encrypted])


def absent(limit):
    def scenario(ch):
        name = ch.pick('class', w.names())
        signed, encrypted = modes(ch, name)
        msg, wire = wire_fields(name)
        given = ch.pick('given', subsets([s for s, _ in wire], limit))
        slots = [[s, v] for s, v in wire if s in given]
        got = load(ch, name, slots, signed, encrypted)
        expect_loaded(
            ch, name, got, {s: getattr(msg, s) for s in given},
            [s for s, _ in wire if s not in given], 'absent fields')
        ch.see(name, given)
    return scenario


def extended(ch):
    """unknown fields in every place"""
    name = ch.pick('class', w.names())
    signed, encrypted = modes(ch, name)
    msg, wire = wire_fields(name)
    place = ch.pick('place', range(len(wire) + 1))
    extra = ch.pick('name', [n for n in EXTRA_NAMES
                             if n not in dict(wire)] + ['several'])
    fields = dict((s, getattr(msg, s)) for s, _ in wire)
    for value in EXTRA_VALUES:
        added = [[extra, value]]
        if extra == 'several':
            added = [[n, value] for n in EXTRA_NAMES if n not in dict(wire)]
        got = load(ch, name, wire[:place] + added + wire[place:], signed,
                   encrypted)
        expect_loaded(ch, name, got, fields, (), 'unknown field')
        ch.equal(tuple(got.header)[:2], (golden.BY_NAME[name][0], w.TS),
                 name + ':header')
        ch.check(not hasattr(got, 'unknown'), name + ':kept')
        if not signed:
            ch.equal(got.sig, b'\0' * 65, name + ':sig')
    ch.see(name, place)


def nested_extended(ch):
    """unknown fields of a nested message are ignored, too"""
    name = ch.pick('class', [
        m.name for _, m in sorted(golden.TYPES.items()) if m.nested])
    slot = ch.pick('slot', sorted(golden.BY_NAME[name][1].nested))
    msg = w.build(name, signed=False, include=(slot, ))
    wire = w.slots_spec(name, msg)
    if getattr(msg, slot) is None:
        return
    for extra in EXTRA_NAMES:
        for position in (0, None):
            changed = []
            for field, value in wire:
                if field == slot:
                    is_list, inner = value
                    many = inner if is_list else [inner]
                    many = [[h, s, [i for i in f if i[0] != extra]]
                            for h, s, f in many]
                    for single in many:
                        if extra in dict(single[2]):
                            continue
                        single[2].insert(
                            len(single[2]) if position is None else position,
                            [extra, 'x'])
                    value = [is_list, many if is_list else many[0]]
                changed.append([field, value])
            got = load(ch, name, changed, False, False)
            if isinstance(got, exceptions.MessageError):
                ch.fail(name + ':nested unknown field refused', repr(got))
            # how its own signature fares is another matter
            expect(ch, name, got, {s: getattr(msg, s) for s, _ in wire})
    ch.see(name, slot)


def orders(wire):
    count = len(wire)
    if count <= 4:
        return list(itertools.permutations(range(count)))
    result = [tuple(range(count))[::-1]]
    for shift in range(1, count):
        result.append(tuple((i + shift) % count for i in range(count)))
    for first, second in itertools.combinations(range(count), 2):
        order = list(range(count))
        order[first], order[second] = order[second], order[first]
        result.append(tuple(order))
    for first in range(count):
        order = list(range(count))
        order.append(order.pop(first))
        result.append(tuple(order))
        order.insert(0, order.pop(first))
        result.append(tuple(order))
    return result


def reordered(ch):
    name = ch.pick('class', w.names())
    signed, encrypted = modes(ch, name)
    msg, wire = wire_fields(name)
    fields = {s: getattr(msg, s) for s, _ in wire}
    order = ch.pick('order', orders(wire))
    slots = [wire[i] for i in order]
    got = load(ch, name, slots, signed, encrypted)
    expect_loaded(ch, name, got, fields, (), 'reordered')
    # and from then on they are in the right order
    ch.equal([s for s, _ in got.slots()], [s for s, _ in wire],
             name + ':order')
    got = load(ch, name, slots + [['unknown', 1]], signed, encrypted)
    expect_loaded(ch, name, got, fields, (), 'reordered and unknown')
    ch.see(name, order)


def scenarios(tier):
    quick = tier == 'quick'
    return [
        engine.Scenario('constructed', constructed(1 if quick else 3)),
        engine.Scenario('values', values),
        engine.Scenario('unknown given', unknown_given),
        engine.Scenario('absent', absent(2 if quick else 3)),
        engine.Scenario('extended', extended),
        engine.Scenario('nested extended', nested_extended),
        engine.Scenario('reordered', reordered),
    ]
