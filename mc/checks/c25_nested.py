"""C25: nested messages are of the declared kind"""
from golem_messages import exceptions
from golem_messages.message import base

from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import world as w
from mc.checks import c06_totality as c06

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a nested message whose own header names another kind is not claimed',
]

PLACES = [
    (name, slot) for name in w.names()
    for slot in golden.BY_NAME[name][1].nested
]

JUNK = [
    0, 1, True, False, 1.5, '', 'TaskToCompute', b'', b'\0' * 65, {}, {'a': 1},
    object, 'the class', 'header', 'slots', 'plain form', 'dict of slots',
    (), ('x', ),
]


def junk(name, slot, option):
    klass = golden.BY_NAME[name][1].nested[slot][0]
    if option == 'the class':
        return w.cls(klass)
    if option == 'header':
        return w.header(klass)
    if option in ('slots', 'plain form', 'dict of slots'):
        msg = w.build(klass)
        if option == 'slots':
            return msg.slots()
        if option == 'dict of slots':
            return dict(msg.slots())
        return (msg.header, msg.sig, msg.slots())
    return option


def dumping(ch, name, msg, ways):
    """Does the message get out, and how?"""
    way = ch.pick('way', ways)
    ch.step()
    try:
        if way == 'dump':
            msg.serialize()
        elif way == 'signed dump':
            msg.serialize(w.signer(name).priv)
        elif way == 'encrypted dump':
            msg.serialize(encrypt_func=lambda data: data)
        elif way == 'slots':
            msg.slots()
        elif way == 'sign':
            msg.sign_message(w.signer(name).priv)
    except exceptions.MessageError as e:
        return e
    return None


def put(ch, name, slot, value, how):
    """a message with the value in the field"""
    if how == 'constructor':
        over = {slot: value}
        if name == 'tasks.TaskToCompute':
            over['ethsig'] = None
        return w.build(name, signed=False, **over)
    msg = w.build(name, signed=False)
    setattr(msg, slot, value)
    return msg


WAYS = ('dump', 'signed dump', 'encrypted dump', 'slots', 'sign')


def of_kind(name, slot, kind):
    return golden.BY_NAME[name][1].nested[slot][0] == kind


def out_kinds(ch):
    """every kind of message in every nested field"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    kind = ch.pick('kind', w.names())
    shape = ch.pick('shape', ('single', ) if not is_list else (
        'list', 'second in list', 'third in list'))
    child = w.build(kind)
    if shape == 'list':
        value = [child]
    elif shape == 'second in list':
        value = [w.build(klass), child]
    elif shape == 'third in list':
        value = [w.build(klass), w.build(klass), child, w.build(klass)]
    else:
        value = child
    msg = put(ch, name, slot, value, ch.pick(
        'how', ('constructor', 'attribute')))
    error = dumping(ch, name, msg, WAYS)
    good = kind == klass
    ch.check((error is None) == good, '{}.{}:{}'.format(
        name, slot, 'refused' if good else 'dumped'), '{}: {!r}'.format(
            kind, error))
    if not good:
        ch.check(isinstance(error, exceptions.FieldError),
                 '{}.{}:error'.format(name, slot), repr(error))
        ch.equal(error.field, slot, '{}.{}:field'.format(name, slot))
    ch.see(name, slot, kind, error is None)


def out_changed(ch):
    """messages which are dumped, get something else in, and are dumped
    again"""
    name, slot = ch.pick('place', PLACES)
    klass, _, is_list = golden.BY_NAME[name][1].nested[slot]
    kind = ch.pick('kind', (
        klass, 'base.Ping' if 'base.Ping' in golden.BY_NAME
        else w.names()[0], 'tasks.WantToComputeTask',
        'tasks.TaskToCompute', 'tasks.SubtaskResultsAccepted', None))
    first = ch.pick('before', WAYS)
    change = ch.pick('change', (
        'appended', 'inserted', 'replaced', 'another list') if is_list
                     else ('replaced', ))
    msg = w.build(name, signed=False)
    if is_list:
        setattr(msg, slot, [w.build(klass), w.build(klass)])
    msg.sig = None
    ch.step()
    if first == 'sign':
        msg.sign_message(w.signer(name).priv)
    elif first == 'slots':
        msg.slots()
    else:
        msg.serialize()
    msg.sig = None
    child = 7 if kind is None else w.build(kind)
    if change == 'appended':
        getattr(msg, slot).append(child)
    elif change == 'inserted':
        getattr(msg, slot).insert(0, child)
    elif is_list and change == 'replaced':
        getattr(msg, slot)[1] = child
    elif is_list:
        setattr(msg, slot, getattr(msg, slot) + [child])
    else:
        setattr(msg, slot, child)
    error = dumping(ch, name, msg, WAYS)
    good = kind == klass
    ch.check((error is None) == good, '{}.{}:changed, {}'.format(
        name, slot, 'refused' if good else 'dumped'), '{}: {!r}'.format(
            kind, error))
    if not good:
        ch.check(isinstance(error, exceptions.FieldError),
                 '{}.{}:error'.format(name, slot), repr(error))
    ch.see(name, kind, change)


def out_junk(ch):
    """anything else in every nested field"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    value = junk(name, slot, ch.pick('junk', JUNK))
    shape = ch.pick('shape', (
        'single', 'list', 'second in list', 'in a list in a list'))
    if shape == 'list':
        value = [value]
    elif shape == 'second in list':
        value = [w.build(klass), value]
    elif shape == 'in a list in a list':
        value = [[w.build(klass), value]]
    msg = put(ch, name, slot, value, ch.pick(
        'how', ('constructor', 'attribute')))
    error = dumping(ch, name, msg, WAYS)
    ch.check(isinstance(error, exceptions.FieldError),
             '{}.{}:junk dumped'.format(name, slot),
             '{} {!r}'.format(engine.short(value), error))
    ch.see(name, slot, shape)


def out_none(ch):
    """nothing in the field"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    how = ch.pick('how', ('constructor', 'attribute', 'left out'))
    if how == 'left out':
        msg = w.cls(name)(header=w.header(name), **{
            k: v for k, v in put_all(name).items() if k != slot})
    else:
        msg = put(ch, name, slot, None, how)
    ch.check(getattr(msg, slot) is None, '{}.{}:none read'.format(
        name, slot), repr(getattr(msg, slot)))
    error = dumping(ch, name, msg, WAYS)
    if not allow_none:
        ch.check(isinstance(error, exceptions.FieldError),
                 '{}.{}:none dumped'.format(name, slot), repr(error))
    else:
        ch.check(error is None, '{}.{}:none refused'.format(name, slot),
                 repr(error))
        ch.equal(dict(msg.slots())[slot], (False, None),
                 '{}.{}:none form'.format(name, slot))
    ch.see(name, slot, allow_none)


def put_all(name):
    msg = w.build(name, signed=False)
    return {slot: getattr(msg, slot) for slot in golden.BY_NAME[name][1].slots}


def wire(name, slots):
    return c06.wire(name, slots)


def load(data):
    return base.Message.deserialize(data, lambda data: data, False)


def plain_message(kind):
    return [[w.type_of(kind), w.TS, False], b'\0' * 65, c06.plain(kind)]


WIRE_JUNK = [
    0, 1, True, 'x', b'x', {'a': 1}, [1], [1, 2], [1, 2, 3], [1, 2, 3, 4],
    [[], [], []], [[2002, w.TS], b'', []],
    [[2002, w.TS, False, 1], b'', []], [None, None, None],
    {'header': [], 'sig': b'', 'slots': []},
]


def in_junk(ch):
    """malformed shapes on the wire"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    index = golden.BY_NAME[name][1].slots.index(slot)
    junk_ = ch.pick('junk', WIRE_JUNK)
    good = plain_message(klass)
    shape = ch.pick('shape', (
        'bare', 'as declared', 'other way', 'flag not boolean',
        'second in list', 'three parts', 'one part', 'good bare',
        'good other way', 'good in list twice'))
    if shape == 'bare':
        value = junk_
    elif shape == 'as declared':
        value = [is_list, [junk_] if is_list else junk_]
    elif shape == 'other way':
        value = [not is_list, junk_ if is_list else [junk_]]
    elif shape == 'flag not boolean':
        value = ['x', [junk_] if is_list else junk_]
    elif shape == 'second in list':
        value = [True, [good, junk_]]
    elif shape == 'three parts':
        value = [is_list, [good] if is_list else good, junk_]
    elif shape == 'one part':
        value = [good]
    elif shape == 'good bare':
        value = good
    elif shape == 'good other way':
        value = [not is_list, good if is_list else [good]]
    else:
        value = [is_list, [[good]] if is_list else [good, good]]
    slots = c06.replaced(c06.plain(name), (index, 1), value)
    ch.step()
    try:
        msg = load(wire(name, slots))
    except exceptions.MessageError:
        ch.see(name, slot, shape, 'refused')
        return
    except Exception as e:  # pylint: disable=broad-except
        ch.fail('{}.{}:escaped'.format(name, slot), repr(e))
    got = getattr(msg, slot)
    ch.fail('{}.{}:malformed loaded as {}'.format(
        name, slot, type(got).__name__), '{} {} {}'.format(
            shape, engine.short(junk_), engine.short(got)))


def in_none(ch):
    """nothing on the wire"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    index = golden.BY_NAME[name][1].slots.index(slot)
    shape = ch.pick('shape', ('none', 'none in list', 'bare'))
    value = {'none': [False, None], 'none in list': [True, [None]],
             'bare': None}[shape]
    others = ch.pick('others', ('present', 'none'))
    slots = c06.plain(name)
    if others == 'none':
        for i, other in enumerate(golden.BY_NAME[name][1].slots):
            nested = golden.BY_NAME[name][1].nested.get(other)
            if nested and nested[1]:
                slots = c06.replaced(slots, (i, 1), [False, None])
    slots = c06.replaced(slots, (index, 1), value)
    ch.step()
    try:
        msg = load(wire(name, slots))
    except exceptions.MessageError as e:
        msg = e
    if shape == 'none' and allow_none:
        ch.check(not isinstance(msg, Exception),
                 '{}.{}:none not loaded'.format(name, slot), repr(msg))
        ch.check(getattr(msg, slot) is None,
                 '{}.{}:none loaded as'.format(name, slot))
    elif not allow_none or shape != 'none':
        ch.check(isinstance(msg, exceptions.MessageError),
                 '{}.{}:none loaded'.format(name, slot), shape)
    ch.see(name, slot, shape, type(msg).__name__)


def in_good(ch):
    """what comes back is of the declared kind"""
    name, slot = ch.pick('place', PLACES)
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    count = ch.pick('count', (1, 2, 3) if is_list else (1, ))
    child = [w.build(klass) for _ in range(count)]
    msg = w.build(name, **{slot: child if is_list else child[0]})
    ch.step(2)
    back = load(msg.serialize())
    got = getattr(back, slot)
    if is_list:
        ch.check(isinstance(got, list) and len(got) == count,
                 '{}.{}:list'.format(name, slot), repr(got))
    else:
        got = [got]
    for one, other in zip(got, child):
        ch.check(type(one) is w.cls(klass), '{}.{}:kind'.format(name, slot),
                 type(one).__name__)
        ch.check(w.difference(one, other) is None,
                 '{}.{}:content'.format(name, slot),
                 lambda: w.difference(one, other))
    # and the reference encoder's bytes give the same
    ch.step()
    other = load(ref.wire(
        w.type_of(name), w.TS, w.slots_spec(name, msg), False, msg.sig,
        mc_load.RELEASE if name == 'base.Hello' else None))
    ch.check(w.difference(back, other) is None, '{}.{}:bytes'.format(
        name, slot), lambda: w.difference(back, other))
    ch.see(name, slot, count)


def deep(ch):
    """a wrong kind far down the chain, put there after the chain was made"""
    name, slot = ch.pick('place', [
        p for p in PLACES if not golden.BY_NAME[p[0]][1].nested[p[1]][2]])
    klass = golden.BY_NAME[name][1].nested[slot][0]
    inner = ch.pick('inner', sorted(golden.BY_NAME[klass][1].nested)
                    or [None])
    if inner is None:
        return
    wrong = ch.pick('wrong', ('another kind', 'None', 'a list', 'text'))
    _, inner_none, inner_list = golden.BY_NAME[klass][1].nested[inner]
    msg = w.build(name, signed=False)
    child = getattr(msg, slot)
    if child is None:
        child = w.build(klass)
        setattr(msg, slot, child)
    value = {
        'another kind': w.build('p2p.Ping'),
        'None': None,
        'a list': [w.build('base.RandVal')],
        'text': 'text',
    }[wrong]
    setattr(child, inner, value)
    error = dumping(ch, name, msg, WAYS)
    if wrong == 'None' and inner_none:
        ch.check(error is None, 'deep {}.{}.{}:refused'.format(
            name, slot, inner), repr(error))
    else:
        ch.check(isinstance(error, exceptions.FieldError),
                 'deep {}.{}.{}:dumped'.format(name, slot, inner),
                 '{} {!r}'.format(wrong, error))
    ch.see(name, slot, inner, wrong)


def scenarios(tier):
    del tier
    return [
        engine.Scenario('out kinds', out_kinds),
        engine.Scenario('out changed', out_changed),
        engine.Scenario('out junk', out_junk),
        engine.Scenario('out none', out_none),
        engine.Scenario('in junk', in_junk),
        engine.Scenario('in none', in_none),
        engine.Scenario('in good', in_good),
        engine.Scenario('deep', deep),
    ]
