"""C36: messages share nothing changeable, copies are faithful, reading a
message does not change it"""
import copy
import pickle

from golem_messages import cryptography
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.datastructures import masking
from golem_messages.message import base

from mc import alphabet
from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the flag of a header which tells whether the message was encrypted '
    'when it was last dumped is not content',
    'a message built from another message object, container or list keeps '
    'that very object; only what was obtained separately must be separate',
    'pickle protocols 2 and later (the earlier ones cannot store slots)',
]

PROTOCOLS = range(2, pickle.HIGHEST_PROTOCOL + 1)
MARK = 'something else'


def snapshot(msg):
    """content, signature, header, version: everything but object identity"""
    if isinstance(msg, base.Message):
        return (type(msg).__name__, tuple(msg.header), msg.sig, w.plain(msg),
                getattr(msg, '_version', None))
    return type(msg).__name__, w.plain(msg)


def strict(value):
    if isinstance(value, dict):
        return 'dict', tuple(sorted(
            ((strict(k), strict(v)) for k, v in value.items()), key=repr))
    if isinstance(value, (list, tuple)):
        return type(value) is tuple or 'list', tuple(
            strict(v) for v in value)
    return type(value).__name__, repr(value)


def changes(value, path=''):
    """[(path, function)]: everything which can be changed inside of the
    value, innermost first; each function changes it in place"""
    result = []
    if isinstance(value, base.Message):
        name = '{}.{}'.format(
            type(value).__module__.rsplit('.', 1)[1], type(value).__name__)
        for slot in golden.BY_NAME[name][1].slots:
            result += changes(getattr(value, slot), path + '.' + slot)
        for slot in golden.BY_NAME[name][1].slots:
            result.append((path + '.' + slot, setter(value, slot, MARK)))
        result.append((path + '.header', setter(
            value, 'header', w.header(name, w.TS - 17))))
        result.append((path + '.sig', setter(value, 'sig', b'\7' * 65)))
        if name == 'base.Hello':
            result.append((path + '._version', setter(
                value, '_version', '9.9.9')))
    elif isinstance(value, datastructures.Container):
        for slot in type(value).__slots__:
            result += changes(getattr(value, slot), path + '.' + slot)
        for slot in type(value).__slots__:
            result.append((path + '.' + slot, setter(value, slot, MARK)))
    elif isinstance(value, masking.Mask):
        result.append((path + '.increase', value.increase))
        result.append((path + '.decrease', lambda: value.decrease(2)))
    elif isinstance(value, dict):
        for key in value:
            result += changes(value[key], '{}[{!r}]'.format(path, key))
        for key in list(value):
            result.append((
                '{}[{!r}]'.format(path, key),
                lambda key=key: dict.__setitem__(value, key, MARK)))
        result.append((path + '.clear', lambda: dict.clear(value)))
    elif isinstance(value, list):
        for i, item in enumerate(value):
            result += changes(item, '{}[{}]'.format(path, i))
        result.append((path + '.append', lambda: value.append(MARK)))
        result.append((path + '.clear', value.clear))
    return result


def setter(value, slot, new):
    return lambda: setattr(value, slot, new)


def pickled(protocol):
    def way(value):
        return pickle.loads(pickle.dumps(value, protocol))
    return way


COPIES = [('deepcopy', copy.deepcopy)] + [
    ('pickle {}'.format(p), pickled(p)) for p in PROTOCOLS]


def loaded_twice(key):
    def way(name, over):
        msg = w.build(name, **over)
        sign = None if msg.sig or not golden.BY_NAME[name][1].sign \
            else w.OTHER.priv
        data = shortcuts.dump(msg, sign, key and key.pub)
        return tuple(
            shortcuts.load(data, key and key.priv, None, False)
            for _ in range(2))
    return way


def loaded_from_equal(name, over):
    """two messages of the same content, by different senders"""
    result = []
    for key in (w.OTHER, w.CONCENT):
        msg = w.build(name, signed=False, **over)
        data = shortcuts.dump(msg, key.priv, None)
        result.append(shortcuts.load(data, None, None, False))
    return tuple(result)


def relayed(name, over):
    msg = w.build(name, **over)
    data = shortcuts.dump(
        msg, None if msg.sig else w.OTHER.priv, None)
    first = shortcuts.load(data, None, None, False)
    second = shortcuts.load(
        shortcuts.dump(first, None, None), None, None, False)
    return first, second


def built(name, over):
    return w.build(name, **over), w.build(name, **over)


def bare(name, over):
    """as many defaults as there are"""
    return tuple(
        w.cls(name)(header=w.header(name), **over) for _ in range(2))


def copied(way, loaded):
    def make(name, over):
        msg = w.build(name, **over)
        if loaded:
            msg = shortcuts.load(
                shortcuts.dump(msg, None if msg.sig else w.OTHER.priv, None),
                None, None, False)
        return msg, way(msg)
    return make


WAYS = [
    ('loaded twice', loaded_twice(None)),
    ('decrypted twice', loaded_twice(w.PROVIDER)),
    ('loaded from two senders', loaded_from_equal),
    ('relayed', relayed),
    ('built twice', built),
    ('bare', bare),
    ('deepcopy', copied(copy.deepcopy, False)),
    ('deepcopy of loaded', copied(copy.deepcopy, True)),
    ('pickle', copied(pickled(2), False)),
    ('pickle of loaded', copied(
        pickled(pickle.HIGHEST_PROTOCOL), True)),
]


def sharing(names, pairs):
    def scenario(ch):
        name = ch.pick('class', names)
        label, way = ch.pick('way', WAYS)
        over = {}
        if pairs:
            spec = golden.BY_NAME[name][1]
            slots = [s for s in spec.slots if s not in spec.nested]
            if not slots:
                return
            slot = ch.pick('field', slots)
            option = ch.pick(
                'content', alphabet.slot_options(name, slot, True) or
                [None])
            over[slot] = alphabet.value_of(option)
        elif label == 'bare':
            over = {}
        swap = ch.pick('changed one', ('first', 'second')) == 'second'
        try:
            one, other = way(name, over)
        except exceptions.MessageError:
            if not pairs:
                raise
            return
        ch.step()
        if swap:
            one, other = other, one
        before = strict(snapshot(other))
        count = 0
        for path, change in changes(one):
            try:
                change()
            except (ValueError, TypeError, AttributeError):
                continue  # a mask which was replaced or is full
            count += 1
            ch.equal(strict(snapshot(other)), before, '{}:{}:shared'.format(
                name, label), path)
        ch.step(count)
        # whatever was changed in the first one does not reach those which
        # are made later, either
        third = way(name, over)[0 if swap else 1]
        ch.equal(strict(snapshot(third)), before, '{}:{}:remembered'.format(
            name, label))
        ch.see(name, label, count)
    return scenario


STRUCTURES = [
    ('Node', lambda: w.dt_p2p.Node(**w.node_dict())),
    ('Node by key', lambda: w.dt_p2p.Node(key='k')),
    ('TaskHeader', w.task_header),
    ('TaskHeader minimal', lambda: w.dt_tasks.TaskHeader(
        task_id='t', task_owner=w.node_dict(), subtasks_count=1,
        min_version='1.0.0', timestamp=w.TS)),
    ('Mask', masking.Mask),
    ('Mask of bits', lambda: masking.Mask.from_bits({1, 5, 255})),
    ('ComputeTaskDef', lambda: w.cls('tasks.ComputeTaskDef')()),
    ('ComputeTaskDef full', lambda: w.cls('tasks.ComputeTaskDef')(
        w.ctd_dict())),
    ('ProviderStats', lambda: w.dt_stats.ProviderStats(**w.stats_dict())),
    ('ProviderStats empty', lambda: w.dt_stats.ProviderStats()),
    ('Peer', lambda: w.dt_p2p.Peer(
        address='1.2.3.4', port=1, node=w.dt_p2p.Node(**w.node_dict()))),
    ('FileInfo', lambda: w.FIELDS['concents.FileTransferToken']()[
        'files'][0]),
]


def content(value):
    if isinstance(value, masking.Mask):
        return value.to_bytes()
    return w.plain(value)


def structures(ch):
    name, make = ch.pick('structure', STRUCTURES)
    label, way = ch.pick(
        'way', [('built twice', lambda v: make())] + COPIES)
    swap = ch.pick('changed one', ('first', 'second')) == 'second'
    one = make()
    other = way(one)
    ch.step()
    ch.check(type(one) is type(other) and one is not other,
             name + ':type', label)
    if not label.startswith('built'):
        ch.equal(strict(content(other)), strict(content(one)),
                 name + ':copy differs', label)
    if swap:
        one, other = other, one
    before = strict(content(other))
    count = 0
    for path, change in changes(one):
        try:
            change()
        except (ValueError, TypeError, AttributeError):
            continue
        count += 1
        ch.equal(strict(content(other)), before, name + ':shared',
                 label + path)
    ch.step(count)
    if label.startswith('built'):
        ch.equal(strict(content(make())), before, name + ':remembered')
    ch.see(name, label, count)


META = ('signed', 'unsigned', 'encrypted', 'old', 'version', 'sig 65',
        'sig 3', 'nested unsigned')


def faithful(names):
    """copies of messages with every content"""
    def scenario(ch):
        name = ch.pick('class', names)
        spec = golden.BY_NAME[name][1]
        over = {}
        slot = ch.pick('field', ['none'] + list(spec.slots))
        meta = 'signed'
        if slot == 'none':
            meta = ch.pick('rest', META)
            if meta == 'version' and name != 'base.Hello':
                return
        elif slot in spec.nested:
            options = alphabet.nested_options(name, slot)
            if not options:
                return
            over[slot] = alphabet.value_of(ch.pick('content', options))
        else:
            options = alphabet.slot_options(name, slot, True)
            if not options:
                return
            over[slot] = alphabet.value_of(ch.pick('content', options))
        signed = meta in ('signed', 'encrypted')
        try:
            msg = w.build(name, signed=signed, **over)
        except exceptions.MessageError:
            return
        if meta == 'encrypted':
            msg.encrypted = True
        elif meta == 'old':
            msg.header = w.header(name, 0)
        elif meta == 'version':
            msg._version = '1.2.3-a'
        elif meta.startswith('sig '):
            msg.sig = b'\5' * int(meta[4:])
        elif meta == 'nested unsigned':
            for nested in spec.nested:
                value = getattr(msg, nested)
                for item in value if isinstance(value, list) else [value]:
                    if item is not None:
                        item.sig = None
                        item.encrypted = True
        before = strict(snapshot(msg))
        label, way = ch.pick('way', [('copy', copy.copy)] + COPIES)
        got = way(msg)
        ch.step()
        ch.check(type(got) is type(msg) and got is not msg,
                 name + ':copy of another type', label)
        ch.equal(strict(snapshot(got)), before, name + ':copy differs',
                 label)
        ch.equal(strict(snapshot(msg)), before,
                 name + ':original changed by copying', label)
        ch.check(got == msg and msg == got, name + ':copy not equal', label)
        ch.equal(got.slots(), msg.slots(), name + ':slots of the copy',
                 label)
        ch.equal(got.get_short_hash(), msg.get_short_hash(),
                 name + ':hash of the copy', label)
        if spec.sign and signed:
            for key in {w.signer(name)}:
                ch.check(got.verify_signature(key.pub),
                         name + ':signature of the copy', label)
        # a top level field of a copy is its own
        if spec.slots:
            setattr(got, spec.slots[0], MARK)
        got.sig = b'\7' * 65
        got.header = w.header(name, w.TS - 5)
        ch.equal(strict(snapshot(msg)), before,
                 name + ':original changed through its copy', label)
        ch.see(name, slot, label, engine.fingerprint(before))
    return scenario


def properties_of(msg):
    result = []
    for attr in sorted(dir(type(msg))):
        if attr.startswith('__'):
            continue
        if isinstance(getattr(type(msg), attr, None), property):
            result.append(attr)
    return result


METHODS = (
    'slots', 'get_short_hash', 'is_valid', 'is_valid_for_requestor',
    'validate_taskid', 'validate_ownership', 'validate_ownership_chain',
    'verify_ethsig', 'verify_promissory_note',
    'verify_concent_promissory_note', 'verify_all_promissory_notes',
    'verify_owners', 'get_file_info',
)


def arguments(method):
    if method.startswith('validate_ownership'):
        return {'concent_public_key': w.CONCENT.pub}
    if method.endswith('note') or method.endswith('notes'):
        return {'deposit_contract_address': '0x' + '4b' * 20}
    if method == 'verify_owners':
        return {
            'requestor_public_key': w.REQUESTOR.pub,
            'provider_public_key': w.PROVIDER.pub,
            'concent_public_key': w.CONCENT.pub}
    if method == 'get_file_info':
        info = w.cls('concents.FileTransferToken').FileInfo
        return {'category': list(info.Category)[0]}
    return {}


def call(function):
    try:
        return function()
    except (exceptions.MessageError, exceptions.CryptoError,
            AttributeError, NotImplementedError, TypeError, ValueError,
            KeyError):
        return None


def readers(msg, other):
    name = type(msg).__name__
    result = [
        ('repr', lambda: repr(msg)),
        ('str', lambda: str(msg)),
        ('==', lambda: msg == other),
        ('!=', lambda: msg != other),
        ('reversed ==', lambda: other == msg),
        ('== loose', lambda: msg == 5),
        ('copy', lambda: copy.copy(msg)),
        ('deepcopy', lambda: copy.deepcopy(msg)),
        ('pickle', lambda: pickle.dumps(msg, 2)),
        ('verify', lambda: msg.verify_signature(w.OTHER.pub)),
        ('verify good', lambda: msg.verify_signature(
            w.signer('{}.{}'.format(
                type(msg).__module__.rsplit('.', 1)[1], name)).pub)),
    ]
    for attr in properties_of(msg):
        result.append((attr, lambda attr=attr: getattr(msg, attr)))
    for method in METHODS:
        if hasattr(msg, method):
            result.append((method, lambda method=method: getattr(
                msg, method)(**arguments(method))))
    if msg.sig is not None:
        result.append(('dump', lambda: shortcuts.dump(msg, None, None)))
        result.append(('dump encrypted', lambda: shortcuts.dump(
            msg, None, w.PROVIDER.pub)))
    return result


def reading(names, depth):
    def scenario(ch):
        name = ch.pick('class', names)
        loaded = ch.pick('loaded', (False, True))
        msg = w.build(name)
        if loaded:
            msg = shortcuts.load(
                shortcuts.dump(msg, None if msg.sig else w.OTHER.priv, None),
                None, None, False)
        before = strict(snapshot(msg))
        header = msg.header
        other = w.build(name)
        before_other = strict(snapshot(other))
        data = ref.header(
            msg.header.type_, msg.timestamp, False), msg.sig, ref.cbor(
                w.slots_spec(name, msg))
        options = readers(msg, other)
        for i in range(depth):
            label, function = ch.pick('reader {}'.format(i), options)
            first = call(function)
            ch.step()
            if label.startswith('dump'):
                # says whether it was encrypted when it was last dumped
                ch.equal(msg.header[:2], header[:2],
                         name + ':header after ' + label)
                msg.header = header
            ch.equal(strict(snapshot(msg)), before,
                     name + ':changed by ' + label)
            ch.equal(strict(snapshot(other)), before_other,
                     name + ':other changed by ' + label)
            again = call(function)
            ch.step()
            if isinstance(first, (bytes, str, bool)) \
                    and label != 'dump encrypted':
                ch.equal(again, first, name + ':second ' + label)
        if msg.sig is not None:
            got = shortcuts.dump(msg, None, None)
            ch.equal(got[:11 + 65 + len(data[2])],
                     data[0] + data[1] + data[2],
                     name + ':dump after reading')
        ch.see(name, loaded)
    return scenario


def scenarios(tier):
    names = w.names()
    deep = tier != 'quick'
    result = [
        engine.Scenario('sharing', sharing(names, False)),
        engine.Scenario('structures', structures),
        engine.Scenario('faithful copies', faithful(names)),
        engine.Scenario('reading', reading(names, 2 if deep else 1)),
    ]
    if deep:
        result.append(
            engine.Scenario('sharing, other contents', sharing(names, True)))
    return result
