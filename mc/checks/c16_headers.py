"""C16: task headers are sealed by their owner"""
import copy

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.datastructures import masking
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks

from mc import bulk
from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
MISSING = 'missing'
FIELDS = ('mask', 'timestamp', 'signature', 'task_id', 'task_owner',
          'deadline', 'subtask_timeout', 'market_type', 'environment',
          'environment_prerequisites', 'min_version', 'estimated_memory',
          'max_price', 'subtask_budget', 'subtasks_count', 'concent_enabled')
OWNER = ('node_name', 'key', 'prv_port', 'pub_port', 'p2p_prv_port',
         'p2p_pub_port', 'prv_addr', 'pub_addr', 'prv_addresses',
         'hyperdrive_prv_port', 'hyperdrive_pub_port', 'port_statuses',
         'nat_type')
OWNER_DEFAULTS = {'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}
INTS = [0, 1, -1, 23, 24, 2 ** 31, 2 ** 63, 2 ** 64, 2 ** 200]
TEXTS = ['', 'a', 'ż' * 64, 'x' * 128, w.SUBTASK_ID]
ALPHABET = {
    'mask': [None, b'\0' * 32, b'\xff' * 32, b'\x80' + b'\0' * 31, b'\1'],
    'timestamp': INTS,
    'task_id': TEXTS,
    'task_owner': [
        {}, {'key': 'k'}, w.node_dict(node_name='ż'), w.node_dict(key='k'),
        w.node_dict(pub_port=None), w.node_dict(prv_port=2),
        w.node_dict(port_statuses={}), w.node_dict(nat_type=[]),
        w.node_dict(port_statuses={1: {'a': None}, 2: 'x'}),
        w.node_dict(prv_addresses=['1.1.1.1', '2.2.2.2']),
        w.node_dict(prv_addresses=['2.2.2.2', '1.1.1.1']),
        w.node_dict(pub_addr='::1'), w.node_dict(node_name=None),
    ],
    'deadline': [None] + INTS,
    'subtask_timeout': [None, 0, 1, 2 ** 64],
    'market_type': [None, 'Usage', 'Brass'],
    'environment': [None] + TEXTS,
    'environment_prerequisites': [
        None, {}, {'a': 1}, {'a': None}, {'a': {'b': [1, b'\0', 0.5]}},
        {'x': 1, 'y': 2}, {'y': 2, 'x': 1}],
    'min_version': ['0.0.0', '1.2.3', '1.2.3-rc.1', '1.2.3+b'],
    'estimated_memory': [None] + INTS,
    'max_price': [None] + INTS,
    'subtask_budget': [None] + INTS,
    'subtasks_count': [1, 2, 2 ** 70],
    'concent_enabled': [None, False, True],
}
REQUIRED = ('task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp')
KEYS = w.KEYS + (w.ETH, )


def expected_dict(data):
    """the complete record, as plain data"""
    result = {}
    for field in FIELDS:
        value = data.get(field)
        if field == 'task_owner':
            value = {
                k: value.get(k, OWNER_DEFAULTS.get(k)) for k in OWNER}
        result[field] = value
    return result


def digest(data):
    return w.header_digest(expected_dict(data))


def verify(ch, header, key):
    ch.step()
    try:
        return header.verify(key.pub)
    except exceptions.InvalidSignature as e:
        return e


def only(ch, header, key, what):
    """verifies with this key only (with none if it is None)"""
    for other in KEYS:
        answer = verify(ch, header, other)
        if other is key:
            ch.check(answer is True, what + ':refused', engine.short(answer))
        else:
            ch.check(isinstance(answer, exceptions.InvalidSignature),
                     what + ':accepted', '{} of {}'.format(
                         engine.short(answer), other))


def content(ch):
    """fields away from the base header"""
    data = w.header_dict()
    del data['signature']
    for field in FIELDS:
        if field == 'signature':
            continue
        options = [MISSING] if field not in REQUIRED else []
        options = ['base'] + options + list(ALPHABET[field])
        value = ch.dev(field, options)
        if value == MISSING:
            del data[field]
        elif not (isinstance(value, str) and value == 'base'):
            data[field] = value
    return data


def seals(ch):
    """what is signed, by whom, and that it travels"""
    data = content(ch)
    key = ch.pick('key', (w.REQUESTOR, w.OTHER))
    header = dt_tasks.TaskHeader(**copy.deepcopy(data))
    only(ch, header, None, 'unsigned')
    hash_ = header.get_hash()
    ch.equal(hash_, digest(data), 'digest')
    how = ch.pick('signed', ('here', 'elsewhere'))
    ch.step(2)
    if how == 'here':
        header.sign(key.priv)
        ch.equal(ref.recover(header.signature, hash_), key.pub, 'signer')
    else:
        header = dt_tasks.TaskHeader(**dict(
            copy.deepcopy(data), signature=ref.sign(key.priv, digest(data))))
    ch.equal(header.get_hash(), hash_, 'digest depends on signature')
    only(ch, header, key, 'signed')
    ch.equal(list(header.to_dict()), list(FIELDS), 'order')
    ch.equal(header.to_dict(), dict(
        expected_dict(data), signature=header.signature), 'to_dict')
    again = dt_tasks.TaskHeader(**copy.deepcopy(header.to_dict()))
    only(ch, again, key, 'converted')
    ch.equal(again.to_dict(), header.to_dict(), 'converted dict')
    ch.equal(header.get_hash(), hash_, 'still the same')
    ch.see(hash_)


def owner_given_as_node(ch):
    """an owner as an object is as good as one as a dictionary"""
    owner = ch.pick('owner', [w.node_dict()] + ALPHABET['task_owner'])
    header = dt_tasks.TaskHeader(**w.header_dict(
        task_owner=dt_p2p.Node(**copy.deepcopy(owner))))
    ch.step(2)
    data = w.header_dict(task_owner=owner)
    ch.equal(header.get_hash(), digest(data), 'digest')
    header.sign(w.REQUESTOR.priv)
    twin = dt_tasks.TaskHeader(**dict(
        copy.deepcopy(data), signature=header.signature))
    only(ch, twin, w.REQUESTOR, 'twin')
    ch.see(owner)


CARRIERS = {
    'p2p.Tasks': lambda h: w.build('p2p.Tasks', tasks=[
        w.task_header(w.OTHER, task_id='other'), h]),
    'tasks.WantToComputeTask': lambda h: w.build(
        'tasks.WantToComputeTask', task_header=h),
    'tasks.TaskToCompute': lambda h: w.build(
        'tasks.TaskToCompute', want_to_compute_task=w.build(
            'tasks.WantToComputeTask', task_header=h)),
    'tasks.ReportComputedTask': lambda h: w.build(
        'tasks.ReportComputedTask',
        task_to_compute=CARRIERS['tasks.TaskToCompute'](h)),
    'concents.ForceReportComputedTask': lambda h: w.build(
        'concents.ForceReportComputedTask',
        report_computed_task=CARRIERS['tasks.ReportComputedTask'](h)),
}


def find(msg):
    if hasattr(msg, 'tasks'):
        return msg.tasks[1]
    if hasattr(msg, 'task_header'):
        return msg.task_header
    return msg.task_to_compute.want_to_compute_task.task_header


def travels(ch):
    carrier = ch.pick('carrier', list(CARRIERS))
    data = content(ch)
    mode = ch.pick('mode', ('plain', 'encrypted'))
    hops = ch.pick('hops', (1, 2))
    key = w.REQUESTOR
    header = dt_tasks.TaskHeader(**copy.deepcopy(data))
    header.sign(key.priv)
    if data.get('signature', 0) is None:
        return
    msg = CARRIERS[carrier](header)
    ch.check(find(msg) is header, 'harness')
    for _ in range(hops):
        ch.step(2)
        raw = shortcuts.dump(
            msg, None, w.OTHER.pub if mode == 'encrypted' else None)
        msg = shortcuts.load(raw, w.OTHER.priv, None, False)
        received = find(msg)
        only(ch, received, key, 'received')
        ch.equal(received.to_dict(), header.to_dict(), 'received dict')
        ch.equal(received.get_hash(), digest(data), 'received digest')
    ch.see(carrier, digest(data))


def retyped(value):
    """the same for == but not the same"""
    if isinstance(value, bool):
        return [int(value)]
    if isinstance(value, int):
        return [float(value)] if value < 2 ** 50 else []
    return []


def mutations():
    """name: function of a header"""
    result = {}
    for field in FIELDS:
        if field in ('signature', 'task_owner', 'mask', 'market_type'):
            continue
        base = w.header_dict()[field]
        for value in ALPHABET[field] + retyped(base) + [
                [], 'x', b'x', 12345, {'x': 1}]:
            if value == base and type(value) is type(base):
                continue
            result['{} = {!r}'.format(field, value)] = (
                lambda h, f=field, v=value: setattr(h, f, v))
    for field in OWNER:
        for value in (None, 5, '9.9.9.9', [1], {}):
            result['owner {} = {!r}'.format(field, value)] = (
                lambda h, f=field, v=value: setattr(h.task_owner, f, v))
    result.update({
        'mask = None': lambda h: setattr(h, 'mask', None),
        'mask byte_repr': lambda h: setattr(
            h.mask, 'byte_repr', b'\0' * 32),
        'mask increase': lambda h: h.mask.increase(1),
        'mask decrease': lambda h: h.mask.decrease(1),
        'mask all': lambda h: setattr(
            h, 'mask', masking.Mask(b'\xff' * 32)),
        'market Usage': lambda h: setattr(
            h, 'market_type', dt_tasks.TaskHeader.MARKET_TYPE.Usage),
        'market None': lambda h: setattr(h, 'market_type', None),
        'prerequisites': lambda h: h.environment_prerequisites.update(
            {'new': 1}),
        'prerequisites value': lambda h: h.environment_prerequisites.update(
            {'image': 'golemfactory/blender2'}),
        'prerequisites less': lambda h: h.environment_prerequisites.clear(),
        'addresses': lambda h: h.task_owner.prv_addresses.append('::2'),
        'addresses order': lambda h: h.task_owner.prv_addresses.reverse(),
        'statuses': lambda h: h.task_owner.port_statuses.update({1: 'x'}),
        'nat': lambda h: h.task_owner.nat_type.append('x'),
        'new owner': lambda h: setattr(
            h, 'task_owner', dt_p2p.Node(**w.node_dict(key='z'))),
    })
    return result


def mutated(ch):
    """any change after signing is noticed, and its undoing too"""
    table = mutations()
    name = ch.pick('mutation', list(table))
    header = w.task_header()
    only(ch, header, w.REQUESTOR, 'base')
    before = header.get_hash()
    saved = {f: copy.deepcopy(getattr(header, f)) for f in FIELDS}
    table[name](header)
    ch.step(3)
    only(ch, header, None, 'mutated')
    ch.check(header.get_hash() != before, 'digest ignores ' + name)
    resign = ch.flag('signed again')
    if resign:
        header.sign(w.OTHER.priv)
        only(ch, header, w.OTHER, 'signed again')
    for field, value in saved.items():
        setattr(header, field, value)
    only(ch, header, w.REQUESTOR, 'restored')
    ch.see(name)


def tampered(ch):
    """the received record differs from the signed one in a field"""
    field = ch.pick('field', [f for f in FIELDS if f != 'signature'])
    value = ch.pick('value', ALPHABET[field])
    signed = w.signed_header_dict()
    if value == signed[field] and type(value) is type(signed[field]):
        return
    if field == 'mask' and value is None or field != 'task_owner':
        assert digest(dict(signed, **{field: value})) != digest(signed)
    ch.step()
    try:
        header = dt_tasks.TaskHeader(**dict(signed, **{field: value}))
    except exceptions.FieldError:
        return
    only(ch, header, None, 'tampered ' + field)
    ch.see(field, value)


def signatures(ch):
    """every bit of the signature, other people's signatures"""
    bit = ch.pick('bit', list(range(520)) + [
        'None', 'zeros', 'short', 'long', 'empty', 'other header', 'message'])
    data = w.signed_header_dict()
    sig = data['signature']
    if isinstance(bit, int):
        raw = bytearray(sig)
        raw[bit // 8] ^= 1 << bit % 8
        sig = bytes(raw)
    else:
        sig = {
            'None': None, 'zeros': b'\0' * 65, 'short': sig[:-1],
            'long': sig + b'\0', 'empty': b'',
            'other header': w.signed_header_dict(max_price=1)['signature'],
            'message': w.build('base.RandVal', sign_with=w.REQUESTOR).sig,
        }[bit]
    header = dt_tasks.TaskHeader(**dict(data, signature=sig))
    answer = verify(ch, header, w.REQUESTOR)
    ch.check(isinstance(answer, exceptions.InvalidSignature),
             'bad signature', engine.short(answer))
    header.signature = data['signature']
    only(ch, header, w.REQUESTOR, 'good signature')
    ch.see(bit)


def scenarios(tier):
    deep = tier != 'quick'
    return [
        engine.Scenario('seals', seals, bound=2 if deep else 1),
        engine.Scenario('owner', owner_given_as_node),
        bulk.headers(tier),
        engine.Scenario('travels', travels, bound=2 if deep else 1),
        engine.Scenario('mutated', mutated),
        engine.Scenario('tampered', tampered),
        engine.Scenario('signatures', signatures),
    ]
