"""C18: field rules accept exactly the valid values"""
import copy
import functools
import re

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages import validators
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import concents
from golem_messages.message import tasks

from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'addresses are text: what happens to integers and bytes in an address '
    'field is not judged, and neither are IPv6 addresses with a zone, which '
    'depend on the version of Python',
]
CATEGORY = concents.FileTransferToken.FileInfo.Category
VALUES = [
    None, True, False, -2 ** 70, -65535, -1, 0, 1, 2, 128, 65534, 65535,
    65536, 65537, 131071, 2 ** 31, 2 ** 64, 2 ** 200, 0.0, 1.0, 1.5, -1.0,
    65535.0, '', 'a', 'x' * 127, 'x' * 128, 'x' * 129, 'ż' * 128, 'ż' * 129,
    'ż' * 65, 'x' * 1000, '1', '65535', 'True', 'results', 'Brass', 'brass',
    'Usage', 'BRASS', '1.2.3', '0.0.0', '10.20.30', '1.2', '1', '1.2.3.4',
    'v1.2.3', '1.2.3-rc.1', '1.2.3+b', '01.2.3', '1.02.3', '1.2.x', '>=1.0.0',
    '0.0.0.0', '255.255.255.255', '256.1.1.1', '1.2.3.4.5', '1.2.3.-4', '::',
    '::1', '2001:db8::1', '2001:db8:::1', 'g::1', '1.2.3.4/24', ' 1.2.3.4',
    '1.2.3.4:80', 'localhost', '::ffff:1.2.3.4', '1:2:3:4:5:6:7:8',
    '1.2.3.4%1', '1.2.3.4%', '1.2.3.4%eth0', '%', '%eth0', '::1%eth0', '::1%',
    'g::1%eth0', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', 'FE80::A', '12345::', '[::1]',
    b'', b'x', b'\0' * 32, b'\xff' * 33, b'abc', [], [1], ['1.2.3.4'], {},
    {'a': 1}, {'key': 'k'}, {'1': {}},
]

IPV4 = re.compile(r'(\d{1,3})\.(\d{1,3})\.(\d{1,3})\.(\d{1,3})\Z')


def is_ipv4(text):
    match = IPV4.match(text)
    return bool(match) and all(
        int(g) < 256 and str(int(g)) == g for g in match.groups())


def is_ipv6(text):
    halves = text.split('::')
    if len(halves) > 2:
        return False
    groups = [h.split(':') if h else [] for h in halves]
    flat = [g for half in groups for g in half]
    count = len(flat)
    if flat and '.' in flat[-1]:
        if not is_ipv4(flat.pop()):
            return False
        count += 1
    if not all(re.match(r'[0-9a-fA-F]{1,4}\Z', g) for g in flat):
        return False
    return count == 8 if len(halves) == 1 else count < 8


def is_int(value):
    return type(value) is int


def is_address(value):
    """None: not judged"""
    if isinstance(value, (int, bytes)):
        return None
    if isinstance(value, str) and is_ipv6(value.split('%')[0]) \
            and '%' in value:
        return None
    return isinstance(value, str) and (is_ipv4(value) or is_ipv6(value))


def is_version(value):
    return isinstance(value, str) and bool(re.match(
        r'(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)'
        r'(-[0-9A-Za-z.-]+)?(\+[0-9A-Za-z.-]+)?\Z', value))


RULES = {
    'port': lambda v: is_int(v) and 1 <= v <= 65535,
    'address': is_address,
    'text': lambda v: isinstance(v, str),
    'text128': lambda v: isinstance(v, str) and len(v) <= 128,
    'integer': is_int,
    'natural': lambda v: is_int(v) and v >= 0,
    'positive': lambda v: is_int(v) and v >= 1,
    'boolean': lambda v: isinstance(v, bool),
    'bytes': lambda v: isinstance(v, bytes),
    'dictionary': lambda v: isinstance(v, dict),
    'version': is_version,
    'market': lambda v: v in ('Brass', 'Usage'),
    # SEE: FIELDS of a node for what is in there
    'node': lambda v: isinstance(v, dict) and set(v) <= {'key'},
    'category': lambda v: v in ('results', 'resources'),
}
# field: (rule, None allowed)
NODE = {
    'node_name': ('text', True),
    'key': ('text128', True),
    'prv_port': ('port', True),
    'pub_port': ('port', True),
    'p2p_prv_port': ('port', True),
    'p2p_pub_port': ('port', True),
    'prv_addr': ('address', True),
    'pub_addr': ('address', True),
    'hyperdrive_prv_port': ('integer', True),
    'hyperdrive_pub_port': ('integer', True),
}
HEADER = {
    'mask': ('bytes', True),
    'timestamp': ('integer', False),
    'signature': ('bytes', True),
    'task_id': ('text128', False),
    'task_owner': ('node', False),
    'deadline': ('integer', True),
    'subtask_timeout': ('natural', True),
    'market_type': ('market', True),
    'environment': ('text128', True),
    'environment_prerequisites': ('dictionary', True),
    'min_version': ('version', False),
    'estimated_memory': ('integer', True),
    'max_price': ('integer', True),
    'subtask_budget': ('integer', True),
    'subtasks_count': ('positive', False),
    'concent_enabled': ('boolean', True),
}
CTD = {'task_id': ('text128', False), 'subtask_id': ('text128', False)}
PEER = {'address': ('address', False), 'port': ('port', False),
        'node': ('node', False)}
OFFER = {'cpu_usage': ('natural', True), 'num_subtasks': ('positive', False),
         }
ASSIGNMENT = {'price': ('integer', False), 'size': ('integer', False)}
FILE = {'category': ('category', False)}


def allowed(rule, value):
    """True, False or None if not judged"""
    name, none_allowed = rule
    if value is None:
        return none_allowed
    return RULES[name](value)


def attempt(ch, make, errors=exceptions.FieldError):
    ch.step()
    try:
        return make()
    except errors as e:
        return e


def judge(ch, rule, value, result, what):
    verdict = allowed(rule, value)
    text = '{} = {}: {}'.format(what, engine.short(value),
                                engine.short(result))
    if verdict is None:
        return False
    refused = isinstance(result, exceptions.FieldError)
    ch.check(refused != verdict,
             '{}:{}'.format(what, 'refused' if verdict else 'accepted'), text)
    return verdict


def same(ch, got, value, what):
    if hasattr(got, 'to_dict'):
        got = {k: v for k, v in got.to_dict().items() if k in value}
    elif hasattr(got, 'to_bytes') and not isinstance(got, int):
        got = got.to_bytes()
    elif hasattr(got, 'name') and hasattr(got, 'value'):
        got = got.value
    ch.check(type(got) is type(value) and got == value, what + ':changed',
             '{} instead of {}'.format(
                 engine.short(got), engine.short(value)))


# Ways in, each returning the value as it can be read afterwards

def wire(ch, name, replace):
    """loads a message whose plain slots were changed"""
    type_, spec = golden.BY_NAME[name]
    slots = [list(s) for s in w.slots_spec(name, w.build(name))]
    for slot in slots:
        if slot[0] in replace:
            slot[1] = replace[slot[0]](copy.deepcopy(slot[1]))
    version = None
    if name == 'base.Hello':
        from mc import load
        version = load.RELEASE
    sig = ref.sign(w.OTHER.priv, ref.digest(
        type_, w.TS, ref.cbor(slots), version)) if spec.sign else None
    data = ref.wire(type_, w.TS, slots, False, sig, version)
    ch.step()
    return shortcuts.load(data, w.OTHER.priv, None, False)


def ways_node():
    def built(field, value):
        return getattr(dt_p2p.Node(**w.node_dict(**{field: value})), field)

    def alone(field, value):
        return getattr(dt_p2p.Node(**{field: value}), field)

    def owner(field, value):
        header = dt_tasks.TaskHeader(**w.header_dict(
            task_owner=w.node_dict(**{field: value})))
        return getattr(header.task_owner, field)

    def peer(field, value):
        return getattr(dt_p2p.Peer(
            address='::', port=1, node=w.node_dict(**{field: value})
        )['node'], field)

    ways = {'constructor': built, 'alone': alone, 'task owner': owner,
            'of a peer': peer}

    def arriving(ch, name, slot):
        def way(field, value):
            msg = wire(ch, name, {
                slot: lambda _: w.node_dict(**{field: value})})
            return getattr(getattr(msg, slot), field)
        return way

    def peers(ch):
        def way(field, value):
            msg = wire(ch, 'p2p.Peers', {'peers': lambda p: [p[0], dict(
                p[1], node=w.node_dict(**{field: value}))]})
            return getattr(msg.peers[1]['node'], field)
        return way

    def headers(ch):
        def way(field, value):
            msg = wire(ch, 'p2p.Tasks', {'tasks': lambda t: [
                t[0], dict(t[1], task_owner=w.node_dict(**{field: value}))]})
            return getattr(msg.tasks[1].task_owner, field)
        return way
    return ways, {
        'greeting': lambda ch: arriving(ch, 'base.Hello', 'node_info'),
        'want session': lambda ch: arriving(
            ch, 'p2p.WantToStartTaskSession', 'node_info'),
        'want session super': lambda ch: arriving(
            ch, 'p2p.WantToStartTaskSession', 'super_node_info'),
        'set session': lambda ch: arriving(
            ch, 'p2p.SetTaskSession', 'node_info'),
        'set session super': lambda ch: arriving(
            ch, 'p2p.SetTaskSession', 'super_node_info'),
        'peers': peers,
        'tasks': headers,
    }


def ways_header():
    def built(field, value):
        return getattr(
            dt_tasks.TaskHeader(**w.header_dict(**{field: value})), field)

    def tasks_(ch):
        def way(field, value):
            msg = wire(ch, 'p2p.Tasks', {'tasks': lambda t: [
                t[0], dict(t[1], **{field: value})]})
            return getattr(msg.tasks[1], field)
        return way

    def offer(ch):
        def way(field, value):
            msg = wire(ch, 'tasks.WantToComputeTask', {
                'task_header': lambda h: dict(h, **{field: value})})
            return getattr(msg.task_header, field)
        return way

    return {'constructor': built}, {'tasks': tasks_, 'offer': offer}


def offer_in_assignment(ch, replace):
    """an assignment with other slots in its offer"""
    def change(wire_offer):
        header, _, slots = wire_offer[1]
        slots = [[k, replace[k](v) if k in replace else v] for k, v in slots]
        return [False, [header, ref.sign(w.PROVIDER.priv, ref.digest(
            header[0], header[1], ref.cbor(slots))), slots]]
    msg = w.build('tasks.TaskToCompute', signed=False)
    changed = change(dict(w.slots_spec('tasks.TaskToCompute', msg))[
        'want_to_compute_task'])
    ethsig = ref.sign(w.ETH.priv, ref.digest(
        changed[1][0][0], changed[1][0][1], ref.cbor(changed[1][2])))
    return wire(ch, 'tasks.TaskToCompute', {
        'want_to_compute_task': lambda _: changed,
        'ethsig': lambda _: ethsig,
    }).want_to_compute_task


def ways_offer():
    def plain(ch):
        def way(field, value):
            return getattr(wire(ch, 'tasks.WantToComputeTask', {
                field: lambda _: value}), field)
        return way

    def nested(ch):
        def way(field, value):
            return getattr(offer_in_assignment(ch, {
                field: lambda _: value}), field)
        return way

    return {}, {'plain': plain, 'in assignment': nested}


def assignment_slot(ch, name, path):
    """an assignment at some depth"""
    def way(field, value):
        def change(slots, rest):
            result = []
            for key, val in slots:
                if rest and key == rest[0]:
                    val = [val[0], [val[1][0], val[1][1], change(
                        val[1][2], rest[1:])]]
                elif not rest and key == field:
                    val = value
                result.append([key, val])
            return result
        if not path:
            return getattr(wire(ch, name, {field: lambda _: value}), field)
        msg = wire(ch, name, {path[0]: lambda v: [v[0], [
            v[1][0], v[1][1], change(v[1][2], path[1:])]]})
        return getattr(msg.task_to_compute, field)
    return way


def ways_assignment():
    return {}, {
        'plain': lambda ch: assignment_slot(ch, 'tasks.TaskToCompute', []),
        'in report': lambda ch: assignment_slot(
            ch, 'tasks.ReportComputedTask', ['task_to_compute']),
        'in acceptance': lambda ch: assignment_slot(
            ch, 'tasks.SubtaskResultsAccepted',
            ['report_computed_task', 'task_to_compute']),
        'in forced report': lambda ch: assignment_slot(
            ch, 'concents.ForceReportComputedTask',
            ['report_computed_task', 'task_to_compute']),
    }


def dict_ways(cls, base):
    """mapping operations of a dictionary-like record"""
    def kwargs(field, value):
        return cls(**dict(base(), **{field: value}))[field]

    def mapping(field, value):
        return cls(dict(base(), **{field: value}))[field]

    def pairs(field, value):
        return cls(list(dict(base(), **{field: value}).items()))[field]

    def mixed(field, value):
        return cls(base(), **{field: value})[field]

    def item(field, value):
        record = cls(base())
        record[field] = value
        return record[field]

    def update(field, value):
        record = cls(base())
        record.update({field: value})
        return record[field]

    def update_pairs(field, value):
        record = cls(base())
        record.update([(field, value)])
        return record[field]

    def update_kwargs(field, value):
        record = cls(base())
        record.update(**{field: value})
        return record[field]

    def ior(field, value):
        record = cls(base())
        record |= {field: value}
        return record[field]

    def setdefault(field, value):
        record = cls(base())
        del record[field]
        record.setdefault(field, value)
        return record[field]

    return {f.__name__: f for f in (
        kwargs, mapping, pairs, mixed, item, update, update_pairs,
        update_kwargs, ior, setdefault)}


def peer_base():
    return {'address': '1.2.3.4', 'port': 1, 'node': dt_p2p.Node(key='k')}


def file_base():
    return {'path': 'p', 'category': CATEGORY.resources}


def ways_peer():
    def arriving(ch):
        def way(field, value):
            msg = wire(ch, 'p2p.Peers', {'peers': lambda p: [
                p[0], dict(p[1], **{field: value})]})
            return msg.peers[1][field]
        return way
    return dict_ways(dt_p2p.Peer, peer_base), {'peers': arriving}


def ctd_in(ch, name, path):
    """arrives from the wire"""
    def way(field, value):
        inner = assignment_slot(ch, name, path)
        got = inner('compute_task_def', w.ctd_dict(**{field: value}))
        return got[field]
    return way


def ways_ctd():
    return dict_ways(tasks.ComputeTaskDef, w.ctd_dict), {
        'in report': lambda ch: ctd_in(
            ch, 'tasks.ReportComputedTask', ['task_to_compute']),
    }


def category_value(value):
    for member in CATEGORY:
        if type(value) is str and value == member.value:
            return member
    return value


def ways_file():
    ways = dict_ways(concents.FileTransferToken.FileInfo, file_base)

    def objects(way):
        return lambda field, value: way(field, category_value(value))

    def arriving(ch):
        def way(field, value):
            msg = wire(ch, 'concents.FileTransferToken', {
                'files': lambda f: [f[0], dict(f[1], **{field: value})]})
            return msg.files[1][field]
        return way

    def nested(ch):
        def way(field, value):
            token = w.plain(w.build('concents.FileTransferToken'))
            slots = [[k, [dict(v[0], **{field: value})]
                      if k == 'files' else v] for k, v in token[2]]
            msg = wire(ch, 'concents.ForceGetTaskResultUpload', {
                'file_transfer_token': lambda _: [
                    False, [token[0], token[1], slots]]})
            return msg.file_transfer_token.files[0][field]
        return way
    return {n: objects(f) for n, f in ways.items()}, {
        'token': arriving, 'nested token': nested}


SUBJECTS = {
    'node': (NODE, ways_node),
    'header': (HEADER, ways_header),
    'offer': (OFFER, ways_offer),
    'assignment': (ASSIGNMENT, ways_assignment),
    'task definition': (CTD, ways_ctd),
    'peer': (PEER, ways_peer),
    'file': (FILE, ways_file),
}


def wired(ch):
    """every restricted field, every way in, every value"""
    subject = ch.pick('record', list(SUBJECTS))
    fields, make = SUBJECTS[subject]
    direct, arriving = make()
    way = ch.pick('way', list(direct) + list(arriving))
    func = direct[way] if way in direct else arriving[way](ch)
    field = ch.pick('field', list(fields))
    value = ch.pick('value', VALUES)
    rule = fields[field]
    what = '{}.{} by {}'.format(subject, field, way)
    if subject == 'peer' and field == 'node' and value == {}:
        value = {'key': 'x'}
    result = attempt(ch, lambda: func(field, copy.deepcopy(value)))
    if judge(ch, rule, value, result, what) and value is not None:
        same(ch, result, value, what)
    if isinstance(result, exceptions.FieldError) \
            and field not in ('node', 'task_owner'):
        # (the error may as well name a field inside of a node)
        ch.equal(result.field, field, what + ':field named in the error')
    ch.see(subject, way, field, isinstance(result, Exception))


def inside(ch):
    """records which refuse do so wherever in a list they are"""
    name, slot = ch.pick('list', (
        ('p2p.Peers', 'peers'), ('p2p.Tasks', 'tasks'),
        ('concents.FileTransferToken', 'files')))
    length = ch.pick('length', (1, 2, 3))
    wrong = ch.pick('wrong', range(-1, length))
    bad = {'peers': {'port': 0}, 'tasks': {'subtasks_count': 0},
           'files': {'category': 'other'}}[slot]

    def change(items):
        items = [copy.deepcopy(items[i % 2]) for i in range(length)]
        if wrong >= 0:
            items[wrong].update(bad)
        return items
    result = attempt(ch, lambda: wire(ch, name, {slot: change}))
    ch.check(isinstance(result, exceptions.FieldError) == (wrong >= 0),
             name + ':in a list', engine.short(result))
    ch.see(name, length, wrong)


NOT_LISTS = (None, {}, {'a': 1}, {'address': '::', 'port': 1}, '', 'ab',
             b'', b'ab', 0, 1, True, False, 1.5)
NOT_RECORDS = (None, 5, True, False, 0, 1.5, 'ab', b'ab', ['ab', 'cd'], [5])


def lists(ch):
    """peers and tasks come in lists of records"""
    name, slot = ch.pick('list', (
        ('p2p.Peers', 'peers'), ('p2p.Tasks', 'tasks')))
    what = ch.pick('instead', ('of the list', 'of a record'))
    if what == 'of the list':
        value = ch.pick('value', NOT_LISTS)
        result = attempt(ch, lambda: wire(ch, name, {slot: lambda _: value}))
        ch.check(isinstance(result, exceptions.FieldError),
                 name + ':not a list', engine.short(result))
        if isinstance(result, exceptions.FieldError):
            ch.equal(result.field, slot, name + ':field of not a list')
    else:
        value = ch.pick('value', NOT_RECORDS)
        at = ch.pick('at', (0, 1, 2))

        def change(items):
            return items[:at] + [value] + items[at:]
        result = attempt(ch, lambda: wire(ch, name, {slot: change}),
                         exceptions.MessageError)
        ch.check(isinstance(result, exceptions.MessageError),
                 name + ':not a record', engine.short(result))
    ch.see(name, what, value)


def functions(step):
    """the rules themselves; every port"""
    table = {
        'validate_port': ('port', {}),
        'validate_integer': ('integer', {}),
        'validate_positive_integer': ('positive', {}),
        'validate_boolean': ('boolean', {}),
        'validate_ipaddress': ('address', {}),
        'validate_varchar128': ('text128', {}),
        'validate_version': ('version', {}),
        'validate_dict': ('dictionary', {}),
    }

    def scenario(ch):
        name = ch.pick('function', list(table))
        rule = (table[name][0], False)
        value = ch.pick('value', VALUES + (
            ['block {}'.format(i) for i in range(-2, 67)]
            if name in ('validate_port', 'validate_positive_integer')
            else []))
        func = functools.partial(getattr(validators, name), 'a field')
        values = [value]
        if isinstance(value, str) and value.startswith('block '):
            start = int(value[6:]) * 1024
            values = range(start, start + 1024, step)
        for one in values:
            result = attempt(ch, lambda v=one: func(v))
            judge(ch, rule, one, result, name)
            if isinstance(result, exceptions.FieldError):
                # which field it was and what was in it
                ch.check(result.field == 'a field'
                         and type(result.value) is type(one)
                         and repr(result.value) == repr(one)
                         and 'a field' in str(result)
                         and repr(one) in str(result),
                         name + ':error', str(result))
        ch.see(name, engine.short(value))
    return scenario


def lengths(ch):
    """texts of every length around the limit"""
    length = ch.pick('length', range(0, 300))
    char = ch.pick('char', ('x', 'ż', '\U0001f600', '\0'))
    text = char * length
    limit = ch.pick('limit', (0, 1, 127, 128, 255))
    result = attempt(
        ch, lambda: validators.validate_varchar('f', text, limit))
    ch.check(isinstance(result, exceptions.FieldError) == (length > limit),
             'validate_varchar', '{} of {}'.format(length, limit))
    ch.see(length <= limit)


def addresses(parts):
    """all addresses made of a few parts"""
    def scenario(ch):
        count = ch.pick('parts', range(1, parts + 1))
        text = ''
        for i in range(count):
            text += ch.pick('part {}'.format(i), (
                '1', '255', '256', '.', ':', '::', 'f', '0', 'g'))
        if re.search(r'(^|[.:])0[0-9]', text) and '.' in text:
            return
        result = attempt(
            ch, lambda: validators.validate_ipaddress('f', text))
        judge(ch, ('address', False), text, result, 'validate_ipaddress')
        ch.see(isinstance(result, Exception), count)
    return scenario


def scenarios(tier):
    deep = tier != 'quick'
    return [
        engine.Scenario('wired', wired),
        engine.Scenario('inside lists', inside),
        engine.Scenario('lists', lists),
        engine.Scenario('functions', functions(1)),
        engine.Scenario('lengths', lengths),
        engine.Scenario('addresses', addresses(7 if deep else 5)),
    ]
