"""C19: closed dictionaries never hold unknown or invalid items"""
import collections
import copy

from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.message import concents
from golem_messages.message import tasks

from mc import engine
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = ['operations which delete items are left out']
FileInfo = concents.FileTransferToken.FileInfo
CATEGORY = FileInfo.Category


class Subject:
    """A dictionary type, and what the model knows of it"""

    def __init__(self, cls, defaults, base, good, bad):
        self.cls = cls
        self.name = cls.__name__
        self.defaults = defaults
        self.base = base
        self.good = good    # item: valid values
        self.bad = bad      # item: invalid values
        self.items = tuple(defaults)


def subjects():
    node = w.node_dict()
    return [
        Subject(tasks.ComputeTaskDef, {
            'task_id': '', 'subtask_id': '', 'deadline': 0, 'extra_data': {},
            'performance': 0, 'docker_images': None, 'resources': []},
                {},
                {'task_id': ['a', 'x' * 128], 'deadline': [1, None],
                 'extra_data': [{'a': 1}], 'resources': [['r']]},
                {'task_id': [None, 5, 'x' * 129],
                 'subtask_id': [b'x', ['s'], 'ż' * 129]}),
        Subject(FileInfo, {
            'path': '', 'checksum': '', 'size': 0,
            'category': CATEGORY.results},
                {},
                {'path': ['p'], 'size': [1],
                 'category': [CATEGORY.resources, CATEGORY.results]},
                {'category': ['results', 'resources', None, 0,
                              concents.FileTransferToken.Operation.upload]}),
        Subject(dt_p2p.Peer, {'address': None, 'port': None, 'node': None},
                {'address': '1.2.3.4', 'port': 7, 'node': node},
                {'address': ['::1'], 'port': [1, 65535],
                 'node': [{'key': 'k'}, dt_p2p.Node(**node)]},
                {'address': [None, 'x', ''], 'port': [None, 0, 65536, True],
                 'node': [None, 'x', {'unknown': 1}, {'prv_port': 0}, 7]}),
        Subject(dt_stats.BlockIoEntry, {
            'major': 0, 'minor': 0, 'op': None, 'value': 0},
                {}, {'major': [1], 'op': ['Read']}, {}),
        Subject(dt_stats.CpuUsage, {
            'percpu_usage': [], 'total_usage': 0, 'usage_in_kernelmode': 0,
            'usage_in_usermode': 0},
                {}, {'percpu_usage': [[1]], 'total_usage': [2]}, {}),
        Subject(dt_stats.ThrottlingData, {
            'periods': 0, 'throttled_periods': 0, 'throttled_time': 0},
                {}, {'periods': [1]}, {}),
        Subject(dt_stats.MemoryData, {
            'failcnt': 0, 'limit': 0, 'max_usage': 0, 'usage': 0},
                {}, {'limit': [1]}, {}),
    ]


NAMES = ('ComputeTaskDef', 'FileInfo', 'Peer', 'BlockIoEntry', 'CpuUsage',
         'ThrottlingData', 'MemoryData')
UNKNOWN = ('unknown', '', 'Task_id', 'ITEMS', 'items', 0, None, ('a', 'b'))


def subject(name):
    return [s for s in subjects() if s.name == name][0]


def plain(value):
    """for comparison: nodes by content"""
    if hasattr(value, 'to_dict'):
        return ('node', tuple(
            (k, repr(v)) for k, v in value.to_dict().items()))
    return value


def stored(sub, key, value):
    if sub.name == 'Peer' and key == 'node' and isinstance(value, dict):
        return dt_p2p.Node(**value)
    return value


def content(record):
    return {k: plain(v) for k, v in dict.items(record)}


# One operation on a pair of record and model

def op_item(record, key, value):
    record[key] = value


def op_update(record, key, value):
    record.update({key: value})


def op_pairs(record, key, value):
    record.update([(key, value)])


def op_kwargs(record, key, value):
    record.update(**{key: value})


def op_ior(record, key, value):
    record |= {key: value}


def op_setdefault(record, key, value):
    record.setdefault(key, value)


def op_iter_pairs(record, key, value):
    record.update(iter([(key, value)]))


def op_ordered(record, key, value):
    record.update(collections.OrderedDict({key: value}))


def op_ior_pairs(record, key, value):
    record |= [(key, value)]


def op_open(record, key, value):
    """from a dictionary of a related type without any rules"""
    record.update(datastructures.SetItemDict([(key, value)]))


def op_ior_open(record, key, value):
    record |= datastructures.ValidatingDict([(key, value)])


OPS = {f.__name__[3:]: f for f in (
    op_item, op_update, op_pairs, op_kwargs, op_ior, op_setdefault,
    op_iter_pairs, op_ordered, op_ior_pairs, op_open, op_ior_open)}


def kind_of(sub, key, value):
    if key not in sub.items:
        return 'unknown'
    bad = sub.bad.get(key, [])
    if any(type(value) is type(b) and value == b for b in bad):
        return 'invalid'
    return 'valid'


def apply(ch, sub, record, model, op, key, value):
    """one event, judged"""
    if op == 'kwargs' and not isinstance(key, str):
        return
    what = '{}:{}'.format(sub.name, op)
    kind = kind_of(sub, key, value)
    if op == 'setdefault' and key in sub.items:
        kind = 'present'
    try:
        OPS[op](record, key, copy.deepcopy(value))
        result = None
    except (KeyError, exceptions.FieldError) as e:
        result = e
    if kind == 'unknown':
        ch.check(isinstance(result, KeyError), what + ':unknown accepted',
                 '{!r}: {!r}'.format(key, result))
    elif kind == 'invalid':
        ch.check(isinstance(result, exceptions.FieldError),
                 what + ':invalid accepted', '{} = {}: {!r}'.format(
                     key, engine.short(value), result))
    else:
        ch.check(result is None, what + ':refused', '{} = {}: {!r}'.format(
            key, engine.short(value), result))
        if kind == 'valid':
            model[key] = stored(sub, key, value)
    agrees(ch, sub, record, model, what)


def agrees(ch, sub, record, model, what):
    want = {k: plain(v) for k, v in model.items()}
    ch.check(content(record) == want, what + ':content',
             lambda: '{} instead of {}'.format(
                 engine.short(content(record)), engine.short(want)))
    for key in sub.items:
        ch.check(plain(record[key]) == want[key] and
                 plain(record.get(key)) == want[key] and key in record,
                 what + ':read ' + key)
    ch.check(len(record) == len(sub.items), what + ':length')


def events(sub):
    pairs = [(k, v) for table in (sub.good, sub.bad)
             for k, vs in table.items() for v in vs]
    pairs += [(k, 1) for k in UNKNOWN]
    # values of one item given to others
    return [(op, k, v) for op in OPS for k, v in pairs]


def fresh(sub):
    model = dict(sub.defaults)
    model.update({k: stored(sub, k, v) for k, v in sub.base.items()})
    return sub.cls(copy.deepcopy(sub.base)), copy.deepcopy(model)


def sequences(depth):
    """explicit-state search; states are contents"""
    def scenario(ch):
        sub = subject(ch.pick('type', NAMES))
        table = events(sub)

        def build(history):
            record, model = fresh(sub)
            for index in history:
                apply(ch, sub, record, model, *table[index])
            return record, model

        def canon(state):
            return repr(sorted(content(state[0]).items()))

        def invariant(state, _history):
            agrees(ch, sub, state[0], state[1], sub.name + ':after')

        states, transitions = engine.bfs(
            ch, (), range(len(table)), build, canon, invariant, depth)
        return states, transitions
    return scenario


def pairs_of_events(ch):
    """one operation which carries several items"""
    sub = subject(ch.pick('type', NAMES))
    options = [(k, v) for table in (sub.good, sub.bad)
               for k, vs in table.items() for v in vs]
    options += [(k, 1) for k in UNKNOWN[:3]]
    first = ch.pick('first', options)
    second = ch.pick('second', options)
    op = ch.pick('operation', ('update', 'pairs', 'kwargs', 'ior', 'mixed',
                               'constructor', 'constructor pairs',
                               'constructor kwargs', 'constructor mixed'))
    if first[0] == second[0] and op not in ('pairs', 'constructor pairs'):
        return
    items = [first, second]
    record, model = fresh(sub)
    try:
        ch.step()
        pair = copy.deepcopy(items)
        base = copy.deepcopy(sub.base)
        if op == 'update':
            record.update(dict(pair))
        elif op == 'pairs':
            record.update(pair)
        elif op == 'kwargs':
            record.update(**dict(pair))
        elif op == 'ior':
            record |= dict(pair)
        elif op == 'mixed':
            record.update(dict(pair[:1]), **dict(pair[1:]))
        elif op == 'constructor':
            record = sub.cls(dict(base, **dict(pair)))
        elif op == 'constructor pairs':
            record = sub.cls(list(base.items()) + pair)
        elif op == 'constructor kwargs':
            record = sub.cls(**dict(base, **dict(pair)))
        else:
            record = sub.cls(dict(base, **dict(pair[:1])), **dict(pair[1:]))
        result = None
    except (KeyError, exceptions.FieldError) as e:
        result = e
    kinds = [kind_of(sub, k, v) for k, v in items]
    what = '{}:{}'.format(sub.name, op)
    if kinds == ['valid', 'valid']:
        ch.check(result is None, what + ':refused', repr(result))
        for key, value in items:
            model[key] = stored(sub, key, value)
        agrees(ch, sub, record, model, what)
    else:
        ch.check(result is not None, what + ':accepted',
                 engine.short(dict(record)))
        expected = {'unknown': KeyError, 'invalid': exceptions.FieldError}
        ch.check(any(isinstance(result, expected[k])
                     for k in kinds if k in expected), what + ':error',
                 repr(result))
        # nothing bad has got in; the good ones may or may not have
        good = {k: stored(sub, k, v)
                for (k, v), kind in zip(items, kinds) if kind == 'valid'}
        for key, value in content(record).items():
            ch.check(key in model and (
                value == plain(model[key])
                or key in good and value == plain(good[key])),
                     what + ':bad item kept', repr(key))
    ch.see(sub.name, op, kinds)


def one_into_another(ch):
    """a closed dictionary given to another one"""
    sub = subject(ch.pick('type', NAMES))
    other = subject(ch.pick('other', NAMES))
    how = ch.pick('how', ('update', 'ior', 'constructor', 'kwargs', 'items',
                          'update, kwargs'))
    record, model = fresh(sub)
    source, content_ = fresh(other)
    item = ch.pick('item', [None] + [
        (k, v) for k, vs in other.good.items() for v in vs])
    if item:
        source[item[0]] = copy.deepcopy(item[1])
        content_[item[0]] = stored(other, *item)
    ch.step(2)
    try:
        if how == 'update':
            record.update(source)
        elif how == 'ior':
            record |= source
        elif how == 'constructor':
            record = sub.cls(source)
        elif how == 'kwargs':
            record = sub.cls(**source)
        elif how == 'items':
            record.update(source.items())
        else:
            record.update({}, **source)
        result = None
    except (KeyError, exceptions.FieldError) as e:
        result = e
    what = '{} from {}:{}'.format(sub.name, other.name, how)
    if sub.name == other.name:
        ch.check(result is None, what + ':refused', repr(result))
        agrees(ch, sub, record, content_, what)
    else:
        # they have no item in common but for lucky ones
        unknown = [k for k in other.items if k not in sub.items]
        ch.check(bool(unknown), 'oracle')
        ch.check(isinstance(result, (KeyError, exceptions.FieldError)),
                 what + ':accepted', engine.short(dict(record)))
        ch.check(set(dict.keys(record)) == set(sub.items), what + ':items')
    ch.see(sub.name, other.name, how, item and item[0])


def defaults(ch):
    """defaults belong to one record only"""
    sub = subject(ch.pick('type', NAMES))
    how = ch.pick('how', ('constructor', 'mapping', 'copy', 'deepcopy',
                          'fromkeys'))
    first, model = fresh(sub)
    agrees(ch, sub, first, model, sub.name + ':default')
    ch.step(2)
    for key in sub.items:
        value = first[key]
        if isinstance(value, list) and key not in sub.base:
            value.append('changed')
        elif isinstance(value, dict) and key not in sub.base:
            value['changed'] = 1
    if how == 'constructor':
        second = fresh(sub)[0]
    elif how == 'mapping':
        second = sub.cls(**copy.deepcopy(sub.base))
    elif how == 'copy':
        second = copy.copy(fresh(sub)[0])
        ch.check(type(second) is sub.cls, sub.name + ':copied type')
    elif how == 'deepcopy':
        second = copy.deepcopy(fresh(sub)[0])
        ch.check(type(second) is sub.cls, sub.name + ':copied type')
    else:
        for keys in (UNKNOWN[:1], list(sub.items)[:1] + ['unknown']):
            try:
                made = sub.cls.fromkeys(keys, 'x')
            except (KeyError, exceptions.FieldError):
                continue
            ch.check(type(made) is not sub.cls, sub.name + ':fromkeys',
                     engine.short(made))
        return
    agrees(ch, sub, second, model, sub.name + ':shared default')
    # changing a copy's items obeys the rules, too
    for op in OPS:
        apply(ch, sub, second, model, op, 'unknown', 1)
    ch.see(sub.name, how)


def attributes(ch):
    sub = subject(ch.pick('type', NAMES))
    name = ch.pick('attribute', ('unknown', 'ITEMS', '__dict__', 'update',
                                 '_x', '__class__') + sub.items)
    value = ch.pick('value', (None, 1, {}))
    record, model = fresh(sub)
    ch.step()
    try:
        setattr(record, name, value)
        ch.fail(sub.name + ':attribute set', name)
    except AttributeError:
        pass
    agrees(ch, sub, record, model, sub.name + ':after attribute')
    ch.see(sub.name, name)


def scenarios(tier):
    return [
        engine.Scenario('sequences', sequences(2 if tier == 'quick' else 4)),
        engine.Scenario('two items', pairs_of_events),
        engine.Scenario('one into another', one_into_another),
        engine.Scenario('defaults', defaults),
        engine.Scenario('attributes', attributes),
    ]
