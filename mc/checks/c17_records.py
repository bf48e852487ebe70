"""C17: structured fields keep to their declared shape"""
import copy

from golem_messages import exceptions
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks

from mc import engine
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = ['field names are those a caller of a Python function can give '
               '(not `self`)']


class Record:
    def __init__(self, cls, base, required=(), defaults=()):
        self.cls = cls
        self.base = base
        self.required = frozenset(required)
        self.defaults = dict(defaults)
        self.name = cls.__name__


def records():
    header = w.signed_header_dict()
    stats = w.stats_dict()
    return [
        Record(dt_p2p.Node, w.node_dict(), (), {
            'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}),
        Record(dt_tasks.TaskHeader, header, (
            'task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp')),
        Record(dt_stats.ProviderStats, stats),
        Record(dt_stats.BlockIoStats, stats['blkio_stats']),
        Record(dt_stats.CpuStats, stats['cpu_stats']),
        Record(dt_stats.MemoryStats, stats['memory_stats']),
        Record(dt_stats.PidStats, stats['pids_stats']),
    ]


NAMES = ('Node', 'TaskHeader', 'ProviderStats', 'BlockIoStats', 'CpuStats',
         'MemoryStats', 'PidStats')
UNKNOWN = ('unknown', '', 'Key', 'key ', 'node-name', 'to_dict', 'load_slots',
           'REQUIRED', '__slots__', '__class__', 'header', 'slots')
UNKNOWN_VALUES = (None, 1, {}, 'x')


def record(name):
    return [r for r in records() if r.name == name][0]


def construct(ch, rec, data):
    ch.step()
    try:
        return rec.cls(**copy.deepcopy(data))
    except exceptions.FieldError as e:
        return e


def expected(rec, data):
    result = {}
    for field in rec.base:
        value = data.get(field, rec.defaults.get(field))
        result[field] = value
    return result


def conforms(ch, rec, obj, data):
    """the record says what it was given"""
    want = expected(rec, data)
    ch.step(2)
    got = obj.to_dict()
    ch.equal(list(got), list(rec.base), rec.name + ':fields')
    for field, value in want.items():
        ch.check(w.difference(plain(got[field]), value, field) is None,
                 '{}:{}'.format(rec.name, field),
                 'got {} expected {}'.format(
                     engine.short(got[field]), engine.short(value)))
        mine = getattr(obj, field)
        if value is None:
            ch.check(mine is None, '{}:{} not None'.format(rec.name, field),
                     engine.short(mine))
        elif field not in ('task_owner', 'mask', 'market_type'):
            ch.check(w.difference(plain(mine), value, field) is None,
                     '{}:{} attribute'.format(rec.name, field),
                     'got {} expected {}'.format(
                         engine.short(mine), engine.short(value)))
    again = rec.cls(**copy.deepcopy(got))
    ch.step(2)
    ch.equal(again.to_dict(), got, rec.name + ':built again')
    if rec.name == 'Node':
        ch.check(again == obj, 'Node:not equal')


def plain(value):
    """dictionary-like records as dictionaries, and records as well"""
    if hasattr(value, 'to_dict'):
        return plain(value.to_dict())
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    return value


def refused(ch, rec, obj, what):
    ch.check(isinstance(obj, exceptions.FieldError),
             '{}:accepted {}'.format(rec.name, what.split()[0]),
             '{}: {}'.format(what, engine.short(obj)))


def presence(names, full):
    """fields given, absent or None"""
    def scenario(ch):
        rec = record(ch.pick('record', names))
        data, bad = {}, []
        for field, value in rec.base.items():
            pick = ch.pick if full else ch.dev
            how = pick(field, ('given', 'absent') if full == 'absent' else
                       ('given', 'absent', 'None'))
            if how == 'given':
                data[field] = copy.deepcopy(value)
            elif how == 'None':
                data[field] = None
            if how != 'given' and field in rec.required:
                bad.append(field)
        if ch.flag('reversed'):
            data = dict(reversed(list(data.items())))
        obj = construct(ch, rec, data)
        if bad:
            refused(ch, rec, obj, 'without required {}'.format(bad))
            ch.check(obj.field in bad, rec.name + ':wrong field named',
                     '{} of {}'.format(obj.field, bad))
        else:
            ch.check(isinstance(obj, rec.cls), rec.name + ':refused',
                     engine.short(obj))
            conforms(ch, rec, obj, data)
        ch.see(rec.name, sorted(data), len(bad))
    return scenario


def unknown(ch):
    """fields nobody knows"""
    rec = record(ch.pick('record', NAMES))
    others = [f for r in records() for f in r.base]
    others += ['_' + f for f in rec.base] + [f + '_' for f in rec.base]
    names = [n for n in dict.fromkeys(list(UNKNOWN) + others)
             if n not in rec.base]
    name = ch.pick('name', names)
    value = ch.pick('value', UNKNOWN_VALUES)
    drop = ch.pick('drop', [None] + [
        f for f in rec.base if f not in rec.required])
    data = copy.deepcopy(rec.base)
    if drop:
        del data[drop]
    if ch.flag('first'):
        data = dict([(name, value)] + list(data.items()))
    else:
        data[name] = value
    obj = construct(ch, rec, data)
    refused(ch, rec, obj, 'unknown ' + name)
    ch.check(obj.field == name, rec.name + ':unknown named', obj.field)
    ch.see(rec.name, name)


def changed(turns):
    """a record which is converted, changed and converted again"""
    def scenario(ch):
        rec = record(ch.pick('record', NAMES))
        data = copy.deepcopy(rec.base)
        if ch.flag('sparse'):
            data = {f: data[f] for f in rec.required}
        obj = construct(ch, rec, data)
        conforms(ch, rec, obj, data)
        for _ in range(turns):
            field = ch.pick('field', [
                f for f in rec.base if f not in rec.required])
            other = {f: copy.deepcopy(rec.base[f]) for f in rec.required}
            if field not in data:
                other[field] = copy.deepcopy(rec.base[field])
            setattr(obj, field, getattr(rec.cls(**other), field))
            data.pop(field, None)
            if field in other:
                data[field] = other[field]
            conforms(ch, rec, obj, data)
        ch.see(rec.name, sorted(data))
    return scenario


def fresh(ch):
    """defaults belong to one record only, in any order of use"""
    history = []
    objs = []
    model = []
    clean = {'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}
    for i in range(4):
        event = ch.pick('event {}'.format(i), (
            'stop', 'new', 'new with addresses', 'change first',
            'change last', 'from dict of first'))
        ch.step()
        if event == 'stop':
            break
        history.append(event)
        if event == 'new':
            objs.append(dt_p2p.Node())
            model.append(copy.deepcopy(clean))
        elif event == 'new with addresses':
            objs.append(dt_p2p.Node(prv_addresses=['::1']))
            model.append(dict(copy.deepcopy(clean), prv_addresses=['::1']))
        elif not objs:
            continue
        elif event == 'from dict of first':
            objs.append(dt_p2p.Node(**copy.deepcopy(objs[0].to_dict())))
            model.append(copy.deepcopy(model[0]))
        else:
            index = 0 if event == 'change first' else -1
            objs[index].prv_addresses.append('::2')
            objs[index].nat_type.append(i)
            objs[index].port_statuses[i] = 'open'
            model[index]['prv_addresses'].append('::2')
            model[index]['nat_type'].append(i)
            model[index]['port_statuses'][i] = 'open'
        for obj, want in zip(objs, model):
            for field, value in want.items():
                ch.equal(getattr(obj, field), value, 'shared default')
    ch.see(history)


def items_fresh(ch):
    """as well as those of dictionary-like ones"""
    name = ch.pick('record', ('CpuUsage', 'ThrottlingData', 'BlockIoEntry',
                              'MemoryData'))
    cls = getattr(dt_stats, name)
    first = cls()
    before = copy.deepcopy(dict(first))
    for key, value in first.items():
        if isinstance(value, list):
            value.append(1)
        else:
            first[key] = 77
    ch.step(2)
    ch.equal(dict(cls()), before, name + ':default shared')
    ch.see(name)


def scenarios(tier):
    if tier == 'quick':
        wide = [engine.Scenario('presence', presence(NAMES, False), bound=3)]
    else:
        wide = [
            engine.Scenario('presence', presence(NAMES, False), bound=4),
            engine.Scenario('all subsets of wide records', presence(
                ('Node', 'TaskHeader'), 'absent')),
        ]
    return wide + [
        engine.Scenario('all subsets', presence(NAMES[2:], True)),
        engine.Scenario('unknown', unknown),
        engine.Scenario('changed', changed(2 if tier == 'quick' else 3)),
        engine.Scenario('fresh', fresh),
        engine.Scenario('fresh items', items_fresh),
    ]
