"""C21: provider statistics are understood or refused"""
import copy

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.datastructures import stats as dt_stats

from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'entries of block I/O and memory data are dictionaries whose content is '
    'not restricted',
]
BLKIO = ('io_merged_recursive', 'io_queue_recursive',
         'io_service_bytes_recursive', 'io_service_time_recursive',
         'io_serviced_recursive', 'io_time_recursive',
         'io_wait_time_recursive', 'sectors_recursive')
CPU = {
    'cpu_usage': {'percpu_usage': [], 'total_usage': 0,
                  'usage_in_kernelmode': 0, 'usage_in_usermode': 0},
    'throttling_data': {'periods': 0, 'throttled_periods': 0,
                        'throttled_time': 0},
}
MEMORY = ('kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage')
SECTIONS = {
    'blkio_stats': ({f: 'dict' for f in BLKIO}, dt_stats.BlockIoStats),
    'cpu_stats': ({f: 'cpu' for f in CPU}, dt_stats.CpuStats),
    'memory_stats': (dict({f: 'dict' for f in MEMORY}, cache='integer',
                          stats='dict', use_hierarchy='boolean'),
                     dt_stats.MemoryStats),
    'pids_stats': ({'current': 'integer', 'limit': 'integer'},
                   dt_stats.PidStats),
}
VALUES = [None, True, False, 0, 1, -1, 2 ** 64, 1.5, '', 'x', b'x', [], [1],
          {}, {'failcnt': 7}, {'unknown': 1}, {'major': 1, 'op': None},
          {'percpu_usage': [1]}, {'total_usage': 'x'}, {'periods': 3},
          {'percpu_usage': [1, 2], 'total_usage': 9,
           'usage_in_kernelmode': 4, 'usage_in_usermode': 5},
          {'throttled_time': None, 'periods': 1, 'throttled_periods': 2},
          {'total_usage': 0}, {'percpu_usage': []}, {'periods': 0},
          {'failcnt': 0}, {'usage_in_usermode': None},
          {'percpu_usage': [], 'total_usage': 0, 'usage_in_kernelmode': 0,
           'usage_in_usermode': 0},
          {'periods': 0, 'throttled_periods': 0, 'throttled_time': 0}]


def good_value(kind, field, value):
    if value is None:
        return True
    if kind == 'integer':
        return type(value) is int
    if kind == 'boolean':
        return type(value) is bool
    if kind == 'dict':
        return isinstance(value, dict)
    return isinstance(value, dict) and set(value) <= set(CPU[field])


def good(data):
    """the declared shape"""
    if not isinstance(data, dict) or not set(data) <= set(SECTIONS):
        return False
    for section, content in data.items():
        if content is None:
            continue
        fields = SECTIONS[section][0]
        if not isinstance(content, dict) or not set(content) <= set(fields):
            return False
        if not all(good_value(fields[f], f, v) for f, v in content.items()):
            return False
    return True


def expected(data):
    """how it reads"""
    result = {}
    for section, (fields, _) in SECTIONS.items():
        content = data.get(section)
        if not content:
            result[section] = None
            continue
        result[section] = {}
        for field, kind in fields.items():
            value = content.get(field)
            if kind == 'cpu':
                value = dict(CPU[field], **value) if value else None
            result[section][field] = value
    return result


def plain(value):
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    return value


def same(ch, got, want, what):
    ch.equal(plain(got), want, what)
    for section, content in want.items():
        if content is None:
            ch.check(got[section] is None, what + ':none')
            continue
        for field, value in content.items():
            mine = plain(got[section][field])
            ch.check(w.difference(sort(mine), sort(value)) is None,
                     '{}:{}.{}'.format(what, section, field),
                     '{} instead of {}'.format(mine, value))


def sort(value):
    if isinstance(value, dict):
        return {k: value[k] for k in sorted(value)}
    return value


def wire(stats):
    """loads a report with these statistics"""
    name = 'tasks.ReportComputedTask'
    type_ = golden.BY_NAME[name][0]
    slots = [[k, copy.deepcopy(stats) if k == 'stats' else v]
             for k, v in w.slots_spec(name, w.build(name))]
    sig = ref.sign(w.PROVIDER.priv, ref.digest(type_, w.TS, ref.cbor(slots)))
    return shortcuts.load(
        ref.wire(type_, w.TS, slots, False, sig), w.OTHER.priv,
        w.PROVIDER.pub, False)


def judge(ch, data, what):
    """through each of the ways in"""
    is_good = good(data)
    ch.step()
    stats = None
    try:
        stats = dt_stats.ProviderStats(**copy.deepcopy(data))
        result = None
    except exceptions.MessageError as e:
        result = e
    ch.check((result is None) == is_good,
             what + (':refused' if is_good else ':accepted'),
             '{}: {!r}'.format(engine.short(data), result))
    ch.step()
    try:
        received = wire(data)
        result = None
    except exceptions.MessageError as e:
        result = e
    ch.check((result is None) == is_good,
             what + (':refused from wire' if is_good else
                     ':accepted from wire'),
             '{}: {!r}'.format(engine.short(data), result))
    if not is_good:
        return
    want = expected(data)
    same(ch, stats.to_dict(), want, what)
    same(ch, received.stats.to_dict(), want, what + ' received')
    for section, content in want.items():
        mine = getattr(stats, section)
        if content is None:
            ch.check(mine is None, what + ':section', section)
        else:
            ch.check(isinstance(mine, SECTIONS[section][1]),
                     what + ':section type', section)
    # built again from what it says, and from its own parts
    again = dt_stats.ProviderStats(**stats.to_dict())
    same(ch, again.to_dict(), want, what + ' again')
    parts = dt_stats.ProviderStats(**{
        s: getattr(stats, s) for s in SECTIONS})
    same(ch, parts.to_dict(), want, what + ' of parts')
    # and sent
    msg = w.build('tasks.ReportComputedTask', stats=stats)
    for pub in (None, w.OTHER.pub):
        loaded = shortcuts.load(shortcuts.dump(msg, None, pub), w.OTHER.priv,
                                w.PROVIDER.pub, False)
        same(ch, loaded.stats.to_dict(), want, what + ' sent')
        ch.check(loaded == msg, what + ':report differs')
    ch.step(6)


def subsets(ch):
    """all sections, each absent, None, empty, an object or a dictionary"""
    full = w.stats_dict()
    data = {}
    objects = False
    for section, (_, cls) in SECTIONS.items():
        how = ch.pick(section, (
            'absent', 'None', 'empty', 'full', 'object', 'empty object'))
        if how == 'absent':
            continue
        data[section] = {
            'None': lambda: None,
            'empty': dict,
            'full': lambda s=section: full[s],
            'object': lambda s=section, c=cls: c(**full[s]),
            'empty object': lambda c=cls: c(),
        }[how]()
        objects = objects or 'object' in how
    if not objects:
        judge(ch, data, 'subset')
    else:
        flat = {k: v.to_dict() if hasattr(v, 'to_dict') else v
                for k, v in data.items()}
        want = expected(flat)
        stats = dt_stats.ProviderStats(**data)
        same(ch, stats.to_dict(), want, 'objects')
        msg = w.build('tasks.ReportComputedTask', stats=stats)
        loaded = shortcuts.load(shortcuts.dump(msg, None, None),
                                w.OTHER.priv, None, False)
        same(ch, loaded.stats.to_dict(), want, 'objects sent')
        ch.step(3)
    ch.see({k: type(v).__name__ for k, v in data.items()})


def leaves(bound):
    """fields with other values"""
    def scenario(ch):
        data = w.stats_dict()
        section = ch.pick('section', list(SECTIONS))
        alone = ch.flag('alone')
        if alone:
            data = {section: data[section]}
        for field in SECTIONS[section][0]:
            value = ch.dev(field, ['base', 'absent'] + VALUES)
            if value == 'absent':
                del data[section][field]
            elif not (isinstance(value, str) and value == 'base'):
                data[section][field] = copy.deepcopy(value)
        judge(ch, data, section)
        ch.see(section, alone, good(data))
    return scenario


def wrong(ch):
    """wrong sections and unknown entries"""
    data = w.stats_dict()
    kind = ch.pick('kind', ('section', 'unknown section', 'unknown entry',
                            'moved', 'whole'))
    if kind == 'section':
        data[ch.pick('section', list(SECTIONS))] = ch.pick('value', VALUES)
    elif kind == 'unknown section':
        name = ch.pick('name', ('unknown', '', 'stats', 'cpu', 'Cpu_stats',
                                'network_stats') + BLKIO[:1])
        data[name] = ch.pick('value', VALUES)
    elif kind == 'unknown entry':
        section = ch.pick('section', list(SECTIONS))
        name = ch.pick('name', ('unknown', '', 'to_dict', 'Limit'))
        data[section][name] = ch.pick('value', VALUES)
    elif kind == 'moved':
        section = ch.pick('section', list(SECTIONS))
        other = ch.pick('other', list(SECTIONS))
        data[section] = data[other]
    else:
        value = ch.pick('value', [
            v for v in VALUES if not isinstance(v, dict) and v is not None])
        ch.step()
        try:
            loaded = wire(value)
        except exceptions.MessageError:
            return
        ch.fail('whole:accepted', engine.short(loaded.stats))
    judge(ch, data, kind)
    ch.see(kind, good(data))


def changed(turns):
    """statistics which are read and sent, changed, and read and sent"""
    def scenario(ch):
        full = w.stats_dict()
        first = ch.pick('first', ('full', 'nothing'))
        data = copy.deepcopy(full) if first == 'full' else {}
        stats = dt_stats.ProviderStats(**copy.deepcopy(data))
        msg = w.build('tasks.ReportComputedTask', stats=stats)
        for turn in range(turns + 1):
            if turn:
                section = ch.pick('section', list(SECTIONS))
                how = ch.pick('how', ('replaced', 'field', 'None'))
                fields, cls = SECTIONS[section]
                if how == 'replaced':
                    data[section] = copy.deepcopy(full[section])
                    setattr(stats, section, cls(
                        **copy.deepcopy(full[section])))
                elif how == 'None':
                    data.pop(section, None)
                    setattr(stats, section, None)
                elif getattr(stats, section) is None or not data.get(section):
                    return
                else:
                    field = ch.pick('field', list(fields))
                    data[section][field] = None
                    setattr(getattr(stats, section), field, None)
            want = expected(data)
            same(ch, stats.to_dict(), want, 'changed')
            if turn:
                msg.sig = None
                msg.sign_message(w.PROVIDER.priv)
            loaded = shortcuts.load(
                shortcuts.dump(msg, None, None), w.OTHER.priv,
                w.PROVIDER.pub, False)
            same(ch, loaded.stats.to_dict(), want, 'changed sent')
            ch.step(2)
        ch.see(data)
    return scenario


def report_without(ch):
    """no statistics at all"""
    ch.step(2)
    msg = w.build('tasks.ReportComputedTask', stats=None)
    loaded = shortcuts.load(shortcuts.dump(msg, None, None), w.OTHER.priv,
                            None, False)
    ch.equal(loaded.stats, None, 'no statistics')
    ch.check(loaded == msg, 'no statistics: report differs')


def scenarios(tier):
    deep = tier != 'quick'
    return [
        engine.Scenario('subsets', subsets),
        engine.Scenario('leaves', leaves(1), bound=2 if deep else 1),
        engine.Scenario('wrong', wrong),
        engine.Scenario('changed', changed(3 if deep else 2)),
        engine.Scenario('none', report_without, shard=False),
    ]
