"""C11: every task message leads to its task"""
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import tasks

from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ATTRIBUTES = ('task_id', 'subtask_id', 'provider_id', 'requestor_id',
              'task_to_compute')


def assignments(seed):
    """different assignments"""
    key = (w.REQUESTOR, w.OTHER)[seed % 2]
    task_id = w.make_id(0x100 + seed, key.pub)
    subtask_id = w.make_id(0x200 + seed, key.pub)
    ttc = w.build(
        'tasks.TaskToCompute',
        requestor_id=key.hex,
        provider_id=(w.PROVIDER.hex, 'provider', 'p')[seed % 3],
        compute_task_def=tasks.ComputeTaskDef(w.ctd_dict(
            task_id=task_id, subtask_id=subtask_id)))
    expected = (
        task_id, subtask_id, (w.PROVIDER.hex, 'provider', 'p')[seed % 3],
        key.hex, ttc)
    return ttc, expected


def make(ch, name, ttc, path, free):
    """(message, whether it leads to the assignment)"""
    if name == 'tasks.TaskToCompute':
        return ttc, True
    spec = golden.BY_NAME[name][1]
    over = {}
    leads = {}
    for slot, (klass, allow_none, is_list) in spec.nested.items():
        if not golden.BY_NAME[klass][1].task:
            continue
        assert not is_list
        default = slot not in w.OMIT.get(name, ())
        options = (default, not default) if allow_none else (True, )
        pick = ch.pick if free else ch.dev
        if pick(path + '.' + slot, options):
            over[slot], leads[slot] = make(
                ch, klass, ttc, path + '.' + slot, free)
        else:
            over[slot] = None
    msg = w.build(name, **over)
    return msg, any(leads.get(slot) for slot in spec.chain)


def read(ch, msg):
    ch.step(len(ATTRIBUTES))
    return tuple(getattr(msg, a) for a in ATTRIBUTES)


def accessors(seeds, free):
    def scenario(ch):
        name = ch.pick('class', w.task_names())
        seed = ch.pick('assignment', seeds)
        ttc, expected = assignments(seed)
        msg, leads = make(ch, name, ttc, '', free)
        if not leads:
            expected = (None, ) * 5
        for attribute, got, want in zip(ATTRIBUTES, read(ch, msg), expected):
            ch.check(got == want and type(got) is type(want),
                     '{}.{}'.format(name, attribute),
                     '{} instead of {}'.format(
                         engine.short(got), engine.short(want)))
        if leads:
            ch.check(msg.task_to_compute is ttc or name.endswith(
                'TaskToCompute'), name + ':assignment itself')
        try:
            data = shortcuts.dump(
                msg, w.OTHER.priv if msg.sig is None else None, w.OTHER.pub)
            loaded = shortcuts.load(data, w.OTHER.priv, None, False)
        except exceptions.ValidationError:
            ch.see(name, 'invalid', leads)
            return
        ch.step(2)
        for attribute, got, want in zip(
                ATTRIBUTES, read(ch, loaded), expected):
            ch.check(got == want and type(got) is type(want),
                     '{}.{} loaded'.format(name, attribute),
                     '{} instead of {}'.format(
                         engine.short(got), engine.short(want)))
        ch.see(name, leads, seed)
    return scenario


def links(msg):
    """the messages on the way from a message to its assignment, and the
    fields they are in: [(message, field), ...]"""
    way = []
    name = w.name_of(msg)
    while name != 'tasks.TaskToCompute':
        for slot in golden.BY_NAME[name][1].chain:
            if getattr(msg, slot) is not None:
                break
        else:
            return None
        way.append((msg, slot))
        msg = getattr(msg, slot)
        name = w.name_of(msg)
    return way


def replaced(ch):
    """messages which are asked, changed and asked again, in any place"""
    name = ch.pick('class', w.task_names())
    ttc, expected = assignments(0)
    other_ttc, other_expected = assignments(1)
    msg, leads = make(ch, name, ttc, '', False)
    if not leads:
        ch.see(name, 'no task')
        return
    ch.step()
    for turn in range(2):
        for attribute, got, want in zip(ATTRIBUTES, read(ch, msg), expected):
            ch.check(got == want, '{}.{} {}'.format(
                name, attribute, 'again' if turn else 'at first'))
        way = links(msg)
        options = list(range(len(way))) + ['definition', 'ids', 'removed']
        change = ch.pick('change', options)
        ttc = msg.task_to_compute
        if change == 'definition':
            ttc.compute_task_def = tasks.ComputeTaskDef(w.ctd_dict(
                task_id='t%d' % turn, subtask_id='s%d' % turn))
            expected = ('t%d' % turn, 's%d' % turn) + expected[2:]
        elif change == 'ids':
            ttc.provider_id, ttc.requestor_id = 'p%d' % turn, 'r%d' % turn
            expected = expected[:2] + (
                ttc.provider_id, ttc.requestor_id, ttc)
        elif change == 'removed':
            if not way:
                ttc.compute_task_def = None
                expected = (None, None) + expected[2:]
            else:
                holder, slot = way[-1]
                setattr(holder, slot, None)
                expected = (None, ) * 5
                # another field may lead to the task
                if any(getattr(m, s) is not None for m, _ in way
                       for s in golden.BY_NAME[w.name_of(m)][1].chain
                       if (m, s) not in way):
                    ch.see(name, 'elsewhere')
                    return
            for attribute, got, want in zip(
                    ATTRIBUTES, read(ch, msg), expected):
                ch.check(got == want, '{}.{} removed'.format(
                    name, attribute))
            ch.see(name, turn, change)
            return
        else:
            holder, slot = way[change]
            klass = golden.BY_NAME[w.name_of(holder)][1].nested[slot][0]
            new, _ = make(
                ch, klass, (other_ttc, assignments(2)[0])[turn],
                '.new%d' % turn, False)
            setattr(holder, slot, new)
            expected = other_expected if not turn else assignments(2)[1]
            expected = expected[:4] + (new.task_to_compute, )
        ch.see(name, turn, change)
    for attribute, got, want in zip(ATTRIBUTES, read(ch, msg), expected):
        ch.check(got == want, '{}.{} in the end'.format(name, attribute))


def empty(ch):
    """messages without any content"""
    name = ch.pick('class', w.task_names())
    msg = w.cls(name)(header=w.header(name))
    if name == 'tasks.TaskToCompute':
        for attribute in ATTRIBUTES[:4]:
            ch.equal(getattr(msg, attribute), None, name + ':' + attribute)
        ch.check(msg.task_to_compute is msg, name + ':itself')
    else:
        ch.equal(read(ch, msg), (None, ) * 5, name + ':empty')
    ch.see(name)


def scenarios(tier):
    free = tier != 'quick'
    return [
        engine.Scenario('accessors', accessors(range(3), free), bound=3),
        engine.Scenario('other assignments', accessors(range(6), False),
                        bound=1),
        engine.Scenario('empty', empty),
        engine.Scenario('replaced', replaced, bound=1),
    ]
