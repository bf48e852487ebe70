"""Small domains of field values, simplest first, shared by the checks"""
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import promissory
from golem_messages.datastructures import stats as dt_stats
from golem_messages.message import concents
from golem_messages.message import tasks

from . import golden
from . import world as w


class Thunk:
    """A lazily made option with a readable name"""

    def __init__(self, name, make):
        self.name = name
        self.make = make

    def __repr__(self):
        return self.name


def value_of(option):
    return option.make() if isinstance(option, Thunk) else option


# what any untyped field may carry
GENERIC = [
    None, 0, 1, -1, 23, 24, 255, 256, 65535, 65536, 2 ** 31, -2 ** 31,
    2 ** 32, 2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, -2 ** 64 - 1,
    2 ** 256 - 1,
    True, False, 0.0, 1.5, -1e300, '', 'a', 'x' * 24, 'zażółć \U0001f600',
    'y' * 300, b'', b'\x00\xff', b'z' * 64, [], [1, 'a', None],
    [[], [[1]], {'k': [2]}], {}, {'a': 1}, {'b': {'c': [b'\x01', None]}},
    {1: 2, 'z': 0, 'y': 1},
]
GENERIC_SMALL = [None, 0, -7, 2 ** 64, True, 1.5, '', 'ż', b'\xff', [1, None],
                 {'k': [1]}]


def _node(**over):
    return lambda: dt_p2p.Node(**w.node_dict(**over))


def _minimal_node():
    return dt_p2p.Node(key='k')


NODES = [
    None,
    Thunk('minimal node', _minimal_node),
    Thunk('node with unicode name', _node(node_name='węzeł')),
    Thunk('node with ports 1', _node(prv_port=65535, pub_port=1)),
    Thunk('node without addresses',
          _node(prv_addr=None, pub_addr=None, prv_addresses=[])),
    Thunk('node ipv6', _node(pub_addr='2001:db8::1')),
]


def _header(**over):
    return lambda: w.task_header(**over)


HEADERS = [
    Thunk('header without optional fields', lambda: w.dt_tasks.TaskHeader(
        task_id='t', task_owner=w.node_dict(), subtasks_count=1,
        min_version='1.0.0', timestamp=w.TS)),
    Thunk('header Usage', _header(market_type='Usage')),
    Thunk('header no mask', _header(mask=None)),
    Thunk('header no concent', _header(concent_enabled=False)),
    Thunk('header empty prerequisites', _header(
        environment_prerequisites={})),
    Thunk('header huge price', _header(max_price=2 ** 200)),
    Thunk('header zero timeout', _header(subtask_timeout=0)),
    Thunk('header of a small owner', _header(task_owner={'key': 'k'})),
]

PEERS = [
    [],
    Thunk('one peer', lambda: [
        dt_p2p.Peer(address='1.2.3.4', port=1, node=_minimal_node())]),
    Thunk('peer from dict', lambda: [
        dt_p2p.Peer({'address': '::', 'port': 65535,
                     'node': w.node_dict()})]),
]

CTDS = [
    Thunk('ctd defaults', lambda: tasks.ComputeTaskDef(
        task_id=w.TASK_ID, subtask_id=w.SUBTASK_ID)),
    Thunk('ctd float deadline', lambda: tasks.ComputeTaskDef(
        w.ctd_dict(deadline=w.TS + 0.5))),
    Thunk('ctd images', lambda: tasks.ComputeTaskDef(
        w.ctd_dict(docker_images=[{'repository': 'r', 'tag': '1'}],
                   resources=[], performance=1.25))),
    Thunk('ctd nested extra data', lambda: tasks.ComputeTaskDef(
        w.ctd_dict(extra_data={'a': {'b': [None, b'x']}}))),
]


def _stats(*keys):
    def make():
        full = w.stats_dict()
        return dt_stats.ProviderStats(**{k: full[k] for k in keys})
    return Thunk('stats ' + '+'.join(keys), make)


STATS = [
    None,
    _stats(),
    _stats('cpu_stats'),
    _stats('memory_stats', 'pids_stats'),
    _stats('blkio_stats'),
]

NOTE = promissory.PromissoryNoteSig(v=27, r=b'\x01' * 32, s=b'\x02' * 32)


def _info(**over):
    return lambda: concents.FileTransferToken.FileInfo(**over)


FILES = [
    [],
    Thunk('one default file', lambda: [_info()()]),
    Thunk('resources file', lambda: [_info(
        category=concents.FileTransferToken.FileInfo.Category.resources,
        size=2 ** 40)()]),
]

SPECIAL = {
    ('base.Hello', 'node_info'): NODES,
    ('p2p.WantToStartTaskSession', 'node_info'): NODES,
    ('p2p.WantToStartTaskSession', 'super_node_info'): NODES,
    ('p2p.SetTaskSession', 'node_info'): NODES,
    ('p2p.SetTaskSession', 'super_node_info'): NODES,
    ('p2p.Peers', 'peers'): PEERS,
    ('p2p.Tasks', 'tasks'): [
        [], Thunk('one task', lambda: [w.task_header()])] + [
            Thunk('[{!r}]'.format(h), (lambda h: lambda: [h.make()])(h))
            for h in HEADERS],
    ('p2p.Gossip', 'gossip'): [[], [1], ['a', [b'b']]],
    ('p2p.ResourcePeers', 'resource_peers'): [[], [{}], [['k', 'a', 1]]],
    ('tasks.WantToComputeTask', 'task_header'): [None] + HEADERS,
    ('tasks.WantToComputeTask', 'cpu_usage'): [None, 0, 1, 2 ** 40],
    ('tasks.WantToComputeTask', 'num_subtasks'): [1, 2 ** 33],
    ('tasks.WantToComputeTask', 'concent_enabled'): [False],
    ('tasks.TaskToCompute', 'requestor_id'): [],
    ('tasks.TaskToCompute', 'requestor_ethereum_public_key'): [],
    ('tasks.TaskToCompute', 'compute_task_def'): CTDS,
    ('tasks.TaskToCompute', 'ethsig'): [],
    ('tasks.TaskToCompute', 'concent_enabled'): [False],
    ('tasks.TaskToCompute', 'size'): [0, 1, -1, 2 ** 70],
    ('tasks.TaskToCompute', 'price'): [0, 1, -1, 2 ** 255],
    ('tasks.TaskToCompute', 'promissory_note_sig'): [
        NOTE, [28, b'', b'\xff']],
    ('tasks.TaskToCompute', 'concent_promissory_note_sig'): [NOTE],
    ('tasks.ReportComputedTask', 'stats'): STATS,
    ('tasks.SubtaskResultsAccepted', 'payment_ts'): [
        w.TS, w.TS - 900, w.TS - 0.5],
    ('concents.SubtaskResultsVerify', 'concent_promissory_note_sig'): [NOTE],
    ('concents.FileTransferToken', 'files'): FILES,
}


def _enum_members(name, slot):
    klass = w.cls(name)
    instance_enums = klass(header=w.header(name)).ENUM_SLOTS
    return list(instance_enums[slot])


def slot_options(name, slot, small=False):
    """Valid values of a field other than a nested message, and other than
    the one in the base message"""
    if (name, slot) in SPECIAL:
        return list(SPECIAL[name, slot])
    spec = golden.BY_NAME[name][1]
    if slot in spec.enums:
        options = _enum_members(name, slot)
        if name not in ('tasks.SubtaskResultsRejected', 'tasks.TaskFailure'):
            options.append(None)
        if name == 'tasks.SubtaskResultsRejected':
            # needs an attachment; SEE: the check of semantic rules
            options = [o for o in options if o.name
                       != 'ForcedResourcesFailure']
        return options
    return list(GENERIC_SMALL if small else GENERIC)


def nested_options(name, slot):
    """Other valid contents of a nested message slot"""
    klass, allow_none, is_list = golden.BY_NAME[name][1].nested[slot]
    options = []

    def wrap(make):
        return (lambda: [make()]) if is_list else make

    options.append(Thunk('unsigned ' + klass, wrap(
        lambda: w.build(klass, signed=False))))
    options.append(Thunk('older ' + klass, wrap(
        lambda: w.build(klass, timestamp=w.TS - 10 ** 6)
        if klass != 'tasks.SubtaskResultsAccepted'
        else w.build(klass, timestamp=w.TS - 30))))
    if is_list:
        options.append(Thunk('two of ' + klass, lambda: [
            w.build(klass), w.build(klass, signed=False)]))
    if allow_none:
        if slot in w.OMIT.get(name, ()):
            options.append(Thunk('present ' + klass, lambda: w.build(klass)))
        else:
            options.append(None)
    return options
