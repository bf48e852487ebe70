"""Fixed inhabitants of the small world which the checks explore.

Everything is deterministic: keys, identifiers, timestamps.  Messages are made
through the public constructors of the code under test; `spec` gives the same
content as plain data, for the reference encoder.
"""
import hashlib
import importlib
import uuid

from golem_messages import datastructures
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base
from golem_messages.message import concents
from golem_messages.message import tasks

from . import golden
from . import ref

TS = 1560000000


class Key:
    def __init__(self, name):
        self.name = name
        self.priv = hashlib.sha256(b'key ' + name.encode()).digest()
        self.pub = ref.public(self.priv)
        self.hex = self.pub.hex()
        self.address = ref.address(self.pub)

    def __repr__(self):
        return '<key of {}>'.format(self.name)


REQUESTOR = Key('requestor')
PROVIDER = Key('provider')
CONCENT = Key('concent')
ETH = Key('ethereum account of the requestor')
PROVIDER_ETH = Key('ethereum account of the provider')
OTHER = Key('somebody else')
KEYS = (REQUESTOR, PROVIDER, CONCENT, OTHER)
ROLES = {
    'requestor': REQUESTOR,
    'provider': PROVIDER,
    'concent': CONCENT,
    'other': OTHER,
}
DEPOSIT = ref.checksum_address(hashlib.sha1(b'deposit contract').digest())


def make_id(num, seed=None):
    """uuid1-like identifier whose node is the first 48 bits of the seed"""
    seed = REQUESTOR.pub if seed is None else seed
    return str(uuid.UUID(fields=(
        num, 1, 0x11e9, 0x80, 1, int.from_bytes(seed[:6], 'big'))))


TASK_ID = make_id(0x10)
SUBTASK_ID = make_id(0x20)


def cls(name):
    module, attr = name.split('.')
    return getattr(
        importlib.import_module('golem_messages.message.' + module), attr)


def type_of(name):
    return golden.BY_NAME[name][0]


def header(name, timestamp=TS, encrypted=False):
    return datastructures.MessageHeader(type_of(name), timestamp, encrypted)


def node_dict(**over):
    result = {
        'node_name': 'a node',
        'key': REQUESTOR.hex,
        'prv_port': 1,
        'pub_port': 40102,
        'p2p_prv_port': 40103,
        'p2p_pub_port': 65534,
        'prv_addr': '10.0.0.1',
        'pub_addr': '1.2.3.4',
        'prv_addresses': ['10.0.0.1', '::1'],
        'hyperdrive_prv_port': 3282,
        'hyperdrive_pub_port': 3283,
        'port_statuses': {3282: 'open'},
        'nat_type': ['Full Cone'],
    }
    result.update(over)
    return result


def header_dict(**over):
    result = {
        'mask': b'\x00' * 31 + b'\x01',
        'timestamp': TS - 5,
        'signature': None,
        'task_id': TASK_ID,
        'task_owner': node_dict(),
        'deadline': TS + 7200,
        'subtask_timeout': 600,
        'market_type': 'Brass',
        'environment': 'BLENDER',
        'environment_prerequisites': {'image': 'golemfactory/blender'},
        'min_version': '0.20.0',
        'estimated_memory': 4096,
        'max_price': 10 ** 18,
        'subtask_budget': 10 ** 17,
        'subtasks_count': 10,
        'concent_enabled': True,
    }
    result.update(over)
    return result


def header_digest(header_dict_):
    data = dict(header_dict_)
    del data['signature']
    return hashlib.sha1(ref.cbor(data)).digest()


def signed_header_dict(key=None, **over):
    result = header_dict(**over)
    key = REQUESTOR if key is None else key
    result['signature'] = ref.sign(key.priv, header_digest(result))
    return result


def task_header(key=None, **over):
    return dt_tasks.TaskHeader(**signed_header_dict(key, **over))


def ctd_dict(**over):
    result = {
        'task_id': TASK_ID,
        'subtask_id': SUBTASK_ID,
        'deadline': TS + 3600,
        'extra_data': {'start_task': 1},
        'performance': 0,
        'docker_images': None,
        'resources': ['r1'],
    }
    result.update(over)
    return result


def stats_dict():
    return {
        'blkio_stats': {
            slot: {'major': 1, 'minor': 0, 'op': 'Read', 'value': 10}
            for slot in (
                'io_merged_recursive', 'io_queue_recursive',
                'io_service_bytes_recursive', 'io_service_time_recursive',
                'io_serviced_recursive', 'io_time_recursive',
                'io_wait_time_recursive', 'sectors_recursive')
        },
        'cpu_stats': {
            'cpu_usage': {
                'percpu_usage': [1, 2],
                'total_usage': 3,
                'usage_in_kernelmode': 1,
                'usage_in_usermode': 2,
            },
            'throttling_data': {
                'periods': 1,
                'throttled_periods': 2,
                'throttled_time': 3,
            },
        },
        'memory_stats': dict(
            [
                (slot, {'failcnt': 0, 'limit': 7, 'max_usage': 6, 'usage': 5})
                for slot in (
                    'kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage')
            ] + [
                ('cache', 12), ('stats', {'rss': 1}),
                ('use_hierarchy', False),
            ]),
        'pids_stats': {'current': 4, 'limit': 8},
    }


def _hello(**kwargs):
    return dict(
        rand_val=0.5,
        proto_id=29,
        node_info=dt_p2p.Node(**node_dict()),
        port=40102,
        client_ver='0.20.1',
        solve_challenge=True,
        challenge='abc',
        difficulty=10,
        metadata={'env': ['BLENDER']},
    )


def _node():
    return dt_p2p.Node(**node_dict())


def _file_info(category=None):
    info = concents.FileTransferToken.FileInfo(
        path='blender/result/x.zip', checksum='sha1:00', size=1 << 20)
    if category:
        info['category'] = category
    return info


def _file_infos():
    category = concents.FileTransferToken.FileInfo.Category
    return [_file_info(category.results), _file_info(category.resources)]


# fields other than nested messages
FIELDS = {
    'base.Hello': _hello,
    'base.RandVal': lambda: dict(rand_val=0.25),
    'base.Disconnect': lambda: dict(reason=base.Disconnect.REASON.Timeout),
    'base.ChallengeSolution': lambda: dict(solution='42'),
    'p2p.Ping': dict,
    'p2p.Pong': dict,
    'p2p.GetPeers': dict,
    'p2p.Peers': lambda: dict(peers=[
        dt_p2p.Peer(address='1.2.3.4', port=40102, node=_node()),
        dt_p2p.Peer(address='::1', port=1, node=_node()),
    ]),
    'p2p.GetTasks': dict,
    'p2p.Tasks': lambda: dict(tasks=[
        task_header(), task_header(concent_enabled=False, mask=b'\xff' * 32),
    ]),
    'p2p.RemoveTask': lambda: dict(task_id=TASK_ID),
    'p2p.GetResourcePeers': dict,
    'p2p.ResourcePeers': lambda: dict(resource_peers=[
        ['addr', {'port': 3282}]]),
    'p2p.Degree': lambda: dict(degree=3),
    'p2p.Gossip': lambda: dict(gossip=[['n', 1]]),
    'p2p.StopGossip': dict,
    'p2p.LocRank': lambda: dict(node_id=OTHER.hex, loc_rank=0.1),
    'p2p.FindNode': lambda: dict(node_key_id=OTHER.hex),
    'p2p.WantToStartTaskSession': lambda: dict(
        node_info=_node(), conn_id='c1', super_node_info=_node()),
    'p2p.SetTaskSession': lambda: dict(
        key_id=OTHER.hex, node_info=_node(), conn_id='c1',
        super_node_info=_node()),
    'p2p.RemoveTaskContainer': dict,
    'tasks.WantToComputeTask': lambda: dict(
        perf_index=1.5,
        cpu_usage=3,
        max_resource_size=1 << 30,
        max_memory_size=1 << 20,
        price=10 ** 18,
        num_subtasks=2,
        concent_enabled=True,
        extra_data={'gpu': None},
        provider_public_key=PROVIDER.hex,
        provider_ethereum_address=PROVIDER_ETH.address,
        task_header=task_header(),
    ),
    'tasks.TaskToCompute': lambda: dict(
        requestor_id=REQUESTOR.hex,
        requestor_public_key=REQUESTOR.hex,
        requestor_ethereum_public_key=ETH.hex,
        provider_id=PROVIDER.hex,
        compute_task_def=tasks.ComputeTaskDef(ctd_dict()),
        package_hash='sha1:0123',
        size=1 << 21,
        concent_enabled=True,
        price=10 ** 17,
        resources_options={'client_id': 'x'},
    ),
    'tasks.CannotAssignTask': lambda: dict(
        task_id=TASK_ID, reason=tasks.CannotAssignTask.REASON.NotMyTask),
    'tasks.ReportComputedTask': lambda: dict(
        address='1.2.3.4',
        node_info={'key': 'x'},
        port=40103,
        key_id=PROVIDER.hex,
        extra_data=[],
        size=1 << 22,
        package_hash='sha1:4567',
        multihash='Qm',
        secret='s3cret',
        options={'o': 1},
        stats=dt_stats.ProviderStats(**stats_dict()),
    ),
    'tasks.SubtaskResultsAccepted': lambda: dict(payment_ts=TS - 60),
    'tasks.SubtaskResultsRejected': lambda: dict(
        reason=tasks.SubtaskResultsRejected.REASON.VerificationNegative),
    'tasks.TaskFailure': lambda: dict(
        err='oops', reason=tasks.TaskFailure.REASON.TimeExceeded),
    'tasks.StartSessionResponse': lambda: dict(conn_id='c1'),
    'tasks.CannotComputeTask': lambda: dict(
        reason=tasks.CannotComputeTask.REASON.WrongCTD),
    'tasks.SubtaskPayment': lambda: dict(
        subtask_id=SUBTASK_ID, reward=10 ** 17, transaction_id='0x12',
        block_number=123456),
    'tasks.SubtaskPaymentRequest': lambda: dict(subtask_id=SUBTASK_ID),
    'tasks.AckReportComputedTask': dict,
    'tasks.RejectReportComputedTask': lambda: dict(
        reason=tasks.RejectReportComputedTask.REASON.GotMessageTaskFailure),
    'resources.PushResource': lambda: dict(resource='r', copies=3),
    'resources.HasResource': lambda: dict(resource='r'),
    'resources.WantsResource': lambda: dict(resource='r'),
    'resources.PullResource': lambda: dict(resource='r'),
    'resources.PullAnswer': lambda: dict(resource='r', has_resource=True),
    'resources.ResourceHandshakeStart': lambda: dict(
        resource='r', options={'o': [1]}),
    'resources.ResourceHandshakeNonce': lambda: dict(nonce='n'),
    'resources.ResourceHandshakeVerdict': lambda: dict(
        accepted=True, nonce='n'),
    'concents.ServiceRefused': lambda: dict(
        reason=concents.ServiceRefused.REASON.DuplicateRequest),
    'concents.ForceReportComputedTask': lambda: dict(result_hash='sha1:89'),
    'concents.VerdictReportComputedTask': dict,
    'concents.FileTransferToken': lambda: dict(
        subtask_id=SUBTASK_ID,
        token_expiration_deadline=TS + 1800,
        storage_cluster_address='https://storage',
        authorized_client_public_key=PROVIDER.pub,
        operation=concents.FileTransferToken.Operation.upload,
        files=_file_infos(),
    ),
    'concents.SubtaskResultsVerify': dict,
    'concents.AckSubtaskResultsVerify': dict,
    'concents.SubtaskResultsSettled': lambda: dict(
        origin=concents.SubtaskResultsSettled.Origin.ResultsRejected),
    'concents.ForceGetTaskResult': dict,
    'concents.AckForceGetTaskResult': dict,
    'concents.ForceGetTaskResultFailed': dict,
    'concents.ForceGetTaskResultRejected': lambda: dict(
        reason=concents.ForceGetTaskResultRejected.REASON
        .AcceptanceTimeLimitExceeded),
    'concents.ForceGetTaskResultUpload': dict,
    'concents.ForceGetTaskResultDownload': dict,
    'concents.ForceSubtaskResults': dict,
    'concents.ForceSubtaskResultsResponse': dict,
    'concents.ForceSubtaskResultsRejected': lambda: dict(
        reason=concents.ForceSubtaskResultsRejected.REASON.RequestTooLate),
    'concents.ForcePayment': dict,
    'concents.ForcePaymentCommitted': lambda: dict(
        payment_ts=TS - 100,
        task_owner_key=REQUESTOR.hex,
        provider_eth_account=PROVIDER_ETH.address,
        amount_paid=10 ** 17,
        recipient_type=concents.ForcePaymentCommitted.Actor.Provider,
        amount_pending=5,
    ),
    'concents.ForcePaymentRejected': lambda: dict(
        reason=concents.ForcePaymentRejected.REASON.NoUnsettledTasksFound),
    'concents.ForceReportComputedTaskResponse': lambda: dict(
        reason=concents.ForceReportComputedTaskResponse.REASON
        .AckFromRequestor),
    'concents.ClientAuthorization': lambda: dict(
        client_public_key=PROVIDER.pub),
}

# who signs a message when nobody in particular is asked for
SIGNERS = {
    'tasks.WantToComputeTask': PROVIDER,
    'p2p.RemoveTask': REQUESTOR,
    'concents.FileTransferToken': CONCENT,
    'concents.ForcePayment': PROVIDER,
}

# optional nested messages which are left out by default, because a real
# message carries just one of the alternatives
OMIT = {
    'tasks.SubtaskResultsRejected': ('force_get_task_result_failed', ),
    'tasks.RejectReportComputedTask': (
        'attached_task_to_compute', 'cannot_compute_task'),
    'concents.ForceSubtaskResultsResponse': ('subtask_results_rejected', ),
    'concents.ForceReportComputedTaskResponse': (
        'reject_report_computed_task', ),
}


def signer(name):
    if name in SIGNERS:
        return SIGNERS[name]
    owners = golden.BY_NAME[name][1].owners
    return ROLES[owners[0]] if owners else OTHER


def sign(msg, key):
    """Signs with the reference implementation's idea of the digest"""
    msg.sign_message(key.priv)
    return msg


def build(name, signed=True, timestamp=TS, include=(), sign_with=None,
          signers=None, path='', **over):
    """A valid message; nested messages are always signed (by `signers`,
    a map from path to key, or else by their natural owner)"""
    spec = golden.BY_NAME[name][1]
    kwargs = FIELDS[name]()
    for slot, (klass, _, is_list) in spec.nested.items():
        if slot in over:
            continue
        if slot in OMIT.get(name, ()) and slot not in include:
            kwargs[slot] = None
            continue
        child = build(
            klass, timestamp=timestamp, signers=signers,
            path=path + '/' + slot)
        kwargs[slot] = [child] if is_list else child
    kwargs.update(over)
    msg = cls(name)(header=header(name, timestamp), **kwargs)
    if name == 'tasks.TaskToCompute' and 'ethsig' not in over \
            and msg.want_to_compute_task is not None:
        msg.generate_ethsig(ETH.priv)
    if signed and spec.sign:
        key = sign_with or (signers or {}).get(path) or signer(name)
        sign(msg, key)
    return msg


def names():
    return [m.name for _, m in sorted(golden.TYPES.items())]


def task_names():
    return [m.name for _, m in sorted(golden.TYPES.items()) if m.task]


def name_of(msg):
    return '{}.{}'.format(
        type(msg).__module__.rsplit('.', 1)[1], type(msg).__name__)


def plain(value):
    """Any field value as plain data, the way it should look on the wire"""
    if isinstance(value, base.Message):
        name = name_of(value)
        return [list(value.header), value.sig, slots_spec(name, value)]
    if isinstance(value, dt_p2p.Peer):
        return {k: plain(v) for k, v in dict(value).items()}
    if isinstance(value, datastructures.Container):
        return {
            k: plain(getattr(value, k)) for k in type(value).__slots__
        }
    if type(value).__name__ == 'Mask':
        return value.byte_repr
    if hasattr(value, 'value') and hasattr(value, 'name'):
        return value.value
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def slots_spec(name, msg):
    """[[field, wire value]...] as the protocol prescribes"""
    spec = golden.BY_NAME[name][1]
    result = []
    for slot in spec.slots:
        value = getattr(msg, slot)
        if slot in spec.nested:
            if isinstance(value, list):
                value = [True, [plain(m) for m in value]]
            elif value is None:
                value = [False, None]
            else:
                value = [False, plain(value)]
        else:
            value = plain(value)
        result.append([slot, value])
    return result


def difference(a, b, path=''):
    """Path to the first difference of contents or types, or None.

    Goes through messages, containers, dicts and lists.  A tuple is as good
    as a list (there are no tuples on the wire).
    """
    # pylint: disable=too-many-return-statements
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + ': length'
        for i, (x, y) in enumerate(zip(a, b)):
            result = difference(x, y, '{}[{}]'.format(path, i))
            if result:
                return result
        return None
    if type(a) is not type(b):
        return '{}: {} vs {}'.format(
            path, type(a).__name__, type(b).__name__)
    if isinstance(a, base.Message):
        if (a.header.type_, a.header.timestamp) != \
                (b.header.type_, b.header.timestamp):
            return path + ': header'
        if a.sig != b.sig:
            return path + ': sig'
        name = name_of(a)
        for slot in golden.BY_NAME[name][1].slots:
            result = difference(
                getattr(a, slot), getattr(b, slot), path + '.' + slot)
            if result:
                return result
        if name == 'base.Hello' and a._version != b._version:
            return path + ': version'
        return None
    if isinstance(a, datastructures.Container):
        for slot in type(a).__slots__:
            result = difference(
                getattr(a, slot), getattr(b, slot), path + '.' + slot)
            if result:
                return result
        return None
    if type(a).__name__ == 'Mask':
        return None if a.byte_repr == b.byte_repr else path + ': mask'
    if isinstance(a, dict):
        if list(a) != list(b):
            return path + ': keys'
        for key in a:
            result = difference(
                a[key], b[key], '{}[{!r}]'.format(path, key))
            if result:
                return result
        return None
    if a != b:
        return '{}: {!r} vs {!r}'.format(path, a, b)[:200]
    return None
