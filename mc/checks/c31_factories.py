"""C31: message factories"""
import copy
import functools
import random

import factory
import faker
from pyelliptic import control

from golem_messages import cryptography
from golem_messages import exceptions
from golem_messages import factories
from golem_messages import shortcuts
from golem_messages.factories import helpers
from golem_messages.message import concents
from golem_messages.message import tasks

from mc import clock
from mc import engine
from mc import golden
from mc import world as w
from mc.checks import c10_ownership as c10
from mc.checks import c36_sharing as c36

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'random draws: one pseudo-random sequence, deviating by draws of the '
    'least or greatest number, by every choice of a fuzzy attribute',
    'ForcePayment needs its list of accepted results (the repository tests '
    'that it is not made up)',
    'a disabled ethereum signature is missing, an assignment without it '
    'cannot be loaded',
]

# making one takes long
faker.Faker = functools.lru_cache(None)(faker.Faker)

DAY = 86400
DRAWS = random.Random()
FAKER_RANDOM = faker.generator.random
FUZZY_RANDOM = factory.random.randgen


def draw_by(ch, wide):
    """All the randomness in factories becomes choices of the explorer"""
    clock.set_time(w.TS)
    FAKER_RANDOM.seed(7)
    random.seed(7)
    control.generated_keys = (
        w.Key('generated {}'.format(i)).priv for i in range(10 ** 6))

    def randint(low, high):
        value = FAKER_RANDOM.randrange(low, high + 1)
        if wide and high - low > 1000:
            return ch.dev('draw', (value, low, high))
        return value

    def randint_global(low, high):
        return ch.dev('draw', (low + (high - low) // 3, low, high))

    FAKER_RANDOM.randint = randint
    random.randint = randint_global
    FUZZY_RANDOM.choice = lambda seq: ch.dev('fuzzy', list(seq))


def find(path):
    module, _, rest = path.partition('.')
    obj = getattr(factories, module)
    for name in rest.split('.'):
        obj = getattr(obj, name)
    return obj


# fields which a call makes: {field: nested variant} for each way to call
REASONS = tasks.RejectReportComputedTask.REASON
RESPONSE = concents.ForceReportComputedTaskResponse.REASON
OPERATION = concents.FileTransferToken.Operation
ORIGIN = concents.SubtaskResultsSettled.Origin
LATE = concents.ForceSubtaskResultsRejected.REASON
ACTOR = concents.ForcePaymentCommitted.Actor


class Way:
    def __init__(self, path, parts=(), fields=None, kwargs=None, absent=()):
        self.path = path
        self.parts = dict(parts)  # field: path of its factory
        self.fields = fields or {}  # expected values
        self.kwargs = kwargs or {}
        self.absent = absent
        module, rest = path.split('.')[:2]
        self.model = '{}.{}'.format(module, rest.replace('Factory', ''))

    def __repr__(self):
        return self.path + (repr(self.kwargs) if self.kwargs else '')


T = 'tasks.{}Factory'.format
C = 'concents.{}Factory'.format
TTC = {'task_to_compute': T('TaskToCompute')}
RCT = {'report_computed_task': T('ReportComputedTask')}
FGTR = {'force_get_task_result': C('ForceGetTaskResult')}
OTHER_PARTS = ('attached_task_to_compute', 'task_failure',
               'cannot_compute_task')


def rejections(path, field, klass, reason):
    return Way(T('RejectReportComputedTask') + path, {field: T(klass)},
               {'reason': reason} if reason else {},
               absent=[p for p in OTHER_PARTS if p != field])


WAYS = [
    Way('base.HelloFactory'),
    Way('p2p.WantToStartTaskSessionFactory'),
    Way('p2p.SetTaskSessionFactory'),
    Way(T('WantToComputeTask')),
    Way(T('TaskToCompute'), {'want_to_compute_task': T('WantToComputeTask')}),
    Way(T('TaskToCompute') + '.past_deadline',
        {'want_to_compute_task': T('WantToComputeTask')}),
    Way(T('CannotComputeTask'), TTC),
    Way(T('TaskFailure'), TTC, {
        'reason': tasks.TaskFailure.REASON.ComputationError}),
    Way(T('ReportComputedTask'), TTC),
    Way(T('AckReportComputedTask'), RCT),
    Way(T('RejectReportComputedTask'), absent=OTHER_PARTS),
    rejections('.with_task_to_compute', 'attached_task_to_compute',
               'TaskToCompute', REASONS.SubtaskTimeLimitExceeded),
    rejections('.with_task_failure', 'task_failure', 'TaskFailure',
               REASONS.GotMessageTaskFailure),
    rejections('.with_cannot_compute_task', 'cannot_compute_task',
               'CannotComputeTask', REASONS.GotMessageCannotComputeTask),
    Way(T('SubtaskResultsAccepted'), RCT, {'payment_ts': w.TS}),
    Way(T('SubtaskResultsRejected'), RCT, {
        'reason': tasks.SubtaskResultsRejected.REASON.VerificationNegative}),
    Way(C('FileTransferToken'), fields={'operation': OPERATION.upload}),
    Way(C('FileTransferToken'), fields={'operation': OPERATION.upload},
        kwargs={'upload': True}),
    Way(C('FileTransferToken'), fields={'operation': OPERATION.download},
        kwargs={'download': True}),
    Way(C('FileTransferToken'), fields={'operation': OPERATION.download},
        kwargs={'operation': OPERATION.download, 'upload': False}),
    Way(C('ForceReportComputedTask'), RCT),
    Way(C('SubtaskResultsVerify'), {
        'subtask_results_rejected': T('SubtaskResultsRejected')}),
    Way(C('AckSubtaskResultsVerify'), {
        'subtask_results_verify': C('SubtaskResultsVerify'),
        'file_transfer_token': C('FileTransferToken')}),
    Way(C('SubtaskResultsSettled'), TTC, {
        'origin': ORIGIN.ResultsAcceptedTimeout}),
    Way(C('SubtaskResultsSettled') + '.origin_acceptance_timeout', TTC, {
        'origin': ORIGIN.ResultsAcceptedTimeout}),
    Way(C('SubtaskResultsSettled') + '.origin_results_rejected', TTC, {
        'origin': ORIGIN.ResultsRejected}),
    Way(C('ForceGetTaskResult'), RCT),
    Way(C('AckForceGetTaskResult'), FGTR),
    Way(C('ForceGetTaskResultFailed'), TTC),
    Way(C('ForceGetTaskResultRejected'), FGTR),
    Way(C('ForceGetTaskResultUpload'), dict(
        FGTR, file_transfer_token=C('FileTransferToken'))),
    Way(C('ForceGetTaskResultDownload'), dict(
        FGTR, file_transfer_token=C('FileTransferToken'))),
    Way(C('ForceSubtaskResultsResponse'), absent=(
        'subtask_results_accepted', 'subtask_results_rejected')),
    Way(C('ForceSubtaskResultsResponse') + '.with_accepted', {
        'subtask_results_accepted': T('SubtaskResultsAccepted')},
        absent=('subtask_results_rejected', )),
    Way(C('ForceSubtaskResultsResponse') + '.with_rejected', {
        'subtask_results_rejected': T('SubtaskResultsRejected')},
        absent=('subtask_results_accepted', )),
    Way(C('ForceSubtaskResults'), {
        'ack_report_computed_task': T('AckReportComputedTask')}),
    Way(C('ForceSubtaskResultsRejected'), {
        'force_subtask_results': C('ForceSubtaskResults')},
        {'reason': LATE.RequestPremature}),
    Way(C('ForceSubtaskResultsRejected') + '.premature', {
        'force_subtask_results': C('ForceSubtaskResults')},
        {'reason': LATE.RequestPremature}),
    Way(C('ForceSubtaskResultsRejected') + '.too_late', {
        'force_subtask_results': C('ForceSubtaskResults')},
        {'reason': LATE.RequestTooLate}),
    Way(C('ForcePayment') + '.with_accepted_tasks', {
        'subtask_results_accepted_list': T('SubtaskResultsAccepted')}),
    Way(C('ForcePayment'), {
        'subtask_results_accepted_list': T('SubtaskResultsAccepted')},
        kwargs={'subtask_results_accepted_list__generate': 2}),
    Way(C('ForcePaymentCommitted'), fields={
        'payment_ts': w.TS, 'recipient_type': ACTOR.Provider}),
    Way(C('ForcePaymentCommitted') + '.to_provider', fields={
        'recipient_type': ACTOR.Provider}),
    Way(C('ForcePaymentCommitted') + '.to_requestor', fields={
        'recipient_type': ACTOR.Requestor}),
    Way(C('ForcePaymentRejected'), {
        'force_payment': C('ForcePayment') + '.with_accepted_tasks'},
        {'reason': concents.ForcePaymentRejected.REASON
         .NoUnsettledTasksFound}),
    Way(C('ForceReportComputedTaskResponse'), absent=(
        'ack_report_computed_task', 'reject_report_computed_task')),
    Way(C('ForceReportComputedTaskResponse')
        + '.with_ack_report_computed_task', {
            'ack_report_computed_task': T('AckReportComputedTask')},
        {'reason': RESPONSE.AckFromRequestor},
        absent=('reject_report_computed_task', )),
    Way(C('ForceReportComputedTaskResponse')
        + '.with_reject_report_computed_task', {
            'reject_report_computed_task':
                T('RejectReportComputedTask') + '.with_task_to_compute'},
        {'reason': RESPONSE.RejectFromRequestor},
        absent=('ack_report_computed_task', )),
    Way(C('VerdictReportComputedTask'), {
        'force_report_computed_task': C('ForceReportComputedTask'),
        'ack_report_computed_task': T('AckReportComputedTask')}),
    Way(C('ClientAuthorization')),
    Way(C('ServiceRefused'), TTC),
]
# the ways of making parts of messages
BY_PATH = {}
for _way in WAYS:
    BY_PATH.setdefault(_way.path, _way)

OPERATIONS = {
    'concents.ForceGetTaskResultUpload': OPERATION.upload,
    'concents.ForceGetTaskResultDownload': OPERATION.download,
}


def owner(model):
    owners = golden.BY_NAME[model][1].owners
    return w.ROLES[owners[0]] if owners else w.signer(model)


def options(ch, way, prefix, signed, prior=None):
    """keyword arguments which sign (or not) everything below

    Returns whether all of the task chain is signed.
    """
    kwargs = {}
    complete = True
    is_task = golden.BY_NAME[way.model][1].task

    def ask(what):
        return ch.dev(what, (signed, not signed))

    if way.model == 'tasks.WantToComputeTask':
        kwargs[prefix + 'provider_public_key'] = w.PROVIDER.hex
        kwargs[prefix + 'task_header__requestor_public_key'] = \
            w.REQUESTOR.hex
        if ask(prefix + 'header'):
            kwargs[prefix + 'task_header__sign__privkey'] = w.REQUESTOR.priv
        else:
            complete = False
    if way.model == 'tasks.TaskToCompute':
        kwargs[prefix + 'requestor_public_key'] = w.REQUESTOR.hex
    if ask(prefix + 'sign'):
        kwargs[prefix + 'sign__privkey'] = owner(way.model).priv
    elif is_task:
        # the signature of an offer is not a part of the chain
        complete = False
    for field, path in way.parts.items():
        part = BY_PATH[path]
        if way.model == 'concents.VerdictReportComputedTask' \
                and field == 'ack_report_computed_task':
            # about the report in the other part
            part = Way(path)
        more, good = options(ch, part, prefix + field + '__', signed)
        kwargs.update(more)
        complete = complete and good
    return kwargs, complete


def judge(ch, way, msg, signed):
    key = way.path
    ch.check(type(msg) is w.cls(way.model), key + ':class', repr(type(msg)))
    ch.equal(msg.timestamp, w.TS, key + ':timestamp')
    if signed:
        ch.check(msg.sig is not None, key + ':not signed')
        ch.check(msg.verify_signature(signed.pub), key + ':signature')
    else:
        ch.equal(msg.sig, None, key + ':signed')
    for field, value in way.fields.items():
        ch.equal(getattr(msg, field), value, key + ':' + field)
    for field in way.absent:
        ch.check(getattr(msg, field) is None, key + ':' + field,
                 'is there')
    for field, path in way.parts.items():
        part = getattr(msg, field)
        if isinstance(part, list):
            ch.equal(len(part), way.kwargs.get(field + '__generate', 1),
                     key + ':' + field)
        else:
            part = [part]
        for one in part:
            ch.check(type(one) is w.cls(BY_PATH[path].model),
                     key + ':' + field, repr(type(one)))
            fields = dict(BY_PATH[path].fields)
            if way.model in OPERATIONS and field == 'file_transfer_token':
                fields['operation'] = OPERATIONS[way.model]
            if field == 'reject_report_computed_task':
                del fields['reason']
            for name, value in fields.items():
                ch.equal(getattr(one, name), value,
                         '{}:{}.{}'.format(key, field, name))
    transport(ch, key, msg)
    if golden.BY_NAME[way.model][1].task:
        same_task(ch, key, msg)
    if way.model == 'tasks.TaskToCompute':
        ch.equal(msg.compute_task_def['deadline'], w.TS + (
            -DAY if way.path.endswith('past_deadline') else DAY),
                 key + ':deadline')


def transport(ch, key, msg):
    ch.step(2)
    # it is signed in the process
    msg = copy.copy(msg)
    data = shortcuts.dump(
        msg, w.OTHER.priv if msg.sig is None else None, w.PROVIDER.pub)
    loaded = shortcuts.load(data, w.PROVIDER.priv, None, False)
    difference = w.difference(loaded, msg)
    ch.check(difference is None, key + ':loaded', difference)
    ch.check(loaded == msg, key + ':equality')


def same_task(ch, key, msg):
    ch.step()
    ch.check(msg.is_valid() is True, key + ':valid')
    ids = {
        (node.task_id, node.subtask_id, node.requestor_id, node.provider_id)
        for _, node in c10.nodes(msg) if c10.assignment(node) is not None}
    if not isinstance(msg, tasks.WantToComputeTask):
        ch.check(len(ids) <= 1, key + ':tasks', engine.short(ids))
    for _, node in c10.nodes(msg):
        if not isinstance(node, tasks.TaskToCompute):
            continue
        ch.check(node.verify_ethsig(), key + ':ethsig')
        header = node.want_to_compute_task.task_header
        if header.task_owner.key == node.requestor_id:
            ch.equal(header.task_id, node.task_id, key + ':task of header')
        ch.equal(node.provider_id,
                 node.want_to_compute_task.provider_public_key,
                 key + ':provider')
        node.validate_taskid()


def owners_verify(ch, key, msg, complete):
    if c10.assignment(msg) is None:
        return
    ch.step()
    try:
        result = msg.verify_owners(
            provider_public_key=w.PROVIDER.pub,
            requestor_public_key=w.REQUESTOR.pub,
            concent_public_key=w.CONCENT.pub)
    except (exceptions.InvalidSignature, exceptions.OwnershipMismatch):
        result = 'refused'
    ch.equal(result, True if complete else 'refused', key + ':owners')


def make(ch, way, kwargs):
    ch.step()
    return find(way.path)(**dict(way.kwargs, **kwargs))


def defaults(wide):
    def scenario(ch):
        draw_by(ch, wide)
        way = ch.pick('factory', WAYS)
        signed = ch.pick('signed by', (None, w.OTHER))
        kwargs = {'sign__privkey': signed.priv} if signed else {}
        msg = make(ch, way, kwargs)
        judge(ch, way, msg, signed)
        if golden.BY_NAME[way.model][1].task:
            owners_verify(ch, way.path, msg, False)
        ch.see(way.path, signed)
    return scenario


def chains(ch):
    draw_by(ch, False)
    way = ch.pick('factory', WAYS)
    signed = ch.pick('signed', (True, False))
    kwargs, complete = options(ch, way, '', signed)
    msg = make(ch, way, kwargs)
    judge(ch, way, msg,
          owner(way.model) if 'sign__privkey' in kwargs else None)
    if golden.BY_NAME[way.model][1].task:
        owners_verify(ch, way.path, msg, complete)
    ch.see(way.path, complete)


REASON_WAYS = [way for way in WAYS if 'reason' in way.fields and
               'Rejected' not in way.model]


def given_reason(ch):
    """an explicit reason wins over that of the variant"""
    draw_by(ch, False)
    way = ch.pick('factory', REASON_WAYS)
    reason = ch.pick('reason', list(type(way.fields['reason'])))
    msg = make(ch, way, {'reason': reason})
    ch.equal(msg.reason, reason, way.path + ':given reason')
    transport(ch, way.path, msg)
    ch.see(way.path, reason)


def given_part(ch):
    """parts made beforehand are taken as they are"""
    draw_by(ch, False)
    way = ch.pick('factory', [way for way in WAYS if way.parts])
    field = ch.pick('part', sorted(way.parts))
    if way.model == 'concents.VerdictReportComputedTask' \
            and field == 'ack_report_computed_task':
        return
    part_way = BY_PATH[way.parts[field]]
    part_kwargs, complete = options(ch, part_way, '', True)
    part = make(ch, part_way, part_kwargs)
    value = [part] if isinstance(
        golden.BY_NAME[way.model][1].nested[field], tuple) and \
        golden.BY_NAME[way.model][1].nested[field][2] else part
    kwargs = {field: value, 'sign__privkey': owner(way.model).priv}
    if way.model == 'tasks.TaskToCompute':
        kwargs['requestor_public_key'] = w.REQUESTOR.hex
    path = way.path.split('.')
    # the plain factory, the part makes the variant
    msg = find('.'.join(path[:2]))(**kwargs)
    got = getattr(msg, field)
    got = got[0] if isinstance(value, list) else got
    ch.check(got is part, way.path + ':given part')
    transport(ch, way.path, msg)
    spec = golden.BY_NAME[way.model][1]
    if spec.task and len(way.parts) == 1:
        same_task(ch, way.path, msg)
        owners_verify(ch, way.path, msg, complete)
    ch.see(way.path, field, complete)


# an assignment with consistent nested messages

def nested(ch):
    draw_by(ch, False)
    requestor = ch.pick('requestor keys', (w.REQUESTOR, None))
    provider = ch.pick('provider keys', (w.PROVIDER, None))
    kwargs = {}
    if requestor:
        kwargs['requestor_keys'] = cryptography.ECCx(requestor.priv)
    if provider:
        kwargs['provider_keys'] = cryptography.ECCx(provider.priv)
    over = {
        'requestor_public_key': (None, w.OTHER.hex, w.REQUESTOR.hex),
        'sign__privkey': (None, w.OTHER.priv),
        'want_to_compute_task__provider_public_key': (None, w.OTHER.hex),
        'want_to_compute_task__sign__privkey': (None, w.OTHER.priv),
        'want_to_compute_task__task_header__requestor_public_key': (
            None, w.OTHER.hex),
        'want_to_compute_task__task_header__sign__privkey': (
            None, w.OTHER.priv),
        'want_to_compute_task__task_header': (None, 'header'),
        'want_to_compute_task': (None, 'offer'),
        'task_id': (None, 'given task'),
        'subtask_id': (None, 'given subtask'),
        'ethsig': (None, 'keys', 'privkey', 'disable'),
        'compute_task_def': (None, 'ctd'),
        'size': (None, 5),
        'package_hash': (None, 'x'),
    }
    chosen = {}
    for name, values in over.items():
        value = ch.dev(name, values)
        if value is not None:
            chosen[name] = value
    kwargs.update(chosen)
    ids = {}
    if 'task_id' in chosen:
        ids['task_id'] = kwargs['task_id'] = w.make_id(0x77, w.OTHER.pub)
    if 'subtask_id' in chosen:
        ids['subtask_id'] = kwargs['subtask_id'] = w.make_id(
            0x78, w.OTHER.pub)
    ctd = None
    if 'compute_task_def' in chosen:
        ctd = kwargs['compute_task_def'] = tasks.ComputeTaskDef(w.ctd_dict())
    header = offer = None
    if 'want_to_compute_task__task_header' in chosen:
        header = w.task_header()
        kwargs['want_to_compute_task__task_header'] = header
    if 'want_to_compute_task' in chosen:
        offer = w.build('tasks.WantToComputeTask')
        kwargs['want_to_compute_task'] = offer
    how = kwargs.pop('ethsig', None)
    if how == 'keys':
        kwargs['ethsig__keys'] = cryptography.ECCx(w.ETH.priv)
    elif how == 'privkey':
        kwargs['ethsig__privkey'] = w.ETH.priv
        kwargs['requestor_ethereum_public_key'] = w.ETH.hex
    elif how == 'disable':
        kwargs['ethsig__disable'] = True

    ch.step()
    msg = factories.tasks.TaskToComputeFactory.with_signed_nested_messages(
        **kwargs)

    # who is what
    given = 'want_to_compute_task__'
    requestor_hex = chosen.get(
        'requestor_public_key', requestor.hex if requestor else None)
    ch.check(requestor_hex in (None, msg.requestor_public_key), 'requestor')
    ch.equal(msg.requestor_id, msg.requestor_public_key, 'requestor id')
    provider_hex = chosen.get(
        given + 'provider_public_key', provider.hex if provider else None)
    if offer:
        ch.check(msg.want_to_compute_task is offer, 'given offer')
        provider_hex = w.PROVIDER.hex
        provider_signer = w.PROVIDER
    else:
        provider_signer = w.OTHER \
            if given + 'sign__privkey' in chosen else provider
    offer = msg.want_to_compute_task
    ch.check(provider_hex in (None, offer.provider_public_key), 'provider')
    ch.equal(msg.provider_id, offer.provider_public_key, 'provider id')
    owner_hex = chosen.get(
        given + 'task_header__requestor_public_key',
        requestor.hex if requestor else None)
    header_signer = w.OTHER \
        if given + 'task_header__sign__privkey' in chosen else requestor
    if 'want_to_compute_task' in chosen:
        owner_hex = w.REQUESTOR.hex
        header_signer = w.REQUESTOR
    elif header:
        ch.check(offer.task_header is header, 'given header')
        owner_hex = w.REQUESTOR.hex
        header_signer = w.REQUESTOR
    ch.check(owner_hex in (None, offer.task_header.task_owner.key),
             'owner of header')
    signer = w.OTHER if 'sign__privkey' in chosen else requestor
    for one, key, name in (
            (msg, signer, 'assignment'), (offer, provider_signer, 'offer')):
        if key is None:
            ch.equal(one.sig, None, name + ':signed')
        else:
            ch.check(one.verify_signature(key.pub), name + ':signature')
    if header_signer is None:
        ch.equal(offer.task_header.signature, None, 'header:signed')
    else:
        ch.check(offer.task_header.verify(header_signer.pub),
                 'header:signature')
    # ids
    same = offer.task_header.task_owner.key == msg.requestor_id
    if 'task_id' in ids:
        ch.equal(msg.task_id, ids['task_id'], 'given task id')
    elif same:
        ch.equal(msg.task_id, offer.task_header.task_id, 'task id')
    if 'subtask_id' in ids:
        ch.equal(msg.subtask_id, ids['subtask_id'], 'given subtask id')
    if not ids:
        msg.validate_taskid()
    if ctd:
        for name in ('deadline', 'extra_data', 'resources'):
            ch.equal(msg.compute_task_def[name], w.ctd_dict()[name],
                     'given ' + name)
    for name in ('size', 'package_hash'):
        if name in chosen:
            ch.equal(getattr(msg, name), chosen[name], 'given ' + name)
    # the ethereum signature
    if how == 'disable':
        ch.equal(msg.ethsig, None, 'disabled ethsig')
        return
    ch.check(msg.verify_ethsig(), 'ethsig')
    if how:
        ch.equal(msg.requestor_ethereum_public_key, w.ETH.hex,
                 'ethereum key')
    if not ids:
        transport(ch, 'nested', msg)
    # owners
    complete = (
        (signer and signer.hex) == msg.requestor_public_key
        and (header_signer and header_signer.hex) == msg.requestor_public_key)
    result = c10.verify(
        msg, requestor_public_key=bytes.fromhex(msg.requestor_public_key),
        provider_public_key=bytes.fromhex(msg.provider_id),
        concent_public_key=w.CONCENT.pub)
    ch.step()
    if complete and not ids:
        ch.check(result is True, 'owners of a complete chain',
                 engine.short(result))
    elif not complete:
        ch.check(result is not True, 'owners of an incomplete chain')
    ch.see(bool(complete), sorted(chosen))


def refused(ch):
    """options which make no sense"""
    draw_by(ch, False)
    keys = cryptography.ECCx(w.ETH.priv)
    way, kwargs = ch.pick('options', (
        (T('TaskToCompute'), {'ethsig__keys': keys,
                              'ethsig__privkey': w.ETH.priv}),
        (T('TaskToCompute'), {'ethsig__keys': keys, 'ethsig__disable': True}),
        (T('TaskToCompute'), {'ethsig__privkey': w.ETH.priv,
                              'ethsig__disable': True}),
        (T('TaskToCompute'), {'sign__key': w.OTHER.priv}),
        (T('WantToComputeTask'), {'sign__key': w.OTHER.priv}),
        (T('WantToComputeTask'), {'task_header__sign__key': w.OTHER.priv}),
        (C('ServiceRefused'), {'sign__pubkey': w.OTHER.priv}),
        (C('ForceGetTaskResult'), {
            'report_computed_task__sign__key': w.OTHER.priv}),
    ))
    ch.step()
    try:
        find(way)(**kwargs)
    except factory.errors.InvalidDeclarationError:
        return
    ch.fail(way + ':accepted', sorted(kwargs))


# helpers

def clone(ch):
    clock.set_time(w.TS + 100)
    name = ch.pick('class', w.names())
    signed = ch.flag('signed')
    msg = w.build(name, signed=signed)
    before = w.slots_spec(name, msg)
    header = ch.pick('header', (None, w.header(name, w.TS + 9),
                                w.header(name, w.TS, True)))
    ch.step()
    if header is None:
        other = helpers.clone_message(msg)
    else:
        other = helpers.clone_message(msg, override_header=header)
    ch.check(other is not msg and type(other) is type(msg), name + ':class')
    ch.check(tuple(other.header) == tuple(header or msg.header),
             name + ':header')
    ch.check(other.sig == msg.sig, name + ':sig')
    ch.check(w.slots_spec(name, other) == before, name + ':content')
    if header is None:
        ch.check(w.difference(other, msg) is None, name + ':difference',
                 w.difference(other, msg))
        ch.check(other == msg, name + ':equality')
    ch.see(name, header)


def clone_class(ch):
    """a message of another class with the same fields"""
    name = ch.pick('class', w.task_names())
    spec = golden.BY_NAME[name][1]
    twins = [n for n in w.names() if n != name
             and set(golden.BY_NAME[n][1].slots) == set(spec.slots)
             and golden.BY_NAME[n][1].nested == spec.nested
             and not spec.enums and not golden.BY_NAME[n][1].enums]
    msg = w.build(name)
    for twin in twins:
        ch.step()
        twin_msg = helpers.clone_message(msg, override_class=w.cls(twin))
        ch.check(type(twin_msg) is w.cls(twin), 'class')
        ch.check(twin_msg.sig == msg.sig and tuple(twin_msg.header)
                 == tuple(msg.header), 'header and sig')
        for slot in spec.slots:
            ch.check(w.difference(
                getattr(twin_msg, slot), getattr(msg, slot)) is None,
                'content')
    ch.see(name, twins)


def timestamps(ch):
    name = ch.pick('class', w.names())
    signed = ch.flag('signed')
    encrypted = ch.flag('encrypted')
    timestamp = ch.pick('timestamp', (w.TS + 1, w.TS - 10 ** 6, w.TS, 2 ** 33))
    msg = w.build(name, signed=signed)
    msg.encrypted = encrypted
    before = (w.slots_spec(name, msg), msg.sig)
    ch.step()
    helpers.override_timestamp(msg, timestamp)
    ch.check(tuple(msg.header) == (w.type_of(name), timestamp, encrypted),
             name + ':header')
    ch.equal(msg.timestamp, timestamp, name + ':timestamp')
    ch.check((w.slots_spec(name, msg), msg.sig) == before, name + ':content')
    ch.see(name, timestamp)


STRUCTURES = (
    'datastructures.p2p.Node', 'datastructures.p2p.Peer',
    'datastructures.tasks.TaskHeaderFactory', 'concents.FileInfoFactory',
    'tasks.ComputeTaskDefFactory', 'tasks.CTDBlenderExtraDataFactory')


def made_apart(ch):
    """whatever is changed in one product does not reach another one"""
    draw_by(ch, False)
    way = ch.pick('factory', WAYS + [Way(path) for path in STRUCTURES])
    swap = ch.pick('changed one', ('first', 'second')) == 'second'
    one, other = make(ch, way, {}), make(ch, way, {})
    if swap:
        one, other = other, one
    before = c36.strict(c36.snapshot(other))
    count = 0
    for path, change in c36.changes(one):
        try:
            change()
        except (ValueError, TypeError, AttributeError):
            continue  # a mask which was replaced or is full
        count += 1
        ch.equal(c36.strict(c36.snapshot(other)), before,
                 way.path + ':shared', path)
    ch.step(count)
    third = make(ch, way, {})
    ch.check(c36.MARK not in repr(c36.snapshot(third)),
             way.path + ':remembered')
    ch.see(way.path, swap, count)


def scenarios(tier):
    quick = tier == 'quick'
    return [
        engine.Scenario('defaults', defaults(not quick), bound=1),
        engine.Scenario('chains', chains, bound=2 if quick else 5),
        engine.Scenario('given reason', given_reason),
        engine.Scenario('given part', given_part, bound=0 if quick else 2),
        engine.Scenario('nested', nested, bound=3 if quick else 5),
        engine.Scenario('refused', refused),
        engine.Scenario('clone', clone),
        engine.Scenario('clone to class', clone_class),
        engine.Scenario('timestamps', timestamps),
        engine.Scenario('made apart', made_apart, bound=0),
    ]
