"""C26: enumerated fields hold only declared values"""
import enum

from golem_messages import exceptions
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base
from golem_messages.message import concents

from mc import engine
from mc import golden
from mc import world as w
from mc.checks import c06_totality as c06

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'an absent (None) enumerated field is allowed',
]

# reviewed by hand: member: wire value
# pylint: disable=line-too-long
ENUMS = {
    ('base.Disconnect', 'reason'): {
        'DuplicatePeers': 'duplicate_peers',
        'TooManyPeers': 'too_many_peers',
        'Refresh': 'refresh',
        'Unverified': 'unverified',
        'ProtocolVersion': 'protocol_version',
        'BadProtocol': 'bad_protocol',
        'Timeout': 'timeout',
        'NoMoreMessages': 'no_more_messages',
        'WrongEncryption': 'wrong_encryption',
        'ResourceHandshakeFailure': 'resource_handshake',
        'KeyNotDifficult': 'key_not_difficult',
        'Bootstrap': 'bootstrap',
    },
    ('tasks.CannotAssignTask', 'reason'): {
        'NotMyTask': 'NotMyTask',
        'NoMoreSubtasks': 'NoMoreSubtasks',
        'TaskFinished': 'TaskFinished',
        'ConcentDisabled': 'ConcentDisabled',
    },
    ('tasks.SubtaskResultsRejected', 'reason'): {
        'VerificationNegative': 'Results verification negative',
        'ConcentResourcesFailure': 'Concent could not retrieve resources to verify',
        'ConcentVerificationNegative': 'Concent results verification negative',
        'ForcedResourcesFailure': 'Concent reported failure to retrieve the resources to verify',
        'ResourcesFailure': 'Could not retrieve resources',
    },
    ('tasks.TaskFailure', 'reason'): {
        'ComputationError': 'ComputationError',
        'BudgetExceeded': 'BudgetExceeded',
        'TimeExceeded': 'TimeExceeded',
    },
    ('tasks.CannotComputeTask', 'reason'): {
        'CannotTakeWork': 'CannotTakeWork',
        'WrongCTD': 'WrongCTD',
        'WrongKey': 'WrongKey',
        'WrongAddress': 'WrongAddress',
        'WrongEnvironment': 'WrongEnvironment',
        'NoSourceCode': 'NoSourceCode',
        'WrongDockerImages': 'WrongDockerImages',
        'ConcentRequired': 'ConcentRequired',
        'ConcentDisabled': 'ConcentDisabled',
        'InsufficientBalance': 'InsufficientBalance',
        'InsufficientDeposit': 'InsufficientDeposit',
        'TooShortDeposit': 'TooShortDeposit',
        'PromissoryNoteMissing': 'PromissoryNoteMissing',
        'OfferCancelled': 'OfferCancelled',
        'ResourcesTooBig': 'ResourcesTooBig',
    },
    ('tasks.RejectReportComputedTask', 'reason'): {
        'SubtaskTimeLimitExceeded': 'SubtaskTimeLimitExceeded',
        'GotMessageCannotComputeTask': 'GotMessageCannotComputeTask',
        'GotMessageTaskFailure': 'GotMessageTaskFailure',
    },
    ('concents.ServiceRefused', 'reason'): {
        'TooSmallCommunicationPayment': 'TOO_SMALL_COMMUNICATION_PAYMENT',
        'TooSmallRequestorDeposit': 'TOO_SMALL_REQUESTOR_DEPOSIT',
        'TooSmallProviderDeposit': 'TOO_SMALL_PROVIDER_DEPOSIT',
        'SystemOverloaded': 'SYSTEM_OVERLOADED',
        'DuplicateRequest': 'DUPLICATE_REQUEST',
        'InvalidRequest': 'REQUEST_FORMAT_OR_CONTENT_INVALID',
        'ConcentDisabled': 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK',
        'UnsupportedProtocolVersion': 'UNSUPPORTED_PROTOCOL_VERSION',
        'PriceNotPositive': 'PRICE_NOT_POSITIVE',
    },
    ('concents.FileTransferToken', 'operation'): {
        'upload': 'upload',
        'download': 'download',
    },
    ('concents.SubtaskResultsSettled', 'origin'): {
        'ResultsAcceptedTimeout': 'results_accepted_timeout',
        'ResultsRejected': 'results_rejected',
    },
    ('concents.ForceGetTaskResultRejected', 'reason'): {
        'AcceptanceTimeLimitExceeded': 'acceptance_time_limit_exceeded',
    },
    ('concents.ForceSubtaskResultsRejected', 'reason'): {
        'RequestPremature': 'premature: still within the verification timeout',
        'RequestTooLate': 'too late: past the forced communication timeout',
    },
    ('concents.ForcePaymentCommitted', 'recipient_type'): {
        'Requestor': 'requestor',
        'Provider': 'provider',
    },
    ('concents.ForcePaymentRejected', 'reason'): {
        'NoUnsettledTasksFound': 'no unsettled tasks found',
        'TimestampError': 'timestamp error - subtasks are not overdue yet',
    },
    ('concents.ForceReportComputedTaskResponse', 'reason'): {
        'AckFromRequestor': 'ack_from_requestor',
        'RejectFromRequestor': 'reject_from_requestor',
        'SubtaskTimeout': 'subtask_timeout',
        'ConcentAck': 'concent_ack',
    },
}
# pylint: enable=line-too-long

MARKET = {'Brass': 'Brass', 'Usage': 'Usage'}
CATEGORY = {'results': 'results', 'resources': 'resources'}

FIELDS = sorted(ENUMS)


def all_values():
    """every declared value, their names and variations of these"""
    result = []
    for table in list(ENUMS.values()) + [MARKET, CATEGORY]:
        for name, value in table.items():
            for text in (name, value):
                for variant in (
                        text, text.upper(), text.lower(), text.swapcase(),
                        text.title(), text + ' ', ' ' + text, text + '\0',
                        text[:-1], text + 's', text.replace('_', ' '),
                        text.replace('_', '-'), '.' + text,
                        text.encode(), [text], {text: text}):
                    if variant not in result:
                        result.append(variant)
    return result


VALUES = all_values() + [
    0, 1, 2, -1, True, False, 1.0, '', b'', '0', '1', [], {}, [[]], 2 ** 64,
    'REASON.NotMyTask', 'reason', 'None', 'null', '__class__', 'mro', 'name',
    'value', '_member_map_', 'ż', 'a' * 1000,
]


def load(data):
    return base.Message.deserialize(data, lambda data: data, False)


def wire_with(name, slot, value):
    index = golden.BY_NAME[name][1].slots.index(slot)
    return c06.wire(name, c06.replaced(c06.plain(name), (index, 1), value))


def member_of(table, value):
    if not isinstance(value, str):
        return None
    for name, member_value in table.items():
        if member_value == value:
            return name
    return None


def judge(ch, what, table, value, get):
    """get(value) loads it and gives the field"""
    expected = member_of(table, value)
    ch.step()
    try:
        got = get(value)
    except exceptions.FieldError as e:
        got = e
    except exceptions.MessageError as e:
        ch.fail(what + ':other error', '{!r} for {}'.format(
            e, engine.short(value)))
    if expected is None:
        ch.check(isinstance(got, exceptions.FieldError), what + ':accepted',
                 lambda: '{} as {!r}'.format(engine.short(value), got))
        ch.see(what, 'refused')
        return None
    ch.check(not isinstance(got, Exception), what + ':refused',
             lambda: '{!r}: {!r}'.format(value, got))
    ch.check(isinstance(got, enum.Enum), what + ':not a member', repr(got))
    ch.equal(got.name, expected, what + ':name')
    ch.equal(got.value, value, what + ':value')
    ch.see(what, got.name)
    return got


def fields(ch):
    """from the wire"""
    name, slot = ch.pick('field', FIELDS)
    value = ch.pick('value', VALUES)
    loaded = []

    def get(value_):
        loaded.append(load(wire_with(name, slot, value_)))
        return getattr(loaded[0], slot)
    what = '{}.{}'.format(name, slot)
    got = judge(ch, what, ENUMS[name, slot], value, get)
    if got is None:
        return
    # the member is one of the class and goes out as it came
    ch.step(2)
    ch.check(got is getattr(type(got), got.name), what + ':identity')
    ch.check(got is declared(name, slot)[got.name], what + ':foreign member')
    again = load(loaded[0].serialize())
    ch.check(getattr(again, slot) is got, what + ':again')
    ch.equal(dict(loaded[0].slots())[slot], value, what + ':sent')


def declared(name, slot):
    """the members, in the way a user refers to them"""
    klass = w.cls(name)
    for attr in ('REASON', 'Operation', 'Origin', 'Actor'):
        if hasattr(klass, attr):
            return {m.name: m for m in getattr(klass, attr)}
    raise AssertionError((name, slot))


def members(ch):
    """from the side of the sender"""
    name, slot = ch.pick('field', FIELDS)
    table = ENUMS[name, slot]
    ch.equal({n: m.value for n, m in declared(name, slot).items()}, table,
             '{}.{}:members'.format(name, slot))
    member = declared(name, slot)[ch.pick('member', sorted(table))]
    include = w.OMIT.get(name, ()) \
        if name == 'tasks.SubtaskResultsRejected' else ()
    msg = w.build(name, signed=False, include=include, **{slot: member})
    ch.check(getattr(msg, slot) is member, '{}.{}:constructed'.format(
        name, slot))
    ch.step(3)
    sent = dict(msg.slots())[slot]
    ch.equal(sent, table[member.name], '{}.{}:sent'.format(name, slot))
    ch.check(type(sent) is str or isinstance(sent, str), 'sent type')
    key = w.signer(name)
    back = load(msg.serialize(key.priv))
    ch.check(getattr(back, slot) is member, '{}.{}:back'.format(name, slot),
             repr(getattr(back, slot)))
    ch.check(back.verify_signature(key.pub), 'signature')
    ch.see(name, slot, member.name)


def nothing(ch):
    """None is no value"""
    name, slot = ch.pick('field', FIELDS)
    ch.step()
    if name == 'tasks.SubtaskResultsRejected':
        # SEE: C12
        try:
            load(wire_with(name, slot, None))
            ch.fail('rejection without a reason')
        except exceptions.ValidationError:
            return
    msg = load(wire_with(name, slot, None))
    got = getattr(msg, slot)
    if name == 'tasks.TaskFailure':
        ch.check(got is declared(name, slot)['ComputationError'],
                 'default reason', repr(got))
    else:
        ch.check(got is None, '{}.{}:none'.format(name, slot), repr(got))
    ch.see(name, slot)


CARRIERS = [
    (name, slot, inner, field)
    for name in w.names()
    for slot, (inner, _, _) in golden.BY_NAME[name][1].nested.items()
    for (owner, field) in FIELDS if owner == inner
]


def nested(ch):
    """in a nested message"""
    name, slot, inner, field = ch.pick('place', CARRIERS)
    _, _, is_list = golden.BY_NAME[name][1].nested[slot]
    values = sorted({v for t in ENUMS.values() for v in t.values()}) + [
        0, '', [], {}, True, b'x', 'x']
    value = ch.pick('value', values)
    index = golden.BY_NAME[name][1].slots.index(slot)
    inner_index = golden.BY_NAME[inner][1].slots.index(field)
    path = (index, 1, 1) + ((0, ) if is_list else ()) + (2, inner_index, 1)

    def get(value_):
        msg = load(c06.wire(name, c06.replaced(
            c06.plain(name), path, value_)))
        child = getattr(msg, slot)
        return getattr(child[0] if is_list else child, field)
    judge(ch, '{}.{}.{}'.format(name, slot, field), ENUMS[inner, field],
          value, get)


def market(ch):
    """the market type of a header, alone and in its carriers"""
    carrier = ch.pick('carrier', (
        'header', 'tasks.WantToComputeTask', 'p2p.Tasks'))
    value = ch.pick('value', VALUES)
    data = w.signed_header_dict()
    data['market_type'] = value

    def get(value_):
        del value_
        if carrier == 'header':
            return dt_tasks.TaskHeader(**data).market_type
        if carrier == 'p2p.Tasks':
            return load(wire_with(carrier, 'tasks', [data])) \
                .tasks[0].market_type
        return load(wire_with(carrier, 'task_header', data)) \
            .task_header.market_type
    got = judge(ch, 'market type in ' + carrier, MARKET, value, get)
    if got is not None:
        ch.step()
        ch.check(got is dt_tasks.TaskHeader.MARKET_TYPE[got.name],
                 'market type member')
        header = dt_tasks.TaskHeader(**data)
        ch.equal(header.to_dict()['market_type'], value, 'market sent')
        other = dict(data, market_type=got)
        ch.equal(dt_tasks.TaskHeader(**other).to_dict(), header.to_dict(),
                 'market type given as a member')


def category(ch):
    """the category of a file in a token"""
    value = ch.pick('value', VALUES)
    count = ch.pick('files', (1, 2))
    at = ch.pick('at', range(count))
    files = [{'path': 'p', 'checksum': 'c', 'size': 1,
              'category': 'resources'} for _ in range(count)]
    files[at]['category'] = value

    def get(value_):
        del value_
        return load(wire_with('concents.FileTransferToken', 'files', files)) \
            .files[at]['category']
    got = judge(ch, 'category', CATEGORY, value, get)
    if got is not None:
        klass = concents.FileTransferToken.FileInfo.Category
        ch.check(got is klass[got.name], 'category member')


def two(ch):
    """the sets of two kinds are not mixed up, in any order of use"""
    first = ch.pick('first', FIELDS)
    second = ch.pick('second', FIELDS)
    values = sorted(ENUMS[first].values())
    value = ch.pick('value', values)
    ch.step(2)
    msg = load(wire_with(first[0], first[1], value))
    ch.equal(getattr(msg, first[1]).value, value, 'first')
    judge(ch, 'second {}.{}'.format(*second), ENUMS[second], value,
          lambda v: getattr(load(wire_with(second[0], second[1], v)),
                            second[1]))


def scenarios(tier):
    del tier
    return [
        engine.Scenario('fields', fields),
        engine.Scenario('members', members),
        engine.Scenario('nothing', nothing),
        engine.Scenario('nested', nested),
        engine.Scenario('market', market),
        engine.Scenario('category', category),
        engine.Scenario('two', two),
    ]
