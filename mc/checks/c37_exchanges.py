"""C37: exchanges by the protocol are accepted at every step"""
import copy
import pickle

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages import utils
from golem_messages.datastructures import stats as dt_stats
from golem_messages.message import concents
from golem_messages.message import tasks

from mc import clock
from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'one task with one subtask (two for forced payments); the order of '
    'messages is the one in the documentation of the message classes',
    'clocks of the parties differ by less than the tolerance of 5 minutes, '
    'messages are delivered within 10 minutes',
]

R, P, C = 'requestor', 'provider', 'concent'
KEY = {R: w.REQUESTOR, P: w.PROVIDER, C: w.CONCENT}
START = w.TS
YEAR = 366 * 86400


def name_of(msg):
    return '{}.{}'.format(
        type(msg).__module__.rsplit('.', 1)[1], type(msg).__name__)


def strict(value):
    if isinstance(value, dict):
        return 'dict', tuple(sorted(
            ((strict(k), strict(v)) for k, v in value.items()), key=repr))
    if isinstance(value, (list, tuple)):
        return 'list', tuple(strict(v) for v in value)
    return type(value).__name__, repr(value)


def content(msg):
    """everything but the flags which say how a message was sent last"""
    result = []
    inner = golden.BY_NAME[name_of(msg)][1].nested
    for slot in golden.BY_NAME[name_of(msg)][1].slots:
        value = getattr(msg, slot)
        if slot in inner:
            value = tuple(
                m and (m.timestamp, m.header.type_, m.sig, content(m))
                for m in (value if isinstance(value, list) else [value]))
        else:
            value = strict(w.plain(value))
        result.append((slot, value))
    return tuple(result)


def nested(msg):
    """messages inside of a message"""
    result = []
    for slot in golden.BY_NAME[name_of(msg)][1].nested:
        value = getattr(msg, slot)
        for item in value if isinstance(value, list) else [value]:
            if item is not None:
                result += [item] + nested(item)
    return result


class Stop(Exception):
    pass


class Exchange:
    def __init__(self, ch, with_concent, full):
        self.ch = ch
        self.full = full
        self.changed = False  # by a deviation so far
        self.with_concent = with_concent
        self.now = START
        self.known = {R: {}, P: {}, C: {}}
        self.assignment = None
        self.signers = {}
        self.steps = []
        # how much the clocks are ahead
        self.skew = {
            party: self.dev('clock of ' + party, (0, -300, 300), (0, -300))
            for party in ((R, P, C) if with_concent else (R, P))}
        clock.set_time(self.now)

    def at(self, party):
        clock.set_time(self.now + self.skew[party])

    def dev(self, what, values, of_quick):
        value = self.ch.dev(what, values if self.full else of_quick)
        if value != values[0]:
            self.changed = True
        return value

    def make(self, name, sender, **fields):
        self.at(sender)
        kwargs = w.FIELDS[name]()
        kwargs.update(fields)
        return w.cls(name)(**kwargs)

    def get(self, party, name):
        return self.known[party][name]

    def has(self, party, name):
        return name in self.known[party]

    def keep(self, party, msg, how):
        if how == 'bytes':
            msg = shortcuts.load(
                shortcuts.dump(msg, None, None), None, None, False)
        elif how == 'pickle':
            msg = pickle.loads(pickle.dumps(msg, 2))
        elif how == 'deepcopy':
            msg = copy.deepcopy(msg)
        elif how == 'encrypted bytes':
            key = KEY[party]
            msg = shortcuts.load(
                shortcuts.dump(msg, None, key.pub), key.priv, None, False)
        self.known[party][name_of(msg)] = msg

    def send(self, msg, sender, *receivers):
        ch = self.ch
        name = name_of(msg)
        key = KEY[sender]
        step = '{} {}'.format(len(self.steps), name)
        self.steps.append(step)
        modes = ('encrypted', 'plain', 'queued')
        mode = self.dev('mode of ' + step, modes, modes)
        if mode == 'queued':
            msg = utils.copy_and_sign(msg, key.priv)
        got = None
        sent = self.now
        for receiver in receivers:
            data = shortcuts.dump(
                msg, None if msg.sig else key.priv,
                None if mode == 'plain' else KEY[receiver].pub)
            ch.step()
            self.signers[msg.sig] = key
            # the receiver's clock when it arrives, to the limits
            delays = (1, 0, 600, 59)
            delay = self.dev('delay of ' + step, delays, delays[:3])
            # the limits are for both together
            ahead = self.skew[receiver] - self.skew[sender]
            delay = max(min(delay, 600 - ahead), -300 - ahead)
            self.now = max(self.now, sent + delay)
            clock.set_time(sent + delay + self.skew[receiver])
            got = shortcuts.load(data, KEY[receiver].priv, key.pub)
            ch.step()
            self.received(msg, got, name)
            if self.full or not self.changed or mode != modes[0]:
                self.others(data, receiver, key, mode, name)
            if not self.full and (mode != modes[0] or delay != delays[0]):
                raise Stop  # what follows is explored by 'kept' and 'pause'
            kept = ('object', 'pickle', 'bytes', 'encrypted bytes',
                    'deepcopy')
            self.keep(receiver, got,
                      self.dev('kept ' + step, kept, kept[:2]))
        self.keep(sender, msg, 'object')
        pauses = (5, 3 * YEAR, 0, 3600)
        self.now += self.dev('pause after ' + step, pauses, pauses[:2])
        return got

    def received(self, msg, got, name):
        ch = self.ch
        ch.check(type(got) is type(msg), name + ':type')
        ch.equal(got.timestamp, msg.timestamp, name + ':timestamp')
        ch.equal(content(got), content(msg), name + ':content')
        ch.check(got == msg or any(m.encrypted != n.encrypted for m, n in zip(
            nested(got), nested(msg))), name + ':not equal')
        for inner in nested(got):
            signer = self.signers.get(inner.sig)
            ch.check(signer is not None, name + ':unknown signature inside',
                     name_of(inner))
            ch.check(inner.verify_signature(signer.pub),
                     name + ':signature inside', name_of(inner))
            ch.step()
        if isinstance(got, concents.ForcePayment):
            for item in got.subtask_results_accepted_list:
                self.owned(item, name)
        if isinstance(got, tasks.TaskMessage):
            self.owned(got, name)
            ch.check(got.is_valid(), name + ':not valid')
            ch.step()
        if isinstance(got, tasks.SubtaskResultsRejected) \
                and self.signers[got.sig] is w.REQUESTOR:
            ch.check(got.is_valid_for_requestor(), name + ':requestor')
        if isinstance(got, concents.SubtaskResultsVerify):
            ch.check(got.verify_concent_promissory_note(w.DEPOSIT),
                     name + ':note')

    def owned(self, got, name):
        ch = self.ch
        ch.check(got.verify_owners(
            provider_public_key=w.PROVIDER.pub,
            requestor_public_key=w.REQUESTOR.pub,
            concent_public_key=w.CONCENT.pub), name + ':owners')
        ch.step(2)
        for kwargs in (
                dict(provider_public_key=w.OTHER.pub),
                dict(requestor_public_key=w.PROVIDER.pub)):
            try:
                got.verify_owners(concent_public_key=w.CONCENT.pub, **kwargs)
            except exceptions.OwnershipMismatch:
                continue
            ch.fail(name + ':owned by another', str(list(kwargs)))
        ttc = got.task_to_compute
        if self.assignment is None:
            self.assignment = got
        if ttc.subtask_id != w.SUBTASK_ID:
            return  # the other subtask
        ch.equal(content(ttc), content(self.assignment),
                 name + ':assignment')
        ch.equal((got.task_id, got.subtask_id, got.requestor_id,
                  got.provider_id),
                 (w.TASK_ID, w.SUBTASK_ID, w.REQUESTOR.hex, w.PROVIDER.hex),
                 name + ':ids')
        ch.check(ttc.verify_ethsig(), name + ':ethsig')
        ch.check(ttc.verify_all_promissory_notes(w.DEPOSIT),
                 name + ':notes of the assignment')
        ch.step(2)

    def others(self, data, receiver, key, mode, name):
        """nobody else gets hold of it, or is taken for its sender"""
        ch = self.ch
        for other in (w.OTHER, ):
            ch.step()
            try:
                shortcuts.load(data, KEY[receiver].priv, other.pub)
            except exceptions.MessageError:
                pass
            else:
                ch.fail(name + ':from another sender')
            if mode == 'plain':
                continue
            ch.step()
            try:
                shortcuts.load(data, other.priv, key.pub)
            except exceptions.MessageError:
                continue
            ch.fail(name + ':read by another')


# Steps: what comes next is among the values

def offer(x):
    header = w.task_header(
        concent_enabled=x.with_concent, timestamp=START - 5)
    x.send(x.make('tasks.WantToComputeTask', P, task_header=header,
                  concent_enabled=x.with_concent), P, R)
    return (assign, cannot_assign)


def cannot_assign(x):
    x.send(x.make(
        'tasks.CannotAssignTask', R,
        reason=tasks.CannotAssignTask.REASON.NoMoreSubtasks), R, P)
    return ()


def assign(x):
    ttc = x.make('tasks.TaskToCompute', R,
                 concent_enabled=x.with_concent,
                 want_to_compute_task=x.get(R, 'tasks.WantToComputeTask'))
    ttc.generate_ethsig(w.ETH.priv)
    ttc.sign_all_promissory_notes(w.DEPOSIT, w.ETH.priv)
    x.send(ttc, R, P)
    return (report, cannot_compute, failure)


def cannot_compute(x):
    x.send(x.make(
        'tasks.CannotComputeTask', P,
        task_to_compute=x.get(P, 'tasks.TaskToCompute')), P, R)
    return ()


def failure(x):
    x.send(x.make(
        'tasks.TaskFailure', P,
        task_to_compute=x.get(P, 'tasks.TaskToCompute')), P, R)
    return ()


def report(x):
    fields = {}
    if not x.with_concent:
        fields['stats'] = dt_stats.ProviderStats()
    x.send(x.make(
        'tasks.ReportComputedTask', P,
        task_to_compute=x.get(P, 'tasks.TaskToCompute'), **fields), P, R)
    steps = [acknowledge, reject_report]
    if x.with_concent:
        steps += [force_report, force_get_result]
    return steps


def acknowledge(x, to=P):
    x.send(x.make(
        'tasks.AckReportComputedTask', R,
        report_computed_task=x.get(R, 'tasks.ReportComputedTask')), R, to)
    if to == C:
        return (force_report_response, )
    steps = [accept, reject]
    if x.with_concent:
        steps += [force_results, force_get_result]
    return steps


def reject_report(x, to=P):
    reasons = tasks.RejectReportComputedTask.REASON
    fields = {'attached_task_to_compute': None, 'task_failure': None,
              'cannot_compute_task': None}
    reason = x.ch.pick('rejected for', list(reasons))
    ttc = x.get(R, 'tasks.TaskToCompute')
    if reason == reasons.SubtaskTimeLimitExceeded:
        fields['attached_task_to_compute'] = ttc
    elif reason == reasons.GotMessageTaskFailure:
        # it was sent before the report
        x.send(x.make('tasks.TaskFailure', P, task_to_compute=x.get(
            P, 'tasks.TaskToCompute')), P, R)
        fields['task_failure'] = x.get(R, 'tasks.TaskFailure')
    else:
        x.send(x.make('tasks.CannotComputeTask', P, task_to_compute=x.get(
            P, 'tasks.TaskToCompute')), P, R)
        fields['cannot_compute_task'] = x.get(R, 'tasks.CannotComputeTask')
    x.send(x.make('tasks.RejectReportComputedTask', R, reason=reason,
                  **fields), R, to)
    return (force_report_response, ) if to == C else ()


def refuse(x):
    x.send(x.make(
        'concents.ServiceRefused', C,
        task_to_compute=x.get(C, 'concents.ForceReportComputedTask')
        .task_to_compute), C, P)
    return ()


def force_report(x):
    rct = x.get(P, 'tasks.ReportComputedTask')
    x.send(x.make('concents.ForceReportComputedTask', P,
                  report_computed_task=rct), P, C)
    return (ask_requestor, refuse, force_report_timeout)


def force_report_timeout(x):
    reject_ = sign(x, C, x.make(
        'tasks.RejectReportComputedTask', C, task_failure=None,
        cannot_compute_task=None,
        reason=tasks.RejectReportComputedTask.REASON
        .SubtaskTimeLimitExceeded,
        attached_task_to_compute=x.get(
            C, 'concents.ForceReportComputedTask').task_to_compute))
    x.send(x.make(
        'concents.ForceReportComputedTaskResponse', C,
        ack_report_computed_task=None, reject_report_computed_task=reject_,
        reason=concents.ForceReportComputedTaskResponse.REASON
        .SubtaskTimeout), C, P)
    return ()


def sign(x, party, msg):
    msg.sign_message(KEY[party].priv)
    x.signers[msg.sig] = KEY[party]
    return msg


def ask_requestor(x):
    rct = x.get(C, 'concents.ForceReportComputedTask').report_computed_task
    x.send(x.make('concents.ForceReportComputedTask', C,
                  report_computed_task=rct), C, R)
    got = x.get(R, 'concents.ForceReportComputedTask')
    x.known[R]['tasks.ReportComputedTask'] = got.report_computed_task
    return (
        lambda x: acknowledge(x, C), lambda x: reject_report(x, C),
        force_report_response)


def force_report_response(x):
    reasons = concents.ForceReportComputedTaskResponse.REASON
    ack = reject_ = None
    if x.has(C, 'tasks.AckReportComputedTask'):
        ack = x.get(C, 'tasks.AckReportComputedTask')
        reason = reasons.AckFromRequestor
    elif x.has(C, 'tasks.RejectReportComputedTask'):
        reject_ = x.get(C, 'tasks.RejectReportComputedTask')
        reason = reasons.RejectFromRequestor
    else:
        ack = sign(x, C, x.make(
            'tasks.AckReportComputedTask', C, report_computed_task=x.get(
                C, 'concents.ForceReportComputedTask').report_computed_task))
        reason = reasons.ConcentAck
    got = x.send(x.make(
        'concents.ForceReportComputedTaskResponse', C, reason=reason,
        ack_report_computed_task=ack, reject_report_computed_task=reject_),
                 C, P)
    if not ack:
        return ()
    x.known[P]['tasks.AckReportComputedTask'] = got.ack_report_computed_task
    x.known[R]['tasks.ReportComputedTask'] = x.get(
        R, 'concents.ForceReportComputedTask').report_computed_task
    if reason == reasons.ConcentAck:
        return (verdict, force_results)
    return (force_results, accept, reject)


def verdict(x):
    x.send(x.make(
        'concents.VerdictReportComputedTask', C,
        force_report_computed_task=x.get(
            C, 'concents.ForceReportComputedTask'),
        ack_report_computed_task=x.get(
            C, 'concents.ForceReportComputedTaskResponse')
        .ack_report_computed_task), C, R)
    return (force_get_result, accept)


def force_get_result(x):
    x.send(x.make('concents.ForceGetTaskResult', R,
                  report_computed_task=x.get(
                      R, 'tasks.ReportComputedTask')), R, C)
    request = x.get(C, 'concents.ForceGetTaskResult')
    answer = x.ch.pick('answer', ('rejected', 'go on'))
    if answer == 'rejected':
        x.send(x.make('concents.ForceGetTaskResultRejected', C,
                      force_get_task_result=request), C, R)
        return ()
    x.send(x.make('concents.AckForceGetTaskResult', C,
                  force_get_task_result=request), C, R)
    x.send(x.make('concents.ForceGetTaskResultUpload', C,
                  force_get_task_result=request,
                  file_transfer_token=token(x, P)), C, P)
    return (download, no_result)


def token(x, client):
    operation = concents.FileTransferToken.Operation
    return sign(x, C, x.make(
        'concents.FileTransferToken', C,
        authorized_client_public_key=KEY[client].pub,
        token_expiration_deadline=x.now + 1800,
        operation=operation.upload if client == P else operation.download))


def download(x):
    got = x.send(x.make(
        'concents.ForceGetTaskResultDownload', C,
        force_get_task_result=x.get(C, 'concents.ForceGetTaskResult'),
        file_transfer_token=token(x, R)), C, R)
    x.ch.check(got.file_transfer_token.is_download
               and not got.file_transfer_token.is_upload, 'token')
    return (accept, reject)


def no_result(x):
    x.send(x.make(
        'concents.ForceGetTaskResultFailed', C,
        task_to_compute=x.get(
            C, 'concents.ForceGetTaskResult').task_to_compute), C, R)
    return (reject, )


def accept(x, to=P):
    late = x.ch.dev('paid', (0, 899, 900))
    x.send(x.make(
        'tasks.SubtaskResultsAccepted', R,
        payment_ts=int(x.now + x.skew[R]) - late,
        report_computed_task=x.get(R, 'tasks.ReportComputedTask')), R, to)
    if to == C:
        return (results_response, )
    return (pay, force_payment) if x.with_concent else (pay, )


def reject(x, to=P):
    reasons = tasks.SubtaskResultsRejected.REASON
    failed = x.known[R].get('concents.ForceGetTaskResultFailed')
    if failed is not None:
        reason = reasons.ForcedResourcesFailure
    elif x.with_concent:
        reason = reasons.VerificationNegative
    else:
        reason = x.ch.pick('reason', (
            reasons.VerificationNegative, reasons.ResourcesFailure))
    x.send(x.make(
        'tasks.SubtaskResultsRejected', R, reason=reason,
        force_get_task_result_failed=failed,
        report_computed_task=x.get(R, 'tasks.ReportComputedTask')), R, to)
    if to == C:
        return (results_response, )
    return (verify, ) if x.with_concent and failed is None else ()


def pay(x):
    x.send(x.make('tasks.SubtaskPaymentRequest', P), P, R)
    x.send(x.make('tasks.SubtaskPayment', R), R, P)
    return ()


def force_results(x):
    ack = x.get(P, 'tasks.AckReportComputedTask')
    x.send(x.make('concents.ForceSubtaskResults', P,
                  ack_report_computed_task=ack), P, C)
    return (results_rejected, ask_results)


def results_rejected(x):
    x.send(x.make(
        'concents.ForceSubtaskResultsRejected', C,
        force_subtask_results=x.get(C, 'concents.ForceSubtaskResults')),
           C, P)
    return ()


def ask_results(x):
    x.send(x.make(
        'concents.ForceSubtaskResults', C, ack_report_computed_task=x.get(
            C, 'concents.ForceSubtaskResults').ack_report_computed_task),
           C, R)
    return (lambda x: accept(x, C), lambda x: reject(x, C), settle)


def results_response(x):
    accepted = x.known[C].get('tasks.SubtaskResultsAccepted')
    rejected = x.known[C].get('tasks.SubtaskResultsRejected')
    got = x.send(x.make(
        'concents.ForceSubtaskResultsResponse', C,
        subtask_results_accepted=accepted,
        subtask_results_rejected=rejected), C, P)
    if accepted is not None:
        x.known[P]['tasks.SubtaskResultsAccepted'] = \
            got.subtask_results_accepted
        return (force_payment, )
    x.known[P]['tasks.SubtaskResultsRejected'] = got.subtask_results_rejected
    return (verify, )


def settle(x):
    origins = concents.SubtaskResultsSettled.Origin
    verified = x.has(C, 'concents.SubtaskResultsVerify')
    source = x.get(
        C, 'concents.SubtaskResultsVerify' if verified
        else 'concents.ForceSubtaskResults')
    x.send(x.make(
        'concents.SubtaskResultsSettled', C,
        task_to_compute=source.task_to_compute,
        origin=origins.ResultsRejected if verified
        else origins.ResultsAcceptedTimeout), C, P, R)
    return ()


def verify(x):
    msg = x.make('concents.SubtaskResultsVerify', P,
                 subtask_results_rejected=x.get(
                     P, 'tasks.SubtaskResultsRejected'))
    msg.sign_concent_promissory_note(w.DEPOSIT, w.PROVIDER_ETH.priv)
    x.send(msg, P, C)
    got = x.send(x.make(
        'concents.AckSubtaskResultsVerify', C,
        subtask_results_verify=x.get(C, 'concents.SubtaskResultsVerify'),
        file_transfer_token=token(x, P)), C, P)
    x.ch.check(got.file_transfer_token.is_upload, 'token')
    return (settle, verified_negative)


def verified_negative(x):
    rct = x.get(C, 'concents.SubtaskResultsVerify') \
        .subtask_results_rejected.report_computed_task
    reasons = tasks.SubtaskResultsRejected.REASON
    x.send(x.make(
        'tasks.SubtaskResultsRejected', C, report_computed_task=rct,
        force_get_task_result_failed=None,
        reason=x.ch.pick('concent says', (
            reasons.ConcentVerificationNegative,
            reasons.ConcentResourcesFailure))), C, P)
    return ()


def force_payment(x):
    items = [x.get(P, 'tasks.SubtaskResultsAccepted')]
    if x.ch.pick('subtasks', (1, 2)) == 2:
        second = w.make_id(0x21)
        rct = w.build('tasks.ReportComputedTask', signed=False)
        ttc = rct.task_to_compute
        ttc.sign_all_promissory_notes(w.DEPOSIT, w.ETH.priv)
        ttc.compute_task_def['subtask_id'] = second
        sra = w.build('tasks.SubtaskResultsAccepted', signed=False,
                      report_computed_task=rct)
        for msg, party in ((ttc, R), (rct, P), (sra, R)):
            sign(x, party, msg)
        x.signers[ttc.want_to_compute_task.sig] = w.PROVIDER
        items.append(sra)
    x.send(x.make('concents.ForcePayment', P,
                  subtask_results_accepted_list=items), P, C)
    return (payment_rejected, payment_committed)


def payment_rejected(x):
    x.send(x.make('concents.ForcePaymentRejected', C,
                  force_payment=x.get(C, 'concents.ForcePayment')), C, P)
    return ()


def payment_committed(x):
    x.send(x.make('concents.ForcePaymentCommitted', C), C, P, R)
    return ()


def exchange(full):
    def run(ch):
        x = Exchange(ch, ch.pick('Concent', (True, False)), full)
        step = offer
        try:
            while True:
                options = step(x)
                if not options:
                    break
                step = options[ch.pick('next', range(len(options)))]
        except Stop:
            pass
        ch.see(tuple(x.steps))
    return run


def scenarios(tier):
    return [engine.Scenario(
        'exchanges', exchange(tier != 'quick'), bound=1)]
