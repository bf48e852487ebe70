"""C12: semantic rules of task messages"""
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import tasks

from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the rules are those of a message loaded by itself; a nested message is '
    'not asked for them',
]
REASON = tasks.SubtaskResultsRejected.REASON
TOLERANCE = 15 * 60


def ask(ch, func):
    """True or the error"""
    ch.step()
    try:
        return func()
    except exceptions.ValidationError as e:
        return e


def judge(ch, answer, valid, key, text=''):
    if valid:
        ch.check(answer is True, key + ':valid refused',
                 text + ' ' + engine.short(answer))
    else:
        ch.check(isinstance(answer, exceptions.ValidationError),
                 key + ':invalid accepted', text + ' ' + engine.short(answer))


def load_mode(ch, msg, valid, key):
    """over the wire in every mode"""
    mode = ch.pick('mode', ('plain', 'signed', 'encrypted'))
    priv = w.REQUESTOR.priv if mode != 'plain' else None
    pub = w.PROVIDER.pub if mode == 'encrypted' else None
    data = shortcuts.dump(msg, priv, pub)
    sender = w.REQUESTOR.pub if mode != 'plain' else None
    ch.step(2)
    try:
        loaded = shortcuts.load(data, w.PROVIDER.priv, sender, False)
    except exceptions.ValidationError as e:
        ch.check(not valid, key + ':valid not loaded', engine.short(e))
        return None
    ch.check(valid, key + ':invalid loaded', engine.short(loaded, 60))
    return loaded


def acceptance(stamps, offsets):
    def scenario(ch):
        timestamp = ch.pick('timestamp', stamps)
        offset = ch.pick('payment_ts - timestamp', offsets)
        payment_ts = timestamp + offset
        valid = -TOLERANCE <= offset <= 0
        msg = w.build(
            'tasks.SubtaskResultsAccepted', signed=False,
            timestamp=timestamp, payment_ts=payment_ts)
        answer = ask(ch, msg.is_valid)
        judge(ch, answer, valid, 'acceptance', 'offset {}'.format(offset))
        loaded = load_mode(ch, msg, valid, 'acceptance')
        if loaded is not None:
            judge(ch, ask(ch, loaded.is_valid), True, 'acceptance again')
            ch.equal(loaded.payment_ts, payment_ts, 'payment_ts')
        ch.see(valid, offset)
    return scenario


def other_ctd(**over):
    return w.build('tasks.TaskToCompute', compute_task_def=tasks.
                   ComputeTaskDef(w.ctd_dict(**over)))


FGTRF = {
    None: lambda ttc: None,
    'same task': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=ttc),
    'same task, another assignment': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=w.build(
            'tasks.TaskToCompute', price=1, timestamp=w.TS - 9)),
    'another task': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=other_ctd(
            task_id=w.make_id(0x99))),
    'another subtask': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=other_ctd(
            subtask_id=w.make_id(0x99))),
    'another task and subtask': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=other_ctd(
            task_id=w.make_id(0x98), subtask_id=w.make_id(0x99))),
    'ids swapped': lambda ttc: w.build(
        'concents.ForceGetTaskResultFailed', task_to_compute=other_ctd(
            task_id=w.SUBTASK_ID, subtask_id=w.TASK_ID)),
}


def rejection(ch):
    reason = ch.pick('reason', [None] + sorted(REASON, key=lambda r: r.name))
    attached = ch.pick('attached', list(FGTRF))
    concent = ch.pick('concent', (False, True))
    ttc = w.build('tasks.TaskToCompute', concent_enabled=concent)
    rct = w.build('tasks.ReportComputedTask', task_to_compute=ttc)
    fgtrf = FGTRF[attached](ttc)
    msg = w.build(
        'tasks.SubtaskResultsRejected', signed=False, reason=reason,
        report_computed_task=rct, force_get_task_result_failed=fgtrf)
    valid = reason is not None and (
        attached in ('same task', 'same task, another assignment')
        or attached is None and reason.name != 'ForcedResourcesFailure')
    allowed = {'VerificationNegative', 'ForcedResourcesFailure'} \
        if concent else {'VerificationNegative', 'ResourcesFailure'}
    from_requestor = valid and reason.name in allowed
    key = 'rejection'
    judge(ch, ask(ch, msg.is_valid), valid, key)
    judge(ch, ask(ch, msg.is_valid_for_requestor), from_requestor,
          key + ' of requestor')
    loaded = load_mode(ch, msg, valid, key)
    if loaded is not None:
        judge(ch, ask(ch, loaded.is_valid), True, key + ' again')
        judge(ch, ask(ch, loaded.is_valid_for_requestor), from_requestor,
              key + ' of requestor, loaded')
    ch.see(reason, attached, concent, valid, from_requestor)


def verdict_variants():
    """name: (make other assignment, same?)"""
    ttc = 'tasks.TaskToCompute'
    variants = {
        'same object': None,
        'made again': lambda: w.build(ttc),
        'travelled': lambda: shortcuts.load(
            shortcuts.dump(w.build(ttc), None, w.OTHER.pub), w.OTHER.priv,
            None, False),
        'unsigned': lambda: w.build(ttc, signed=False),
        'other signer': lambda: w.build(ttc, sign_with=w.OTHER),
        'timestamp': lambda: w.build(ttc, timestamp=w.TS - 1),
        'task_id': lambda: other_ctd(task_id=w.make_id(0x99)),
        'subtask_id': lambda: other_ctd(subtask_id=w.make_id(0x99)),
        'deadline': lambda: other_ctd(deadline=w.TS + 3601),
        'offer timestamp': lambda: w.build(
            ttc, want_to_compute_task=w.build(
                'tasks.WantToComputeTask', timestamp=w.TS - 1)),
        'header': lambda: w.build(
            ttc, want_to_compute_task=w.build(
                'tasks.WantToComputeTask', task_header=w.task_header(
                    subtasks_count=11))),
    }
    for slot in golden.BY_NAME[ttc][1].slots:
        if slot in ('want_to_compute_task', 'compute_task_def'):
            continue
        base = getattr(w.build(ttc), slot)
        for value in (None, 'x', 7):
            if isinstance(base, bool):
                value = not base
            elif slot in ('price', 'size') and value != 7:
                continue
            variants['{} = {}'.format(slot, value)] = (
                lambda slot=slot, value=value: altered(slot, value))
    return variants


def altered(slot, value):
    msg = w.build('tasks.TaskToCompute', signed=False)
    setattr(msg, slot, value)
    msg.sign_message(w.REQUESTOR.priv)
    return msg


SAME = ('same object', 'made again', 'travelled')


def verdict(ch):
    variants = verdict_variants()
    name = ch.pick('branch', list(variants))
    side = ch.flag('swapped')
    first = w.build('tasks.TaskToCompute')
    make = variants[name]
    second = make() if make else first
    same = name in SAME or name in (
        'promissory_note_sig = None', 'concent_promissory_note_sig = None')
    if side:
        first, second = second, first

    def rct(ttc):
        return w.build('tasks.ReportComputedTask', task_to_compute=ttc)
    msg = w.build(
        'concents.VerdictReportComputedTask', signed=False,
        ack_report_computed_task=w.build(
            'tasks.AckReportComputedTask', report_computed_task=rct(first)),
        force_report_computed_task=w.build(
            'concents.ForceReportComputedTask',
            report_computed_task=rct(second)))
    judge(ch, ask(ch, msg.is_valid), same, 'verdict', name)
    loaded = load_mode(ch, msg, same, 'verdict')
    if loaded is not None:
        judge(ch, ask(ch, loaded.is_valid), True, 'verdict again')
    ch.see(name, side, same)


def rules_of_rejection(reason, attached, concent):
    valid = reason is not None and (
        attached in ('same task', 'same task, another assignment')
        or attached is None and reason.name != 'ForcedResourcesFailure')
    allowed = {'VerificationNegative', 'ForcedResourcesFailure'} \
        if concent else {'VerificationNegative', 'ResourcesFailure'}
    return valid, valid and reason.name in allowed


def changed_rejection(ch):
    """a rejection which is asked, changed and asked again"""
    ttc = w.build('tasks.TaskToCompute')
    msg = w.build(
        'tasks.SubtaskResultsRejected', signed=False,
        report_computed_task=w.build(
            'tasks.ReportComputedTask', task_to_compute=ttc))
    history = []
    for turn in range(3):
        reason = ch.pick('reason', (
            REASON.VerificationNegative, REASON.ForcedResourcesFailure,
            REASON.ResourcesFailure, None))
        attached = ch.pick('attached', (
            None, 'same task', 'another task', 'another subtask'))
        concent = ch.pick('concent', (True, False)) if turn < 2 else True
        msg.reason = reason
        msg.force_get_task_result_failed = FGTRF[attached](ttc)
        ttc.concent_enabled = concent
        history.append((reason and reason.name, attached, concent))
        valid, from_requestor = rules_of_rejection(reason, attached, concent)
        judge(ch, ask(ch, msg.is_valid), valid, 'changed rejection',
              repr(history))
        judge(ch, ask(ch, msg.is_valid_for_requestor), from_requestor,
              'changed rejection of requestor', repr(history))
        if turn == 1 and history[0] == history[1]:
            return
    ch.see(history)


def changed_acceptance(ch):
    msg = w.build('tasks.SubtaskResultsAccepted', signed=False)
    history = []
    for _ in range(3):
        history.append((
            ch.pick('payment', (-TOLERANCE - 1, -TOLERANCE, 0, 1)),
            ch.pick('timestamp', (w.TS, w.TS + TOLERANCE + 2))))
        offset, timestamp = history[-1]
        msg.header = w.header('tasks.SubtaskResultsAccepted', timestamp)
        msg.payment_ts = timestamp + offset
        judge(ch, ask(ch, msg.is_valid), -TOLERANCE <= offset <= 0,
              'changed acceptance', repr(history))
    ch.see(history)


def changed_verdict(ch):
    """the branches of a verdict get other assignments in turn"""
    msg = w.build('concents.VerdictReportComputedTask', signed=False)
    reports = [
        msg.ack_report_computed_task.report_computed_task,
        msg.force_report_computed_task.report_computed_task]
    makers = (
        lambda: w.build('tasks.TaskToCompute'),
        lambda: w.build('tasks.TaskToCompute', price=7),
        lambda: other_ctd(subtask_id=w.make_id(0x99)))
    history = [0, 0]
    for turn in range(4):
        branch = ch.pick('branch', (0, 1))
        content = ch.pick('assignment', range(3))
        reports[branch].task_to_compute = makers[content]()
        history[branch] = content
        judge(ch, ask(ch, msg.is_valid), history[0] == history[1],
              'changed verdict', '{} {}'.format(turn, history))
    ch.see(history)


def others(ch):
    """messages without rules are valid"""
    name = ch.pick('class', [
        n for n in w.task_names() if n not in (
            'tasks.SubtaskResultsAccepted', 'tasks.SubtaskResultsRejected',
            'concents.VerdictReportComputedTask')])
    msg = w.build(name)
    judge(ch, ask(ch, msg.is_valid), True, name)
    ch.see(name)


def scenarios(tier):
    edge = [-10 ** 9, -86400, -TOLERANCE * 2]
    width = 3 if tier == 'quick' else 120
    for limit in (-TOLERANCE, 0):
        edge += list(range(limit - width, limit + width + 1))
        edge += [limit - 0.5, limit + 0.5]
    edge += [-600, -300, 300, 600, 900, 86400, 10 ** 9]
    stamps = [w.TS, w.TS + 1, golden.MIN_TIMESTAMP + 10 ** 9]
    return [
        engine.Scenario('acceptance', acceptance(stamps, edge)),
        engine.Scenario('rejection', rejection),
        engine.Scenario('verdict', verdict),
        engine.Scenario('others', others),
        engine.Scenario('changed rejection', changed_rejection),
        engine.Scenario('changed acceptance', changed_acceptance),
        engine.Scenario('changed verdict', changed_verdict),
    ]
