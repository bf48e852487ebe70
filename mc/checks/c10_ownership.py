"""C10: chains of task messages are owned by who they claim"""
from golem_messages import exceptions
from golem_messages import shortcuts

from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a chain with a place for the Concent\'s signature is verified with the '
    'Concent\'s key',
    'a message without any task assignment is left out',
]
SIGNERS = (w.REQUESTOR, w.PROVIDER, w.CONCENT, w.OTHER)
# (requestor key, provider key) written in an assignment
ROLES = (
    (w.REQUESTOR, w.PROVIDER),
    (w.PROVIDER, w.REQUESTOR),
    (w.OTHER, w.PROVIDER),
    (w.REQUESTOR, w.OTHER),
    (w.REQUESTOR, w.REQUESTOR),
)


def name_of(msg):
    return '{}.{}'.format(
        type(msg).__module__.rsplit('.', 1)[1], type(msg).__name__)


def assignment(msg):
    """the assignment which a message is about"""
    name = name_of(msg)
    if name == 'tasks.TaskToCompute':
        return msg
    for slot in golden.BY_NAME[name][1].chain:
        child = getattr(msg, slot)
        if child is not None:
            return assignment(child)
    return None


def nodes(msg, path=''):
    """task messages of a tree, children first: [(path, message)...]"""
    result = []
    spec = golden.BY_NAME[name_of(msg)][1]
    for slot, (klass, _, _) in spec.nested.items():
        child = getattr(msg, slot)
        if child is not None and golden.BY_NAME[klass][1].task:
            result += nodes(child, path + '.' + slot)
    result.append((path or '.', msg))
    return result


def keys_of(ttc, table):
    return table[id(ttc)]


def prepare(ch, name, include, with_roles):
    """the tree and whether it is right"""
    spec = golden.BY_NAME[name][1]
    over = {}
    for slot in w.OMIT.get(name, ()):
        if slot in include:
            over[slot] = w.build(spec.nested[slot][0])
    msg = w.build(name, signed=False, **over)
    tree = nodes(msg)
    table = {}
    good = True
    # keys and headers of the assignments
    for path, node in tree:
        if name_of(node) != 'tasks.TaskToCompute':
            continue
        roles = ch.dev('roles in ' + path, ROLES) if with_roles else ROLES[0]
        requestor, provider = roles
        table[id(node)] = roles
        node.requestor_public_key = requestor.hex
        offer = node.want_to_compute_task
        offer.provider_public_key = provider.hex
        how = ch.dev('header in ' + path, [requestor] + [
            k for k in SIGNERS if k is not requestor] + ['none', 'altered'])
        good = good and how is requestor
        header = offer.task_header
        if how == 'none':
            header.signature = None
        elif how == 'altered':
            header.sign(requestor.priv)
            header.subtasks_count += 1
        else:
            header.sign(how.priv)
    # signatures, the innermost first
    for path, node in tree:
        owners = golden.BY_NAME[name_of(node)][1].owners
        requestor, provider = keys_of(assignment(node), table)
        allowed = {
            'requestor': requestor, 'provider': provider,
            'concent': w.CONCENT}
        allowed = [allowed[o] for o in owners]
        default = allowed[0]
        how = ch.dev('signature of ' + path, [default] + [
            k for k in SIGNERS if k is not default] + [
                'none', 'zeros', 'altered'])
        node.sig = None
        if isinstance(how, w.Key):
            node.sign_message(how.priv)
            good = good and how in allowed
            continue
        good = False
        if how == 'zeros':
            node.sig = b'\0' * golden.SIG_LEN
        elif how == 'altered':
            node.sign_message(default.priv)
            node.header = type(node.header)(
                node.header.type_, node.header.timestamp - 1, False)
    return msg, good, keys_of(assignment(msg), table)


def verify(msg, **kwargs):
    try:
        return msg.verify_owners(**kwargs)
    except exceptions.MessageError as e:
        return e
    except (TypeError, AttributeError) as e:
        return e


def chain(names, bound_roles, wire):
    def scenario(ch):
        name = ch.pick('class', names)
        omit = w.OMIT.get(name, ())
        include = [s for s in omit if ch.flag('with ' + s)]
        msg, good, (requestor, provider) = prepare(
            ch, name, include, bound_roles)
        if wire and ch.flag('over the wire'):
            # loading has rules of its own about semantics
            try:
                msg = shortcuts.load(
                    shortcuts.dump(msg, None, None), None, None, False)
            except exceptions.MessageError:
                return
            ch.step(2)
        expected_provider = ch.dev('expected provider', [None, provider] + [
            k for k in SIGNERS if k is not provider])
        expected_requestor = ch.dev('expected requestor', [
            None, requestor] + [k for k in SIGNERS if k is not requestor])
        concent = ch.dev('key of the concent', (w.CONCENT, w.OTHER))
        if concent is not w.CONCENT:
            # nobody there signs as another concent, except on purpose
            sigs = [
                (n, node.sig) for _, node in nodes(msg)
                for n in [name_of(node)]
                if 'concent' in golden.BY_NAME[n][1].owners]
            if sigs:
                return
        mismatch = (
            expected_provider not in (None, provider)
            or expected_requestor not in (None, requestor))
        kwargs = {'concent_public_key': concent.pub}
        if expected_provider:
            kwargs['provider_public_key'] = expected_provider.pub
        if expected_requestor:
            kwargs['requestor_public_key'] = expected_requestor.pub
        result = verify(msg, **kwargs)
        ch.step()
        text = 'verify_owners({}) answers {}'.format(
            ', '.join(kwargs), engine.short(result))
        if good and not mismatch:
            ch.check(result is True, name + ':good chain refused', text)
        else:
            ch.check(isinstance(result, exceptions.MessageError),
                     name + ':bad chain accepted', text)
            if mismatch and good:
                ch.check(isinstance(result, exceptions.OwnershipMismatch),
                         name + ':mismatch', text)
            elif not mismatch:
                ch.check(isinstance(result, exceptions.InvalidSignature),
                         name + ':error of a bad chain', text)
        ch.see(name, good, mismatch, type(result).__name__)
        # the chain alone
        try:
            result = msg.validate_ownership_chain(
                concent_public_key=concent.pub)
        except exceptions.InvalidSignature as e:
            result = e
        ch.step()
        ch.check((result is True) == good, name + ':chain',
                 'validate_ownership_chain answers {}'.format(
                     engine.short(result)))
    return scenario


def other_concent(ch):
    """the Concent's signature by somebody else's key"""
    name = ch.pick('class', [
        n for n in w.task_names()
        if 'concent' in golden.BY_NAME[n][1].owners])
    signer = ch.pick('signer', SIGNERS)
    concent = ch.pick('concent', SIGNERS)
    owners = golden.BY_NAME[name][1].owners
    # nested messages signed by the Concent are signed by `concent`
    msg = w.build(name, signed=False)
    for _, node in nodes(msg)[:-1]:
        if golden.BY_NAME[name_of(node)][1].owners[0] == 'concent':
            node.sig = None
            node.sign_message(concent.priv)
        elif node.sig is not None:
            key = w.signer(name_of(node))
            node.sig = None
            node.sign_message(key.priv)
    msg.sign_message(signer.priv)
    result = verify(msg, concent_public_key=concent.pub)
    ch.step()
    allowed = {'requestor': w.REQUESTOR, 'provider': w.PROVIDER,
               'concent': concent}
    good = signer in [allowed[o] for o in owners]
    if good:
        ch.check(result is True, name + ':refused', engine.short(result))
    else:
        ch.check(isinstance(result, exceptions.InvalidSignature),
                 name + ':accepted', engine.short(result))
    ch.see(name, signer, concent, good)


def scenarios(tier):
    names = w.task_names()
    short = ['tasks.TaskToCompute', 'tasks.ReportComputedTask',
             'tasks.TaskFailure', 'concents.ServiceRefused']
    assert len(names) > 20
    result = [
        engine.Scenario('other concent', other_concent),
        engine.Scenario('one deviation, wire', chain(names, True, True),
                        bound=1),
    ]
    if tier == 'quick':
        result += [
            engine.Scenario('two deviations', chain(names, False, False),
                            bound=2),
            engine.Scenario('short chains', chain(short, True, False),
                            bound=3),
        ]
    else:
        result += [
            engine.Scenario('two deviations', chain(names, True, True),
                            bound=2),
            engine.Scenario('short chains', chain(short, True, True),
                            bound=6),
        ]
    return result
