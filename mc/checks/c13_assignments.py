"""C13: task assignments are accepted only with proven identity"""
import copy

from golem_messages import exceptions
from golem_messages import shortcuts

from mc import bulk
from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'an assignment which arrives by itself; a nested one is not asked for '
    'its proofs',
]
NAME = 'tasks.TaskToCompute'
OFFER = 'tasks.WantToComputeTask'


def good(*values):
    return [(v, True) for v in values]


def bad(*values):
    return [(v, False) for v in values]


def near_id(bit):
    """an id of a node which differs in one bit"""
    seed = bytearray(w.REQUESTOR.pub)
    seed[bit // 8] ^= 0x80 >> bit % 8
    return w.make_id(0x10, bytes(seed))


def ids(bits):
    return good(None, w.make_id(0x77), w.make_id(0x78).upper()) + bad(
        w.make_id(0x10, w.OTHER.pub), w.make_id(0x10, w.PROVIDER.pub),
        w.make_id(0x10, w.ETH.pub),
        '', 'x', w.TASK_ID[:-1], w.TASK_ID + '0', w.TASK_ID.replace('-', 'z'),
        w.make_id(0x10, w.REQUESTOR.pub[1:]),
        w.make_id(0x10, b'\0' + w.REQUESTOR.pub),
        *[near_id(bit) for bit in bits])


def numbers(none_ok=False):
    return good(None, 0, 1, -1, 2 ** 63, 2 ** 255) + bad(
        'None', True, False, 1.0, 1.5, '1', '', b'1', [1], [], {}, {'a': 1})


def dimensions(tier):
    every = range(48)
    few = (0, 1, 7, 8, 23, 40, 47)
    bits = every if tier != 'quick' else few
    same_node = w.REQUESTOR.pub[:6] + w.OTHER.pub[6:]
    return [
        ('price', numbers()),
        ('size', numbers()),
        ('task_id', ids(bits)),
        ('subtask_id', ids(bits)),
        ('requestor_id', good(
            None, w.REQUESTOR.hex.upper(), same_node.hex(),
            w.REQUESTOR.hex[:12]) + bad(
                w.OTHER.hex, w.PROVIDER.hex, w.ETH.hex, '', 'zz', 'None',
                w.REQUESTOR.hex[:-1], w.REQUESTOR.hex[2:], 5,
                '0x' + w.REQUESTOR.hex)),
        ('ethereum key', good(None) + bad(
            w.REQUESTOR.hex, w.OTHER.hex, w.PROVIDER_ETH.hex, '', 'None',
            w.ETH.hex[:-2], w.ETH.hex + '00', 'xyz', 5)),
        ('ethsig', good(
            None) + bad(
                'of requestor', 'of provider', 'of another', 'none',
                'zeros', 'short', 'long', 'text', 'empty', 'of outer',
                'of older offer', 'of other kind', 'outer signature',
                'offer signature', 'int')),
        ('offer', good(None, 'unsigned', 'signed by other') + bad(
            'altered price', 'altered header', 'altered subtasks',
            'altered timestamp')),
        ('requestor_public_key', good(None, w.OTHER.hex)),
        ('provider_id', good(None, 'x')),
        ('concent_enabled', good(None, False)),
    ]


def offer_digest(wire_offer):
    header, _, slots = wire_offer
    return ref.digest(header[0], header[1], ref.cbor(slots))


def signed(how, key, wire_offer, older, outer):
    if how is None:
        return ref.sign(key.priv, offer_digest(wire_offer))
    whole = ref.sign(w.ETH.priv, offer_digest(wire_offer))
    others = {
        'of requestor': w.REQUESTOR, 'of provider': w.PROVIDER,
        'of another': w.OTHER}
    if how in others:
        return ref.sign(others[how].priv, offer_digest(wire_offer))
    return {
        'none': lambda: None,
        'zeros': lambda: b'\0' * 65,
        'short': lambda: whole[:-1],
        'long': lambda: whole + b'\0',
        'text': whole.hex,
        'empty': lambda: b'',
        'int': lambda: 5,
        'of outer': lambda: ref.sign(w.ETH.priv, outer),
        'of older offer': lambda: ref.sign(w.ETH.priv, offer_digest(older)),
        'of other kind': lambda: ref.sign(w.ETH.priv, ref.digest(
            golden.BY_NAME[NAME][0], wire_offer[0][1],
            ref.cbor(wire_offer[2]))),
        'outer signature': lambda: ref.sign(w.REQUESTOR.priv, outer),
        'offer signature': lambda: wire_offer[1],
    }[how]()


def assemble(picks, flip=None):
    over = {}
    if picks['offer'] == 'unsigned':
        over['want_to_compute_task'] = w.build(OFFER, signed=False)
    elif picks['offer'] == 'signed by other':
        over['want_to_compute_task'] = w.build(OFFER, sign_with=w.OTHER)
    msg = w.build(NAME, signed=False, **over)
    slots = dict(w.slots_spec(NAME, msg))
    for field in ('price', 'size', 'requestor_id', 'requestor_public_key',
                  'provider_id', 'concent_enabled'):
        if picks[field] is not None:
            slots[field] = None if picks[field] == 'None' else picks[field]
    ctd = dict(slots['compute_task_def'])
    for field in ('task_id', 'subtask_id'):
        if picks[field] is not None:
            ctd[field] = picks[field]
    slots['compute_task_def'] = ctd
    if picks['ethereum key'] is not None:
        slots['requestor_ethereum_public_key'] = \
            None if picks['ethereum key'] == 'None' else picks['ethereum key']
    wire_offer = slots['want_to_compute_task'][1]
    older = copy.deepcopy(wire_offer)
    older[0][1] -= 1
    outer = ref.digest(*[golden.BY_NAME[NAME][0], w.TS, ref.cbor(
        [list(i) for i in slots.items()])])
    sig = signed(picks['ethsig'], w.ETH, wire_offer, older, outer)
    if flip is not None:
        raw = bytearray(sig)
        raw[flip // 8] ^= 1 << flip % 8
        sig = bytes(raw)
    slots['ethsig'] = sig
    # alterations after the Ethereum signature
    content = dict(wire_offer[2])
    alteration = picks['offer']
    if alteration == 'altered price':
        content['price'] += 1
    elif alteration == 'altered header':
        content['task_header'] = w.signed_header_dict(subtasks_count=11)
    elif alteration == 'altered subtasks':
        content['num_subtasks'] += 1
    if alteration == 'altered timestamp':
        wire_offer[0][1] += 1
    wire_offer[2] = [list(i) for i in content.items()]
    return [list(i) for i in slots.items()]


def load(ch, slots, mode):
    type_ = golden.BY_NAME[NAME][0]
    sig = None
    key = None
    if mode != 'unsigned':
        sig = ref.sign(w.REQUESTOR.priv, ref.digest(
            type_, w.TS, ref.cbor(slots)))
        key = w.REQUESTOR.pub
    data = ref.wire(
        type_, w.TS, slots, mode == 'encrypted', sig, None,
        lambda p: ref.ecies_encrypt(
            p, w.PROVIDER.pub, w.ETH.priv, b'\1' * 16))
    ch.step()
    try:
        return shortcuts.load(data, w.PROVIDER.priv, key, False)
    except exceptions.MessageError as e:
        return e


def judge(ch, result, valid, key):
    if valid:
        ch.check(not isinstance(result, Exception), 'refused: ' + key,
                 engine.short(result))
    else:
        ch.check(isinstance(result, exceptions.MessageError),
                 'accepted: ' + key, engine.short(result))


def products(tier):
    dims = dimensions(tier)

    def scenario(ch):
        mode = ch.pick('mode', ('signed', 'unsigned', 'encrypted'))
        picks, valid, wrong = {}, True, []
        for name, options in dims:
            value, right = ch.dev(name, options)
            picks[name] = value
            valid = valid and right
            if not right:
                wrong.append(name)
        named = {w.REQUESTOR.hex: 'of requestor', w.OTHER.hex: 'of another'}
        if wrong == ['ethereum key', 'ethsig'] and \
                named.get(picks['ethereum key']) == picks['ethsig']:
            # two wrongs which make a right
            valid, wrong = True, []
        result = load(ch, assemble(picks), mode)
        judge(ch, result, valid, ' and '.join(wrong) or 'valid')
        if valid:
            ch.check(result.verify_ethsig() is True, 'verify_ethsig')
            ch.check(result.validate_taskid() is None, 'validate_taskid')
            if picks['ethereum key'] is None:
                ch.equal(result.requestor_ethereum_address, w.ETH.address,
                         'address')
        ch.see(valid, wrong)
    return scenario


def owners(ch):
    """whose ids and accounts they are, in all combinations"""
    keys = (w.REQUESTOR, w.OTHER, w.PROVIDER)
    requestor = ch.pick('requestor_id', keys)
    task = ch.pick('task_id of', keys)
    subtask = ch.pick('subtask_id of', keys)
    account = ch.pick('account', keys)
    signer = ch.pick('ethsig', ('of requestor', 'of another', 'of provider'))
    picks = {name: None for name, _ in dimensions('quick')}
    picks.update({
        'requestor_id': requestor.hex,
        'task_id': w.make_id(0x30, task.pub),
        'subtask_id': w.make_id(0x31, subtask.pub),
        'ethereum key': account.hex,
        'ethsig': signer,
    })
    valid = task is requestor and subtask is requestor and \
        account is keys[
            ('of requestor', 'of another', 'of provider').index(signer)]
    result = load(ch, assemble(picks), 'signed')
    judge(ch, result, valid, 'owners')
    if valid:
        ch.equal(result.requestor_ethereum_address, account.address, 'address')
        ch.equal(result.requestor_id, requestor.hex, 'requestor')
    ch.see(valid, requestor, task, subtask, account, signer)


def bits(ch):
    """every bit of the Ethereum signature"""
    flip = ch.pick('bit', range(65 * 8))
    picks = {name: None for name, _ in dimensions('quick')}
    result = load(ch, assemble(picks, flip), 'signed')
    judge(ch, result, False, 'bit of ethsig')
    ch.see(flip)


def direct(ch):
    """what the sender calls"""
    key = ch.pick('key', (w.ETH, ) + w.KEYS)
    named = ch.pick('named', (w.ETH, ) + w.KEYS + (None, ''))
    msg = w.build(NAME, signed=False)
    msg.requestor_ethereum_public_key = getattr(named, 'hex', named)
    msg.ethsig = None
    ch.step(2)
    try:
        msg.generate_ethsig(key.priv)
    except exceptions.FieldError:
        ch.check(not named, 'generate_ethsig refuses')
        ch.check(msg.ethsig is None, 'generate_ethsig: changes')
        return
    ch.check(bool(named), 'generate_ethsig without key')
    digest = offer_digest(w.plain(msg.want_to_compute_task))
    ch.equal(ref.recover(msg.ethsig, digest), key.pub, 'generated ethsig')
    try:
        answer = msg.verify_ethsig()
    except exceptions.InvalidSignature as e:
        answer = e
    judge(ch, answer, key is named, 'verify_ethsig')
    # a prepared hash
    ch.equal(
        answer is True, key is named, 'verify_ethsig answer')
    ch.see(key, named)


def scenarios(tier):
    return [
        engine.Scenario('products', products(tier),
                        bound=1 if tier == 'quick' else 2),
        engine.Scenario('two deviations', products('quick'), bound=2),
        engine.Scenario('owners', owners),
        engine.Scenario('bits', bits),
        engine.Scenario('direct', direct),
        bulk.assignments(tier),
    ]
