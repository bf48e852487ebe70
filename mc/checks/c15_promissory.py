"""C15: promissory notes commit to all their terms"""
import uuid

from golem_messages import shortcuts
from golem_messages.datastructures import promissory
from golem_messages.message import tasks

from mc import bulk
from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'other spellings of a signature which recover the same account '
    '(malleability of ECDSA, EIP-155 values of v) are not judged',
    'malformed v, r or s: never valid, whether False or an error',
]
TERMS = ('contract_address', 'address_from', 'address_to', 'amount',
         'subtask_id')
BASE = {
    'contract_address': w.DEPOSIT,
    'address_from': w.ETH.address,
    'address_to': w.PROVIDER_ETH.address,
    'amount': 10 ** 17 + 255,
    'subtask_id': w.SUBTASK_ID,
}
AMOUNTS = [0, 1, 255, 256, 2 ** 64, 2 ** 128 - 1, 2 ** 255, 2 ** 256 - 1]


def blob(terms):
    """the signed data"""
    return b''.join([
        bytes.fromhex(terms['contract_address'][2:]),
        bytes.fromhex(terms['address_from'][2:]),
        bytes.fromhex(terms['address_to'][2:]),
        terms['amount'].to_bytes(32, 'big'),
        uuid.UUID(terms['subtask_id']).bytes + b'\0' * 16,
    ])


def note_hash(terms):
    return ref.eth_message_hash(blob(terms))


def valid(terms, sig):
    """the reference's verdict"""
    if not sig:
        return False
    account = ref.eth_recover(note_hash(terms), *sig)
    return account is not None and \
        account.lower() == terms['address_from'].lower()


def verdict(func):
    try:
        return func()
    except Exception as e:  # pylint: disable=broad-except
        return e


def spell(address, how):
    return {
        'checksum': address,
        'lower': address.lower(),
        'upper': '0x' + address[2:].upper(),
    }[how]


SPELLINGS = ('checksum', 'lower', 'upper')


def note_of(terms):
    return promissory.PromissoryNote(**terms)


def conforms(ch, note, terms):
    ch.step(3)
    ch.equal(note.hexmsg.lower(), '0x' + blob(terms).hex(), 'hexmsg')
    ch.equal(bytes(note.hash), note_hash(terms), 'hash')
    ch.equal(note.subtask_id_bytes,
             uuid.UUID(terms['subtask_id']).bytes + b'\0' * 16,
             'subtask_id_bytes')


def signing(ch):
    """any signer, for any payer, in any spelling"""
    key = ch.pick('signer', (w.ETH, w.PROVIDER_ETH, w.OTHER))
    payer = ch.pick('payer', (w.ETH, w.PROVIDER_ETH, w.OTHER))
    how = ch.pick('spelling', SPELLINGS)
    terms = dict(BASE, address_from=spell(payer.address, how))
    for term in ('contract_address', 'address_to'):
        terms[term] = spell(terms[term], ch.dev(term, SPELLINGS))
    terms['amount'] = ch.dev('amount', [BASE['amount']] + AMOUNTS)
    terms['subtask_id'] = ch.dev('subtask', (
        w.SUBTASK_ID, w.SUBTASK_ID.upper(), str(uuid.UUID(int=0)),
        str(uuid.UUID(int=2 ** 128 - 1))))
    note = note_of(terms)
    conforms(ch, note, terms)
    sig = note.sign(key.priv)
    ch.step(2)
    ch.check(isinstance(sig, promissory.PromissoryNoteSig)
             and isinstance(sig.v, int) and isinstance(sig.r, bytes)
             and isinstance(sig.s, bytes)
             and (len(sig.r), len(sig.s)) == (32, 32), 'form', repr(sig))
    account = ref.eth_recover(note_hash(terms), *sig)
    ch.equal(account, key.address, 'recovered account')
    for given in (sig, list(sig), tuple(sig)):
        ch.equal(verdict(lambda g=given: note.sig_valid(g)), key is payer,
                 'sig_valid')
    ch.see(key, payer, how, terms['amount'], terms['subtask_id'])


def alterations(term, deep):
    """other values of a term"""
    value = BASE[term]
    bits = (0, 7) if not deep else range(8)
    result = []
    if term.startswith('address') or term == 'contract_address':
        raw = bytes.fromhex(value[2:])
        for i in range(20):
            for bit in bits:
                changed = bytearray(raw)
                changed[i] ^= 1 << bit
                result.append(ref.checksum_address(bytes(changed)))
        result.append('0x' + '0' * 40)
        result += [k.address for k in (w.OTHER, w.PROVIDER)]
    elif term == 'amount':
        result += [value ^ (1 << i) for i in range(0, 256, 1 if deep else 4)]
        result += [a for a in AMOUNTS if a != value]
        result += [value + 1, value - 1]
    else:
        number = uuid.UUID(value).int
        result += [str(uuid.UUID(int=number ^ (1 << i)))
                   for i in range(0, 128, 1 if deep else 3)]
        result += [w.TASK_ID, str(uuid.UUID(int=0))]
    return result


def altered(deep):
    """every single difference of every term"""
    def scenario(ch):
        term = ch.pick('term', TERMS)
        value = ch.pick('value', alterations(term, deep))
        terms = dict(BASE)
        sig = note_of(terms).sign(w.ETH.priv)
        terms[term] = value
        note = note_of(terms)
        conforms(ch, note, terms)
        ch.check(note_hash(terms) != note_hash(BASE), 'oracle')
        answer = verdict(lambda: note.sig_valid(sig))
        ch.step()
        ch.check(answer is False, term + ':altered',
                 '{} answers {}'.format(value, engine.short(answer)))
        # and the altered one may be signed just as well
        if term != 'address_from':
            again = note.sign(w.ETH.priv)
            ch.step(2)
            ch.equal(verdict(lambda: note.sig_valid(again)), True, 'again')
            ch.equal(verdict(lambda: note_of(BASE).sig_valid(again)), False,
                     'back')
        ch.see(term, value)
    return scenario


def swapped(ch):
    """terms in each other's places"""
    first = ch.pick('first', TERMS[:3])
    second = ch.pick('second', TERMS[:3])
    terms = dict(BASE)
    terms[first], terms[second] = terms[second], terms[first]
    key = ch.pick('key', (w.ETH, w.PROVIDER_ETH))
    sig = note_of(BASE).sign(key.priv)
    answer = verdict(lambda: note_of(terms).sig_valid(sig))
    ch.step(2)
    expected = first == second and key is w.ETH
    ch.equal(answer, expected, 'swapped terms')
    ch.see(first, second, key)


def tampered(step):
    """every bit of r and s, v, and malformed ones"""
    def scenario(ch):
        note = note_of(BASE)
        v, r, s = note.sign(w.ETH.priv)
        part = ch.pick('part', ('v', 'r', 's', 'shape'))
        if part == 'v':
            sig = (ch.pick('v', (55 - v, 0, 1, 2, 26, 29, -1, None)),
                   r, s)
            if isinstance(sig[0], int) and sig[0] in (0, 1):
                # would be another spelling of the same, if anything
                sig = (1 - (v - 27), r, s)
        elif part == 'shape':
            sig = ch.pick('shape', (
                None, (), [], (v, r), (v, r, s, s), (r, ), (v, s, r),
                (v, r, b''), (v, b'', s), (v, b'\0' * 32, b'\0' * 32),
                (v, None, None), (None, ) * 3))
            if not sig:
                ch.equal(verdict(lambda: note.sig_valid(sig)), False,
                         'missing')
                return
            if len(sig) != 3:
                answer = verdict(lambda: note.sig_valid(sig))
                ch.check(isinstance(answer, TypeError), 'arity',
                         engine.short(answer))
                return
        else:
            bit = ch.pick('bit', range(0, 256, step))
            raw = bytearray(r if part == 'r' else s)
            raw[bit // 8] ^= 1 << bit % 8
            sig = (v, bytes(raw), s) if part == 'r' else (v, r, bytes(raw))
        answer = verdict(lambda: note.sig_valid(sig))
        ch.step(2)
        ch.check(answer is False or isinstance(answer, Exception),
                 part + ':tampered', engine.short(answer))
        ch.see(part, len(ch.trace))
    return scenario


def changed(depth):
    """the terms of a note change between its signatures and verifications"""
    values = {
        'contract_address': w.OTHER.address,
        'address_from': w.PROVIDER_ETH.address,
        'address_to': w.ETH.address,
        'amount': 7,
        'subtask_id': w.make_id(0x22),
    }

    def scenario(ch):
        terms = dict(BASE)
        note = note_of(terms)
        sig = None
        for _ in range(depth):
            op = ch.pick('op', ('sign', 'verify', 'hash') + TERMS)
            if op == 'sign':
                sig = note.sign(w.ETH.priv)
                ch.equal(ref.eth_recover(note_hash(terms), *sig),
                         w.ETH.address, 'changed:signed terms')
            elif op == 'hash':
                conforms(ch, note, terms)
            elif op == 'verify':
                ch.equal(verdict(lambda: note.sig_valid(sig)),
                         valid(terms, sig), 'changed:sig_valid')
            else:
                terms[op] = BASE[op] if terms[op] == values[op] \
                    else values[op]
                setattr(note, op, terms[op])
            ch.step()
        conforms(ch, note, terms)
        ch.equal(verdict(lambda: note.sig_valid(sig)), valid(terms, sig),
                 'changed:sig_valid')
        ch.see(sorted(terms.items()), sig)
    return scenario


# The messages which carry notes

def ttc_terms(ttc, kind, contract):
    """what the assignment's notes have to be about, from its plain data"""
    slots = dict(w.slots_spec('tasks.TaskToCompute', ttc))
    offer = dict(slots['want_to_compute_task'][1][2])
    payer = ref.address(bytes.fromhex(slots['requestor_ethereum_public_key']))
    return {
        'contract_address': contract,
        'address_from': payer,
        'address_to': contract if kind == 'concent'
                      else offer['provider_ethereum_address'],
        'amount': slots['price'],
        'subtask_id': slots['compute_task_def']['subtask_id'],
    }


def srv_terms(ttc, contract):
    terms = ttc_terms(ttc, 'provider', contract)
    return dict(terms, address_from=terms['address_to'], address_to=contract)


CONTRACTS = (w.DEPOSIT, w.DEPOSIT.lower(), w.OTHER.address)


def alter_ttc(ttc, what):
    """changes the assignment behind its notes; True if the notes notice"""
    if what == 'price':
        ttc.price += 1
    elif what == 'subtask':
        ttc.compute_task_def['subtask_id'] = w.make_id(0x21)
    elif what == 'task':
        ttc.compute_task_def['task_id'] = w.make_id(0x21)
    elif what == 'payee':
        ttc.want_to_compute_task.provider_ethereum_address = w.OTHER.address
    elif what == 'offered price':
        ttc.want_to_compute_task.price += 1
    elif what == 'payer':
        ttc.requestor_ethereum_public_key = w.OTHER.hex
    elif what == 'public key':
        ttc.requestor_public_key = w.OTHER.hex
    elif what == 'provider key':
        ttc.want_to_compute_task.provider_public_key = w.OTHER.hex


ALTERATIONS = ('nothing', 'price', 'subtask', 'task', 'payee', 'payer',
               'offered price', 'public key', 'provider key')
MODES = ('object', 'plain', 'encrypted')


def transport(ch, msg, mode, key):
    if mode == 'object':
        return msg
    msg.sig = None
    data = shortcuts.dump(msg, key.priv,
                          w.OTHER.pub if mode == 'encrypted' else None)
    ch.step(2)
    return shortcuts.load(data, w.OTHER.priv, key.pub, False)


def seal(ttc):
    ttc.generate_ethsig(w.ETH.priv)


def assignment(ch):
    """the notes of an assignment"""
    contract = ch.pick('signed for', CONTRACTS)
    asked = ch.pick('asked for', CONTRACTS)
    signer = ch.pick('signer', (w.ETH, w.REQUESTOR, w.PROVIDER_ETH))
    what = ch.dev('altered', ALTERATIONS)
    mode = ch.pick('mode', MODES)
    signed = ch.pick('signed', ('all', 'provider', 'concent', 'swapped'))
    ttc = w.build('tasks.TaskToCompute', signed=False)
    prices = ch.dev('price', (None, 0, 2 ** 200))
    if prices is not None:
        ttc.price = prices
    lower = ch.dev('payee in lower case', (False, True))
    if lower:
        offer = ttc.want_to_compute_task
        offer.provider_ethereum_address = \
            offer.provider_ethereum_address.lower()
    kwargs = {'deposit_contract_address': contract,
              'private_key': signer.priv}
    if signed in ('all', 'swapped'):
        ttc.sign_all_promissory_notes(**kwargs)
    elif signed == 'provider':
        ttc.sign_promissory_note(**kwargs)
    else:
        ttc.sign_concent_promissory_note(**kwargs)
    ch.step(2)
    expected = {
        'provider': signed in ('all', 'swapped', 'provider'),
        'concent': signed in ('all', 'swapped', 'concent'),
    }
    sigs = {'provider': ttc.promissory_note_sig,
            'concent': ttc.concent_promissory_note_sig}
    for kind, sig in sigs.items():
        if not expected[kind]:
            ch.check(sig is None, kind + ':signed too', engine.short(sig))
            continue
        account = ref.eth_recover(
            note_hash(ttc_terms(ttc, kind, contract)), *sig)
        ch.equal(account, signer.address, kind + ':terms')
    if signed == 'swapped':
        ttc.promissory_note_sig, ttc.concent_promissory_note_sig = \
            ttc.concent_promissory_note_sig, ttc.promissory_note_sig
    alter_ttc(ttc, what)
    if mode != 'object':
        if what == 'payer':
            ttc.generate_ethsig(w.OTHER.priv)
        else:
            seal(ttc)
        ttc = transport(ch, ttc, mode, w.REQUESTOR)
    answers = {
        'provider': verdict(lambda: ttc.verify_promissory_note(asked)),
        'concent': verdict(lambda: ttc.verify_concent_promissory_note(asked)),
        'all': verdict(lambda: ttc.verify_all_promissory_notes(asked)),
    }
    ch.step(3)
    expected = {
        'provider': valid(ttc_terms(ttc, 'provider', asked),
                          ttc.promissory_note_sig),
        'concent': valid(ttc_terms(ttc, 'concent', asked),
                         ttc.concent_promissory_note_sig),
    }
    # the table of what should notice what, without the reference
    right = contract.lower() == asked.lower() and signer is w.ETH \
        and what in ('nothing', 'task', 'offered price', 'public key',
                     'provider key')
    if signed != 'swapped':
        ch.check(expected['provider'] == (
            signed in ('all', 'provider') and (right)), 'oracle provider')
        ch.check(expected['concent'] == (
            signed in ('all', 'concent') and (right or (
                what == 'payee' and signer is w.ETH
                and contract.lower() == asked.lower()))), 'oracle concent')
    expected['all'] = expected['provider'] and expected['concent']
    for kind, answer in answers.items():
        ch.equal(answer, expected[kind], 'assignment:' + kind)
    ch.see(signed, what, mode, sorted(expected.items()))


def verification(ch):
    """the note of a verification request"""
    contract = ch.pick('signed for', CONTRACTS)
    asked = ch.pick('asked for', CONTRACTS)
    signer = ch.pick('signer', (w.PROVIDER_ETH, w.ETH, w.PROVIDER))
    what = ch.pick('altered', ALTERATIONS)
    mode = ch.pick('mode', MODES)
    msg = w.build('concents.SubtaskResultsVerify', signed=False)
    ttc = msg.task_to_compute
    if ch.flag('signed'):
        msg.sign_concent_promissory_note(contract, signer.priv)
        ch.step()
        account = ref.eth_recover(
            note_hash(srv_terms(ttc, contract)),
            *msg.concent_promissory_note_sig)
        ch.equal(account, signer.address, 'verification:terms')
    alter_ttc(ttc, what)
    msg = transport(ch, msg, mode, w.PROVIDER)
    ttc = msg.task_to_compute
    answer = verdict(lambda: msg.verify_concent_promissory_note(asked))
    ch.step()
    expected = valid(srv_terms(ttc, asked), msg.concent_promissory_note_sig)
    ch.check(expected == (
        msg.concent_promissory_note_sig is not None
        and contract.lower() == asked.lower() and signer is w.PROVIDER_ETH
        and what not in ('price', 'subtask', 'payee')), 'oracle')
    ch.equal(answer, expected, 'verification request')
    ch.see(what, mode, expected)


def scenarios(tier):
    deep = tier != 'quick'
    return [
        engine.Scenario('signing', signing, bound=4 if deep else 1),
        engine.Scenario('altered', altered(deep)),
        engine.Scenario('swapped', swapped),
        bulk.notes('thorough' if deep else 'quick'),
        engine.Scenario('changed', changed(5 if deep else 3)),
        engine.Scenario('tampered', tampered(1 if deep else 5)),
        engine.Scenario('assignment', assignment, bound=2 if deep else 1),
        engine.Scenario('verification', verification),
    ]
