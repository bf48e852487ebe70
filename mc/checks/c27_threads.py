"""C27: concurrent use of shared key managers and of the package itself"""
import copy

import coincurve

from golem_messages import cryptography
from golem_messages import exceptions
from golem_messages import idgenerator
from golem_messages import utils
from golem_messages.datastructures import masking
from golem_messages.datastructures import promissory
from golem_messages.datastructures import stats as dt_stats
from golem_messages.message import base
from golem_messages.message import tasks

from mc import alphabet
from mc import clock
from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import sched
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a message object is used by one thread at a time; key managers, classes '
    'and functions are shared',
    'threads are preempted between lines or between bytecode instructions of '
    'the package; the standard library and extension modules (such as the '
    'caching decorator) are atomic',
]

TIMEOUT = 100


def decrypt_reference(data, key):
    return ref.ecies_decrypt(data, key.priv)


EPHEMERAL = coincurve.PrivateKey(b'\x21' * 32)


def encrypted_for(key, data, seed=b'\x21'):
    return ref.ecies_encrypt(data, key.pub, seed * 32, seed * 16)


def load(data, key=None, decrypt=lambda data: data):
    return base.Message.deserialize(
        data, decrypt, False, sender_public_key=key)


class Shared:
    """What threads have in common"""

    def __init__(self, state):
        SNAPSHOT.restore()
        clock.set_time(w.TS)
        self.manager = cryptography.ECIESKeyManager(timeout=TIMEOUT)
        self.ecies = cryptography.ECIES(self.manager)
        self.old = []
        if state in ('warm', 'expired'):
            self.old.append(
                self.ecies.encrypt(b'', w.PROVIDER.pub)[:65])
        if state == 'expired':
            clock.set_time(w.TS + TIMEOUT + 1)
        elif state == 'full':
            # a key manager serving many recipients
            for i in range(3):
                self.ecies.encrypt(b'', w.KEYS[i].pub)


# Operations: prepare() -> data; run(shared, data); judge(ch, result, data,
# shared) -> None or what is wrong


class Encrypt:
    def __init__(self, key, text):
        self.key = key
        self.text = text
        self.name = 'encrypt for {}'.format(key.name)

    def prepare(self):
        return None

    def run(self, shared, _data):
        return shared.ecies.encrypt(self.text, self.key.pub, b'mac')

    def judge(self, result, shared, _data):
        if ref.ecies_decrypt(result, self.key.priv, b'mac') != self.text:
            return 'wrong content'
        for other in w.KEYS:
            if other is self.key:
                continue
            try:
                ref.ecies_decrypt(result, other.priv, b'mac')
            except Exception:  # pylint: disable=broad-except
                continue
            return 'opened by another key'
        if clock_expired(shared) and result[:65] in shared.old:
            return 'old ephemeral key'
        return None

    @staticmethod
    def ephemeral(result):
        return result[:65]


def clock_expired(shared):
    return shared.state == 'expired'


class Decrypt:
    def __init__(self, key, tamper=False):
        self.key = key
        self.tamper = tamper
        self.name = 'decrypt{} by {}'.format(
            ' tampered' if tamper else '', key.name)

    def prepare(self):
        data = encrypted_for(self.key, b'text ' + self.key.pub[:5])
        if self.tamper:
            data = data[:-1] + bytes([data[-1] ^ 1])
        return data

    def run(self, shared, data):
        try:
            return shared.ecies.decrypt(data, self.key.priv)
        except exceptions.DecryptionError:
            return 'refused'

    def judge(self, result, _shared, _data):
        expected = 'refused' if self.tamper \
            else b'text ' + self.key.pub[:5]
        return None if result == expected else 'got {!r}'.format(result)


def variant(name):
    """a valid message most contents of which differ from w.build(name)"""
    spec = golden.BY_NAME[name][1]
    usual = w.build(name, signed=False)
    over = {}
    for slot in w.cls(name).__slots__:
        if slot in base.Message.__slots__ or slot.startswith('_'):
            continue
        if slot in spec.nested:
            klass, _, is_list = spec.nested[slot]
            if getattr(usual, slot):
                child = variant(klass)
                over[slot] = [child] if is_list else child
            continue
        known = getattr(usual, slot)
        for option in alphabet.slot_options(name, slot)[::-1]:
            value = alphabet.value_of(option)
            if type(value) is type(known) and not (
                    isinstance(known, str) and len(known) > 30) and \
                    ref.cbor(w.plain(value)) != ref.cbor(w.plain(known)):
                over[slot] = value
                break
    msg = w.build(name, signed=False, **over)
    if spec.sign:
        w.sign(msg, w.signer(name))
    return msg


class Dump:
    def __init__(self, name, signer=None, encrypt_for=None, make=None):
        self.make = make or (lambda: w.build(name, signed=False))
        self.kind = name
        self.signer = signer
        self.encrypt_for = encrypt_for
        self.name = 'dump {}{}{}{}'.format(
            'another ' if make else '', name, ' signed' if signer else '',
            ' encrypted for ' + encrypt_for.name if encrypt_for else '')

    def prepare(self):
        return self.make()

    def run(self, shared, msg):
        encrypt = None
        if self.encrypt_for:
            encrypt = lambda data: shared.ecies.encrypt(  # noqa
                data, self.encrypt_for.pub)
        return msg.serialize(
            self.signer.priv if self.signer else None, encrypt)

    def judge(self, result, _shared, msg):
        decrypt = lambda data: data  # noqa
        if self.encrypt_for:
            decrypt = lambda data: ref.ecies_decrypt(  # noqa
                data, self.encrypt_for.priv)
        body = result[76:]
        if self.kind == 'base.Hello':
            body = body[:-32]
        payload = decrypt(body)
        slots = w.slots_spec(self.kind, msg)
        if payload != ref.cbor(slots):
            return 'payload'
        if result[:11] != ref.header(
                w.type_of(self.kind), w.TS, bool(self.encrypt_for)):
            return 'header'
        version = mc_load.RELEASE if self.kind == 'base.Hello' else None
        if self.signer:
            digest = ref.digest(
                w.type_of(self.kind), w.TS, payload, version)
            if ref.recover(result[11:76], digest) != self.signer.pub:
                return 'signature'
        elif result[11:76] != b'\0' * 65:
            return 'signed'
        if version and result[-32:] != ref.version_suffix(version):
            return 'version'
        return None


class Load:
    def __init__(self, name, signer, expect=None, encrypted_for_=None,
                 make=None):
        self.make = make or (lambda: w.build(name, sign_with=signer))
        self.kind = name
        self.signer = signer
        self.expect = expect or signer
        self.encrypted_for = encrypted_for_
        self.name = 'load {}{} of {}{}{}'.format(
            'another ' if make else '', name, signer.name,
            ' expected of ' + expect.name if expect else '',
            ' encrypted for ' + encrypted_for_.name if encrypted_for_ else '')

    def prepare(self):
        msg = self.make()
        version = mc_load.RELEASE if self.kind == 'base.Hello' else None
        key = self.encrypted_for
        data = ref.wire(
            w.type_of(self.kind), w.TS, w.slots_spec(self.kind, msg),
            bool(key), msg.sig, version,
            (lambda data: encrypted_for(key, data, b'\x22')) if key else None)
        if msg.sig is None:
            msg.sig = b'\0' * 65
        return msg, data

    def run(self, shared, data):
        decrypt = None
        if self.encrypted_for:
            decrypt = lambda data: shared.ecies.decrypt(  # noqa
                data, self.encrypted_for.priv)
        try:
            return load(data[1], self.expect.pub, decrypt)
        except exceptions.InvalidSignature:
            return 'refused'

    def judge(self, result, _shared, data):
        if self.expect is not self.signer:
            return None if result == 'refused' else 'accepted'
        if result == 'refused':
            return 'refused'
        return w.difference(result, data[0])


class Verify:
    """the owners of a task chain"""

    def __init__(self, name, good=True):
        self.kind = name
        self.good = good
        self.name = 'verify {}{}'.format(name, '' if good else ' of another')

    def prepare(self):
        if self.good:
            return w.build(self.kind)
        return w.build(self.kind, sign_with=w.OTHER)

    def run(self, _shared, msg):
        try:
            return msg.verify_owners(
                provider_public_key=w.PROVIDER.pub,
                requestor_public_key=w.REQUESTOR.pub,
                concent_public_key=w.CONCENT.pub)
        except exceptions.InvalidSignature:
            return 'refused'

    def judge(self, result, _shared, _msg):
        expected = True if self.good else 'refused'
        return None if result == expected else repr(result)


class Function:
    def __init__(self, name, run, expected):
        self.name = name
        self.function = run
        self.expected = expected

    def prepare(self):
        return None

    def run(self, _shared, _data):
        return self.function()

    def judge(self, result, _shared, _data):
        expected = self.expected() if callable(self.expected) \
            else self.expected
        return None if result == expected else '{!r} instead of {!r}'.format(
            result, expected)


def header_job():
    header = w.task_header(market_type='Usage')
    header.sign(w.PROVIDER.priv)
    return header.verify(w.PROVIDER.pub), header.to_dict()['market_type'], \
        header.get_hash()


def header_expected():
    return True, 'Usage', w.header_digest(
        w.header_dict(market_type='Usage'))


def mask_job():
    mask = masking.Mask.from_bits({3, 5}) if hasattr(
        masking.Mask, 'from_bits') else masking.Mask(
            byte_repr=b'\0' * 31 + b'\x28')
    mask.increase(2)
    return mask.num_bits


def id_job():
    one = idgenerator.generate_id_from_hex(w.PROVIDER.hex)
    return idgenerator.check_id_seed(one, w.PROVIDER.pub), \
        idgenerator.check_id_seed(one, w.REQUESTOR.pub)


SMALL = [
    Encrypt(w.PROVIDER, b'for the provider'),
    Encrypt(w.REQUESTOR, b'for requestor'),
    Decrypt(w.PROVIDER),
    Decrypt(w.REQUESTOR),
    Decrypt(w.CONCENT, tamper=True),
]
MESSAGES = [
    Dump('base.RandVal', w.PROVIDER),
    Dump('base.ChallengeSolution', w.REQUESTOR, encrypt_for=w.PROVIDER),
    Dump('p2p.Ping', None, encrypt_for=w.CONCENT),
    Dump('base.Disconnect', w.OTHER),
    Dump('base.Hello', w.CONCENT),
    Load('base.RandVal', w.REQUESTOR),
    Load('base.Disconnect', w.PROVIDER, expect=w.OTHER),
    Load('base.ChallengeSolution', w.OTHER, encrypted_for_=w.PROVIDER),
    Load('base.Hello', w.PROVIDER),
]
LARGE = [
    Dump('p2p.RemoveTaskContainer', w.REQUESTOR, encrypt_for=w.PROVIDER),
    Dump('tasks.TaskToCompute', w.REQUESTOR),
    Load('tasks.TaskToCompute', w.REQUESTOR, encrypted_for_=w.PROVIDER),
    Load('concents.FileTransferToken', w.CONCENT),
    Verify('tasks.ReportComputedTask'),
    Verify('tasks.ReportComputedTask', good=False),
    Function('task header', header_job, header_expected),
    Function('mask', mask_job, 4),
    Function('id', id_job, (True, False)),
    Function('address', lambda: utils.pubkey_to_address(w.PROVIDER.hex),
             w.PROVIDER.address),
]
EVERYTHING = SMALL + MESSAGES + LARGE


def other_header_job():
    header = w.task_header(task_id='another', market_type='Brass')
    header.sign(w.OTHER.priv)
    return header.verify(w.OTHER.pub), header.to_dict()['task_id'], \
        header.get_hash()


def other_header_expected():
    return True, 'another', w.header_digest(
        w.header_dict(task_id='another', market_type='Brass'))


def note_job(payer, amount):
    note = promissory.PromissoryNote(
        address_from=payer.address, address_to=w.OTHER.address,
        amount=amount, subtask_id=w.SUBTASK_ID, contract_address=w.DEPOSIT)
    before = note.sign(payer.priv)

    def run():
        sig = note.sign(payer.priv)
        return sig == before, note.sig_valid(sig)
    return run


def stats_job(value):
    stats = dt_stats.ProviderStats(cpu_stats={
        'cpu_usage': {'total_usage': value}})
    return stats.to_dict()['cpu_stats']['cpu_usage']['total_usage'], \
        dict(tasks.ComputeTaskDef(task_id=str(value)))['task_id']


# work on structures, each with two different contents
STRUCTURES = [
    Function('task header', header_job, header_expected),
    Function('another task header', other_header_job, other_header_expected),
    Function('address', lambda: utils.pubkey_to_address(w.PROVIDER.hex),
             w.PROVIDER.address),
    Function('another address',
             lambda: utils.pubkey_to_address(w.REQUESTOR.pub),
             w.REQUESTOR.address),
    Function('id', id_job, (True, False)),
    Function('another id', lambda: idgenerator.check_id_hex_seed(
        idgenerator.generate_id(w.OTHER.pub), w.OTHER.hex), True),
    Function('note', note_job(w.ETH, 7), (True, True)),
    Function('another note', note_job(w.PROVIDER_ETH, 2 ** 70),
             (True, True)),
    Function('hash', lambda: (
        cryptography.sha3(b'1'), cryptography.ecdsa_verify(
            w.OTHER.pub, ref.sign(w.OTHER.priv, b'1'), b'1')),
             (ref.sha3(b'1'), True)),
    Function('another hash', lambda: (
        cryptography.sha3(b'22'), cryptography.ecdsa_verify(
            w.ETH.pub, ref.sign(w.ETH.priv, b'22'), b'22')),
             (ref.sha3(b'22'), True)),
    Function('statistics', lambda: stats_job(5), (5, '5')),
    Function('other statistics', lambda: stats_job(6), (6, '6')),
]
EVERYTHING += STRUCTURES[1:]


def contents(name):
    """two different messages of the same type, to be loaded and dumped"""
    key = w.signer(name)
    dump_key = key if golden.BY_NAME[name][1].sign else None

    def unsigned():
        msg = variant(name)
        msg.sig = None
        return msg
    return (
        (Load(name, key), Load(name, key, make=lambda: variant(name))),
        (Dump(name, dump_key), Dump(name, dump_key, make=unsigned)))


PAIRS = [
    pair for name in (
        'base.Hello', 'p2p.Peers', 'p2p.Tasks', 'concents.FileTransferToken',
        'tasks.ReportComputedTask', 'tasks.SubtaskResultsRejected')
    for pair in contents(name)]
# the others have long executions
SHORT_PAIRS = PAIRS[:8]

clock.set_time(w.TS)
# to be copied for each execution
READY = {job.name: job.prepare() for job in EVERYTHING + [
    job for pair in PAIRS for job in pair]}
# The state from which all the executions start
SNAPSHOT = sched.Snapshot()


def threads(groups, states, opcodes=False):
    """groups: possible operations for each thread (threads run at once)"""
    def scenario(ch):
        state = ch.pick('state', states)
        jobs = []
        for i, group in enumerate(groups):
            if i and group is groups[i - 1]:
                # the order of threads does not matter
                group = group[group.index(jobs[-1]):]
            jobs.append(ch.pick('operation', group))
        shared = Shared(state)
        shared.state = state
        data = [copy.deepcopy(READY[job.name]) for job in jobs]
        run = sched.Scheduler(
            ch, [(lambda j, d: lambda: j.run(shared, d))(job, datum)
                 for job, datum in zip(jobs, data)], opcodes)
        results = run.run()
        ch.step(len(jobs))
        ephemeral = {}
        for job, datum, (status, result) in zip(jobs, data, results):
            ch.check(status == 'ok', job.name + ':raised', repr(result))
            try:
                problem = job.judge(result, shared, datum)
            except Exception as e:  # pylint: disable=broad-except
                problem = 'unusable: {!r}'.format(e)
            ch.check(problem is None, job.name + ':wrong', problem)
            if hasattr(job, 'ephemeral'):
                owner = ephemeral.setdefault(
                    job.ephemeral(result), job.key.name)
                ch.check(owner == job.key.name, 'shared ephemeral key')
        # the shared objects still work
        for job in jobs:
            again = copy.deepcopy(READY[job.name])
            ch.step()
            try:
                problem = job.judge(job.run(shared, again), shared, again)
            except Exception as e:  # pylint: disable=broad-except
                problem = 'raised {!r}'.format(e)
            ch.check(problem is None, job.name + ':wrong later', problem)
        ch.see(state, [job.name for job in jobs], run.switches)
    return scenario


STATES = ('fresh', 'warm', 'expired')


def fallback(tier):
    """for code with state which the snapshot does not know"""
    return scenarios(tier, True)


def scenarios(tier, isolate=False):
    def scenario(name, groups, states, bound, opcodes=False):
        return engine.Scenario(
            name, threads(groups, states, opcodes), bound, isolate=isolate)
    pair = SMALL[:2]
    some = pair + MESSAGES
    few = SMALL[:1] + MESSAGES[:2] + MESSAGES[4:8]
    if tier == 'quick':
        return [
            scenario('encryption, instructions', (pair, pair),
                     ('fresh', 'expired'), 1, True),
            scenario('decryption, instructions',
                     (SMALL[2:4], SMALL[2:4]), ('fresh', ), 1, True),
            scenario('key manager, lines', (SMALL, SMALL), STATES, 1),
            scenario('messages, lines', (few, few), ('warm', ), 1),
            scenario('two preemptions', (SMALL[:1], SMALL[1:2]),
                     ('expired', ), 2),
        ] + [
            scenario('{} and {}, lines'.format(one.name, other.name),
                     ([one], [other]), ('warm', ), 1)
            for one, other in zip(STRUCTURES[::2], STRUCTURES[1::2])
        ] + [
            scenario('{} and {}, lines'.format(one.name, other.name),
                     ([one], [other]), ('warm', ), 1)
            for one, other in (
                (LARGE[4], LARGE[5]), (LARGE[1], LARGE[2]))
        ] + [
            scenario('{} and {}, lines'.format(one.name, other.name),
                     ([one], [other]), ('warm', ), 1)
            for one, other in SHORT_PAIRS
        ]
    return [
        scenario('key manager, instructions', (SMALL, SMALL), STATES, 1,
                 True),
        scenario('everything, lines', (EVERYTHING, EVERYTHING),
                 ('warm', ), 1),
        scenario('messages, instructions', (some, some), ('warm', ), 1, True),
        scenario('two preemptions', (SMALL, SMALL), STATES, 2),
    ] + [
        scenario('{} and {}, instructions'.format(one.name, other.name),
                 ([one], [other]), ('warm', ), 1, True)
        for one, other in PAIRS
    ] + [
        scenario('three threads', (SMALL, SMALL, SMALL), STATES, 1),
        scenario('three threads, two preemptions',
                 (pair, pair, pair), ('fresh', 'expired'), 2),
    ]
