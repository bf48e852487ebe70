"""Long histories: the thousandth message is as good as the first one,
and the first one is still good after the thousandth"""
import hashlib
import uuid

import pyelliptic
from golem_messages import cryptography
from golem_messages import exceptions
from golem_messages import idgenerator
from golem_messages import shortcuts
from golem_messages.datastructures import promissory
from golem_messages.datastructures import tasks as dt_tasks

from mc import clock
from mc import engine
from mc import ref
from mc import world as w

# sizes of caches, counters and buffers; every run goes back to its start
COUNTS = (2, 17, 130, 300, 1100)
THOROUGH = (2, 17, 33, 65, 129, 130, 257, 300, 513, 1023, 1024, 1025, 1100,
            2100, 4200)
NAMES = ('base.RandVal', 'p2p.Degree', 'tasks.CannotComputeTask',
         'tasks.WantToComputeTask', 'tasks.ReportComputedTask',
         'p2p.StopGossip', 'concents.ForceReportComputedTask')
SECRETS = {}


def counts(tier, limit=None):
    result = COUNTS if tier == 'quick' else THOROUGH
    return [c for c in result if limit is None or c <= limit]


class Party:
    def __init__(self, num):
        self.priv = hashlib.sha256(b'party %d' % num).digest()
        self.pub = ref.public(self.priv)


def party(num):
    if num not in SECRETS:
        SECRETS[num] = Party(num)
    return SECRETS[num]


def again(count):
    """the order of second visits: the oldest, the newest, some between"""
    return sorted({i for i in (0, 1, 2, count // 2, count - 2, count - 1)
                   if 0 <= i < count}) + list(range(3, count, 50))


def attempt(ch, data, private=None, public=None):
    ch.step()
    try:
        return shortcuts.load(data, private, public, check_time=False)
    except exceptions.MessageError as e:
        return e


def round_trips(tier):
    """messages of several kinds, all different, and the first ones again"""
    def scenario(ch):
        count = ch.pick('messages', counts(tier))
        kind = ch.pick('class', ('mixed', ) + NAMES[:2])
        encrypted = ch.flag('encrypted')
        sent = []

        def receive(i):
            data, name, spec = sent[i]
            loaded = attempt(ch, data, w.PROVIDER.priv, w.OTHER.pub)
            ch.check(not isinstance(loaded, Exception), 'history:refused',
                     lambda: '{} {!r}'.format(i, loaded))
            ch.check(w.slots_spec(name, loaded) == spec, 'history:content',
                     lambda: 'message {} {}'.format(i, loaded))
            ch.check(loaded.timestamp == w.TS + i, 'history:timestamp')
            return loaded

        for i in range(count):
            name = NAMES[i % len(NAMES)] if kind == 'mixed' else kind
            over = {'rand_val': i / 7} if name == 'base.RandVal' else {}
            if name == 'p2p.Degree':
                over = {'degree': i}
            msg = w.build(name, signed=False, timestamp=w.TS + i, **over)
            data = shortcuts.dump(
                msg, w.OTHER.priv, w.PROVIDER.pub if encrypted else None)
            ch.step()
            sent.append((data, name, w.slots_spec(name, msg)))
            receive(i)
        for i in again(count):
            receive(i)
        ch.see(count, kind, encrypted)
    return engine.Scenario('long history', scenario)


def signers(tier):
    """many correspondents; nobody passes for anybody else"""
    def scenario(ch):
        count = ch.pick('signers', counts(tier))
        name = ch.pick('class', ('base.RandVal', 'tasks.WantToComputeTask'))
        content = ch.pick('content', ('same', 'different'))
        sent = []
        for i in range(count):
            key = party(i)
            msg = w.build(name, signed=False, timestamp=w.TS + (
                i if content == 'different' else 0))
            sent.append(shortcuts.dump(msg, key.priv, None))
            ch.step()

        def judge(i):
            ch.check(not isinstance(
                attempt(ch, sent[i], None, party(i).pub), Exception),
                     'many signers:refused', i)
            for j in (i - 1, (i + 1) % count, 0):
                if j % count != i and j >= 0:
                    ch.check(isinstance(
                        attempt(ch, sent[i], None, party(j).pub),
                        exceptions.InvalidSignature),
                             'many signers:accepted',
                             lambda: 'of {} as of {}'.format(i, j))
            data = bytearray(sent[i])
            data[-1 - i % 8] ^= 1
            ch.check(isinstance(
                attempt(ch, bytes(data), None, party(i).pub), Exception),
                     'many signers:altered', i)
        for i in list(range(count)) + again(count):
            judge(i)
        ch.see(count, name, content)
    return engine.Scenario('many signers', scenario)


def encryptions(tier):
    """one recipient gets a lot: no initialization vector comes back"""
    def scenario(ch):
        count = ch.pick('messages', counts(tier) + [3000])
        keys = ch.pick('recipients', (1, 3))
        numbers = iter(range(1, 10 ** 9))
        clock.set_time(w.TS)
        ecies = cryptography.ECIES()
        seen = {}
        sent = []

        def urandom(num):
            return next(numbers).to_bytes(num, 'big')
        old = pyelliptic.control.urandom
        pyelliptic.control.urandom = urandom
        try:
            for i in range(count):
                key = party(i % keys)
                data = b'data %d' % i
                encrypted = ecies.encrypt(data, key.pub)
                ch.step()
                ident = encrypted[:81]
                ch.check(ident not in seen, 'vector of earlier message',
                         lambda: '{} and {}'.format(seen[ident], i))
                seen[ident] = i
                sent.append(encrypted)
        finally:
            pyelliptic.control.urandom = old
        for i in again(count):
            key = party(i % keys)
            data = b'data %d' % i
            ch.step(2)
            ch.equal(ref.ecies_decrypt(sent[i], key.priv), data,
                     'many messages:reference')
            ch.equal(ecies.decrypt(sent[i], key.priv), data,
                     'many messages:decrypted')
        ch.see(count, keys)
    return engine.Scenario('many messages', scenario)


def senders(tier):
    """many senders, each with its own ephemeral key"""
    def scenario(ch):
        count = ch.pick('senders', counts(tier, 1100))
        recipients = ch.pick('recipients', (1, 2))
        ecies = cryptography.ECIES()
        sent = [ref.ecies_encrypt(
            b'data %d' % i, party(i % recipients).pub, party(5 + i).priv,
            i.to_bytes(16, 'big')) for i in range(count)]
        for i in list(range(count)) + again(count):
            ch.step(2)
            key = party(i % recipients)
            ch.equal(ecies.decrypt(sent[i], key.priv), b'data %d' % i,
                     'many senders')
            # not what somebody else sent
            changed = sent[i - 1][:65] + sent[i][65:]
            if changed == sent[i]:
                continue
            try:
                ecies.decrypt(changed, key.priv)
            except exceptions.DecryptionError:
                continue
            ch.fail('many senders:accepted', i)
        ch.see(count, recipients)
    return engine.Scenario('many senders', scenario)


def ids(tier):
    """ids never come back"""
    def scenario(ch):
        count = ch.pick('ids', [6000 if tier == 'quick' else 70000])
        way = ch.pick('way', ('seed', 'hex', 'derived', 'in turns'))
        moving = ch.pick('clock', ('still', 'moving', 'back and forth'))
        seeds = [w.REQUESTOR.pub, w.PROVIDER.pub]
        clock.set_time(w.TS)
        made = {}
        last = [None, None]
        for i in range(count):
            which = i % 2
            seed = seeds[which]
            if moving == 'moving' and not i % 7:
                clock.set_time(w.TS + i // 7)
            elif moving == 'back and forth' and not i % 3:
                clock.set_time(w.TS + (i // 3) % 3)
            now = way
            if way == 'in turns':
                now = ('seed', 'hex', 'derived')[i // 2 % 3]
            if now == 'hex':
                id_ = idgenerator.generate_id_from_hex(seed.hex())
            elif now == 'derived' and last[which]:
                id_ = idgenerator.generate_new_id_from_id(last[which])
            else:
                id_ = idgenerator.generate_id(seed)
            ch.step()
            last[which] = id_
            ch.check(id_ not in made, 'id came back', lambda: '{}: {}, {}'
                     .format(id_, made[id_], i))
            made[id_] = i
            ch.check(id_[24:] == seed[:6].hex(), 'many ids:node', id_)
        for id_, i in list(made.items())[::97]:
            ch.check(idgenerator.check_id_seed(id_, seeds[i % 2])
                     and not idgenerator.check_id_seed(id_, seeds[1 - i % 2]),
                     'many ids:seed', id_)
            ch.step(2)
        ch.see(way, moving)
    return engine.Scenario('many ids', scenario)


def generated_keys(tier):
    """a key of its own for everybody"""
    def scenario(ch):
        count = ch.pick('keys', counts(tier, 1100))
        shape = ch.pick('answers', ('good', 'short ones in between'))
        given = []

        def keys():
            i = 0
            while True:
                key = party(i).priv
                i += 1
                if shape != 'good' and not i % 5:
                    yield key[1:]
                given.append(key)
                yield key
        made = []
        pyelliptic.control.generated_keys = keys()
        try:
            for _ in range(count):
                made.append(cryptography.ECCx(None))
                ch.step()
        finally:
            pyelliptic.control.generated_keys = None
        for i in list(range(count)) + again(count):
            ecc = made[i]
            ch.equal(ecc.raw_privkey, given[i], 'many keys:private')
            ch.equal(ecc.raw_pubkey, party(i).pub, 'many keys:public')
            sig = ecc.sign(b'data')
            ch.equal(ref.recover(sig, b'data'), party(i).pub,
                     'many keys:signature')
            ch.equal(ecc.verify(sig, b'data'), True, 'many keys:verify')
            ch.step(2)
            try:
                made[i - 1].verify(sig, b'data')
            except exceptions.InvalidSignature:
                pass
            else:
                ch.check(count == 1, 'many keys:accepted', i)
        ch.see(count, shape)
    return engine.Scenario('many keys', scenario)


def headers(tier):
    """many headers of many owners"""
    def scenario(ch):
        count = ch.pick('headers', counts(tier, 1100))
        owners = ch.pick('owners', (1, 2, 300))
        made = []

        def accepts(header, key):
            ch.step()
            try:
                return header.verify(key.pub)
            except exceptions.InvalidSignature:
                return False

        for i in range(count):
            made.append(w.signed_header_dict(
                party(i % owners), task_id=w.make_id(i), max_price=i))
        for i in list(range(count)) + again(count):
            key = party(i % owners)
            ch.check(accepts(dt_tasks.TaskHeader(**made[i]), key) is True,
                     'many headers:refused', i)
            ch.check(not accepts(dt_tasks.TaskHeader(**made[i]), party(
                i % owners + 1)), 'many headers:other owner', i)
            ch.check(not accepts(dt_tasks.TaskHeader(**dict(
                made[i], max_price=i + 1)), key),
                     'many headers:altered', i)
            ch.check(count == 1 or not accepts(dt_tasks.TaskHeader(**dict(
                made[i], signature=made[i - 1]['signature'])), key),
                     'many headers:signature of another', i)
        ch.see(count, owners)
    return engine.Scenario('many headers', scenario)


def notes(tier):
    """many promissory notes of one payer"""
    def scenario(ch):
        count = ch.pick('notes', counts(tier, 1100))
        differ = ch.pick('differ by', ('amount', 'subtask', 'recipient'))
        made = []

        def terms(i):
            result = {
                'contract_address': w.DEPOSIT,
                'address_from': w.ETH.address,
                'address_to': w.PROVIDER_ETH.address,
                'amount': 1000,
                'subtask_id': w.SUBTASK_ID,
            }
            if differ == 'amount':
                result['amount'] += i
            elif differ == 'subtask':
                result['subtask_id'] = str(uuid.UUID(int=i))
            else:
                result['address_to'] = ref.checksum_address(
                    i.to_bytes(20, 'big'))
            return promissory.PromissoryNote(**result)
        for i in range(count):
            made.append(terms(i).sign(w.ETH.priv))
        for i in list(range(count)) + again(count):
            ch.step(3)
            ch.check(terms(i).sig_valid(made[i]) is True,
                     'many notes:refused', i)
            for j in (i - 1, i + 1):
                if 0 <= j < count:
                    ch.check(not terms(i).sig_valid(made[j]),
                             'many notes:accepted',
                             lambda: '{} for {}'.format(j, i))
        ch.see(count, differ)
    return engine.Scenario('many notes', scenario)


def assignments(tier):
    """many task assignments, each with its own proof"""
    def scenario(ch):
        count = ch.pick('assignments', counts(tier, 300))
        differ = ch.pick('differ by', ('price', 'timestamp'))
        raw = []
        for i in range(count):
            over = {'price': i} if differ == 'price' else {
                'timestamp': w.TS + i}
            msg = w.build(
                'tasks.TaskToCompute', signed=False, timestamp=w.TS + 2000,
                want_to_compute_task=w.build(
                    'tasks.WantToComputeTask', **over))
            raw.append((msg, msg.ethsig))
        for i in list(range(count)) + again(count):
            msg, sig = raw[i]
            # the proof covers the assignment it was made for
            for given, good in ((sig, True), (
                    raw[i - 1][1], raw[i - 1][1] == sig)):
                msg.ethsig = given
                msg.sig = None
                data = shortcuts.dump(msg, w.REQUESTOR.priv, None)
                loaded = attempt(ch, data, None, w.REQUESTOR.pub)
                ch.check(good != isinstance(loaded, Exception),
                         'many assignments', lambda: '{} {} {!r}'.format(
                             i, good, loaded))
            msg.ethsig = sig
        ch.see(count, differ)
    return engine.Scenario('many assignments', scenario)
