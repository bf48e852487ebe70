"""C05: rotation of ephemeral keys"""
import hashlib

import coincurve

from golem_messages import cryptography

from mc import clock
from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'time never goes backwards',
    'a key is taken to be as old as its first appearance',
]


class Mirror(w.Key):
    """key with the same x coordinate of the public key as another one"""
    ORDER = int(
        'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141', 16)

    def __init__(self, key):
        super().__init__(key.name)
        self.name = 'mirror of ' + key.name
        self.priv = (
            self.ORDER - int.from_bytes(key.priv, 'big')).to_bytes(32, 'big')
        self.pub = ref.public(self.priv)


RECIPIENTS = (w.PROVIDER, w.REQUESTOR, Mirror(w.PROVIDER))
START = w.TS
assert RECIPIENTS[0].pub[:32] == RECIPIENTS[2].pub[:32]
assert coincurve and hashlib


def history(depth, timeouts, recipients, managers, steps):
    def scenario(ch):
        timeout = ch.pick('timeout', timeouts)
        now = START
        clock.set_time(now)
        made = [cryptography.ECIES(
            cryptography.ECIESKeyManager(timeout=timeout)
            if timeout is not None else None) for _ in range(managers)]
        timeout = timeout or 3600
        events = [('encrypt', m, r) for r in range(recipients)
                  for m in range(managers)]
        events += [('wait', s) for s in steps]
        born = {}
        owner = {}
        log = []
        for i in range(depth):
            # a history which ends with waiting shows nothing new
            options = events if i < depth - 1 else [
                e for e in events if e[0] == 'encrypt']
            event = ch.pick('event', options)
            if event[0] == 'wait':
                now += {
                    'half': timeout / 2,
                    'almost': timeout - 1,
                    'timeout': timeout,
                    'over': timeout + 1,
                }[event[1]]
                clock.set_time(now)
                continue
            _, m, r = event
            key = RECIPIENTS[r]
            data = b'data %d' % i
            encrypted = made[m].encrypt(data, key.pub)
            ch.step()
            ephemeral = encrypted[:65]
            born.setdefault(ephemeral, now)
            age = now - born[ephemeral]
            ch.check(age <= timeout, 'old key',
                     'key is {} s old, timeout {}'.format(age, timeout))
            owner.setdefault(ephemeral, (m, r))
            ch.check(owner[ephemeral] == (m, r), 'shared key',
                     '{} and {}'.format(owner[ephemeral], (m, r)))
            try:
                plain = ref.ecies_decrypt(encrypted, key.priv)
            except ValueError as e:
                plain = e
            ch.equal(plain, data, 'not decrypted by the reference')
            ch.equal(made[m].decrypt(encrypted, key.priv), data,
                     'not decrypted')
            log.append((m, r, age))
        ch.see(tuple(log))
    return scenario


def many_recipients(ch):
    """more recipients than fit into the cache"""
    count = ch.pick('recipients', (3, 1023, 1024, 1025, 1100))
    wait = ch.pick('wait', (0, 5, 11))
    now = START
    clock.set_time(now)
    ecies = cryptography.ECIES(cryptography.ECIESKeyManager(timeout=10))
    born, owner = {}, {}
    keys = []
    for i in range(count):
        secret = hashlib.sha256(b'%d' % i).digest()
        keys.append((secret, ref.public(secret)))
    for turn in range(2):
        for i, (secret, pub) in enumerate(keys):
            encrypted = ecies.encrypt(b'data', pub)
            ch.step()
            ephemeral = encrypted[:65]
            born.setdefault(ephemeral, now)
            ch.check(now - born[ephemeral] <= 10, 'old key')
            owner.setdefault(ephemeral, i)
            ch.check(owner[ephemeral] == i, 'shared key')
            if i % 100 == turn:
                ch.equal(ref.ecies_decrypt(encrypted, secret), b'data',
                         'not decrypted')
        now += wait
        clock.set_time(now)
    ch.see(count, wait, len(born) > count)


def scenarios(tier):
    if tier == 'quick':
        return [
            engine.Scenario('one manager', history(
                5, (10, 3600, None), 2, 1,
                ('half', 'almost', 'timeout', 'over'))),
            engine.Scenario('two managers', history(
                5, (10, ), 2, 2, ('half', 'over'))),
            engine.Scenario('recipients with one x', history(
                4, (10, ), 3, 1, ('half', 'over'))),
            engine.Scenario('many recipients', many_recipients),
        ]
    return [
        engine.Scenario('one manager', history(
            7, (10, 3600, None), 2, 1,
            ('half', 'almost', 'timeout', 'over'))),
        engine.Scenario('two managers', history(
            6, (10, 1), 3, 2, ('half', 'over'))),
        engine.Scenario('recipients with one x', history(
            6, (10, ), 3, 1, ('half', 'timeout', 'over'))),
        engine.Scenario('many recipients', many_recipients),
    ]
