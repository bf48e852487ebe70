"""C24: a signature is never silently replaced"""
import functools

from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages import utils

from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ZEROS = b'\0' * golden.SIG_LEN
KEYS = {'A': w.OTHER, 'B': w.CONCENT}
EVENTS = (
    'dump', 'dump A', 'dump B', 'dump encrypted', 'dump A encrypted',
    'sign A', 'sign B', 'sign A with hash', 'clear', 'older',
    'copy A', 'copy B', 'copy A but keep', 'reload', 'reload signed A',
    'change', 'change inside',
)


def altered(value):
    if isinstance(value, bool) or value is None:
        return None
    if isinstance(value, str):
        return value + '~'
    if isinstance(value, (int, float)):
        return value + 1
    if isinstance(value, bytes):
        return value + b'~'
    return None


def targets(msg, spec):
    """[(get, set)]: one plain field of the message, and one plain value
    somewhere inside one of its fields"""
    own = inside = None
    for slot in spec.slots:
        value = getattr(msg, slot)
        if own is None and altered(value) is not None:
            own = (functools.partial(getattr, msg, slot),
                   functools.partial(setattr, msg, slot))
        if inside is not None:
            continue
        if isinstance(value, list) and value and slot in spec.nested:
            value = value[0]
        if slot in spec.nested and value is not None:
            nested = golden.BY_NAME[spec.nested[slot][0]][1]
            inside = targets(value, nested)[0]
        elif isinstance(value, datastructures.Container):
            for name in type(value).__slots__:
                if altered(getattr(value, name)) is not None:
                    inside = (functools.partial(getattr, value, name),
                              functools.partial(setattr, value, name))
                    break
        elif isinstance(value, dict) and type(value).__name__ != 'Peer':
            for name in sorted(value, key=str):
                if altered(value[name]) is not None:
                    inside = (functools.partial(value.__getitem__, name),
                              functools.partial(value.__setitem__, name))
                    break
    return own, inside


class World:
    """a message and what is known of its signature"""

    def __init__(self, name):
        self.name = name
        self.type_, self.spec = golden.BY_NAME[name]
        over = {}
        if name == 'tasks.SubtaskResultsAccepted':
            over['payment_ts'] = w.TS - 60
        self.msg = w.build(name, signed=False, **over)
        self.slots = w.slots_spec(name, self.msg)
        self.timestamp = w.TS
        self.sig = None
        self.version = mc_load.RELEASE if name == 'base.Hello' else None
        self.variant = (False, False)
        self.contents = {self.variant: self.slots}
        self.find()
        self.values = [
            t and (t[0](), altered(t[0]())) for t in self.targets]

    def find(self):
        self.targets = targets(self.msg, self.spec)

    def change(self, which):
        if self.targets[which] is None:
            return
        variant = list(self.variant)
        variant[which] = not variant[which]
        self.variant = tuple(variant)
        self.targets[which][1](self.values[which][variant[which]])
        self.slots = w.slots_spec(self.name, self.msg)
        self.contents[self.variant] = self.slots

    def signature(self, key):
        return ref.sign(key.priv, self.digest())

    def digest(self):
        return ref.digest(
            self.type_, self.timestamp, ref.cbor(self.slots), self.version)

    def state(self):
        if self.sig not in (None, ZEROS):
            for age in range(4):
                for variant, slots in self.contents.items():
                    signer = ref.recover(self.sig, ref.digest(
                        self.type_, w.TS - age, ref.cbor(slots),
                        self.version))
                    for label, key in KEYS.items():
                        if signer == key.pub:
                            return label + str(age) + str(variant)
        return 'none' if self.sig is None else 'zeros'


def signed_by(ch, world, sig, key, what):
    ch.equal(ref.recover(sig, world.digest()), key.pub, what + ':signer',
             world.name)


def check_dump(ch, world, data, encrypted, what):
    ch.equal(data[:11], ref.header(
        world.type_, world.timestamp, encrypted and world.spec.encrypt),
             what + ':header')
    ch.equal(data[11:76], world.sig, what + ':signature on the wire',
             world.name)
    payload = data[76:]
    if world.version:
        payload = payload[:-32]
    if encrypted and world.spec.encrypt:
        payload = ref.ecies_decrypt(payload, w.PROVIDER.priv)
    ch.equal(payload, ref.cbor(world.slots), what + ':payload', world.name)


def event(ch, world, name):
    """applies one event to implementation and model, and judges"""
    msg = world.msg
    before = world.sig
    words = name.split()
    if words[0] == 'change':
        world.change(int(name == 'change inside'))
        return
    if words[0] == 'reload' and world.variant != (False, False):
        return  # changed contents need not be valid
    key = KEYS[words[-1]] if words[-1] in KEYS else None
    if words[0] in ('dump', 'reload'):
        signing = [KEYS[x] for x in words if x in KEYS]
        key = signing[0] if signing else None
        encrypted = 'encrypted' in words
        ch.step()
        try:
            data = shortcuts.dump(
                msg, key.priv if key else None,
                w.PROVIDER.pub if encrypted else None)
        except exceptions.SignatureAlreadyExists:
            ch.check(key is not None and before is not None,
                     'dump:refused', name)
            ch.equal(msg.sig, before, 'dump:changed by refusal')
            return
        ch.check(key is None or before is None, 'dump:signature replaced',
                 '{} of {}'.format(name, world.name))
        if before is not None:
            ch.equal(msg.sig, before, 'dump:signature kept')
        elif key is not None and world.spec.sign:
            signed_by(ch, world, msg.sig, key, 'dump')
        else:
            ch.equal(msg.sig, ZEROS, 'dump:empty signature')
        world.sig = msg.sig
        check_dump(ch, world, data, encrypted, 'dump')
        if words[0] == 'reload':
            world.msg = shortcuts.load(data, None, None, False)
            world.find()
            ch.step()
            ch.equal(world.msg.sig, world.sig, 'reload:signature')
    elif words[0] == 'sign':
        key = KEYS[words[1]]
        kwargs = {}
        if 'hash' in words:
            kwargs['msg_hash'] = world.digest()
        ch.step()
        msg.sign_message(key.priv, **kwargs)
        signed_by(ch, world, msg.sig, key, 'sign')
        world.sig = msg.sig
    elif name == 'clear':
        msg.sig = world.sig = None
    elif name == 'older':
        if world.timestamp > w.TS - 3:
            world.timestamp -= 1
            msg.header = w.header(world.name, world.timestamp)
    elif words[0] == 'copy':
        key = KEYS[words[1]]
        ch.step()
        copied = utils.copy_and_sign(msg, key.priv)
        if before is not None:
            ch.check(copied is msg, 'copy:of a signed one', world.name)
            ch.equal(msg.sig, before, 'copy:signature kept')
            return
        ch.check(copied is not msg and type(copied) is type(msg),
                 'copy:is the original')
        ch.check(msg.sig is None, 'copy:original signed', world.name)
        signed_by(ch, world, copied.sig, key, 'copy')
        ch.check(copied.slots() == msg.slots()
                 and copied.timestamp == msg.timestamp, 'copy:content')
        if 'keep' not in words:
            world.msg = copied
            world.find()
            world.sig = copied.sig
        else:
            # what is done to the original does not reach the copy
            sig = copied.sig
            msg.sign_message(KEYS['B'].priv)
            ch.equal(copied.sig, sig, 'copy:not independent')
            msg.sig = None


def invariant(ch):
    def check(world, history):
        msg = world.msg
        what = 'after ' + (history[-1] if history else 'nothing')
        ch.check(msg.sig == world.sig and (msg.sig is None) == (
            world.sig is None), what, '{}: {!r} instead of {!r}'.format(
                world.name, msg.sig, world.sig))
        for label, key in KEYS.items():
            try:
                good = msg.sig is not None and \
                    msg.verify_signature(key.pub)
            except exceptions.InvalidSignature:
                good = False
            ch.step()
            ch.equal(good, world.sig is not None and ref.recover(
                world.sig, world.digest()) == key.pub,
                     'verification ' + what, label)
    return check


def histories(names, depth):
    def scenario(ch):
        name = ch.pick('kind', names)

        def build(history):
            world = World(name)
            for step in history:
                event(ch, world, step)
            return world

        def canon(world):
            return (world.state(), world.timestamp, world.variant,
                    world.msg.encrypted)

        return engine.bfs(ch, (), EVENTS, build, canon, invariant(ch), depth)
    return scenario


def linear(names, depth):
    """every sequence, without merging of states"""
    def scenario(ch):
        world = World(ch.pick('kind', names))
        check = invariant(ch)
        history = []
        for i in range(depth):
            step = ch.pick('event {}'.format(i), EVENTS)
            event(ch, world, step)
            history.append(step)
        check(world, history)
        ch.see(world.name, world.state())
    return scenario


def scenarios(tier):
    deep = tier != 'quick'
    few = ['base.RandVal', 'base.Hello', 'p2p.Ping', 'base.Disconnect',
           'tasks.ReportComputedTask', 'resources.PullAnswer']
    return [
        engine.Scenario('histories', histories(w.names(), 4 if deep else 2)),
        engine.Scenario('long histories', histories(few, 8 if deep else 5)),
        engine.Scenario('sequences', linear(few, 4 if deep else 3)),
    ]
