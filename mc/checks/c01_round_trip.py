"""C01: every message comes out of the wire as it went in"""
from golem_messages import exceptions
from golem_messages import shortcuts

from mc import alphabet
from mc import bulk
from mc import engine
from mc import golden
from mc import sizes
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'field contents come from the alphabets of mc/alphabet.py; the number of '
    'fields which differ from the base message is bounded by the deviation '
    'bound',
]

MODES = (
    ('unsigned', False),
    ('signed', False),
    ('signed', True),
    ('unsigned', True),
)


def choose_message(ch, names, small, signed):
    name = ch.pick('class', names)
    spec = golden.BY_NAME[name][1]
    over = {}
    include = []
    timestamp = ch.dev('timestamp', (
        w.TS, golden.MIN_TIMESTAMP + 1, golden.MAX_TIMESTAMP - 1,
        2 ** 32 + 5))
    if name == 'tasks.SubtaskResultsAccepted' and timestamp != w.TS:
        over['payment_ts'] = timestamp
    for slot in spec.slots:
        if slot in spec.nested:
            options = alphabet.nested_options(name, slot)
            if name == 'concents.VerdictReportComputedTask':
                # both branches have to carry the same TaskToCompute
                options = [o for o in options
                           if not repr(o).startswith('older')]
        else:
            options = alphabet.slot_options(name, slot, small)
        if not options:
            continue
        option = ch.dev(slot, ['base'] + options)
        if option != 'base':
            over[slot] = alphabet.value_of(option)
    return name, w.build(
        name, signed=signed, timestamp=timestamp, include=include,
        sign_with=w.OTHER, **over)


def round_trip(names, small, modes):
    def scenario(ch):
        signed, encrypted = ch.pick('mode', modes)
        signed = signed == 'signed'
        name, msg = choose_message(ch, names, small, signed=False)
        spec = golden.BY_NAME[name][1]
        expected = w.slots_spec(name, msg)
        header = msg.header

        data = shortcuts.dump(
            msg,
            w.OTHER.priv if signed else None,
            w.PROVIDER.pub if encrypted else None,
        )
        ch.step()
        loaded = shortcuts.load(
            data,
            w.PROVIDER.priv if encrypted else None,
            w.OTHER.pub if signed else None,
            check_time=False,
        )
        ch.step()
        ch.check(type(loaded) is type(msg), name + ':type',
                 type(loaded).__name__)
        ch.equal(loaded.header.type_, header.type_, name + ':header type')
        ch.equal(loaded.timestamp, header.timestamp, name + ':timestamp')
        ch.equal(loaded.encrypted, encrypted and spec.encrypt,
                 name + ':encrypted flag')
        ch.equal(loaded.sig, msg.sig, name + ':sig')
        actual = w.slots_spec(name, loaded)
        for (slot, want), (_, got) in zip(expected, actual):
            ch.equal(got, want, '{}.{}:lost'.format(name, slot), slot)
        difference = w.difference(msg, loaded)
        ch.check(difference is None, name + ':difference', difference)
        ch.check(loaded == msg and msg == loaded, name + ':not equal',
                 'loaded message is not equal to the original')
        ch.check(not (loaded != msg or msg != loaded),
                 name + ':not equal')
        again = shortcuts.dump(loaded, None, None)
        ch.step()
        plain = shortcuts.dump(msg, None, None)
        ch.step()
        ch.equal(again, plain, name + ':second dump differs')
        ch.see(name, signed, encrypted, engine.fingerprint(expected))
    return scenario


HISTORIES = ('dumped unsigned', 'dumped signed', 'loaded', 'signed again')


def nested_places(names):
    return [
        (name, slot, inner) for name in names
        for slot, (klass, _, _) in golden.BY_NAME[name][1].nested.items()
        for inner in golden.BY_NAME[klass][1].slots
        if not (klass == 'tasks.TaskToCompute' and inner == 'ethsig')]


def changed_inside(names):
    """messages which are dumped, changed in a nested one and dumped again"""
    def scenario(ch):
        name, slot, inner = ch.pick('place', nested_places(names))
        klass, _, is_list = golden.BY_NAME[name][1].nested[slot]
        options = alphabet.nested_options(klass, inner) \
            if inner in golden.BY_NAME[klass][1].nested \
            else alphabet.slot_options(klass, inner, True)
        if not options:
            return
        option = ch.pick('content', options[:4])
        around = ch.pick('history', (
            'dumped', 'loaded', 'dumped and read', 'in another object'))

        def change(msg):
            value = getattr(msg, slot)
            nested = value[0] if is_list else value
            nested.sig = None
            setattr(nested, inner, alphabet.value_of(option))

        def attempt(msg):
            msg.sig = None
            data = shortcuts.dump(msg, None, None)
            return shortcuts.load(data, None, None, False)

        fresh = w.build(name, signed=False)
        if not getattr(fresh, slot):
            return
        change(fresh)
        ch.step(2)
        try:
            expected = w.slots_spec(name, attempt(fresh))
        except exceptions.MessageError:
            expected = None
        msg = w.build(name, signed=False)
        value = getattr(msg, slot)
        nested = value[0] if is_list else value
        nested.sig = None
        data = shortcuts.dump(msg, None, None)
        if around == 'loaded':
            msg = shortcuts.load(data, None, None, False)
        elif around == 'dumped and read':
            w.slots_spec(name, msg)
            repr(msg)
        elif around == 'in another object':
            other = w.build(name, signed=False)
            setattr(other, slot, value)
            msg = other
        change(msg)
        ch.step(2)
        try:
            actual = w.slots_spec(name, attempt(msg))
        except exceptions.MessageError:
            actual = None
        ch.check((actual is None) == (expected is None),
                 '{}.{}.{}:changed inside, refused'.format(name, slot, inner),
                 around)
        ch.equal(actual, expected,
                 '{}.{}.{}:not changed inside'.format(name, slot, inner),
                 around)
        ch.see(name, around, expected is None)
    return scenario


def changed(names):
    """messages which are dumped, changed and dumped again"""
    def scenario(ch):
        name = ch.pick('class', names)
        spec = golden.BY_NAME[name][1]
        history = ch.pick('history', HISTORIES)
        slot = ch.pick('field', list(spec.slots) + ['header'])
        if slot == 'header':
            options = ['header']
        elif slot in spec.nested:
            options = alphabet.nested_options(name, slot)
        else:
            options = alphabet.slot_options(name, slot, True)
        if not options:
            return
        option = ch.pick('content', options)
        msg = w.build(name, signed=False)
        sign = history in ('dumped signed', 'signed again')
        first = shortcuts.dump(msg, w.OTHER.priv if sign else None, None)
        ch.step()
        if history == 'loaded':
            msg = shortcuts.load(first, None, None, False)
        if history == 'signed again':
            msg.sig = None
        before = w.slots_spec(name, msg)
        if slot == 'header':
            msg.header = w.header(name, w.TS - 1)
        else:
            setattr(msg, slot, alphabet.value_of(option))
        expected = w.slots_spec(name, msg)
        try:
            data = shortcuts.dump(
                msg, w.OTHER.priv if history == 'signed again' else None,
                None)
            loaded = shortcuts.load(
                data, None,
                w.OTHER.pub if history == 'signed again' else None, False)
        except exceptions.MessageError:
            # the change is no valid one
            fresh = w.build(name, signed=False)
            if slot == 'header':
                fresh.header = msg.header
            else:
                setattr(fresh, slot, alphabet.value_of(option))
            try:
                shortcuts.load(shortcuts.dump(fresh, None, None), None, None,
                               False)
            except exceptions.MessageError:
                ch.see(name, 'refused')
                return
            ch.fail('{}.{}:refused after change'.format(name, slot))
        ch.step(2)
        actual = w.slots_spec(name, loaded)
        for (field, want), (_, got) in zip(expected, actual):
            ch.equal(got, want, '{}.{}:not changed'.format(name, field),
                     history)
        ch.check(loaded == msg and w.difference(msg, loaded) is None,
                 name + ':changed differs', history)
        ch.see(name, history, before == expected)
    return scenario


def scenarios(tier):
    names = w.names()
    if tier == 'quick':
        return [
            engine.Scenario(
                'one field deviates, signed and encrypted',
                round_trip(names, False, MODES[2:3]), bound=1),
            engine.Scenario(
                'one field deviates, small alphabet, other modes',
                round_trip(names, True, MODES[:2] + MODES[3:]), bound=1),
            sizes.round_trip(tier),
            bulk.round_trips(tier),
            engine.Scenario('changed', changed(names)),
            engine.Scenario('changed inside', changed_inside(names)),
        ]
    return [
        engine.Scenario(
            'one field deviates, every mode',
            round_trip(names, False, MODES), bound=1),
        engine.Scenario(
            'two fields deviate, small alphabet',
            round_trip(names, True, MODES[2:3]), bound=2),
        sizes.round_trip(tier),
        bulk.round_trips(tier),
        engine.Scenario('changed', changed(names)),
        engine.Scenario('changed inside', changed_inside(names)),
    ]
