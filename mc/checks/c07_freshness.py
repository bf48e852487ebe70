"""C07: only fresh messages are accepted"""
from golem_messages import exceptions
from golem_messages import shortcuts

from mc import clock
from mc import engine
from mc import golden
from mc import load as mc_load
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'with a clock which shows a fraction of a second, ages between 600 and '
    '601 seconds are left open (the documentation speaks of a precision of '
    'one second)',
]
ZONES = (0, -5, 9)
# with summer time, and the moments when it begins and ends
SUMMER = (
    ('CET-1CEST,M3.5.0,M10.5.0/3', (1553994000, 1572138000)),
    ('EST5EDT,M3.2.0,M11.1.0', (1552201200, 1572760800)),
)


def expected(timestamp, now, micro, check_time):
    """class of the error, None if accepted, or () if not defined"""
    if not golden.MIN_TIMESTAMP < timestamp < golden.MAX_TIMESTAMP:
        return exceptions.HeaderError
    if not check_time:
        return None
    age = now - timestamp
    if age > golden.MSG_TTL:
        return exceptions.MessageTooOldError
    if age == golden.MSG_TTL and micro:
        return ()
    if -age > golden.FUTURE_TOLERANCE:
        return exceptions.MessageFromFutureError
    return None


def attempt(ch, name, timestamp, now, micro=0, zone=0, check_time=True,
            how='plain'):
    clock.set_time(now, micro, zone)
    type_, spec = golden.BY_NAME[name]
    over = {}
    if name == 'tasks.SubtaskResultsAccepted':
        over['payment_ts'] = timestamp
    slots = w.slots_spec(name, w.build(name, signed=False, **over))
    version = mc_load.RELEASE if name == 'base.Hello' else None
    sig = None
    if how != 'plain' and spec.sign:
        sig = ref.sign(w.OTHER.priv, ref.digest(
            type_, timestamp, ref.cbor(slots), version))
    data = ref.wire(
        type_, timestamp, slots, how == 'encrypted' and spec.encrypt, sig,
        version, lambda p: ref.ecies_encrypt(
            p, w.PROVIDER.pub, w.ETH.priv, b'\1' * 16))
    want = expected(timestamp, now, micro, check_time)
    kwargs = {} if check_time else {'check_time': False}
    if check_time is None:
        want = expected(timestamp, now, micro, True)
        kwargs = {}
    ch.step()
    try:
        loaded = shortcuts.load(
            data, w.PROVIDER.priv if how == 'encrypted' else None,
            w.OTHER.pub if sig else None, **kwargs)
    except exceptions.MessageError as e:
        got = type(e)
    else:
        got = None
        ch.equal(loaded.timestamp, timestamp, 'timestamp')
    text = 'message of {}, clock {}.{:06}, zone {}: {} instead of {}'.format(
        timestamp, now, micro, zone, got, want)
    if want == ():
        ch.check(got in (None, exceptions.MessageTooOldError),
                 'edge of the age', text)
    elif want is exceptions.HeaderError:
        ch.check(got is not None and issubclass(got, want),
                 'limit of timestamps', text)
    else:
        ch.check(got is want, 'freshness', text)
    ch.see(name, now - timestamp, got.__name__ if got else None)


def kinds(ch):
    """every kind of message on both sides of each limit"""
    name = ch.pick('class', w.names())
    how = ch.pick('how', ('plain', 'signed', 'encrypted'))
    age = ch.pick('age', (0, 599, 600, 601, 10 ** 6, -299, -300, -301,
                          -10 ** 6))
    check_time = ch.pick('check time', (True, False))
    attempt(ch, name, w.TS - age, w.TS, check_time=check_time, how=how)


def window(span, clocks):
    def scenario(ch):
        zone = ch.pick('zone', ZONES)
        now, micro = ch.pick('clock', clocks)
        age = ch.pick('age', span)
        timestamp = now - age
        if not 0 <= timestamp < 2 ** 64:
            return
        attempt(ch, 'p2p.Ping', timestamp, now, micro, zone,
                ch.pick('check time', (True, False)))
    return scenario


def summer_time(ch):
    """around the changes between summer time and winter time"""
    zone, changes = ch.pick('zone', SUMMER)
    now = ch.pick('change', changes) + ch.pick('since the change', (
        -3600, -601, -600, -300, -1, 0, 1, 300, 301, 599, 600, 601, 3599,
        3600))
    age = ch.pick('age', (
        601, 600, 599, 0, -299, -300, -301, 3000, 3600, 4200, 4201, -3000,
        -3600, -3900, -3901))
    attempt(ch, 'p2p.Ping', now - age, now, 0, zone)


def limits(ch):
    """the outer limits, with clocks which would like the timestamp"""
    name = ch.pick('class', ('p2p.Ping', 'base.Hello', 'base.RandVal',
                             'tasks.SubtaskResultsAccepted'))
    limit = ch.pick('limit', (
        golden.MIN_TIMESTAMP, golden.MAX_TIMESTAMP, 0, 2 ** 31, 2 ** 32,
        253402300800, 2 ** 63, 2 ** 64))
    timestamp = limit + ch.pick('delta', (
        -600, -300, -2, -1, 0, 1, 2, 300, 600))
    if not 0 <= timestamp < 2 ** 64:
        return
    now = ch.pick('clock', (
        golden.MIN_TIMESTAMP, golden.MIN_TIMESTAMP + 1,
        golden.MAX_TIMESTAMP, golden.MAX_TIMESTAMP - 1, w.TS,
        min(timestamp, 250 * 10 ** 9)))
    attempt(ch, name, timestamp, now,
            check_time=ch.pick('check time', (True, False)))


CLOCKS = (
    (w.TS, 0), (w.TS, 1), (w.TS, 500000), (w.TS, 999999),
    (golden.MIN_TIMESTAMP + 10000, 0),
    (1582934400, 0),  # leap day
    (1553994000, 0),  # change of summer time in Europe
    (4102444800, 0),
)


def scenarios(tier):
    edge = sorted(set(
        list(range(590, 612)) + list(range(-311, -289)) + list(
            range(-3, 4)) + [
                i * 3600 + d for i in range(-12, 13) for d in (0, 1, -1)] + [
                    86400, -86400, 10 ** 8]))
    result = [
        engine.Scenario('kinds', kinds),
        engine.Scenario('limits', limits),
        engine.Scenario('summer time', summer_time),
    ]
    if tier == 'quick':
        result.append(engine.Scenario('window', window(edge, CLOCKS)))
    else:
        result.append(engine.Scenario('window', window(
            sorted(set(edge) | set(range(-2000, 2001))), CLOCKS)))
    return result
