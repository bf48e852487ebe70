"""C28: time limits and deposits"""
import datetime
import fractions
import os
import time

from golem_messages import constants
from golem_messages import helpers
from golem_messages import message
from golem_messages import shortcuts
from golem_messages.message import tasks

from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'sizes up to 2**53 bytes; times up to microseconds',
]

# the protocol's numbers
RATE = 48
LEADIN_S = 60
CMT_S = 240
FORCED_DELAY_S = 145
TIMES = {
    'MMTT': 5, 'MTD': 10, 'MAT': 135, 'MAX_CONCENT_PING_INTERVAL': 60,
    'CMT': CMT_S, 'FAT': 4 * CMT_S, 'AVCT': 7 * CMT_S, 'PDT': 12 * 3600,
    'DOWNLOAD_LEADIN_TIME': LEADIN_S,
}


def download_seconds(size, rate=RATE):
    return LEADIN_S + -(-size // (rate * 1024))


def same_time(ch, got, seconds, key, what=''):
    """exact comparison (seconds may be a fraction)"""
    ch.check(isinstance(got, datetime.timedelta), key, engine.short(got))
    exact = fractions.Fraction(
        got.days * 86400 + got.seconds) + fractions.Fraction(
            got.microseconds, 10 ** 6)
    ch.check(exact == seconds, key, lambda: '{}: {} instead of {} s'.format(
        what, got, seconds))


def download(rates, multiples, near):
    def scenario(ch):
        rate = ch.pick('rate', rates)
        multiple = ch.pick('seconds', multiples)
        for offset in near:
            size = multiple * 1024 * rate + offset
            if not 0 <= size <= 2 ** 53:
                continue
            ch.step()
            same_time(ch, helpers.maximum_download_time(size, rate),
                      download_seconds(size, rate), 'download time',
                      'size {} rate {}'.format(size, rate))
            if rate == RATE:
                ch.step(2)
                same_time(ch, helpers.maximum_download_time(size),
                          download_seconds(size), 'default rate',
                          'size {}'.format(size))
                same_time(ch, helpers.maximum_download_time(size=size),
                          download_seconds(size), 'by keyword')
        ch.see(rate, multiple)
    return scenario


def small_sizes(blocks):
    """each size within the first seconds at the default rate"""
    def scenario(ch):
        block = ch.pick('block', range(blocks))
        for size in range(block * 4096, block * 4096 + 4096):
            ch.step()
            same_time(ch, helpers.maximum_download_time(size),
                      download_seconds(size), 'small size', size)
        ch.see(block)
    return scenario


def report(size, timestamp, deadline, stamps):
    """stamps: of the other messages"""
    return tasks.ReportComputedTask(
        header=w.header('tasks.ReportComputedTask', stamps[0]),
        size=size,
        task_to_compute=tasks.TaskToCompute(
            header=w.header('tasks.TaskToCompute', timestamp),
            compute_task_def=tasks.ComputeTaskDef(w.ctd_dict(
                deadline=deadline)),
            want_to_compute_task=tasks.WantToComputeTask(
                header=w.header('tasks.WantToComputeTask', stamps[1]),
                task_header=w.task_header(),
            ),
        ),
    )


ZONES = ('UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX11:30')
# around the changes to and from summer time in 2019 too
MOMENTS = (w.TS, 1553997600, 1572141600, 0, 2 ** 31)
INTERVALS = (
    600, 0, 1, 2, 3, 59, 3599, 3600, 3601, 86399, 86400, 86401, 10 ** 7 + 1,
    -1, -3600, fractions.Fraction(1, 2), fractions.Fraction(3, 4),
    fractions.Fraction(-1, 4), fractions.Fraction(24001, 8))
SIZES = (0, 1, 49151, 49152, 49153, 10 ** 6, 2 ** 30, 2 ** 40, 2 ** 50 + 1)


def in_zone(zone):
    os.environ['TZ'] = zone
    time.tzset()


def verification(moments, intervals, sizes, zones):
    def scenario(ch):
        in_zone(ch.pick('zone', zones))
        timestamp = ch.pick('timestamp', moments)
        interval = ch.pick('interval', intervals)
        size = ch.pick('size', sizes)
        stamps = ch.pick('other timestamps', [
            (timestamp, timestamp), (timestamp + 50, timestamp - 7),
            (w.TS + 9, w.TS + 8)])
        if timestamp + interval < 0:
            return
        deadline = timestamp + interval
        if deadline == int(deadline):
            deadline = int(deadline)
        else:
            deadline = float(deadline)
        msg = report(size, timestamp, deadline, stamps)
        expected = 4 * CMT_S + 3 * download_seconds(size) \
            + fractions.Fraction(interval) / 2
        ch.step()
        same_time(ch, helpers.subtask_verification_time(msg), expected,
                  'verification time')
        ch.step()
        same_time(
            ch, helpers.subtask_verification_time(report_computed_task=msg),
            expected, 'verification time by keyword')
        ch.see(interval, size)
    return scenario


def received(ch):
    """a report which came from the network"""
    in_zone(ch.pick('zone', ZONES[:2]))
    size = ch.pick('size', SIZES)
    interval = ch.pick('interval', (3600, 3601, 1))
    stamp = ch.pick('timestamp', (w.TS, 1553997600))
    msg = w.build(
        'tasks.ReportComputedTask', size=size,
        task_to_compute=w.build(
            'tasks.TaskToCompute', timestamp=stamp,
            compute_task_def=tasks.ComputeTaskDef(w.ctd_dict(
                deadline=stamp + interval))))
    data = shortcuts.dump(msg, None, w.REQUESTOR.pub)
    loaded = shortcuts.load(data, w.REQUESTOR.priv, None, False)
    ch.step(3)
    same_time(
        ch, helpers.subtask_verification_time(loaded),
        4 * CMT_S + 3 * download_seconds(size)
        + fractions.Fraction(interval, 2), 'received')
    ch.see(size, interval)


PRICES = tuple(range(0, 1025)) + tuple(
    2 ** n + d for n in range(11, 258) for d in (-1, 0, 1))


def deposits(ch):
    block = ch.pick('block', range(0, len(PRICES), 50))
    for price in PRICES[block:block + 50]:
        ch.step(4)
        for function, name, low, high in (
                (helpers.requestor_deposit_amount, 'total_task_price', 2, 4),
                (helpers.provider_deposit_amount, 'subtask_price', 1, 4)):
            for got in (function(price), function(**{name: price})):
                required, suggested = got
                ch.equal(required, low * price, name + ':required')
                ch.equal(suggested, high * price, name + ':suggested')
                ch.check(type(required) is type(suggested) is int,
                         name + ':type')
    ch.see(block)


def module_class(name):
    module, attr = name.split('.')
    return getattr(getattr(message, module), attr)


def delays(ch):
    """the delays, asked for in any order"""
    names = w.names()
    history = [ch.pick('first', names)]
    for second in names:
        for name in (history[0], second, history[0]):
            ch.step()
            same_time(
                ch, constants.MSG_DELAYS[module_class(name)],
                FORCED_DELAY_S
                if name == 'concents.ForceReportComputedTask' else 0,
                'delay of ' + name)
    ch.see(history)


def constants_(ch):
    name = ch.pick('name', list(TIMES))
    same_time(ch, getattr(constants, name), TIMES[name], name)
    ch.equal(constants.DEFAULT_UPLOAD_RATE, RATE, 'rate')
    assert set(w.names()) == set(golden.BY_NAME)


def scenarios(tier):
    quick = tier == 'quick'
    near = (-1, 0, 1, 1023, 1024)
    return [
        engine.Scenario('download', download(
            (48, 1, 2, 3, 47, 49, 384, 1000, 1024),
            tuple(range(0, 400 if quick else 4000)) + tuple(
                2 ** n for n in range(9, 38)), near)),
        engine.Scenario('small sizes', small_sizes(40 if quick else 800)),
        engine.Scenario('verification', verification(
            MOMENTS[:3] if quick else MOMENTS, INTERVALS, SIZES, ZONES)),
        engine.Scenario('received', received),
        engine.Scenario('deposits', deposits),
        engine.Scenario('delays', delays),
        engine.Scenario('constants', constants_),
    ]
