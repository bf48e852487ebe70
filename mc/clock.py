"""The clock which the code under test sees, moved by the harness only

freezegun shows it to all the sources of time; what it does about local time
(which knows no summer time, and shifts moments which have a time zone) is
replaced by what the real functions do.
"""
import calendar
import datetime
import os
import time

import freezegun
import freezegun.api as _api

# in a tuple, where freezegun does not replace it
REAL = (time.time, )
_REAL_LOCALTIME = (time.localtime, )
_REAL_DATETIME = (datetime.datetime, )
_UTC = datetime.timezone.utc
_STATE = {}


def _fake(moment):
    return _api.FakeDatetime(
        moment.year, moment.month, moment.day, moment.hour, moment.minute,
        moment.second, moment.microsecond, moment.tzinfo, fold=moment.fold)


def _frozen():
    """naive, in UTC"""
    now = _api.get_current_time()
    return _REAL_DATETIME[0](*now.timetuple()[:6], now.microsecond)


class _Local:
    """replaces methods of freezegun's datetime"""
    @classmethod
    def now(cls, tz=None):
        moment = _frozen()
        if tz is not None:
            return _fake(moment.replace(tzinfo=_UTC).astimezone(tz))
        return _fake(_REAL_DATETIME[0].fromtimestamp(
            calendar.timegm(moment.timetuple())).replace(
                microsecond=moment.microsecond))

    @classmethod
    def today(cls):
        return _Local.now()

    @classmethod
    def utcnow(cls):
        return _fake(_frozen())

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return _fake(_REAL_DATETIME[0].fromtimestamp(t, tz))

    def timestamp(self):
        return _REAL_DATETIME[0].timestamp(self)

    def astimezone(self, tz=None):
        return _fake(_REAL_DATETIME[0].astimezone(self, tz))


def _date_today(_cls=None):
    now = _Local.now()
    return _api.FakeDate(now.year, now.month, now.day)


def _localtime(t=None):
    if t is None:
        t = calendar.timegm(_frozen().timetuple())
    return _REAL_LOCALTIME[0](t)


def _install():
    for name in ('now', 'today', 'utcnow', 'fromtimestamp'):
        func = getattr(_Local, name).__func__
        setattr(_api.FakeDatetime, name, classmethod(func))
    for name in ('timestamp', 'astimezone'):
        setattr(_api.FakeDatetime, name, getattr(_Local, name))
    _api.FakeDate.today = classmethod(_date_today)
    _api.fake_localtime = _localtime


def set_time(seconds, microseconds=0, zone=0):
    """Freezes every source of time at this moment (UTC)

    zone: hours east of Greenwich of the local time zone, or its whole
          definition in the style of POSIX
    """
    moment = _REAL_DATETIME[0](1970, 1, 1) + datetime.timedelta(
        seconds=seconds, microseconds=microseconds)
    if _STATE.get('zone') != zone:
        os.environ['TZ'] = zone if isinstance(zone, str) \
            else 'MC{:+d}'.format(-zone)
        time.tzset()
        _STATE['zone'] = zone
    if 'frozen' not in _STATE:
        _install()
        freezer = freezegun.freeze_time(moment)
        _STATE.update(freezer=freezer, frozen=freezer.start())
    _STATE['frozen'].move_to(moment)
