"""Stateless, exhaustive exploration of choice trees over the real code.

A *scenario* is a function which drives the implementation and asks the
explorer for every decision (`pick`: free choice, `dev`: a deviation from the
default answer, limited by the deviation bound).  The explorer runs it once
for every sequence of answers, depth first, until the tree is exhausted.  Each
complete execution is compared with a reference model written in the scenario.

A violation is identified by a key and is replayable: the sequence of answers
is stored in a file and `run.py <ID> --replay FILE` repeats that execution.
"""
import collections
import json
import mmap
import os
import pathlib
import pickle
import signal
import struct
import sys
import time
import traceback
import zlib

from . import clock

VERIF = pathlib.Path(__file__).resolve().parent.parent


class EngineError(Exception):
    """The harness itself is wrong (divergence, bad prefix...)"""


class Divergence(EngineError):
    """The same choices led to something else than the time before"""

    def __init__(self, message, place):
        super().__init__(message)
        self.place = place


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = clip(str(key), 120)
        self.message = clip(str(message))


def clip(text, limit=1200):
    if len(text) > limit:
        text = '{}... ({} characters)'.format(text[:limit], len(text))
    return text


def short(value, limit=160):
    text = repr(value)
    if len(text) > limit:
        text = text[:limit] + '...'
    return text


def fingerprint(value):
    data = repr(value).encode('utf-8', 'surrogatepass')
    return zlib.crc32(data) << 32 | zlib.adler32(data)


class Choices:
    """One execution: hands out answers and records them"""

    def __init__(self, prefix=(), bound=0, expect=None):
        self.prefix = prefix
        self.bound = bound
        self.expect = expect
        self.trace = []  # (label, allowed, index)
        self.chosen = []  # (label, option)
        self.used = 0
        self.steps = 0
        self.compared = 0
        self.observed = []

    def _next(self, label, count, cost):
        if not count:
            raise EngineError('no options at {}'.format(label))
        pos = len(self.trace)
        allowed = count if not cost or self.used < self.bound else 1
        index = self.prefix[pos] if pos < len(self.prefix) else 0
        if self.expect is not None and pos < len(self.expect):
            if self.expect[pos] != (label, allowed):
                raise Divergence(
                    'divergence at {}: {} instead of {}'.format(
                        pos, (label, allowed), self.expect[pos]), pos)
        if index >= allowed:
            raise EngineError('choice {} of {} at {} ({})'.format(
                index, allowed, pos, label))
        if index and cost:
            self.used += 1
        self.trace.append((label, allowed, index))
        return index

    def pick(self, label, options):
        """A free choice between all the options"""
        index = self._next(label, len(options), 0)
        self.chosen.append((label, options[index]))
        return options[index]

    def dev(self, label, options):
        """options[0] is the default, every other costs one deviation"""
        index = self._next(label, len(options), 1)
        if index:
            self.chosen.append((label, options[index]))
        return options[index]

    def flag(self, label):
        return self.pick(label, (False, True))

    # Bookkeeping

    def step(self, num=1):
        """the implementation was called"""
        self.steps += num

    def see(self, *observation):
        """adds to the observed outcome of this execution"""
        self.observed.append(observation)

    # Oracle

    def check(self, condition, key, message=''):
        self.compared += 1
        if not condition:
            if callable(message):
                message = message()
            raise Violation(key, str(message))

    def equal(self, actual, expected, key, what=''):
        self.compared += 1
        if not actual == expected or type(actual) is not type(expected) \
                and isinstance(expected, (bool, bytes, str, type(None))):
            raise Violation(key, '{} got {} expected {}'.format(
                what, short(actual), short(expected)))

    def fail(self, key, message=''):
        raise Violation(key, message)

    def describe(self):
        return [[label, short(option, 100)] for label, option in self.chosen]


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.compared = 0
        self.choice_points = 0
        self.max_depth = 0
        self.states = set()
        self.samples = []
        self.violations = {}  # key -> record
        self.capped = False
        self.extra = collections.Counter()

    def merge(self, other):
        self.executions += other.executions
        self.transitions += other.transitions
        self.compared += other.compared
        self.choice_points += other.choice_points
        self.max_depth = max(self.max_depth, other.max_depth)
        self.states |= other.states
        self.capped = self.capped or other.capped
        self.extra.update(other.extra)
        for sample in other.samples:
            if len(self.samples) < 4:
                self.samples.append(sample)
        for key, record in other.violations.items():
            old = self.violations.get(key)
            if old is None or len(record['choices']) < len(old['choices']):
                self.violations[key] = record

    def dump(self):
        return {
            'executions': self.executions,
            'transitions': self.transitions,
            'compared': self.compared,
            'choice_points': self.choice_points,
            'max_depth': self.max_depth,
            'states': sorted(self.states),
            'samples': self.samples,
            'violations': self.violations,
            'capped': self.capped,
            'extra': dict(self.extra),
        }

    @classmethod
    def load(cls, data):
        self = cls()
        self.__dict__.update(data)
        self.states = set(data['states'])
        self.extra = collections.Counter(data['extra'])
        return self


class Scenario:
    """A named choice tree.

    func(ch): the body, bound: the deviation bound.
    """

    def __init__(self, name, func, bound=0, shard=True, isolate=False):
        self.name = name
        self.func = func
        self.bound = bound
        self.shard = shard
        # every execution in a process of its own
        self.isolate = isolate


# a violation which is not listed makes the rest less interesting: after this
# time the exploration stops and is reported as not completed
GRACE_S = int(os.environ.get('MC_GRACE', 60))
KNOWN = set()
_found = mmap.mmap(-1, 8)  # shared by all workers: when it was found


def _note_violation(key):
    if key not in KNOWN and not struct.unpack('d', _found[:])[0]:
        _found[:] = struct.pack('d', clock.REAL[0]())


def _enough():
    since = struct.unpack('d', _found[:])[0]
    return since and clock.REAL[0]() - since > GRACE_S


HANG_S = int(os.environ.get("MC_HANG", 150))


class Hang(BaseException):
    """not to be caught by the code under test, nor by a scenario"""


def _alarm(_signum, _frame):
    raise Hang()


RETRIES = 2
REALIGNMENTS = 20


def execute(scenario, prefix, expect=None):
    """One execution; returns (choices, violation record or None)

    One which went another way than the same choices did before is done
    again: something from outside (the collector, the compiler) may have come
    in between. If it goes on like that it's an error.
    """
    for retry in range(RETRIES + 1):
        try:
            return _execute_once(scenario, prefix, expect)
        except Divergence as e:
            if retry == RETRIES:
                raise Divergence(
                    '{}: {}'.format(scenario.name, e), e.place)
            # threads of the execution given up go home
            time.sleep(0.05)
    return None


def _execute_once(scenario, prefix, expect):
    if scenario.isolate:
        return _execute_isolated(scenario, prefix, expect)
    return _execute(scenario, prefix, expect)


def _execute_isolated(scenario, prefix, expect):
    """in a child which starts from the same state each time"""
    sys.stdout.flush()
    sys.stderr.flush()
    inp, out = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(inp)
            try:
                ch, record = _execute(scenario, prefix, expect)
                data = (
                    ch.trace, [(label, short(option, 100))
                               for label, option in ch.chosen],
                    ch.used, ch.steps, ch.compared,
                    [fingerprint(o) for o in ch.observed], record)
            except BaseException:  # pylint: disable=broad-except
                data = traceback.format_exc()
            with os.fdopen(out, 'wb') as stream:
                pickle.dump(data, stream)
            code = 0
        finally:
            os._exit(code)
    os.close(out)
    with os.fdopen(inp, 'rb') as stream:
        data = stream.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise EngineError('isolated execution ended with {}'.format(status))
    data = pickle.loads(data)
    if isinstance(data, str):
        raise EngineError('in an isolated execution:\n' + data)
    ch = Choices(prefix, scenario.bound, expect)
    (ch.trace, ch.chosen, ch.used, ch.steps, ch.compared, ch.observed,
     record) = data
    return ch, record


def _execute(scenario, prefix, expect=None):
    ch = Choices(prefix, scenario.bound, expect)
    record = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        result = scenario.func(ch)
        if result is not None:
            ch.observed.append(result)
    except Violation as e:
        record = {'key': e.key, 'message': e.message}
    except Hang:
        record = {'key': 'hang',
                  'message': 'no answer within {} s'.format(HANG_S)}
    except (EngineError, MemoryError, OSError, KeyboardInterrupt):
        raise
    except Exception as e:  # pylint: disable=broad-except
        frames = traceback.extract_tb(e.__traceback__)
        where = [f for f in frames if 'golem_messages' in f.filename]
        spot = where[-1] if where else frames[-1]
        record = {
            'key': 'unexpected:{}:{}:{}'.format(
                type(e).__name__,
                os.path.basename(spot.filename),
                spot.name,
            ),
            'message': 'unexpected {}: {}\n{}'.format(
                type(e).__name__, short(e), '\n'.join(
                    '  {}:{} {}'.format(
                        os.path.basename(f.filename), f.lineno, f.name)
                    for f in frames[-8:])),
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if len(ch.trace) < len(prefix) and record is None:
        raise EngineError('prefix {} not consumed'.format(prefix))
    if record is not None:
        record['scenario'] = scenario.name
        record['choices'] = [t[2] for t in ch.trace]
        record['described'] = ch.describe()
    return ch, record


MAX_VIOLATIONS = 25


def _spread(trace, floor, end, pos):
    """The rest of a search, whose next branch is at `pos`, as separate tasks

    A task (prefix, floor, end) starts with the prefix and goes on with the
    branches after it at all the positions from the floor on, at the floor
    only with those before `end`.
    """
    def limit(i):
        return end if i == floor and end is not None else trace[i][1]

    def task(i, option, low, low_end):
        return tuple(t[2] for t in trace[:i]) + (option, ), low, low_end

    places = [i for i in range(floor, pos + 1) if trace[i][2] + 1 < limit(i)]
    step = max(1, len(places) // CHUNKS)
    tasks = []
    high = len(places)
    while high:
        low = max(0, high - step)
        last = places[high - 1]
        if high - low > 1:
            tasks.append(task(last, trace[last][2] + 1, places[low],
                              limit(places[low])))
        else:
            options = range(trace[last][2] + 1, limit(last))
            size = max(1, len(options) // CHUNKS)
            for start in range(options.start, options.stop, size):
                tasks.append(task(
                    last, start, last, min(start + size, options.stop)))
        high = low
    return tasks


CHUNKS = 8


def explore(scenario, root=(), stats=None, deadline=None, floor=None,
            slice_s=None, rest=None, end=None):
    """Depth-first exhaustion of the tree below the prefix `root`

    With `slice_s`, after that time what is left is added to `rest`.
    """
    stats = stats or Stats()
    prefix, expect = tuple(root), None
    floor = len(prefix) if floor is None else floor
    until = slice_s and clock.REAL[0]() + slice_s
    realigned = 0
    while True:
        try:
            ch, record = execute(scenario, prefix, expect)
        except Divergence as e:
            # If it was the earlier execution that something came in between
            # of, all that is below the place where they part is explored anew
            realigned += 1
            if realigned > REALIGNMENTS or not floor <= e.place < len(prefix):
                raise
            prefix, expect = prefix[:e.place], expect[:e.place]
            continue
        stats.executions += 1
        stats.transitions += max(ch.steps, 1)
        stats.compared += ch.compared
        stats.choice_points += len(ch.trace)
        stats.max_depth = max(stats.max_depth, len(ch.trace))
        stats.states.add(fingerprint((scenario.name, ch.observed)))
        if len(stats.samples) < 1:
            stats.samples.append({
                'scenario': scenario.name,
                'choices': ch.describe(),
                'observed': short(ch.observed, 300),
            })
        if record is not None:
            if os.environ.get('MC_STOP'):
                # for tools/mutate.py
                os.write(1, 'STOPPED {}\n'.format(
                    json.dumps(record['key'])).encode())
                os.killpg(0, signal.SIGKILL)
            stats.violations.setdefault(record['key'], record)
            _note_violation(record['key'])
            if len(stats.violations) > MAX_VIOLATIONS \
                    or record['key'] == 'hang':
                stats.capped = True
                return stats
        if _enough():
            stats.capped = True
            return stats
        # next branch
        trace = ch.trace
        pos = len(trace) - 1
        if pos < len(prefix) - 1:
            # ended with a violation before the place where the earlier
            # execution with the same choices had gone on
            stats.capped = True
            return stats
        while pos >= floor and trace[pos][2] + 1 >= (
                end if pos == floor and end is not None else trace[pos][1]):
            pos -= 1
        if pos < floor:
            return stats
        if until and clock.REAL[0]() > until:
            rest.extend(_spread(trace, floor, end, pos))
            return stats
        prefix = tuple(t[2] for t in trace[:pos]) + (trace[pos][2] + 1,)
        expect = [(t[0], t[1]) for t in trace[:pos + 1]]
        if deadline is not None and clock.REAL[0]() > deadline:
            stats.capped = True
            return stats


SLICES_S = (0.2, 0.5, 1.0, 2.0)


def _worker(conn_in, conn_out, scenarios, deadline):
    """Serves (scenario index, prefix, floor) lines until EOF"""
    stats = collections.defaultdict(Stats)
    status = 'ok'
    rest = []
    served = 0
    try:
        while True:
            conn_out.write('next {}\n'.format(json.dumps(rest)))
            conn_out.flush()
            line = conn_in.readline()
            if not line.strip():
                break
            index, prefix, floor, end = json.loads(line)
            scenario = scenarios[index]
            rest = []
            explore(scenario, tuple(prefix), stats[index], deadline, floor,
                    SLICES_S[min(served, len(SLICES_S) - 1)]
                    if scenario.shard else None, rest, end)
            rest = [(index, ) + task for task in rest]
            served += 1
            if 'hang' in stats[index].violations:
                # the rest may be as slow
                stats[index].capped = True
                break
    except BaseException:  # pylint: disable=broad-except
        status = traceback.format_exc()
    conn_out.write('done ' + json.dumps({
        'status': status,
        'stats': {str(i): s.dump() for i, s in stats.items()},
    }) + '\n')
    conn_out.flush()


def _send(fd, task):
    data = (json.dumps(task) + '\n').encode()
    while data:
        data = data[os.write(fd, data):]


def run_parallel(scenarios, jobs, deadline=None, errors=None):
    """Explores all the scenarios, returns {name: Stats}

    Errors of the harness are appended to `errors`, or raised if it is None.
    """
    strict = errors is None
    errors = [] if strict else errors
    # scenarios which cannot be divided first
    tasks = [(i, (), 0, None) for i, _ in sorted(
        enumerate(scenarios), key=lambda item: item[1].shard)]
    result = {s.name: Stats() for s in scenarios}
    if jobs <= 1:
        for scenario in scenarios:
            explore(scenario, (), result[scenario.name], deadline)
        return result

    import select
    children = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(jobs):
        to_r, to_w = os.pipe()
        from_r, from_w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(to_w)
                os.close(from_r)
                for fd in list(children):
                    os.close(fd)
                    os.close(children[fd][1])
                with os.fdopen(to_r, 'r') as inp, \
                        os.fdopen(from_w, 'w') as out:
                    _worker(inp, out, scenarios, deadline)
                code = 0
            finally:
                os._exit(code)
        os.close(to_r)
        os.close(from_w)
        children[from_r] = (pid, to_w, [b''])
    tasks.reverse()
    idle = []
    try:
        while children:
            if len(idle) == len(children) and not tasks:
                # nothing more can come
                for _, to_w, _ in children.values():
                    os.write(to_w, b'\n')
                idle = []
            ready, _, _ = select.select(list(children), [], [])
            for fd in ready:
                pid, to_w, buf = children[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    os.close(fd)
                    os.close(to_w)
                    del children[fd]
                    _, status = os.waitpid(pid, 0)
                    errors.append('worker died: {}'.format(status))
                    continue
                buf[0] += data
                while b'\n' in buf[0]:
                    line, buf[0] = buf[0].split(b'\n', 1)
                    if line.startswith(b'next '):
                        tasks.extend(json.loads(line[5:].decode()))
                        idle.append(to_w)
                        continue
                    payload = json.loads(line[5:].decode())
                    if payload['status'] != 'ok':
                        errors.append(payload['status'])
                    for index, dumped in payload['stats'].items():
                        name = scenarios[int(index)].name
                        result[name].merge(Stats.load(dumped))
                    os.close(fd)
                    os.close(to_w)
                    del children[fd]
                    os.waitpid(pid, 0)
                    if payload['status'] != 'ok':
                        # no point in going on
                        tasks = []
                    break
            while idle and tasks:
                _send(idle.pop(), tasks.pop())
    finally:
        for pid, _, _ in children.values():
            os.kill(pid, signal.SIGKILL)
    if errors and strict:
        raise EngineError('\n'.join(errors))
    return result


def bfs(ch, initial, events, build, canon, invariant, depth):
    """Explicit-state search inside one execution of a scenario.

    A state is the history of events which reaches it: `build(history)`
    creates a fresh implementation object and replays it.  States with equal
    `canon` are merged.  Returns (states, transitions).
    """
    start = build(initial)
    invariant(start, initial)
    seen = {canon(start)}
    frontier = collections.deque([tuple(initial)])
    transitions = 0
    while frontier:
        history = frontier.popleft()
        if len(history) - len(initial) >= depth:
            continue
        for event in events:
            new_history = history + (event,)
            state = build(new_history)
            transitions += 1
            ch.step()
            invariant(state, new_history)
            key = canon(state)
            if key not in seen:
                seen.add(key)
                frontier.append(new_history)
    for key in seen:
        ch.see(key)
    return len(seen), transitions
