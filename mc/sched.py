"""Cooperative scheduler: the harness decides when a thread is preempted.

Threads are real, but only one runs at a time and control changes hands only
at scheduling points: the lines (or every bytecode instruction) of the package
under test, and operations on locks.  Every change while the current thread
could go on costs one deviation (a preemption); which thread goes on after
one has finished or is blocked is a free choice.
"""
import _thread
import collections
import enum
import functools
import sys
import threading

from . import engine
from . import load

ACTIVE = [None]


class Aborted(BaseException):
    """the execution is over, threads unwind"""


class CoopLock:
    """A lock which tells the active scheduler instead of blocking"""

    reentrant = False

    def __init__(self):
        self._real = _thread.RLock() if self.reentrant \
            else _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sched = ACTIVE[0]
        me = sched.current if sched and sched.mine() else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (
                self.reentrant and self._owner == me):
            if not blocking or timeout >= 0:
                return False
            sched.blocked(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            self._real.release()
            return
        sched = ACTIVE[0]
        if self.reentrant and sched and self._owner != sched.current:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if sched:
                sched.wake(self)

    def locked(self):
        return self._owner is not None or (
            not self.reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_args):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class CoopRLock(CoopLock):
    reentrant = True

    # what threading.Condition wants

    def _is_owned(self):
        if self._owner is None:
            return self._real._is_owned()
        sched = ACTIVE[0]
        return not sched or self._owner == sched.current

    def _release_save(self):
        if self._owner is None:
            return self._real._release_save()
        state = self._count
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        sched = ACTIVE[0]
        if sched and sched.mine():
            self.acquire()
            self._count = state
        else:
            self._real._acquire_restore(state)


def install():
    """Has to be called before the package is imported"""
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    # lru_cache is written in Python here
    if hasattr(functools, 'RLock'):
        functools.RLock = CoopRLock


CONTAINERS = (dict, list, set, bytearray, collections.deque)


class Snapshot:
    """State of the package which outlives an execution: globals, attributes
    of classes, contents of containers and objects in these, caches"""

    def __init__(self, depth=3):
        self.namespaces = []  # (object, copy of its attributes)
        self.containers = []  # (container, copy)
        self.caches = []
        self.seen = set()
        for name, module in sorted(sys.modules.items()):
            if name.split('.')[0] == 'golem_messages':
                self._namespace(module, depth)

    def _namespace(self, obj, depth):
        if id(obj) in self.seen:
            return
        self.seen.add(id(obj))
        attributes = {
            k: v for k, v in vars(obj).items()
            if not (k.startswith('__') and k.endswith('__'))}
        self.namespaces.append((obj, attributes))
        for value in attributes.values():
            self._value(value, depth)

    def _value(self, value, depth):
        if hasattr(value, '__func__'):
            value = value.__func__
        if hasattr(value, 'cache_clear'):
            if value not in self.caches:
                self.caches.append(value)
            return
        if isinstance(value, CONTAINERS) and id(value) not in self.seen:
            self.seen.add(id(value))
            self.containers.append((value, value.copy()))
            if depth and not isinstance(value, bytearray):
                items = value.values() if isinstance(value, dict) else value
                for item in items:
                    self._value(item, depth - 1)
            return
        klass = value if isinstance(value, type) else type(value)
        if getattr(klass, '__module__', '').split('.')[0] == \
                'golem_messages' and hasattr(value, '__dict__') \
                and not isinstance(value, enum.Enum) and depth:
            self._namespace(value, depth - 1)

    def restore(self):
        for obj, attributes in self.namespaces:
            now = vars(obj)
            if len(now) == len(attributes) and not hasattr(obj, '__name__') \
                    and all(now.get(k) is v for k, v in attributes.items()):
                continue
            for key in list(now):
                if key.startswith('__') and key.endswith('__'):
                    continue
                if key not in attributes:
                    delattr(obj, key)
            for key, value in attributes.items():
                if now.get(key) is not value:
                    setattr(obj, key, value)
        for container, copy in self.containers:
            if isinstance(container, dict):
                if container != copy:
                    container.clear()
                    container.update(copy)
            elif isinstance(container, set):
                if container != copy:
                    container.clear()
                    container.update(copy)
            elif isinstance(container, collections.deque):
                container.clear()
                container.extend(copy)
            else:
                container[:] = copy
        for cache in self.caches:
            cache.cache_clear()


class Scheduler:
    def __init__(self, ch, bodies, opcodes=False):
        self.ch = ch
        self.bodies = bodies
        self.opcodes = opcodes
        self.current = None
        self.idents = {}
        self.gates = [_thread.allocate_lock() for _ in bodies]
        for gate in self.gates:
            gate.acquire()
        self.alive = list(range(len(bodies)))
        self.waiting = {}  # thread: lock
        self.results = [None] * len(bodies)
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.failure = None
        self.points = 0
        self.switches = 0
        self.prefix = str(load.scratch_root())

    def mine(self):
        return _thread.get_ident() in self.idents

    def runnable(self):
        return [t for t in self.alive if t not in self.waiting]

    # called in a controlled thread

    def point(self):
        self.points += 1
        others = [t for t in self.runnable() if t != self.current]
        if not others:
            return
        try:
            target = self.ch.dev('preempt', [self.current] + others)
        except BaseException as e:
            self.abort(e)
        if target != self.current:
            self.switch(target)

    def switch(self, target):
        me = self.current
        self.switches += 1
        self.current = target
        self.gates[target].release()
        self.gates[me].acquire()
        if self.failure is not None:
            raise Aborted()

    def choose(self):
        options = self.runnable()
        if not options:
            self.abort(engine.Violation(
                'deadlock', 'threads {} wait for each other'.format(
                    sorted(self.waiting))))
        try:
            return self.ch.pick('next', options)
        except BaseException as e:
            self.abort(e)

    def blocked(self, lock):
        self.waiting[self.current] = lock
        self.switch(self.choose())

    def wake(self, lock):
        for thread in [t for t, l in self.waiting.items() if l is lock]:
            del self.waiting[thread]

    def abort(self, error):
        if self.failure is None:
            self.failure = error
            self.over.release()
        raise Aborted()

    # tracing

    def _global(self, frame, event, _arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, _frame, event, _arg):
        if self.ch.used >= self.ch.bound or len(self.alive) < 2:
            # nothing to decide any more
            sys.settrace(None)
            return None
        if event in ('line', 'opcode', 'return'):
            self.point()
        return self._local

    def _thread_main(self, index):
        self.gates[index].acquire()
        if self.failure is not None:
            return
        sys.settrace(self._global)
        try:
            try:
                self.results[index] = ('ok', self.bodies[index]())
            except Aborted:
                return
            except Exception as e:  # pylint: disable=broad-except
                self.results[index] = ('error', e)
            finally:
                sys.settrace(None)
            self.alive.remove(index)
            if self.failure is not None:
                return
            if not self.alive:
                self.over.release()
                return
            target = self.choose()
            self.current = target
            self.gates[target].release()
        except Aborted:
            pass
        except BaseException as e:  # pylint: disable=broad-except
            if self.failure is None:
                self.failure = e
                self.over.release()

    def run(self):
        """Results of the bodies: ('ok', value) or ('error', exception)"""
        for index in self.alive:
            ident = _thread.start_new_thread(self._thread_main, (index, ))
            self.idents[ident] = index
        ACTIVE[0] = self
        self.current = self.choose_first()
        self.gates[self.current].release()
        self.over.acquire()
        ACTIVE[0] = None
        if self.failure is not None:
            # everybody goes home
            for index in self.alive:
                if self.gates[index].locked():
                    self.gates[index].release()
            raise self.failure
        return self.results

    def choose_first(self):
        return self.ch.pick('first', list(self.alive))
