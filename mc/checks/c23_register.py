"""C23: each wire number means one kind of message"""
from golem_messages import register
from golem_messages.message import base

from mc import engine
from mc import golden
from mc import world as w

LEVEL = 'model_checking'


def classes():
    return [type('Class{}'.format(i), (base.Message, ), {'__slots__': []})
            for i in range(3)]


NUMBERS = (0, 1, 65535)


class Model:
    def __init__(self):
        self.types = {}
        self.numbers = {}


def agrees(ch, library, model, known, numbers, what):
    for number in numbers:
        ch.step(2)
        ch.equal(number in library, number in model.types,
                 what + ':contains', str(number))
        try:
            got = library[number]
        except KeyError:
            got = None
        ch.check(got is model.types.get(number), what + ':lookup',
                 '{} is {!r}'.format(number, got))
    for cls in known:
        ch.step()
        try:
            got = library.get_type(cls)
        except KeyError:
            got = None
        ch.equal(got, model.numbers.get(cls), what + ':reverse',
                 cls.__name__)
        if got is not None and list(model.numbers.values()).count(got) == 1:
            ch.check(library[got] is cls, what + ':inconsistent')


def apply(ch, library, model, number, cls, split):
    before = dict(model.types)
    ch.step()
    try:
        if split is None:
            result = library.register(number)(cls)
        else:
            result = split(cls)
    except RuntimeError as e:
        result = e
    if number in before:
        ch.check(isinstance(result, RuntimeError), 'duplicate accepted',
                 str(number))
    else:
        ch.check(result is cls, 'registration refused', repr(result))
        model.types[number] = cls
        model.numbers[cls] = number


def sequences(depth, numbers):
    """all registrations, and decorators which are made early, used late"""
    def scenario(ch):
        known = classes()
        table = [(n, i) for n in numbers for i in range(3)]
        early = ch.pick('decorators', ('fresh', 'made early'))

        def build(history):
            library, model = register.MessageRegister(), Model()
            made = {}
            if early != 'fresh':
                made = {n: library.register(n) for n in numbers}
                ch.step(len(made))
                agrees(ch, library, model, known, numbers, 'made early')
            for index in history:
                number, i = table[index]
                apply(ch, library, model, number, known[i],
                      made.get(number))
            return library, model

        def canon(state):
            model = state[1]
            return (
                tuple(sorted((n, c.__name__)
                             for n, c in model.types.items())),
                tuple(sorted((c.__name__, n)
                             for c, n in model.numbers.items())))

        def invariant(state, _history):
            agrees(ch, state[0], state[1], known,
                   tuple(numbers) + (2, -1, 70000, None, 'x'), 'after')

        return engine.bfs(ch, (), range(len(table)), build, canon, invariant,
                          depth)
    return scenario


def separate(ch):
    """two registers know nothing of each other"""
    known = classes()
    pair = [(register.MessageRegister(), Model()) for _ in range(2)]
    for i in range(3):
        which = ch.pick('register {}'.format(i), (0, 1))
        number = ch.pick('number {}'.format(i), (0, 7))
        index = ch.pick('class {}'.format(i), (0, 1))
        library, model = pair[which]
        apply(ch, library, model, number, known[index], None)
        for library, model in pair:
            agrees(ch, library, model, known, (0, 7, 8), 'separate')
    ch.see([sorted(m.types) for _, m in pair])


def whole_library(block):
    """the registered kinds, as the protocol has them"""
    def scenario(ch):
        first = ch.pick('numbers from', range(0, 65536, block))
        for number in range(first, first + block):
            expected = golden.TYPES.get(number)
            ch.step()
            ch.equal(number in register.library, expected is not None,
                     'number in library', str(number))
            if expected is None:
                try:
                    register.library[number]
                    ch.fail('unknown number', str(number))
                except KeyError:
                    pass
                continue
            cls = register.library[number]
            ch.check(cls is w.cls(expected.name), 'class', str(number))
            ch.equal(register.library.get_type(cls), number, 'number of')
            ch.equal(w.cls(expected.name)().header.type_, number,
                     'number in header')
        ch.see(first)
    return scenario


def taken(ch):
    """every taken number of the library stays with its class"""
    number = ch.pick('number', sorted(golden.TYPES))
    other = ch.pick('class', (
        'new', 'its own', 'base.Hello', 'tasks.TaskToCompute'))
    mine = w.cls(golden.TYPES[number].name)
    cls = {'new': classes()[0], 'its own': mine}.get(other) or w.cls(other)
    had = None if other == 'new' else register.library.get_type(cls)
    ch.step()
    try:
        register.library.register(number)(cls)
        ch.fail('taken number', str(number))
    except RuntimeError:
        pass
    ch.check(register.library[number] is mine, 'class after', str(number))
    ch.equal(register.library.get_type(mine), number, 'number after')
    try:
        now = register.library.get_type(cls)
    except KeyError:
        now = None
    ch.equal(now, had, 'other class after')
    ch.see(number, other)


def unknown_class(ch):
    cls = ch.pick('class', (
        base.Message, base.AbstractReasonMessage, object, None, 'Hello',
        classes()[0], type('Hello', (w.cls('base.Hello'), ), {})))
    ch.step()
    try:
        got = register.library.get_type(cls)
        ch.fail('unknown class', str(got))
    except KeyError:
        pass
    ch.see(str(cls))


def scenarios(tier):
    deep = tier != 'quick'
    return [
        engine.Scenario('sequences', sequences(
            6 if deep else 4, NUMBERS + ((2000, ) if deep else ()))),
        engine.Scenario('separate', separate),
        engine.Scenario('whole library', whole_library(2048)),
        engine.Scenario('taken', taken),
        engine.Scenario('unknown class', unknown_class),
    ]
