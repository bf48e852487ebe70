"""Self-test of the explorer, run by bin/setup"""
import itertools
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))

from mc import engine  # noqa
from mc import ref  # noqa


def product():
    seen = []

    def func(ch):
        word = tuple(ch.pick('letter', 'abc') for _ in range(3))
        seen.append(word)
        ch.see(word)
    stats = engine.explore(engine.Scenario('product', func))
    assert seen == list(itertools.product('abc', repeat=3)), seen
    assert len(stats.states) == 27


def deviations():
    for bound, count in ((0, 1), (1, 9), (2, 33)):
        def func(ch):
            ch.see(tuple(ch.dev('letter', 'abc') for _ in range(4)))
        stats = engine.explore(engine.Scenario('dev', func, bound=bound))
        assert stats.executions == len(stats.states) == count


def sharding():
    def func(ch):
        depth = ch.pick('depth', (1, 2, 3))
        ch.see(depth, tuple(ch.flag('bit') for _ in range(depth * 2)))
        ch.check(ch.observed[0][1] != (True, True), 'found')
    scenario = engine.Scenario('shards', func)
    one = engine.explore(scenario)
    slices = engine.SLICES_S
    engine.SLICES_S = (1e-9, )
    many = engine.run_parallel([scenario], 4)['shards']
    engine.SLICES_S = slices
    assert one.executions == many.executions == 4 + 16 + 64
    assert one.states == many.states
    assert list(one.violations) == list(many.violations) == ['found']
    assert one.violations['found']['choices'] \
        == many.violations['found']['choices'] == [0, 1, 1]
    _, record = engine.execute(scenario, (0, 1, 1))
    assert record['key'] == 'found'


def wide():
    # wide, deep and bounded trees are divided without gaps or overlaps
    def tree(bound, length):
        def func(ch):
            word = [ch.pick('wide', range(11))]
            word.append(ch.pick('rest', range(11 - word[0])))
            word += [ch.dev('deep', range(2 + i % 3)) for i in range(length)]
            ch.see(tuple(word))
        return engine.Scenario('wide', func, bound=bound)
    slices = engine.SLICES_S
    for bound, length in ((0, 5), (1, 40), (2, 8)):
        one = engine.explore(tree(bound, length))
        assert one.executions == len(one.states)
        for duration in (1e-9, 1e-3):
            engine.SLICES_S = (duration, )
            many = engine.run_parallel([tree(bound, length)], 6)['wide']
            assert many.executions == one.executions
            assert many.states == one.states
    engine.SLICES_S = slices


def divergence():
    count = [0]

    def func(ch):
        count[0] += 1
        ch.pick('x', range(2 + count[0]))
        ch.pick('y', range(2))
    try:
        engine.explore(engine.Scenario('divergent', func))
    except engine.EngineError:
        return
    raise AssertionError('divergence not noticed')


def transient():
    # the third execution has a choice more than the others
    count = [0]
    seen = set()

    def func(ch):
        count[0] += 1
        x = ch.pick('x', range(3))
        if count[0] == 3:
            ch.pick('from outside', range(2))
        seen.add((x, ch.pick('y', range(2)), ch.pick('z', range(2))))
    stats = engine.explore(engine.Scenario('transient', func))
    assert len(seen) == 12 and not stats.violations, seen


def search():
    # a counter modulo 5 has 5 states
    def func(ch):
        states, _ = engine.bfs(
            ch, (), (1, 2), build=lambda h: sum(h) % 5, canon=lambda s: s,
            invariant=lambda s, h: ch.check(s < 5, 'bad'), depth=6)
        assert states == 5
    stats = engine.explore(engine.Scenario('bfs', func))
    assert not stats.violations, stats.violations


def codec():
    import cbor
    for value in (None, True, 0, 23, 24, 2 ** 64, -2 ** 64 - 1, 1.5, b'x' * 70,
                  'ż', [1, [2]], {'a': {'b': None}}):
        assert ref.cbor(value) == cbor.dumps(value), value
        assert ref.uncbor(ref.cbor(value)) == value


if __name__ == '__main__':
    for test in (product, deviations, sharding, wide, divergence, transient,
                 search, codec):
        test()
        print('ok', test.__name__)
