"""C20: masks select the fraction of nodes they promise"""
import hashlib
import random

from golem_messages.datastructures import masking
from golem_messages.datastructures import tasks as dt_tasks

from mc import engine
from mc import world as w

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'masks of 32 bytes; 1 to 2**40 potential and at least 1 desired workers',
    'the choice of bits is controlled where it is made by random.sample(), '
    'and seeded otherwise',
]
Mask = masking.Mask
SIZE = 256
REAL_SAMPLE = random.sample
POLICIES = ('lowest', 'highest', 'spread', 'seeded')


def use_policy(policy):
    """which elements a random choice gives"""
    random.seed(7)

    def sample(population, k, **_):
        items = sorted(population)
        if not 0 <= k <= len(items):
            raise ValueError('Sample larger than population or is negative')
        if policy == 'lowest':
            return items[:k]
        if policy == 'highest':
            return items[len(items) - k:][::-1]
        return [items[i * len(items) // k] for i in range(k)]
    random.sample = REAL_SAMPLE if policy == 'seeded' else sample


def raw(bits):
    number = sum(1 << b for b in bits)
    return number.to_bytes(32, 'big')


STARTS = {
    'empty': frozenset(),
    'full': frozenset(range(SIZE)),
    'lowest': frozenset((0, )),
    'highest': frozenset((255, )),
    'all but one': frozenset(range(SIZE)) - {100},
    'even': frozenset(range(0, SIZE, 2)),
    'low half': frozenset(range(128)),
    'byte edges': frozenset((7, 8, 15, 16, 127, 128, 247, 248)),
}
REPLACEMENTS = ('full', 'lowest', 'even')


def agrees(ch, mask, bits, what):
    """all the forms describe this set"""
    ch.step(6)
    ch.equal(set(mask.to_bits()), set(bits), what + ':to_bits')
    ch.equal(mask.num_bits, len(bits), what + ':num_bits')
    ch.equal(mask.to_int(), sum(1 << b for b in bits), what + ':to_int')
    ch.equal(mask.to_bytes(), raw(bits), what + ':to_bytes')
    text = mask.to_bin()
    ch.check(len(text) == SIZE and all(
        (text[SIZE - 1 - i] == '1') == (i in bits) for i in range(SIZE))
             and set(text) <= set('01'), what + ':to_bin', text)
    ch.equal(Mask(mask.to_bytes()).to_bits(), mask.to_bits(),
             what + ':of bytes')
    ch.equal(Mask.from_bits(set(bits)).to_bytes(), raw(bits),
             what + ':of bits')
    ch.equal(Mask.from_dict({'byte_repr': mask.to_bytes()}).to_bytes(),
             raw(bits), what + ':of dict')


def operate(ch, mask, bits, op, amount, policy):
    """one operation on both; the new set"""
    use_policy(policy)
    before = mask.to_bytes()
    ch.step()
    try:
        method = mask.increase if op == 'increase' else mask.decrease
        result = method() if amount is None else method(amount)
    except ValueError as e:
        result = e
    text = '{}({})'.format(op, amount)
    if amount is not None and amount < 0:
        ch.check(isinstance(result, ValueError), op + ':negative', text)
        ch.equal(mask.to_bytes(), before, op + ':changed by an error')
        return bits
    ch.check(not isinstance(result, Exception), op + ':refused', text)
    amount = 1 if amount is None else amount
    after = frozenset(mask.to_bits())
    if op == 'increase':
        ch.check(after >= bits, op + ':lost bits', text)
        ch.equal(len(after), min(SIZE, len(bits) + amount), op + ':count',
                 text)
    else:
        ch.check(after <= bits, op + ':new bits', text)
        ch.equal(len(after), max(0, len(bits) - amount), op + ':count', text)
    return after


def histories(depth, amounts):
    def scenario(ch):
        start = ch.pick('start', list(STARTS))
        bits = STARTS[start]
        mask = Mask() if start == 'empty' else Mask(raw(bits))
        agrees(ch, mask, bits, 'start')
        for i in range(depth):
            op = ch.pick('op {}'.format(i), (
                'stop', 'increase', 'decrease', 'replace'))
            if op == 'stop':
                break
            if op == 'replace':
                # whatever comes of it, all forms tell the same
                other = STARTS[ch.pick('with {}'.format(i), REPLACEMENTS)]
                try:
                    mask.byte_repr = raw(other)
                except AttributeError:
                    break
                number = int.from_bytes(mask.to_bytes(), 'big')
                bits = frozenset(
                    b for b in range(SIZE) if number >> b & 1)
                agrees(ch, mask, bits, op)
                continue
            amount = ch.pick('amount {}'.format(i), amounts)
            policy = ch.pick('policy {}'.format(i), POLICIES)
            bits = operate(ch, mask, bits, op, amount, policy)
            agrees(ch, mask, bits, op)
        ch.see(start, sorted(bits))
    return scenario


def every_amount(ch):
    """each amount once, from each start"""
    start = ch.pick('start', list(STARTS))
    op = ch.pick('op', ('increase', 'decrease'))
    amount = ch.pick('amount', list(range(-3, 260)) + [511, 512, 2 ** 40,
                                                       -256, -2 ** 40])
    mask = Mask(raw(STARTS[start]))
    bits = operate(ch, mask, STARTS[start], op, amount,
                   POLICIES[amount % len(POLICIES)])
    agrees(ch, mask, bits, op)
    ch.see(start, op, len(bits))


def independent(ch):
    """masks do not share their bits"""
    masks = [Mask(), Mask(), Mask.generate(0)]
    models = [frozenset()] * 3
    for i in range(3):
        index = ch.pick('mask {}'.format(i), range(3))
        op = ch.pick('op {}'.format(i), ('increase', 'decrease'))
        amount = ch.pick('amount {}'.format(i), (1, 200))
        models[index] = operate(
            ch, masks[index], models[index], op, amount, 'lowest')
        for mask, bits in zip(masks, models):
            ch.equal(set(mask.to_bits()), set(bits), 'independent')
    agrees(ch, Mask(), frozenset(), 'new one')
    ch.see(models)


WAYS = {
    'new': Mask,
    'new, of bytes': lambda: Mask(bytes(31) + b'\x11'),
    'generated': Mask.generate,
    'generated, some bits': lambda: Mask.generate(5),
    'generated, all bits': lambda: Mask.generate(SIZE),
    'of bits': lambda: Mask.from_bits({0, 4}),
    'of no bits': lambda: Mask.from_bits(set()),
    'of a dictionary': lambda: Mask.from_dict({'byte_repr': bytes(32)}),
    'no potential workers': lambda: Mask.get_mask_for_task(1, 0),
    'negative potential workers': lambda: Mask.get_mask_for_task(3, -1),
    'few potential workers': lambda: Mask.get_mask_for_task(5, 3),
    'as many as desired': lambda: Mask.get_mask_for_task(4, 4),
    'many potential workers': lambda: Mask.get_mask_for_task(1, 100),
}


def made_apart(ch):
    """whatever way masks were made, changing one leaves the others alone,
    those made in the same way (before or after) too"""
    first = ch.pick('first', list(WAYS))
    second = ch.pick('second', list(WAYS))
    op = ch.pick('op', ('increase', 'decrease'))
    amount = ch.pick('amount', (1, 3, 256))
    use_policy('lowest')
    fresh = WAYS[second]()
    count = len(fresh.to_bits())
    masks = [WAYS[first](), WAYS[second](), WAYS[second]()]
    ch.step(4)
    models = [frozenset(m.to_bits()) for m in masks]
    index = ch.pick('changed', range(3))
    models[index] = operate(
        ch, masks[index], models[index], op, amount, 'lowest')
    # what was given out is not the mask's own
    masks[index].to_bits().clear()
    for mask, bits in zip(masks, models):
        agrees(ch, mask, bits, 'made apart')
    use_policy('lowest')
    ch.step()
    ch.equal(WAYS[second]().num_bits, count, 'made apart:later')
    ch.see(first, second, op, amount)


def generated(ch):
    num = ch.pick('bits', list(range(-2, 260)) + [1000, -1000, None])
    policy = ch.pick('policy', POLICIES)
    use_policy(policy)
    ch.step()
    try:
        mask = Mask.generate() if num is None else Mask.generate(num)
    except ValueError as e:
        ch.check(num is not None and num < 0, 'generate:refused', repr(e))
        return
    ch.check(num is None or num >= 0, 'generate:negative', str(num))
    ch.equal(mask.num_bits, min(num or 0, SIZE), 'generate:count')
    agrees(ch, mask, frozenset(mask.to_bits()), 'generate')
    ch.see(num, policy)


ADDRESSES = [b'', b'a', b'golem', bytes(32), b'\xff' * 64] + [
    k.pub for k in w.KEYS] + [k.hex.encode() for k in w.KEYS]


def digest_bits(address):
    number = int(hashlib.sha256(address).hexdigest(), 16)
    return frozenset(i for i in range(SIZE) if number >> i & 1)


def matching(ch):
    """every bit alone and in company"""
    address = ch.pick('address', ADDRESSES)
    kind = ch.pick('mask', ('one bit', 'two bits', 'all but one',
                            'start', 'zeros of digest'))
    ones = digest_bits(address)
    if kind == 'one bit':
        bits = frozenset((ch.pick('bit', range(SIZE)), ))
    elif kind == 'two bits':
        first = ch.pick('bit', range(0, SIZE, 3))
        bits = frozenset((first, ch.pick('other', range(0, SIZE, 37))))
    elif kind == 'all but one':
        bits = frozenset(range(SIZE)) - {ch.pick('bit', range(SIZE))}
    elif kind == 'start':
        bits = STARTS[ch.pick('start', list(STARTS))]
    else:
        bits = frozenset(range(SIZE)) - ones
        extra = ch.pick('bit', [None] + list(range(SIZE)))
        if extra is not None:
            bits |= {extra}
    mask = Mask(raw(bits))
    ch.step()
    ch.equal(mask.matches(address), not bits & ones, 'matches')
    ch.equal(mask.to_bytes(), raw(bits), 'changed by matching')
    # the one which a header carries
    if kind == 'start':
        header = dt_tasks.TaskHeader(**w.header_dict(mask=raw(bits)))
        ch.equal(header.mask.matches(address), not bits & ones,
                 'matches in header')
        ch.equal(header.to_dict()['mask'], raw(bits), 'mask of header')
    ch.see(address, sorted(bits)[:3], not bits & ones)


def fraction(ch):
    """the selected part is what it promises: every further bit halves it"""
    count = ch.pick('bits', range(0, 7))
    policy = ch.pick('policy', POLICIES)
    use_policy(policy)
    mask = Mask.generate(count)
    population = [bytes([i >> 8, i & 255]) for i in range(2048)]
    chosen = [a for a in population if mask.matches(a)]
    ch.step(len(population))
    expected = [a for a in population
                if not set(mask.to_bits()) & digest_bits(a)]
    ch.equal(chosen, expected, 'selected')
    ch.see(count, policy, len(chosen))


def needed(desired, potential):
    """fewest bits, in integers only"""
    if potential < 1:
        return 0
    num = 0
    while potential > desired << num:
        num += 1
    return min(num, SIZE)


def workers(limit, block):
    def scenario(ch):
        first = ch.pick('desired from', range(1, limit + 1, block))
        potential_from = ch.pick('potential from', range(-1, limit, block))
        use_policy('lowest')
        counts = []
        for desired in range(first, first + block):
            for potential in range(potential_from, potential_from + block):
                ch.step()
                mask = Mask.get_mask_for_task(desired, potential)
                num = mask.num_bits
                ch.equal(num, needed(desired, potential), 'bits for task',
                         '{} of {}'.format(desired, potential))
                counts.append(num)
        ch.see(counts)
    return scenario


def many_workers(ch):
    """around the powers of two"""
    exponent = ch.pick('exponent', range(0, 41))
    delta = ch.pick('delta', (-2, -1, 0, 1, 2))
    desired = ch.pick('desired', (1, 2, 3, 5, 7, 10, 64, 100, 1000, 65536))
    if 2 ** exponent + delta > 2 ** 40:
        return
    policy = ch.pick('policy', ('lowest', 'seeded'))
    use_policy(policy)
    for potential in (2 ** exponent + delta,
                      min(desired * 2 ** exponent + delta, 2 ** 40)):
        ch.step()
        mask = Mask.get_mask_for_task(desired, potential)
        ch.equal(mask.num_bits, needed(desired, potential), 'bits for task',
                 '{} of {}'.format(desired, potential))
        agrees(ch, mask, frozenset(mask.to_bits()), 'for task')
    for keywords in ({'desired_num_workers': desired,
                      'potential_num_workers': 100}, ):
        ch.equal(Mask.get_mask_for_task(**keywords).num_bits,
                 needed(desired, 100), 'keywords')
    ch.see(exponent, delta, desired)


def scenarios(tier):
    deep = tier != 'quick'
    amounts = (None, 0, 1, 2, 255, 256, 300, -1)
    return [
        engine.Scenario('histories', histories(
            3 if deep else 2, amounts[:7] if deep else amounts)),
        engine.Scenario('every amount', every_amount),
        engine.Scenario('made apart', made_apart),
        engine.Scenario('independent', independent),
        engine.Scenario('generated', generated),
        engine.Scenario('matching', matching),
        engine.Scenario('fraction', fraction),
        engine.Scenario('workers', workers(
            400 if deep else 120, 20)),
        engine.Scenario('many workers', many_workers),
    ]
