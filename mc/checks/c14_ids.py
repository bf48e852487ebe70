"""C14: generated ids belong to their seed"""
import uuid

from golem_messages import idgenerator

from mc import bulk
from mc import clock
from mc import engine
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
NODES = [
    b'\0' * 6, b'\0' * 5 + b'\1', b'\1' + b'\0' * 5, b'\0' * 2 + b'\xff' * 4,
    b'\xff' * 6, b'\x80' + b'\0' * 5, b'\x7f' * 6, bytes(range(1, 7)),
]
TAILS = [b'', b'\0' * 58, b'\xff' * 58, bytes(range(58)), b'\1', b'\0' * 26]
SEEDS = [n + t for n in NODES for t in TAILS]
KEYS = [k.pub for k in w.KEYS + (w.ETH, w.PROVIDER_ETH)]


def node(seed):
    value = 0
    for byte in bytearray(seed[:6]):
        value = value * 256 + byte
    return value


def is_uuid1(ch, id_, key):
    ch.check(type(id_) is str, key + ':type', engine.short(id_))
    ch.check(len(id_) == 36 and [len(p) for p in id_.split('-')]
             == [8, 4, 4, 4, 12], key + ':format', id_)
    ch.check(id_[14] == '1', key + ':version', id_)
    ch.check(id_[19] in '89ab', key + ':variant', id_)
    ch.check(set(id_) <= set('0123456789abcdef-'), key + ':digits', id_)


def belongs(ch, id_, seed, expected, key):
    ch.step(4)
    text = '{} of {}'.format(id_, seed.hex())
    ch.check(idgenerator.check_id_seed(id_, seed) is expected,
             key + ':check_id_seed', text)
    for hexed in (seed.hex(), seed.hex().upper()):
        ch.check(idgenerator.check_id_hex_seed(id_, hexed) is expected,
                 key + ':check_id_hex_seed', text)


def generated(ch):
    """ids from seeds, raw or hex, and whose they are"""
    seed = ch.pick('seed', SEEDS + KEYS + [b'', b'\1', b'\0\xff'])
    how = ch.pick('how', ('raw', 'hex', 'HEX'))
    clock.set_time(*ch.pick('time', ((w.TS, 0), (0, 0), (2 ** 33, 999999))))
    ids = []
    for _ in range(3):
        ch.step()
        if how == 'raw':
            ids.append(idgenerator.generate_id(seed))
        elif how == 'hex':
            ids.append(idgenerator.generate_id_from_hex(seed.hex()))
        else:
            ids.append(idgenerator.generate_id_from_hex(seed.hex().upper()))
    ch.check(len(set(ids)) == 3, 'not new', str(ids))
    ch.step(2)
    ch.equal(idgenerator.seed_to_node(seed), node(seed), 'seed_to_node')
    ch.equal(idgenerator.hex_seed_to_node(seed.hex()), node(seed),
             'hex_seed_to_node')
    for id_ in ids:
        is_uuid1(ch, id_, 'generated')
        belongs(ch, id_, seed, True, 'generated')
        ch.check(int(id_[24:], 16) == node(seed), 'node', id_)
    for other in KEYS + [n + b'\0' * 58 for n in NODES]:
        belongs(ch, ids[0], other, node(other) == node(seed), 'other seed')
    ch.see(seed, how)


def pairs(ch):
    """all pairs of seed and node which differ in a bit or a part"""
    seed = ch.pick('seed', [n + b'\5' * 58 for n in NODES] + KEYS)
    variant = ch.pick('variant', ['same'] + [
        'bit {}'.format(i) for i in range(64 * 8)] + [
            'shifted', 'shifted back', 'reversed', 'last bytes'])
    if variant == 'same':
        other = seed
    elif variant.startswith('bit'):
        pos = int(variant[4:])
        raw = bytearray(seed)
        raw[pos // 8] ^= 0x80 >> pos % 8
        other = bytes(raw)
    else:
        other = {
            'shifted': seed[1:] + b'\0',
            'shifted back': b'\0' + seed[:-1],
            'reversed': seed[:6][::-1] + seed[6:],
            'last bytes': seed[-6:] + seed[6:],
        }[variant]
    version = ch.pick('version', (0x11e9, 0x41e9, 0x51e9))
    id_ = str(uuid.UUID(fields=(
        0xffffffff, 0xffff, version, 0x80, 0, node(other))))
    belongs(ch, id_, seed, node(other) == node(seed), variant.split()[0])
    belongs(ch, id_.upper(), seed, node(other) == node(seed), 'upper case')
    ch.see(seed, variant)


JUNK = ['', ' ', 'x', '0', 'None', 'g' * 36, w.TASK_ID + '0', w.TASK_ID[:-1],
        w.TASK_ID[1:], '0x' + w.TASK_ID, w.TASK_ID + '\n0', 'ż' * 36,
        w.TASK_ID.replace('-', 'x'), w.REQUESTOR.hex, w.REQUESTOR.hex[:12],
        w.TASK_ID[:-12], '\0' * 36, w.TASK_ID[:-1] + 'g', '1' * 31, '1' * 33]


def junk(ch):
    """not ids at all, and every place of an id made wrong"""
    kind = ch.pick('kind', ['listed'] + list(range(36)))
    if kind == 'listed':
        id_ = ch.pick('string', JUNK)
    elif w.TASK_ID[kind] == '-':
        return
    else:
        id_ = w.TASK_ID[:kind] + ch.pick('char', 'gG?\0') + \
            w.TASK_ID[kind + 1:]
    for seed in KEYS + [b'\0' * 64, b'']:
        belongs(ch, id_, seed, False, 'junk')
    ch.see(kind, id_)


def derived(depth):
    """any sequence of derivations"""
    def scenario(ch):
        seed = ch.pick('seed', KEYS[:2] + [n + b'\1\2' for n in NODES])
        clock.set_time(w.TS)
        now = w.TS
        ids = [idgenerator.generate_id(seed)]
        for i in range(depth):
            what = ch.pick('step {}'.format(i), (
                'stop', 'from last', 'from first', 'from upper', 'from seed',
                'from hex', 'later', 'earlier'))
            ch.step()
            if what == 'stop':
                break
            if what in ('later', 'earlier'):
                now += 1 if what == 'later' else -1
                clock.set_time(now)
                continue
            if what == 'from seed':
                new = idgenerator.generate_id(seed)
            elif what == 'from hex':
                new = idgenerator.generate_id_from_hex(seed.hex())
            else:
                source = ids[0] if what == 'from first' else ids[-1]
                if what == 'from upper':
                    source = source.upper()
                new = idgenerator.generate_new_id_from_id(source)
            is_uuid1(ch, new, what)
            ch.check(new not in ids, what + ':not new', str(ids + [new]))
            ids.append(new)
            belongs(ch, new, seed, True, what)
            for key in KEYS:
                belongs(ch, new, key, node(key) == node(seed), what)
        ch.see(seed, len(ids))
    return scenario


def foreign(ch):
    """derived from ids of any kind"""
    other = ch.pick('node', KEYS + [n + b'\1' for n in NODES])
    version = ch.pick('version', (0x11e9, 0x41e9, 0x0000))
    source = str(uuid.UUID(fields=(1, 2, version, 0x80, 3, node(other))))
    ch.step()
    new = idgenerator.generate_new_id_from_id(source)
    is_uuid1(ch, new, 'derived')
    ch.check(new != source, 'not new')
    belongs(ch, new, other, True, 'derived')
    ch.see(other, version, ref.sha3(other[:6]))


def scenarios(tier):
    return [
        engine.Scenario('generated', generated),
        engine.Scenario('pairs', pairs),
        engine.Scenario('junk', junk),
        engine.Scenario('derived', derived(4 if tier == 'quick' else 5)),
        engine.Scenario('foreign', foreign),
        bulk.ids(tier),
    ]
