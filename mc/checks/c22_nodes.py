"""C22: public contact data of a node is completed, not replaced"""
import copy

from golem_messages import shortcuts
from golem_messages.datastructures import p2p as dt_p2p

from mc import engine
from mc import world as w

LEVEL = 'model_checking'
PAIRS = (
    ('pub_addr', 'prv_addr', (None, '10.0.0.1', '::1')),
    ('pub_port', 'prv_port', (None, 1, 65535)),
    ('p2p_pub_port', 'p2p_prv_port', (None, 1, 65535)),
    ('hyperdrive_pub_port', 'hyperdrive_prv_port', (None, 0, 3282)),
)
FIELDS = tuple(w.node_dict())
DEFAULTS = {'prv_addresses': [], 'port_statuses': {}, 'nat_type': []}
KINDS = ('base.Hello', 'p2p.WantToStartTaskSession', 'p2p.SetTaskSession')


def complete(data):
    result = {f: data.get(f, DEFAULTS.get(f)) for f in FIELDS}
    for public, private, _ in PAIRS:
        if result[public] is None:
            result[public] = result[private]
    return result


def is_super(data):
    return data.get('pub_addr') is not None and \
        data['pub_addr'] == data.get('prv_addr')


def reads(ch, node, data, what):
    ch.step(2)
    want = {f: data.get(f, DEFAULTS.get(f)) for f in FIELDS}
    for field, value in want.items():
        got = getattr(node, field)
        ch.check(got == value and type(got) is type(value),
                 '{}:{}'.format(what, field), '{!r} instead of {!r}'.format(
                     got, value))
    ch.equal(node.to_dict(), want, what + ':to_dict')
    ch.equal(node.is_super_node(), is_super(want), what + ':is_super_node',
             '{} {}'.format(want['pub_addr'], want['prv_addr']))


def public_info(others):
    def scenario(ch):
        data = {}
        if others:
            data = w.node_dict()
        for public, private, values in PAIRS:
            for field in (private, public):
                value = ch.pick(field, values)
                if value is None and not others:
                    data.pop(field, None)
                else:
                    data[field] = value
        node = dt_p2p.Node(**copy.deepcopy(data))
        reads(ch, node, data, 'before')
        want = complete(data)
        for i in range(3):
            ch.step()
            ch.equal(node.update_public_info(), None, 'answer')
            reads(ch, node, want, 'updated {}'.format('again' if i else ''))
        # a private address which changes later changes nothing
        node.prv_addr = '9.9.9.9'
        node.prv_port = node.p2p_prv_port = node.hyperdrive_prv_port = 999
        later = complete(dict(
            want, prv_addr='9.9.9.9', prv_port=999, p2p_prv_port=999,
            hyperdrive_prv_port=999))
        node.update_public_info()
        reads(ch, node, later, 'later')
        ch.see(sorted(want.items(), key=repr))
    return scenario


def travels(ch):
    """and for nodes which were sent"""
    name = ch.pick('kind', KINDS)
    data = w.node_dict()
    for public, private, values in PAIRS[:2]:
        for field in (private, public):
            data[field] = ch.pick(field, values)
    when = ch.pick('updated', ('before', 'after'))
    node = dt_p2p.Node(**copy.deepcopy(data))
    if when == 'before':
        node.update_public_info()
    msg = w.build(name, node_info=node)
    received = shortcuts.load(shortcuts.dump(msg, None, w.OTHER.pub),
                              w.OTHER.priv, None, False).node_info
    ch.step(3)
    if when == 'after':
        reads(ch, received, data, 'received')
        received.update_public_info()
    reads(ch, received, complete(data), 'received and updated')
    ch.see(name, when, is_super(data))


VARIANTS = {
    'node_name': (None, '', 'other', 'a node '),
    'key': (None, '', w.OTHER.hex),
    'prv_port': (None, 2), 'pub_port': (None, 1),
    'p2p_prv_port': (None, 1), 'p2p_pub_port': (None, 1),
    'prv_addr': (None, '10.0.0.2'), 'pub_addr': (None, '10.0.0.1'),
    'prv_addresses': (None, [], ['10.0.0.1'], ['::1', '10.0.0.1']),
    'hyperdrive_prv_port': (None, 0), 'hyperdrive_pub_port': (None, 0),
    'port_statuses': (None, {}, {3282: 'closed'}, {1: 'open'}),
    'nat_type': (None, [], ['x'], ['Full Cone', 'x']),
}


def changed(ch, label):
    data = w.node_dict()
    field = ch.pick('field of ' + label, (None, ) + FIELDS)
    if field is not None:
        data[field] = ch.pick('value of ' + label, VARIANTS[field])
    return data


def equality(ch):
    """all pairs which differ in at most one field each"""
    first, second = changed(ch, 'first'), changed(ch, 'second')
    one = dt_p2p.Node(**copy.deepcopy(first))
    two = dt_p2p.Node(**copy.deepcopy(second))
    if ch.flag('set later'):
        two = dt_p2p.Node(**w.node_dict())
        for field, value in copy.deepcopy(second).items():
            setattr(two, field, value)
    ch.step(4)
    same = first == second
    ch.equal(one == two, same, 'equal')
    ch.equal(two == one, same, 'equal backwards')
    ch.equal(one != two, not same, 'unequal')
    ch.equal(one == one, True, 'itself')  # noqa pylint: disable=comparison-with-itself
    ch.see(same)


class NodeLike:
    def to_dict(self):  # pylint: disable=no-self-use
        return w.node_dict()


def others(ch):
    """anything which is not a node"""
    node = dt_p2p.Node(**w.node_dict())
    other = ch.pick('other', (
        None, 0, '', w.node_dict(), [], NodeLike(), object(), dt_p2p.Node,
        w.task_header(), repr(node), True))
    op = ch.pick('operation', ('==', '!=', 'reversed'))
    if op == 'reversed' and isinstance(other, (dt_p2p.Node, type)):
        return
    ch.step()
    try:
        if op == '==':
            result = node == other
        elif op == '!=':
            result = node != other
        else:
            result = other == node
    except TypeError as e:
        result = e
    ch.check(isinstance(result, TypeError), 'no TypeError',
             '{} with {}: {!r}'.format(op, engine.short(other), result))
    ch.see(op, type(other).__name__)


def scenarios(tier):
    result = [
        engine.Scenario('public info', public_info(True)),
        engine.Scenario('travels', travels),
        engine.Scenario('equality', equality),
        engine.Scenario('others', others),
    ]
    if tier != 'quick':
        result.append(
            engine.Scenario('public info alone', public_info(False)))
    return result
