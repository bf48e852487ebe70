"""C29: file transfer tokens"""
import itertools

from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import concents

from mc import engine
from mc import golden
from mc import ref
from mc import world as w

LEVEL = 'model_checking'
NAME = 'concents.FileTransferToken'
TOKEN = concents.FileTransferToken
INFO = TOKEN.FileInfo
CATEGORY = INFO.Category
OPERATIONS = ('upload', 'download', None)

# what is said about a category -> the category it should get
KINDS = {
    'results': 'results',
    'resources': 'resources',
    'unsaid': 'results',
}
SIZES = (1 << 20, 0, 2 ** 40, 5)


def file_info(index, kind):
    """as constructed"""
    content = wire_file(index, kind)
    if 'category' in content:
        content['category'] = getattr(CATEGORY, kind)
    return INFO(content) if index % 2 else INFO(**content)


def wire_file(index, kind):
    """as received"""
    content = {
        'path': 'path/{}'.format(index),
        'checksum': 'sha1:{}'.format(index),
        'size': SIZES[index % len(SIZES)],
    }
    if kind != 'unsaid':
        content['category'] = kind
    return content


def expected_file(index, kind):
    return dict(wire_file(index, kind), category=KINDS[kind])


def make_token(operation, kinds):
    return w.build(
        NAME,
        operation=operation and getattr(TOKEN.Operation, operation),
        files=[file_info(i, kind) for i, kind in enumerate(kinds)])


def wire_token(operation, kinds):
    """bytes made without the code under test"""
    base = make_token('upload', ())
    slots = [
        [slot, {
            'operation': operation,
            'files': [wire_file(i, kind) for i, kind in enumerate(kinds)],
        }.get(slot, value)] for slot, value in w.slots_spec(NAME, base)]
    type_ = w.type_of(NAME)
    sig = ref.sign(
        w.CONCENT.priv, ref.digest(type_, w.TS, ref.cbor(slots)))
    return ref.wire(type_, w.TS, slots, False, sig)


def judge(ch, token, operation, kinds, key):
    ch.step(5)
    ch.check(token.is_upload is (operation == 'upload'), key + ':upload')
    ch.check(token.is_download is (operation == 'download'),
             key + ':download')
    ch.check(not (token.is_upload and token.is_download), key + ':both')
    ch.equal(len(token.files), len(kinds), key + ':files')
    for i, (info, kind) in enumerate(zip(token.files, kinds)):
        ch.check(type(info) is INFO, key + ':type of file')
        ch.check(dict(info) == expected_file(i, kind), key + ':file',
                 lambda: '{} instead of {}'.format(
                     info, expected_file(i, kind)))  # noqa pylint:disable=cell-var-from-loop
        ch.check(isinstance(info['category'], CATEGORY), key + ':category')
    for category in CATEGORY:
        first = [
            i for i, kind in enumerate(kinds)
            if KINDS[kind] == category.value][:1]
        found = token.get_file_info(category)
        if first:
            ch.check(found is token.files[first[0]], key + ':lookup',
                     lambda: '{} got {}'.format(category, found))  # noqa pylint:disable=cell-var-from-loop
        else:
            ch.check(found is None, key + ':lookup of missing')


def lists_of_kinds(length):
    return [
        kinds for n in range(length + 1)
        for kinds in itertools.product(KINDS, repeat=n)]


CARRIERS = sorted(
    (name, slot) for name, (_, spec) in golden.BY_NAME.items()
    for slot, (klass, _, _) in spec.nested.items() if klass == NAME)


def tokens(length, carriers):
    lists = lists_of_kinds(length)

    def scenario(ch):
        operation = ch.pick('operation', OPERATIONS)
        kinds = ch.pick('files', lists)
        how = ch.pick('how', ('made', 'dumped', 'received') + carriers)
        token = make_token(operation, kinds)
        if how == 'made':
            pass
        elif how == 'dumped':
            for private in (None, w.OTHER.priv):
                again = make_token(operation, kinds)
                if private:
                    again.sig = None
                data = shortcuts.dump(again, private, w.PROVIDER.pub)
                token = shortcuts.load(
                    data, w.PROVIDER.priv,
                    w.OTHER.pub if private else w.CONCENT.pub, False)
                judge(ch, token, operation, kinds, how)
        elif how == 'received':
            token = shortcuts.load(
                wire_token(operation, kinds), w.PROVIDER.priv,
                w.CONCENT.pub, False)
        else:
            name, slot = how
            carrier = w.build(name, include=(slot, ), **{slot: token})
            judge(ch, getattr(carrier, slot), operation, kinds, 'in ' + name)
            data = shortcuts.dump(carrier, None, w.PROVIDER.pub)
            carrier = shortcuts.load(data, w.PROVIDER.priv, None, False)
            token = getattr(carrier, slot)
        judge(ch, token, operation, kinds, 'carried' if len(how) == 2
              else how)
        ch.see(operation, kinds, how)
    return scenario


def changed(turns):
    """a token the files and operation of which are changed, in place or by
    other ones"""
    lists = lists_of_kinds(2)

    def scenario(ch):
        operation, kinds = 'upload', ('resources', )
        token = make_token(operation, kinds)
        judge(ch, token, operation, kinds, 'before a change')
        for turn in range(turns):
            way = ch.pick('way', ('replaced', 'in place', 'swapped',
                                  'operation'))
            if way == 'operation':
                operation = ch.pick('operation', OPERATIONS)
                token.operation = operation and getattr(
                    TOKEN.Operation, operation)
            elif way == 'swapped':
                # the same files with other content
                if not kinds:
                    return
                kinds = tuple(
                    'results' if KINDS[kind] == 'resources' else 'resources'
                    for kind in kinds)
                for info, kind in zip(token.files, kinds):
                    info['category'] = getattr(CATEGORY, kind)
            else:
                kinds = ch.pick('files', lists)
                files = make_token('upload', kinds).files
                if way == 'replaced':
                    token.files = files
                else:
                    token.files[:] = files
            judge(ch, token, operation, kinds, 'after {}'.format(way))
        ch.see(operation, kinds)
    return scenario


NOT_CATEGORIES = (
    'unknown', '', 'Results', 'result', None, 0, 1, True, False, b'results',
    ['results'], {'results': 1}, 1.5, 'upload', 'resources ',
)


def refused(ch):
    """anything which is not a category"""
    value = ch.pick('category', NOT_CATEGORIES + (
        TOKEN.Operation.upload, ))
    how = ch.pick('how', ('constructor', 'mapping', 'assigned', 'received'))
    position = ch.pick('position', range(3))
    if how == 'received' and isinstance(value, TOKEN.Operation):
        value = 'download'
    ch.step()
    try:
        if how == 'constructor':
            INFO(path='x', category=value)
        elif how == 'mapping':
            INFO({'category': value})
        elif how == 'assigned':
            info = file_info(0, 'resources')
            info['category'] = value
        else:
            kinds = ['results'] * 3
            other = dict(wire_file(position, 'results'), category=value)
            base = make_token('upload', kinds)
            slots = w.slots_spec(NAME, base)
            for slot in slots:
                if slot[0] == 'files':
                    slot[1][position] = other
            type_ = w.type_of(NAME)
            shortcuts.load(ref.wire(
                type_, w.TS, slots, False, ref.sign(
                    w.CONCENT.priv,
                    ref.digest(type_, w.TS, ref.cbor(slots)))),
                w.PROVIDER.priv, None, False)
    except exceptions.FieldError:
        pass
    except Exception as e:  # pylint: disable=broad-except
        ch.fail('wrong error', '{!r} for {!r}'.format(e, value))
    else:
        ch.fail('accepted category', '{!r} ({})'.format(value, how))
    if how == 'assigned':
        ch.equal(info['category'], CATEGORY.resources, 'kept category')
    ch.see(how)


def scenarios(tier):
    length = 4 if tier == 'quick' else 6
    return [
        engine.Scenario('tokens', tokens(length, ())),
        engine.Scenario('carried tokens', tokens(
            2 if tier == 'quick' else 4, tuple(CARRIERS))),
        engine.Scenario('refused', refused),
        engine.Scenario('changed', changed(2 if tier == 'quick' else 3)),
    ]
