"""Members which take all of the remaining data."""

from .common import *
from ..model import is_pad

ID = 'C18'
QUICK = 3
RULE = (
    'Each kind of member which takes all remaining data, wrapped up to four times in tuples, '
    'conditions, unions (as any outcome or default), nested objects, subclasses and specialized '
    'generics, followed by each kind of member, in the same class, a tuple or a subclass; used as '
    'an array item; and placed last or followed by hints which are not serialized. Definitions '
    'are expected to raise TypeError, or to be accepted and to give the last member exactly the '
    'remaining bytes, by the full battery. Distinct: schema signature, place and packed bytes.'
)
FINALS = (
    lambda: ConsumeChar(),
    lambda: Uni(ConsumeChar(), 'utf8'),
    lambda: Uni(ConsumeChar(), 'latin-1'),
    lambda: Custom('Rest'),
)
FOLLOWERS = tuple(LEAFS) + (
    lambda: Pad(1),
    lambda: Pad(0),
    lambda: ConsumeChar(),
    lambda: Uni(ConsumeChar(), 'utf-16'),
    lambda: Cond(Basic('uint8'), Pred('o.k & 1', ()), 0),
    lambda: Cond(Pad(2), Pred('o.k & 1', ()), None),
    lambda: UnionLB(Pred('o.k & 1', ()), {0: Basic('uint8'), 1: DynChar('uint8')}, None),
    lambda: Nest(simple_class(fresh('Empty'), [])),
    lambda: Arr(0, None, Basic('uint8')),
    lambda: Cond(SelfRef(), Pred('o.k > 5', ()), None),
    lambda: Arr('uint8', None, SelfRef()),
    lambda: Custom('Rest'),
)
TAG = Basic('uint8')


def wrap_tuple(rng, node):
    return Tup([rng.choice(LEAFS)() for _ in range(rng.randint(0, 2))] + [node])


def wrap_cond(rng, node):
    return Cond(node, Pred(rng.choice(('o.k & 1', 'o.k != 3', 'not o.k & 1')), ()), None)


def wrap_union(rng, node):
    others = [rng.choice(LEAFS)() for _ in range(rng.randint(1, 2))]
    keys = dict(enumerate(others))
    pred = Pred('o.k & 3', ())
    if rng.random() < 0.3:
        return UnionLB(pred, keys, node)
    items = list(keys.items()) + [(3, node)]
    rng.shuffle(items)
    return UnionLB(pred, dict(items), rng.choice(LEAFS)() if rng.random() < 0.4 else None)


def wrap_ahead(rng, node):
    name = fresh('Ra')
    first = simple_class(name, [('tag', Basic('uint8')), ('k', ctrl()), ('v', node)])
    second = simple_class(name + 'o', [('tag', Basic('uint8')), ('w', Basic('uint16'))])
    items = [(1, Nest(first)), (2, Nest(second))]
    rng.shuffle(items)
    union = UnionLA(Basic('uint8'), Pred('o.m.tag', ()), dict(items), None)
    union.spare_tags = []
    return union


def wrap_nest(rng, node):
    fields = [('k', ctrl())] + [(f'i{n}', rng.choice(LEAFS)()) for n in range(rng.randint(0, 2))]
    return Nest(simple_class(fresh('Fi'), fields + [('v', node)], rng.choice(BO_NAMES)))


def wrap_sub(rng, node):
    """A nested object which inherits its last member."""
    bo = rng.choice(BO_NAMES)
    base = simple_class(fresh('Fb'), [('k', ctrl()), ('v', node)], bo)
    return Nest(simple_class(fresh('Fs'), [('plain', Raw('int'))] if rng.random() < 0.5 else
                             [('k', ctrl())], bo, base=base))


def wrap_late(rng, node):
    """A nested object the subclass of which adds the last member."""
    bo = rng.choice(BO_NAMES)
    base = simple_class(fresh('Fb'), [('k', ctrl())], bo)
    return Nest(simple_class(fresh('Fs'), [('v', node)], bo, base=base))


WRAPS = (wrap_tuple, wrap_cond, wrap_union, wrap_nest, wrap_sub, wrap_late)


def ctrl():
    node = Basic('uint8')
    node.ctrl = True
    return node


def valid(node, in_array=False):
    """Whether union members and such are what the hints allow."""
    for s in node.walk():
        if isinstance(s, UnionLB) and any(isinstance(c, Cond) for c in s.children()):
            return False
    return True


def final_node(case, depth):
    rng = case.rng
    node = rng.choice(FINALS)()
    names = []
    for _ in range(depth):
        wrap = rng.choice(WRAPS)
        if wrap is wrap_union and isinstance(node, Cond):
            wrap = wrap_tuple
        node = wrap(rng, node)
        names.append(wrap.__name__[5:])
    assert node.final
    return node, '/'.join(names)


def refused(case, cd, what, *others):
    env = build.Env([*others, cd], future=case.rng.random() < 0.2)
    case.context = env.source
    case.stats.case((cd.sig() if hasattr(cd, 'sig') else env.source, what),
                    {'refused': what, 'class': short(env.source[-400:], 400)})
    ok, out = attempt(env.load)
    if isinstance(out, Violation):
        raise out
    env.unload()
    case.stats.hit('definitions_refused')
    if ok:
        raise Violation(f'{what}: the class was accepted')
    if cd.name in env.module.__dict__:
        raise Violation(f'{what}: the class was defined, and {out!r} raised afterwards')
    if type(out) is not TypeError:
        raise Violation(f'{what}: raised {type(out).__name__} instead of TypeError: {out}')
    for other in env._order[:-1]:
        if other.name not in env.module.__dict__:
            raise Violation(f'{what}: class {other.name} was refused: {out}')


def accepted(case, cd, what):
    case.stats.hit('definitions_accepted')
    case.stats.hit('accepted ' + what)
    everything(case, cd, values=1)


def place(case, node, follower):
    """(class, whether it is to be refused, description)"""
    rng = case.rng
    bo = rng.choice(BO_NAMES)
    lead = [('k', ctrl())]
    fname = '_' if is_pad(follower) else 'f'
    raw = [('r', Raw(rng.choice(('int', 'ClassVar[uint8]', 'Any', 'None', 'list[uint8]'))))]
    r = case.index % 12
    if r < 3:
        return simple_class('Bad', lead + [('m', node), (fname, follower)], bo), True, 'followed'
    if r == 3:
        mid = [(f'x{i}', rng.choice(LEAFS)()) for i in range(rng.randint(0, 3))]
        body = lead + mid + [('m', node)] + raw + [(fname, follower)]
        return simple_class('Bad', body, bo), True, 'followed, with others between'
    if r == 4:
        base = simple_class('Base', lead + [('m', node)], bo)
        return simple_class('Bad', [(fname, follower)], bo, base=base), True, 'followed in a subclass'
    if r == 5:
        base = simple_class('Base', lead + [('m', Basic('uint8')), (fname, follower)], bo)
        return simple_class('Bad', [('m', node)], bo, base=base), True, 'redefined in a subclass'
    if r == 6:
        if isinstance(follower, UnionLB) or isinstance(node, UnionLA):
            follower = Basic('int8')
        items = [node, follower]
        if rng.random() < 0.5:
            items.insert(0, Basic('uint16'))
        return simple_class('Bad', lead + [('m', Tup(items))], bo), True, 'followed in a tuple'
    if r == 7:
        head = rng.choice((0, 1, 5, 'uint8', 'uint32')), rng.choice((None, 'uint8'))
        item = node if rng.random() < 0.6 else Tup((Basic('uint8'), node))
        return simple_class('Bad', lead + [('m', Arr(*head, item))], bo), True, 'array item'
    if r == 8:
        return simple_class('Good', lead + [('m', node)] + raw, bo), False, 'last'
    if r == 9:
        base = simple_class('Base', lead + [('m', node)], bo)
        body = [('m', rng.choice((Basic('uint16'), Raw('None'), DynChar('uint8')))), (fname, follower)]
        return simple_class('Good', body, bo, base=base), False, 'redefined before others'
    if r == 10:
        base = simple_class('Base', lead, bo)
        return simple_class('Good', raw + [('m', node)], bo, base=base), False, 'added last'
    base = simple_class('Base', lead + [('m', node)], bo)
    return simple_class('Good', raw + [('k', ctrl())], bo, base=base), False, 'inherited'


def has_self(node):
    return any(isinstance(s, SelfRef) for s in build.walk_local(node))


def place_case(case):
    rng = case.rng
    i = case.index
    node, how = final_node(case, i // 12 % 5)
    if rng.random() < 0.12 and not any(isinstance(s, Cond) for s in build.walk_local(node)):
        node, how = wrap_ahead(rng, node), 'lookahead/' + how
        case.stats.hit('lookahead')
    follower = FOLLOWERS[i // 60 % len(FOLLOWERS)]()
    cd, bad, what = place(case, node, follower)
    if bad:
        if what.startswith('redefined in') and (follower.final or has_self(follower)):
            # The base class itself
            follower = Basic('uint8')
            cd, bad, what = place(case, node, follower)
        refused(case, cd, f'{what} ({how})')
    else:
        if has_self(follower) and what.startswith('redefined before'):
            return
        accepted(case, cd, what)


GENERICS = '''
T = TypeVar('T')
U = TypeVar('U')

class First(Generic[T], Structured{kw}):
    a: T
    b: uint8

class Last(Generic[T], Structured{kw}):
    a: uint8
    b: T

class Two(Generic[T, U], Structured{kw}):
    a: T
    b: U

class InTuple(Generic[T], Structured{kw}):
    a: tuple[T, uint8]

class TupleLast(Generic[T], Structured{kw}):
    a: tuple[uint8, T]

class InArray(Generic[T], Structured{kw}):
    a: array[Header[uint8], T]

class InBoth(Generic[T], Structured{kw}):
    a: T
    b: T

class Rest_(Structured{kw}):
    r: char[math.inf]

class RestSub(Rest_{kw}):
    x: int
'''

FINAL_TEXTS = ('char[math.inf]', 'unicode[math.inf]', "unicode[math.inf, 'latin-1']", 'Rest_', 'RestSub',
               'tuple[uint8, char[math.inf]]', 'Last[char[math.inf]]', 'TupleLast[unicode[math.inf]]',
               'Annotated[Any, Rest()]', 'Annotated[bytes, char[math.inf]]', 'Last[Rest_]',
               'Annotated[char[math.inf], Condition(lambda o: True, b"")]',
               'Annotated[Union[uint8, char[math.inf]], LookbackDecider(lambda o: 0, {0: char[math.inf]})]',
               'Annotated[Union[uint8, char[math.inf]], LookbackDecider(lambda o: 0, {0: uint8}, char[math.inf])]')
OTHER_TEXTS = ('uint8', 'char[3]', 'pad[1]', 'char[uint8]', 'null_char', 'char[NET]', 'array[Header[2], int8]',
               'array[Header[uint8, uint8], Last[int8]]', 'tuple[int8, int16]', 'Last[int8]', 'Any_')
BAD = (
    'class X(First[{f}]{kw}): pass',
    'class X(Two[{f}, {o}]{kw}): pass',
    'class X(Two[{f}, {f}]{kw}): pass',
    'class X(Two[uint8, {f}]{kw}):\n    more: {o}',
    'class X(Last[{f}]{kw}):\n    more: {o}',
    'class X(InTuple[{f}]{kw}): pass',
    'class X(InArray[{f}]{kw}): pass',
    'class X(InBoth[{f}]{kw}): pass',
    'class X(Structured{kw}):\n    m: First[{f}]',
    'class X(Structured{kw}):\n    m: Last[{f}]\n    more: {o}',
    'class X(Structured{kw}):\n    m: InArray[{f}]',
    'class X(Structured{kw}):\n    m: array[Header[2], Last[{f}]]',
    'class X(Structured{kw}):\n    m: array[Header[uint8, uint8], {f}]',
    'class X(Structured{kw}):\n    m: tuple[{f}, {o}]',
    'class X(Structured{kw}):\n    m: tuple[{o}, tuple[int8, {f}], {o}]',
    'class X(Structured{kw}):\n    m: {f}\n    n: ClassVar[uint8]\n    more: {o}',
    'class X(Structured{kw}):\n    m: Annotated[Union[uint8, int8], LookbackDecider(lambda o: 0, '
    '{{0: uint8, 1: {f}}})]\n    more: {o}',
    'class X(Structured{kw}):\n    m: Annotated[{f1}, Condition(lambda o: 0, b"")]\n    more: {o}',
    'class Y(Structured{kw}):\n    m: {f}\nclass X(Y{kw}):\n    more: {o}',
    'class Y(Structured{kw}):\n    m: {f}\nclass Z(Y{kw}):\n    k: int\nclass X(Z{kw}):\n    more: {o}',
    'class Y(Structured{kw}):\n    m: {f}\nclass X(Structured{kw}):\n    y: Y\n    more: {o}',
    'class Y(Structured{kw}):\n    a: uint8\n    b: {o}\nclass X(Y{kw}):\n    a: {f}',
)
GOOD = (
    'class X(Last[{f}]{kw}): pass',
    'class X(Last[{f}]{kw}):\n    more: {raw}',
    'class X(Two[uint8, {f}]{kw}): pass',
    'class X(Two[{o}, {f}]{kw}): pass',
    'class X(TupleLast[{f}]{kw}): pass',
    'class X(Structured{kw}):\n    m: TupleLast[{f}]\n    more: {raw}',
    'class X(Structured{kw}):\n    a: {o}\n    m: {f}\n    more: {raw}',
    'class X(Structured{kw}):\n    a: {o}\n    more: {raw}\n    m: Last[{f}]',
    'class Y(Structured{kw}):\n    m: {f}\nclass X(Y{kw}):\n    m: uint8\n    more: {o}',
    'class Y(Structured{kw}):\n    m: {f}\nclass X(Y{kw}):\n    m: None\n    more: {o}',
    'class Y(Structured{kw}):\n    m: uint8\nclass X(Y{kw}):\n    more: {o}\n    last: {f}',
    'class X(First[Last[uint8]]{kw}):\n    more: {f}',
)
RAWS = ('int', 'ClassVar[uint8]', 'None', 'Any', 'Optional[int]', 'list[uint8]')


def text_case(case):
    """Definitions as text, also of generic classes."""
    i = case.index
    rng = case.rng
    kw = f', byte_order=ByteOrder.{BO_NAMES[i % len(BO_NAMES)]}'
    every = BAD + GOOD
    form = every[i % len(every)]
    bad = i % len(every) < len(BAD)
    f = FINAL_TEXTS[i // len(every) % len(FINAL_TEXTS)]
    o = rng.choice(OTHER_TEXTS[:-1])
    f1 = f if f.startswith(('char', 'unicode')) else 'char[math.inf]'
    if 'LookbackDecider' in form and 'Condition' in f:
        f = 'Rest_'
    if bad and rng.random() < 0.15 and '[{o}' not in form and '{o}]' not in form and '{o},' not in form:
        o = rng.choice(FINAL_TEXTS)
    if not bad and 'pad' in o and 'Two[' in form:
        o = 'int16'
    text = form.format(f=f, f1=f1, o=o, kw=kw, raw=rng.choice(RAWS))
    source = GENERICS.replace('{kw}', kw) + text + '\n'
    case.stats.case((source,), None)
    ok, out = attempt(lambda: define(case, source))
    if bad:
        case.stats.hit('definitions_refused')
        if ok:
            raise Violation(f'accepted: {text}')
        if type(out) is not TypeError:
            raise Violation(f'raised {type(out).__name__} instead of TypeError: {out}\n{text}')
        return
    case.stats.hit('definitions_accepted')
    if not ok:
        raise Violation(f'refused: {type(out).__name__}: {out}\n{text}')
    # The last member ends with the remaining bytes, unless redefined
    X = out['X']
    if 'class Y' in text and 'last:' not in text:
        return
    tail = bytes(rng.randrange(32, 127) for _ in range(rng.randrange(12)))
    for head in (24, 33):
        data = bytes(head) + tail
        ok, x = attempt(lambda: X.create_unpack(data))
        if not ok:
            continue
        values = [getattr(x, a) for a in X.attrs]
        v = values[-1]
        while True:
            if isinstance(v, tuple):
                v = v[-1]
            elif hasattr(type(v), 'attrs'):
                v = getattr(v, type(v).attrs[-1])
            else:
                break
        if isinstance(v, int):
            return  # the outcome of the union which takes one byte
        end = v if isinstance(v, bytes) else v.encode('latin-1')
        if not data.endswith(end) or len(end) < len(tail):
            raise Violation(f'{text}\nlast member is {v!r} for data {data!r}')
        if X.serializer.size != len(data):
            raise Violation(f'{text}\nsize is {X.serializer.size} for data {data!r}')
        stream = io.BytesIO(data)
        X.create_unpack_read(stream)
        if stream.tell() != len(data):
            raise Violation(f'{text}\nstream at {stream.tell()} for data {data!r}')
        case.stats.hit('took_remaining_data')


def self_case(case):
    """A recursive member takes all of the remaining data, too, if the class
    ends with a member which does."""
    forms = ('n: array[Header[uint8], Self]', 'n: Annotated[Self, Condition(lambda o: o.k, None)]',
             'n: Annotated[Union[Self, uint8], LookbackDecider(lambda o: o.k, {0: uint8, 1: Self})]',
             'n: Annotated[tuple[uint8, Self], Condition(lambda o: o.k, None)]')
    finals = ('char[math.inf]', 'unicode[math.inf]', 'tuple[uint8, char[math.inf]]')
    form = forms[case.index % len(forms)]
    final = finals[case.index // len(forms) % len(finals)]
    text = f'class X(Structured):\n    k: uint8\n    {form}\n    rest: {final}\n'
    case.stats.case((text,), None)
    ok, out = attempt(lambda: define(case, text))
    if ok:
        raise KnownFinding('self-before-rest', 'accepted, but the nested object takes the data of '
                           'the members which follow it:\n' + text)
    if type(out) is not TypeError:
        raise Violation(f'raised {type(out).__name__} instead of TypeError: {out}\n{text}')


KINDS = {
    'places': Kind(place_case, 12 * 5 * len(FOLLOWERS), 12 * 5 * len(FOLLOWERS) * 12),
    'texts': Kind(text_case, (len(BAD) + len(GOOD)) * len(FINAL_TEXTS) * 2,
                  (len(BAD) + len(GOOD)) * len(FINAL_TEXTS) * 40),
    'self': Kind(self_case, 12, 12),
    'random': random_kind(Profile(consume=0.9, nest=10, tuple=10, cond=10, lookback=10, inherit=0.3,
                                  max_fields=4), 1500),
}
