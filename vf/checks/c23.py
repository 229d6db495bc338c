"""Recognizing hints, and rejecting invalid ones."""

import structured

from . import c24
from .common import *

ID = 'C23'
QUICK = 1.5
RULE = (
    'Each kind of hint in each spelling (as it is, as an alias, annotated with metadata of all sorts, as '
    'string, all of these combined, with evaluated annotations and without), alone and amid others, '
    'between members which are not to be serialized (plain hints of all sorts, ClassVars of serializable '
    'types, with and without values); random classes with random spellings at all levels. Monitors: '
    'the list of attributes, the packed bytes and values by each route against the reference codec, and '
    'that other members are neither taken, nor touched. Invalid hints of a table in several places '
    'and spellings: the definition has to raise an error, the valid counterpart must not. Distinct: '
    'source of the class and packed bytes, or source.'
)
EACH = c24.EACH + [
    lambda: Pad(1), lambda: Pad(7), lambda: ConsumeChar(), lambda: Uni(ConsumeChar()), lambda: CharN(1),
    lambda: Uni(CharN(5), 'latin-1', alias=False), lambda: Tup((Basic('uint8'),)),
    lambda: Tup((Basic('uint8'), Tup((TermChar(), Basic('int8')))), old=True),
    lambda: Custom('VarInt', direct=True), lambda: Custom('Rest'),
    lambda: Arr(3, None, Custom('VarInt')), lambda: Arr('uint8', None, Tup((TermChar(),)), wrap=True),
    lambda: SerAs(CharN(2), 0), lambda: SerAs(Basic('uint8'), 2, 3),
]
DOCS = ('"doc"', '42', 'int', 'object()', 'None', 'ByteOrder.BE', '(1, 2)', 'Header[2]', '"uint8"', 'Any',
        'ClassVar', 'lambda: 0', 'Structured', '...')
SPELLINGS = ('plain', 'alias', 'doc', 'string', 'alias doc', 'doc alias', 'doc doc', 'alias string',
             'doc string', 'string doc', 'alias alias')
INNER = ('alias', 'doc', 'alias doc', 'doc doc', 'doc alias')

# Not to be serialized; (hint, value) if the class may have a value for it
OTHERS = (
    ('int', '5'), ('str', '"x"'), ('bytes', None), ('float', '0.5'), ('None', None), ('Any', None), ('list', None),
    ('list[int]', None), ('list[uint8]', None), ('List[uint8]', None), ('dict[str, uint8]', None),
    ('Optional[int]', 'None'), ('Optional[uint8]', 'None'), ('Union[int, str]', '1'), ('Union[uint8, int8]', '1'),
    ('Union[uint8, str]', None), ('int | str', None), ('uint8 | None', None), ('tuple', None), ('Tuple', None),
    ('tuple[int, ...]', None), ('tuple[uint8, ...]', None), ('Tuple[uint8, ...]', '(1,)'), ('tuple[int, str]', None),
    ('tuple[uint8, int]', None), ('Tuple[int, uint8]', None), ('tuple[()]', None), ('tuple[tuple[uint8, int], uint8]', None),
    ('Annotated[int, "doc"]', '3'), ('Annotated[tuple[uint8, str], 3]', None), ('Annotated[int, None]', None),
    ('ClassVar', '7'), ('ClassVar[int]', '7'), ('ClassVar[uint8]', '7'), ('ClassVar[char[4]]', 'b"abcd"'),
    ('ClassVar[array[Header[2], uint8]]', '[1, 2]'), ('ClassVar[tuple[uint8, int8]]', None),
    ('ClassVar[Annotated[uint8, "doc"]]', None), ('ClassVar[Union[uint8, int8]]', None), ('ClassVar[pad[4]]', None),
    ('ClassVar[null_char]', None), ('ClassVar[Optional[uint8]]', 'None'), ('ClassVar["Later"]', None),
    ('ClassVar[char[math.inf]]', None), ('type', None), ('type[int]', None), ('"int"', '0'), ('"ClassVar[uint16]"', '9'),
    ('"Optional[uint8]"', None), ('Exception', None), ('NET', None), ('ByteOrder', 'ByteOrder.BE'), ('Header', None),
    ('VarInt', None), ('TypeVar("T")', None), ('bool', 'True'), ('object', None),
    ('memoryview', None), ('bytearray', None), ('Literal[1, 2]', '1'), ('Callable[[uint8], uint16]', None),
    ('Iterator[uint8]', None), ('Final[int]', None), ('NoReturn', None), ('frozenset[int]', None),
)
PRELUDE = ('from typing import Callable, Final, Iterator, Literal, NoReturn\n'
           'class Later:\n    pass\n')


def respell(node, how, rng, top):
    """Change how the hint is written."""
    src = node.src

    def print_it(env):
        text = src(env)
        padding = not node.nvals
        for step in how.split():
            # NOTE: Paddings have to be recognized before they are evaluated
            if step == 'alias' and not (padding and top and (env.future or 'string' in how)):
                name = fresh('Alias')
                env.parts.append(f'{name} = {text}\n')
                text = name
            elif step == 'doc':
                docs = ', '.join(rng.choice(DOCS) for _ in range(rng.choice((1, 1, 2))))
                text = f'Annotated[{text}, {docs}]'
            elif step == 'string' and top:
                text = repr(text)
        return text

    node.src = print_it
    return node


def others(rng, fields, p=0.5):
    """Put members between which are not serialized; returns the body and values."""
    body = []
    values = {}
    for name, node in fields + [(None, None)]:
        while rng.random() < p:
            hint, value = rng.choice(OTHERS)
            n = fresh('other')
            values[n] = None
            if value is not None and rng.random() < 0.7:
                hint = f'{hint} = {value}'
                values[n] = value
            body.append((n, Raw(hint)))
        if name is not None:
            body.append((name, node))
    return body, values


def run(case, cd, values, future, n=2):
    env = load(case, cd, future, prelude=PRELUDE)
    b = battery(case, env)
    cls = env.cls(cd)
    try:
        if cls.attrs != cd.attrs:
            raise Violation(f'{cd.name}.attrs is {cls.attrs}, expected {cd.attrs}')
        before = {k: cls.__dict__.get(k, build.MISSING) for k in values}
        for name, text in values.items():
            if (text is None) != (before[name] is build.MISSING):
                raise Violation(f'{name} was changed to {before[name]!r}')
        for _ in range(n):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            case.stats.case((env.source if len(env.source) < 3000 else cd.sig(), data),
                            {'class': short(env.source[len(build.HEADER):], 300), 'packed': short(data, 60)}
                            if len(case.stats.samples) < 2 else None)
            o, data, want = b.roundtrip(rec)
            extra = set(vars(o)) - set(cd.attrs) - {'made_by_user'}
            if extra:
                raise Violation(f'packing and unpacking set {extra}')
            if want is not None and case.rng.random() < 0.3:
                b.truncations(cd, data, 2)
        after = {k: cls.__dict__.get(k, build.MISSING) for k in values}
        if any(after[k] is not before[k] for k in values):
            raise Violation(f'{before} changed to {after}')
    finally:
        env.unload()


def spell_case(case):
    rng = case.rng
    i = case.index
    node = EACH[i % len(EACH)]()
    how = SPELLINGS[i // len(EACH) % len(SPELLINGS)]
    future = bool(i // len(EACH) // len(SPELLINGS) % 2)
    for sub in node.children():
        if rng.random() < 0.5 and not isinstance(node, (Nest, Uni, SerAs)):
            respell(sub, rng.choice(INNER), rng, False)
    respell(node, how, rng, True)
    name = 'm' if node.nvals or rng.random() < 0.3 else '_'
    fields = [(name, node)]
    if not node.final:
        fields.append(('tail', respell(Basic('uint16'), rng.choice(SPELLINGS), rng, True)))
    fields.insert(0, ('lead', respell(Basic('uint8'), rng.choice(SPELLINGS), rng, True)))
    body, values = others(rng, fields)
    cd = ClassDef(fresh('Sp'), body, rng.choice(BO_NAMES))
    gen.finish(cd)
    run(case, cd, values, future)


def random_case(case):
    rng = case.rng
    cd = schema(case, Profile(max_fields=6, depth=3, inherit=0.15, raw=0.3, styles=0.2))
    future = rng.random() < 0.4
    done = set()
    inside = {id(sub.ahead) for c in cd.classes().values() for _, node in c.fields
              for sub in build.walk_local(node) if isinstance(sub, UnionLA)}
    for c in cd.classes().values():
        for _, node in c.body:
            if not isinstance(node, Node):
                continue
            subs = list(build.walk_local(node))
            sizes = {id(k) for sub in subs if isinstance(sub, (Uni, SerAs)) for k in sub.children()}
            for k, sub in enumerate(subs):
                if id(sub) in done or id(sub) in sizes or rng.random() < 0.6:
                    continue
                done.add(id(sub))
                respell(sub, rng.choice(INNER if k or id(sub) in inside else SPELLINGS), rng, not k)
    run(case, cd, {}, future)


# ---------------------------------------------------------------- invalid hints

# (invalid, valid counterpart)
INVALID = [
    # Types which have to be indexed
    ('char', 'char[1]'), ('unicode', 'unicode[1]'), ('pad', 'pad[1]'), ('pascal', 'pascal[1]'),
    ('array', 'array[Header[1], uint8]'),
    # Lengths
    ('char[-1]', 'char[0]'), ('char["x"]', 'char[b"x"]'), ('char[1.5]', 'char[1]'), ('char[-math.inf]', 'char[math.inf]'),
    ('char[math.nan]', 'char[math.inf]'), ('char[int8]', 'char[uint8]'), ('char[int32]', 'char[uint32]'),
    ('char[float32]', 'char[uint64]'), ('char[bool8]', 'char[uint8]'), ('char[b"ab"]', 'char[b"a"]'),
    ('char[b""]', 'char[b"\\0"]'), ('char[None]', 'char[NET]'), ('char[int]', 'char[uint16]'), ('char[uint8, 2]', 'char[uint8]'),
    ('char[()]', 'char[2]'), ('char[NET, NET]', 'char[NET]'), ('char[NET()]', 'char[NET]'), ('char[char[2]]', 'char[2]'),
    ('char[Header[2]]', 'char[2]'), ('char[str]', 'char[3]'),
    ('unicode[-1]', 'unicode[0]'), ('unicode["x"]', 'unicode[b"x"]'), ('unicode[2.5]', 'unicode[2]'),
    ('unicode[-math.inf]', 'unicode[math.inf]'), ('unicode[int16]', 'unicode[uint16]'), ('unicode[b"xy"]', 'unicode[b"x"]'),
    ('unicode[None]', 'unicode[NET]'), ('unicode[8, None]', 'unicode[8, "utf8"]'), ('unicode[8, 5]', 'unicode[8, "ascii"]'),
    ('unicode[8, int]', 'unicode[8, CodecRot]'), ('unicode[8, b"utf8"]', 'unicode[8, "utf8"]'),
    ('unicode[8, "utf8", 3]', 'unicode[8, "utf8"]'), ('unicode[()]', 'unicode[8]'), ('unicode["utf8", 8]', 'unicode[8, "utf8"]'),
    ('unicode[uint8, str]', 'unicode[uint8, CodecHex]'), ('unicode[NET, object()]', 'unicode[NET, CodecHex()]'),
    ('unicode[char[2]]', 'unicode[2]'), ('unicode[b""]', 'null_unicode'),
    ('pad[-1]', 'pad[0]'), ('pad["a"]', 'pad[2]'), ('pad[1.0]', 'pad[1]'), ('pad[None]', 'pad[3]'), ('pad[uint8]', 'pad[8]'),
    ('pascal[-2]', 'pascal[2]'), ('pascal["a"]', 'pascal[3]'), ('pascal[2.0]', 'pascal[2]'), ('pascal[uint8]', 'pascal[8]'),
    ('pascal[NET]', 'pascal[9]'), ('pad[1, 2]', 'pad[1]'), ('pascal[1, 2]', 'pascal[1]'),
    # Array headers and items
    ('array[Header[-1], uint8]', 'array[Header[0], uint8]'), ('array[Header[1.0], uint8]', 'array[Header[1], uint8]'),
    ('array[Header["a"], uint8]', 'array[Header[4], uint8]'), ('array[Header[int8], uint8]', 'array[Header[uint8], uint8]'),
    ('array[Header[None], uint8]', 'array[Header[4], uint8]'), ('array[Header[int], uint8]', 'array[Header[uint32], uint8]'),
    ('array[Header[2, 2], uint8]', 'array[Header[2, uint8], uint8]'), ('array[Header[2, int16], uint8]', 'array[Header[2, uint16], uint8]'),
    ('array[Header[uint8, int8], uint8]', 'array[Header[uint8, uint8], uint8]'),
    ('array[Header[uint8, int], uint8]', 'array[Header[uint8, uint64], uint8]'),
    ('array[Header[uint8, uint8, uint8], uint8]', 'array[Header[uint8, uint8], uint8]'),
    ('array[Header[()], uint8]', 'array[Header[3], uint8]'), ('array[Header[float32], uint8]', 'array[Header[uint64], uint8]'),
    ('array[Header[char[2]], uint8]', 'array[Header[2], uint8]'), ('array[Header[NET], uint8]', 'array[Header[uint8], uint8]'),
    ('array[uint8, uint8]', 'array[Header[uint8], uint8]'), ('array[2, uint8]', 'array[Header[2], uint8]'),
    ('array[Header, uint8]', 'array[Header[1], uint8]'), ('array[None, uint8]', 'array[Header[1], uint8]'),
    ('array[Header[2]]', 'array[Header[2], int8]'), ('array[uint8]', 'array[Header[uint8], int8]'), ('array[()]', 'array[Header[2], int8]'),
    ('array[Header[2], uint8, uint8]', 'array[Header[2, uint8], uint8]'), ('array[uint8, Header[2]]', 'array[Header[2], uint8]'),
    ('array[Header[2], int]', 'array[Header[2], int8]'), ('array[Header[2], None]', 'array[Header[2], int8]'),
    ('array[Header[2], str]', 'array[Header[2], null_unicode]'), ('array[Header[2], list]', 'array[Header[2], array[Header[2], int8]]'),
    ('array[Header[2], 5]', 'array[Header[2], pad[5]]'), ('array[Header[2], tuple[int, int8]]', 'array[Header[2], tuple[int16, int8]]'),
    ('array[Header[2], tuple[uint8, ...]]', 'array[Header[2], tuple[uint8]]'), ('array[Header[2], Plain]', 'array[Header[2], Inner]'),
    ('array[Header[2], Union[uint8, int8]]', 'array[Header[2], Annotated[Union[uint8, int8], LookbackDecider(yes, {0: uint8})]]'),
    ('array[Header[2], Annotated[int, "doc"]]', 'array[Header[2], Annotated[uint8, "doc"]]'), ('array[Header[2], bytes]', 'array[Header[2], char[2]]'),
    ('array[Header[2], char[math.inf]]', 'array[Header[2], char[uint8]]'), ('array[Header[2], unicode[math.inf]]', 'array[Header[2], unicode[NET]]'),
    ('array[Header[uint8], tuple[uint8, char[math.inf]]]', 'array[Header[uint8], tuple[uint8, null_char]]'),
    ('array[Header[uint8], Swallow]', 'array[Header[uint8], Inner]'),
    ('array[Header[uint8], Rest()]', 'array[Header[uint8], VarInt()]'),
    ('array[Header[2], Header[2]]', 'array[Header[2], uint16]'), ('array[Header[2], NET]', 'array[Header[2], char[NET]]'),
    # Unions
    ('Annotated[uint8, LookbackDecider(yes, {0: uint8})]', 'Annotated[Union[uint8, int8], LookbackDecider(yes, {0: uint8})]'),
    ('Annotated[int, LookbackDecider(yes, {0: uint8})]', 'Annotated[Union[uint8, int8], LookbackDecider(yes, {0: uint8})]'),
    ('Annotated[list, LookbackDecider(yes, {0: uint8})]', 'Annotated[uint8 | int8, LookbackDecider(yes, {0: uint8})]'),
    ('Annotated[tuple[uint8, int8], LookbackDecider(yes, {0: uint8})]', 'Annotated[Union[uint8, int8], LookbackDecider(yes, {})]'),
    ('Annotated[Inner, LookbackDecider(yes, {0: Inner})]', 'Annotated[Union[Inner, int8], LookbackDecider(yes, {0: Inner})]'),
    ('Annotated[Any, LookbackDecider(yes, {0: uint8})]', 'Annotated[Union[null_char, int8], LookbackDecider(yes, {0: uint8})]'),
    ('Annotated[char[2], LookaheadDecider(uint8, yes, {0: uint8})]', 'Annotated[Union[char[2], int8], LookaheadDecider(uint8, yes, {0: uint8})]'),
    ('Annotated[str, LookaheadDecider(uint8, yes, {0: uint8})]', 'Annotated[int8 | Inner, LookaheadDecider(uint8, yes, {0: uint8})]'),
]
RESULTS = [
    ('int', 'int8'), ('None', 'uint8'), ('str', 'null_unicode'), ('5', 'char[5]'), ('pad[2]', 'char[2]'), ('char', 'char[NET]'),
    ('array', 'array[Header[2], uint8]'), ('list', 'array[Header[uint8], uint8]'), ('tuple[int, uint8]', 'tuple[int8, uint8]'),
    ('Union[uint8, int8]', 'Annotated[Union[uint8, int8], LookbackDecider(yes, {0: uint8})]'), ('Plain', 'Inner'),
    ('"uint8"', 'uint8'), ('Annotated[int, "doc"]', 'Annotated[uint8, "doc"]'), ('Header[2]', 'uint16'), ('b""', 'null_char'),
    ('Annotated[pad[2], Condition(yes)]', 'Annotated[uint8, Condition(yes, 0)]'), ('unicode', 'unicode[3]'),
    ('pad', 'pascal[3]'),
]
for _bad, _good in RESULTS:
    for _form in (
        'Annotated[Union[uint8, int8], LookbackDecider(yes, {{0: {}}})]',
        'Annotated[Union[uint8, int8], LookbackDecider(yes, {{0: uint8, 1: {}}}, default=int8)]',
        'Annotated[Union[uint8, int8], LookbackDecider(yes, {{0: uint8}}, {})]',
        'Annotated[Union[uint8, int8], LookaheadDecider(uint8, yes, {{0: {}}})]',
        'Annotated[Union[uint8, int8], LookaheadDecider(uint8, yes, {{0: uint8}}, default={})]',
    ):
        # NOTE: Without a default, as if it was None
        if _bad not in ('None', 'b""') or 'default=' not in _form and '}}, {}' not in _form:
            INVALID.append((_form.format(_bad), _form.format(_good)))
INVALID += [
    (f'Annotated[Union[uint8, int8], LookaheadDecider({bad}, yes, {{0: uint8}})]',
     f'Annotated[Union[uint8, int8], LookaheadDecider({good}, yes, {{0: uint8}})]')
    for bad, good in (('int', 'int8'), ('5', 'char[5]'), ('char', 'char[1]'), ('str', 'null_unicode'), ('None', 'bool8'),
                      ('Plain', 'Inner'), ('Union[uint8, int8]', 'uint16'), ('Header[2]', 'tuple[uint8, int8]'))
]
# Conditions
INVALID += [(f'Annotated[{bad}, Condition({args})]', f'Annotated[{good}, Condition({right})]') for bad, args, good, right in (
    ('int', 'yes, 0', 'int8', 'yes, 0'), ('list', 'yes, []', 'array[Header[2], uint8]', 'yes, []'),
    ('tuple[int, uint8]', 'yes, ()', 'tuple[int8, uint8]', 'yes, ()'), ('Any', 'yes, 0', 'Inner', 'yes, None'),
    ('Union[uint8, int8]', 'yes, 0', 'uint8', 'yes, 0'), ('Optional[uint8]', 'yes, None', 'uint8', 'yes, None'),
    ('Annotated[int, "doc"]', 'yes, 0', 'Annotated[int8, "doc"]', 'yes, 0'), ('char', 'yes, b""', 'char[1]', 'yes, b""'),
    ('Plain', 'yes, None', 'Inner', 'yes, None'), ('tuple[uint8, ...]', 'yes, ()', 'tuple[uint8]', 'yes, ()'),
    ('uint8', 'yes', 'uint8', 'yes, 0'), ('uint8', 'yes, 0, 0', 'uint8', 'yes, 0'), ('pad[2]', 'yes, 0', 'pad[2]', 'yes'),
    ('tuple[uint8, int8]', 'yes, 0, 0', 'tuple[uint8, int8]', 'yes, (0, 0)'), ('Inner', 'yes', 'Inner', 'yes, None'),
    ('tuple[uint8, int8]', 'yes', 'tuple[uint8, int8]', 'yes, ()'), ('null_char', 'yes, 1, 2, 3', 'null_char', 'yes, 1'),
    ('array[Header[2], uint8]', 'yes, 0, 0', 'array[Header[2], uint8]', 'yes, [0, 0]'), ('VarInt()', 'yes', 'VarInt()', 'yes, 3'),
)]
# Custom types
INVALID += [(f'Annotated[CustomInt0, SerializeAs({bad})]', f'Annotated[CustomInt0, SerializeAs({good})]') for bad, good in (
    ('int', 'int8'), ('char[uint8]', 'char[8]'), ('null_char', 'char[1]'), ('pad[2]', 'pascal[2]'), ('char', 'char[2]'),
    ('tuple[uint8, int8]', 'uint16'), ('tuple[uint8]', 'uint8'), ('array[Header[1], uint8]', 'uint8'), ('None', 'bool8'),
    ('5', 'char[5]'), ('Inner', 'float32'), ('Plain', 'float64'), ('char[NET]', 'char[1]'), ('unicode[4]', 'char[4]'),
    ('Annotated[uint8, Condition(yes, 1)]', 'Annotated[uint8, "doc"]'), ('VarInt()', 'int64'), ('Union[uint8, int8]', 'int64'),
    ('StructSerializer("BB")', 'StructSerializer("B")'), ('StructSerializer("")', 'StructSerializer("H")'),
    ('"uint8"', 'uint8'),
)]
# Odd values where a type, a number or a text is wanted
ODD = ('0', 'False', '""', 'b""', '()', '0.0', '[]', '{}', 'set()', 'frozenset()', '-1', '1j', 'object()', '...', 'Plain()', 'Plain', 'list',
       'uint8 | int8', 'Inner', 'char', 'array', 'null_char', 'pad[2]', 'ByteOrder.LE', 'yes', '"uint8"', '"abc"',
       'char[uint8]', 'tuple[uint8]', 'Annotated[int8, 1]', 'int16', 'float64', 'NET()', 'math.nan', '-0.5', '2**64 + 0.5')
for _form, _good in (
    ('array[Header[2, {}], uint8]', 'uint16'), ('array[Header[uint16, {}], null_char]', 'uint64'),
    ('array[Header[{}], uint8]', 'uint32'), ('array[Header[{}, uint8], uint8]', '4'), ('array[Header[{}], null_char]', '0'),
    ('array[{}, uint8]', 'Header[1]'), ('char[{}]', '4'), ('unicode[{}]', '4'), ('unicode[4, {}]', '"utf8"'),
    ('unicode[NET, {}]', 'CodecHex'), ('pad[{}]', '1'), ('pascal[{}]', '3'),
):
    for _bad in ODD:
        if _bad in ('0', 'False') and (_good.isdigit() or 'Header[{}' in _form) or 'uni' in _form and ', ' in _form and _bad == '"abc"':
            continue
        if _good in ('"utf8"', 'CodecHex') and (_bad[:1] == '"' or 'ByteOrder' in _bad):
            continue  # NOTE: Unknown encodings are not noticed before they are used
        INVALID.append((_form.format(_bad), _form.format(_good)))
# Unindexed types as an annotation
INVALID += [(f'Annotated[{base}, {bad}]', f'Annotated[{base2}, {good}]') for base in ('int', 'bytes', 'Any', 'uint8') for base2 in ('uint8',)
            for bad, good in (('char', 'char[2]'), ('unicode', '"char"'), ('pad', 'int'), ('pascal', 'bytes'), ('array', 'Any'),
                              ('"doc", char', '"doc"'))]
# Where they are
PLACES = (
    '{}', '{}', 'tuple[uint8, {}]', 'Tuple[{}]', 'Annotated[{}, "doc"]', 'Annotated[Annotated[{}, 3], "doc"]', 'tuple[tuple[{}], uint8]',
    'array[Header[2], {}]', 'array[Header[uint8, uint8], tuple[{}, uint8]]',
    'Annotated[{}, Condition(yes, None)]', 'Annotated[Union[{}, uint8], LookbackDecider(yes, {{0: uint8}})]',
    'Annotated[Union[int8, uint8], LookbackDecider(yes, {{0: {}}})]',
    'Annotated[Union[int8, uint8], LookaheadDecider({}, yes, {{0: uint8}})]',
    'Wrapper[{}]', 'GenericBase[{}]',
)
MODES = ('plain', 'alias', 'string', 'future')
HAND = '''
from structured.serializers import StructSerializer
def yes(o):
    return 1
class Plain:
    pass
class Inner(Structured):
    p: uint8
    q: null_char
class Swallow(Structured):
    p: uint8
    q: char[math.inf]
T = TypeVar('T')
class Wrapper(Generic[T], Structured):
    w: T
'''


def statement(hint, place, mode):
    lines = []
    base = 'Structured'
    if place == 'GenericBase[{}]':
        base, hint, line = f'Wrapper[{hint}]', None, '    pass'
        if mode == 'alias':
            lines.append(f'Al = {base[8:-1]}')
            base = 'Wrapper[Al]'
    else:
        hint = place.format(hint)
        if mode == 'alias':
            lines.append(f'Al = {hint}')
            hint = 'Al'
        elif mode == 'string':
            hint = repr(hint)
        line = f'    m: {hint}'
    return '\n'.join(lines + [f'class Invalid({base}):', line, ''])


def needs_nothing_final(hint, place):
    """A valid hint has to be valid in this place."""
    if any(w in hint for w in ('math.inf', 'Swallow', 'Rest()')):
        return place in ('{}', 'Annotated[{}, "doc"]', 'Annotated[Annotated[{}, 3], "doc"]', 'Tuple[{}]', 'GenericBase[{}]',
                         'Wrapper[{}]', 'tuple[uint8, {}]')
    if hint.startswith(('pad[', 'Annotated[pad[')):
        return place in ('{}', 'tuple[uint8, {}]', 'Annotated[{}, "doc"]', 'Annotated[Annotated[{}, 3], "doc"]',
                         'GenericBase[{}]')
    return True


def invalid_case(case):
    rng = case.rng
    i = case.index
    bad, good = INVALID[i % len(INVALID)]
    turn = i // len(INVALID)
    place = PLACES[turn % len(PLACES)]
    mode = MODES[(turn // len(PLACES) + turn + i) % len(MODES)]
    if 'Wrapper[' in place or 'GenericBase' in place:
        if 'Condition(' in bad or 'Condition(' in good:
            place = '{}'  # NOTE: Not hashable arguments of generics
    future = 'from __future__ import annotations\n' if mode == 'future' else ''
    hand = HAND
    wrong = statement(bad, place, mode)
    try:
        define(case, hand + wrong, header=future)
    except Exception as e:
        if isinstance(e, (RecursionError, NameError, SyntaxError)):
            raise Violation(f'{bad} in {place} raised {e!r}') from None
        case.stats.hit('invalid hints refused')
        case.stats.hit(f'by {type(e).__name__}')
    else:
        raise Violation(f'{bad} in {place} was accepted')
    if needs_nothing_final(good, place):
        ns = define(case, hand + statement(good, place, mode), header=future)
        cls = ns['Invalid']
        want = () if good.startswith(('pad[', 'Annotated[pad[')) and (
            'uint8, {' not in place) else ('w',) if place == 'GenericBase[{}]' else ('m',)
        if cls.attrs != want:
            raise Violation(f'{good} in {place} gave the attributes {cls.attrs}, expected {want}')
        case.stats.hit('valid hints accepted')
    case.stats.case((wrong, mode), {'invalid': wrong, 'instead of': good} if len(case.stats.samples) < 6 else None)


# ------------------------------------------------------------- classes by hand

# Class bodies which mean the same
SAME = (
    ('m: tuple[uint8, int16]', 'm: Tuple[uint8, int16]', 'm: "Tuple[uint8, int16]"', 'm: "tuple[uint8, int16]"',
     'm: Annotated[tuple[uint8, int16], "x"]', 'm: Annotated[Tuple[Annotated[uint8, 1], int16], "x"]',
     'm: Tuple[uint8, Annotated[int16, 2]]', 'm: tuple["uint8", "int16"]', 'm: Tuple["uint8", int16]',
     'm: Annotated["tuple[uint8, int16]", 3]', 'import typing\n    m: typing.Tuple[uint8, int16]'),
    ('m: uint8', 'm: "uint8"', 'm: Annotated[uint8, 0]', 'm: Annotated["uint8", 0]', 'm: uint8 = 4',
     'm: "Annotated[uint8, 0]" = 4', 'm: Annotated[Annotated[uint8, 1], 2]', 'm: int\n    m: uint8', 'm: uint16\n    m: uint8',
     'm: ClassVar[int]\n    m: uint8', 'm: StructSerializer("B")', 'm: Annotated[int, StructSerializer("B")]',
     'm: Annotated[str, "text", StructSerializer("B"), "text"]', 'm: "StructSerializer(\'B\')"',
     'def m(self): return 1\n    m: uint8', 'm: uint8\n    def method(self): return 1', 'm: uint8\n    __slots__ = ("m", "__dict__")',
     'm: uint8\n    n: int = 3\n    o: str', 'm: uint8\n    n: uint8\n    n: int'),
    ('m: Annotated[Union[uint8, null_char], LookbackDecider(yes, {1: uint8})]',
     'm: Annotated[uint8 | null_char, LookbackDecider(yes, {1: uint8})]',
     'm: Annotated[Optional[uint8], "x"]\n    m: Annotated[Union[uint8, null_char], "x", LookbackDecider(yes, {1: uint8})]',
     'm: Annotated[Annotated[Union[uint8, null_char], "y"], LookbackDecider(yes, {1: uint8}), "x"]',
     'm: "Annotated[uint8 | null_char, LookbackDecider(yes, {1: uint8})]"',
     'm: Annotated[Union["uint8", null_char], LookbackDecider(yes, {1: uint8})]',
     'm: Annotated[Annotated[uint8, 1] | null_char, LookbackDecider(result_map={1: Annotated[uint8, 1]}, decider=yes)]',
     'm: Annotated[Union[uint8, null_char], LookbackDecider(yes, {2: null_char}, default=uint8)]'),
    ('m: array[Header[uint8], int16]', 'm: Annotated[array[Header[uint8], int16], "x"]', 'm: "array[Header[uint8], int16]"',
     'm: Annotated[list, array[Header[uint8], int16]]', 'm: Annotated[list[int], array[Header[uint8], int16]]',
     'm: Annotated[list[int16], "x", array[Header[uint8], int16], "y"]', 'm: array[Header[uint8], Annotated[int16, "x"]]',
     'm: array[Header[uint8, None], int16]', 'm: array[Header[uint8], StructSerializer("h")]'),
    ('m: char[uint8]', 'm: Annotated[bytes, char[uint8]]', 'm: Annotated[Any, char[uint8], "x"]', 'm: char[uint8,]', 'm: "char[uint8]"'),
    ('m: unicode[uint8]', 'm: unicode[uint8, "utf8"]', 'm: unicode[uint8, "utf-8"]', 'm: Annotated[str, unicode[uint8]]', 'm: unicode[uint8,]'),
    ('m: null_char', 'm: char[b"\\0"]', 'm: char[bytes(1)]', 'm: Annotated[bytes, null_char]'),
    ('m: Inner', 'm: "Inner"', 'm: Annotated[Inner, "x"]', 'm: Annotated["Inner", "x"]', 'm: "Annotated[Inner, 1]"'),
    ('m: Annotated[CustomInt0, SerializeAs(uint8)]', 'm: Annotated[CustomInt0, "x", SerializeAs(uint8)]',
     'm: Annotated[Annotated[CustomInt0, SerializeAs(uint8)], "x"]', 'm: Annotated[CustomInt0, SerializeAs(Annotated[uint8, 3])]',
     'm: Annotated[Any, SerializeAs(uint8).with_factory(CustomInt0)]', 'm: "Annotated[CustomInt0, SerializeAs(uint8)]"',
     'm: Annotated[CustomInt0, SerializeAs(StructSerializer("B"))]'),
    ('m: uint8\n    _: pad[2]\n    n: uint8', 'm: uint8\n    _: "pad[2]"\n    n: uint8', 'm: uint8\n    x: pad[2]\n    n: uint8',
     'm: uint8\n    _: pad[1]\n    _: pad[1]\n    n: uint8', 'm: uint8\n    _: Annotated[pad[2], "x"]\n    n: uint8',
     'm: uint8\n    _: "Annotated[pad[2], 3]"\n    n: uint8', 'm: uint8\n    _: "pad[1]"\n    _: "pad [1]"\n    n: uint8',
     'm: uint8\n    _: "pad[1]"\n    _: pad[1]\n    n: uint8', 'm: uint8\n    _: Annotated[pad[2], Condition(yes)]\n    n: uint8',
     'm: uint8\n    _: P2\n    n: uint8', 'm: uint8\n    _: int\n    _: pad[2]\n    n: uint8',
     'm: uint8\n    _: pad[0]\n    _: pad[2]\n    n: uint8',
     'm: uint8\n    a: pad[1]\n    b: pad[1]\n    n: uint8', 'm: uint8\n    __: pad[2]\n    n: uint8',
     'm: uint8\n    _: Annotated["pad[1]", 1]\n    _: Annotated["pad[1]", 1]\n    n: uint8'),
    ('m: Annotated[uint8, Condition(yes, 0)]', 'm: Annotated[Annotated[uint8, "x"], Condition(yes, 0), "y"]',
     'm: Annotated[uint8, "x", Condition(yes, 0)]', 'm: "Annotated[uint8, Condition(yes, 0)]"', 'm: Annotated[uint8, Condition(yes, 1), Condition(yes, 2)]'),
)
def value_for(group, ns):
    if 'tuple' in group:
        return ((1, -2),)
    if 'array' in group:
        return ([1, 2, -3],)
    if 'unicode' in group:
        return ('äb',)
    if 'Union' in group:
        return (7,)
    if 'char' in group:
        return (b'abc',)
    if 'Inner' in group:
        return (ns['Inner'](1, b'ab'),)
    if 'CustomInt0' in group:
        return (ns['CustomInt0'](9),)
    return (1, 2) if 'n:' in group else (5,)


def same_case(case):
    """Class bodies which mean the same"""
    rng = case.rng
    i = case.index
    group = SAME[i % len(SAME)]
    turn = i // len(SAME)
    body = group[turn % len(group)]
    future = bool(turn // len(group) % 2)
    bo = rng.choice(BO_NAMES)
    text = HAND + 'P2 = pad[2]\n'
    for k, b in enumerate((group[0], body)):
        text += f'class Spelled{k}(Structured, byte_order=ByteOrder.{bo}):\n    {b}\n'
    ns = define(case, text, header='from __future__ import annotations\n' if future else '')
    one, two = ns['Spelled0'], ns['Spelled1']
    if one.attrs != two.attrs:
        raise Violation(f'{body}: attrs is {two.attrs}, expected {one.attrs}')
    values = value_for(group[0], ns)
    x, y = one(*values), two(*values)
    p, q = attempt(x.pack), attempt(y.pack)
    if not p[0] or p != q:
        raise Violation(f'{body} packed {q[1]!r}, expected {p[1]!r}')
    data = p[1]
    for name, fn in (('create_unpack', lambda c: c.create_unpack(data)),
                     ('create_unpack_read', lambda c: c.create_unpack_read(io.BytesIO(data))),
                     ('create_unpack_from', lambda c: c.create_unpack_from(data))):
        v, w = fn(one), fn(two)
        got = [getattr(w, a) for a in two.attrs]
        want = [getattr(v, a) for a in one.attrs]
        if got != want or list(map(type, got)) != list(map(type, want)):
            raise Violation(f'{body}: {name} gave {got}, expected {want}')
    case.stats.hit('equivalent classes compared')
    case.stats.case((text, future), None)


def pads_case(case):
    """Several paddings of one name, which can't be recognized yet"""
    i = case.index
    future = bool(i % 2)
    hint = ('P2', '"P2"', 'Annotated["P2", 0]', 'pad[2]', 'Annotated[P2, "x"]',
            'Annotated["P2", Condition(lambda o: True)]')[i // 2]
    ns = define(case, HAND + f'P2 = pad[2]\nclass Pads(Structured):\n    m: uint8\n    _: {hint}\n    n: uint8\n    _: {hint}\n',
                header='from __future__ import annotations\n' if future else '')
    data = ns['Pads'](1, 2).pack()
    case.stats.case((i, 'pads'), None)
    if data != b'\1\0\0\2\0\0':
        raise Violation(f'two paddings of 2 bytes packed as {data!r}')
    # A member named _ which is none
    ns = define(case, HAND + 'P2 = pad[2]\n' + PADS.format(hint=hint),
                header='from __future__ import annotations\n' if future else '')
    for name, attrs, values, want in (
            ('Member', ('m', '_', 'n'), (1, 2, 3), b'\1\0\0\2\0\0\0\3'),
            ('Tuple', ('_', 'm'), ((1,), 2), b'\1\0\2\0\0'),
            ('Hidden', ('m',), (1,), b'\0\0\0\0\1'),
            ('Twice', ('m', '_', 'n'), (1, 2, 3), b'\1\2\0\0\0\3'),
            ('More', ('m', '_', 'n', 'o'), (1, 2, 3, 4), b'\1\2\0\0\0\3\0\0\4'),
            ('Other', ('m', '_', 'n', 'o'), (1, 2, 3, 4), b'\1\2\3\4')):
        cls = ns[name]
        x = cls(*values)
        got = x.pack()
        if cls.attrs != attrs or got != want or cls.create_unpack(want) != x:
            raise Violation(f'{name} with the hint {hint}: {cls.attrs}, {got!r}, expected {attrs}, {want!r}')


PADS = '''
class Member(Structured, byte_order=ByteOrder.LE):
    m: uint8
    _: {hint}
    _: Annotated[int, int16]
    _: {hint}
    n: uint8

class Tuple(Structured, byte_order=ByteOrder.LE):
    _: tuple[uint8, pad[1]]
    m: uint8
    _: {hint}

class Hidden(Structured, byte_order=ByteOrder.LE):
    _: {hint}
    _: ClassVar[int] = 5
    _: {hint}
    m: uint8

class Twice(Structured, byte_order=ByteOrder.LE):
    m: uint8
    _: uint32
    n: uint8
    _: Annotated[int, uint32]

class More(Twice, byte_order=ByteOrder.LE):
    _: {hint}
    o: uint8

class Other(Twice, byte_order=ByteOrder.LE):
    o: uint8
    _: Annotated[int, uint8]
'''


KINDS = {
    'spell': Kind(spell_case, len(EACH) * len(SPELLINGS) * 2, len(EACH) * len(SPELLINGS) * 40),
    'random': Kind(random_case, 800, 30000),
    'invalid': Kind(invalid_case, len(INVALID) * len(PLACES), len(INVALID) * len(PLACES) * len(MODES)),
    'same': Kind(same_case, len(SAME) * 40, len(SAME) * 300),
    'pads': Kind(pads_case, 12, 12),
}
