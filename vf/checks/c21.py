"""Independence of what happened before."""

from .common import *
from .c20 import bad_values, sites_in

ID = 'C21'
RULE = (
    'Histories of 30 to 150 operations on several classes which share hints (the very same objects: '
    'aliases of types, deciders, conditions, serializers), with different byte orders, in random '
    'order of definition, also nested, inherited, and defined in the middle of the history: packing '
    'and unpacking by all routes, of valid, malformed and truncated data and of unrepresentable '
    'values, with callbacks, custom types and streams which raise in the middle, with unpacking '
    'abandoned half way, and with class statements which are rejected. Each result is compared with '
    'the reference, which knows no history; each exception also with that of the same operation on '
    'classes newly defined; and at the end all the objects made on the way must still be what they '
    'were. Distinct: schemas and history.'
)


def alias(node, number):
    """The hint is written once, and used by its name after that."""
    plain = node.src
    name = f'HINT{number}'

    def src(c):
        done = c.__dict__.setdefault('aliases', set())
        if number not in done:
            done.add(number)
            text = plain(c)
            c.parts.append(f'\n{name} = {text}\n')
        return name

    node.src = src
    return node


class Boom(Exception):
    pass


def fields_of(rng, p, depth=2):
    """Hints, some of which look at the members k and n."""
    k, n = Basic('uint8'), DynChar('uint8')
    k.ctrl = True
    earlier = (('k', k), ('n', n))
    g = SchemaGen(rng, p)
    g.serial = 0
    g.bo = 'DEFAULT'
    nodes = []
    for i in range(rng.randint(3, 7)):
        try:
            node = g.hint(Ctx(depth, earlier, last=False, field=True, name='zz'))
        except Skip:
            continue
        if node.final or isinstance(node, UnionLA):
            continue
        nodes.append(node)
    return k, n, nodes


def world(rng):
    """Classes sharing hints."""
    p = Profile(max_fields=3, depth=2, consume=0.0, self=0, lookahead=0, styles=0.0, raw=0.0,
                array=16, tuple=12, cond=14, lookback=12, seras=8, custom=6, uni=10, dynchar=10)
    k, n, nodes = fields_of(rng, p)
    shared = [alias(node, i) if node.nvals else node for i, node in enumerate(nodes)]
    cds = []
    count = rng.randint(3, 7)
    for i in range(count):
        body = [('k', k), ('n', n)]
        for j in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.75 and shared:
                node = rng.choice(shared)
            elif r < 0.9 and cds and not (inner := rng.choice(cds)).final:
                node = Nest(inner)
                if rng.random() < 0.5:
                    node = Arr('uint8', None, node)
            else:
                node = rng.choice(LEAFS)()
            body.append((f'm{j}' if node.nvals else '_', node))
        base = None
        bo = rng.choice(BO_NAMES)
        if cds and rng.random() < 0.25:
            base = rng.choice(cds)
            taken = {x for x, _ in base.slots.values()}
            body = [(x, nd) for x, nd in body if x not in ('k', 'n')]
            mode = 'OVERRIDE'
            cd = ClassDef(f'S{i}', body, bo, base=base, mode=mode)
        else:
            if rng.random() < 0.1:
                body.append(('rest', ConsumeChar()))
            cd = ClassDef(f'S{i}', body, bo)
        if any(nd.final for _, nd in cd.fields[:-1]):
            continue
        # Predicates only look at the first two members, which all classes share
        gen.finish(cd)
        cds.append(cd)
    for cd in cds:
        for nd in cd.nodes:
            for sub in build.walk_local(nd):
                pred = getattr(sub, 'pred', None)
                if pred is not None and not isinstance(nd, Nest):
                    pred.fields = tuple(x for x in pred.fields if x in ('k', 'n'))
    return cds


BAD_STATEMENTS = (
    'class Bad(Structured):\n    a: uint8\n    b: {alias}\n    c: char[math.inf]\n    d: uint8\n',
    'class Bad({cls}):\n    zz: char[0.5]\n',
    'class Bad({cls}, byte_order=ByteOrder.{bo}, byte_order_mode=ByteOrderMode.STRICT):\n'
    '    a: Annotated[uint8, LookbackDecider(len, {{0: {alias}}})]\n',
    'class Bad(Structured):\n    a: array[Header[{alias}, {alias}, 3], {alias}]\n',
    'class Bad(Structured):\n    a: Annotated[int, LookbackDecider(len, {{0: {alias}}})]\n',
    'class Bad(Structured):\n    a: char\n    b: {alias}\n',
)


class BadStream(io.BytesIO):
    """Fails after some operations."""

    def __init__(self, data=b'', after=0):
        super().__init__(data)
        self.left = after

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Boom('stream')

    def read(self, n=-1):
        self.tick()
        return super().read(n)

    def write(self, data):
        self.tick()
        return super().write(data)


class History:
    def __init__(self, case, cds, env):
        self.case, self.cds, self.env = case, cds, env
        self.rng = case.rng
        self.kept = []  # objects made on the way, and what they looked like
        self.failed = []
        self.log = []

    def note(self, what, cd, *rest):
        self.log.append((what, cd.name) + tuple(short(r, 80) for r in rest))

    def fail(self, text):
        tail = '\n    '.join(map(str, self.log[-12:]))
        raise Violation(f'{text}\n  after {len(self.log)} operations, the last of which\n    {tail}')

    # ---- single operations; each gives (ok, outcome) which depends on env only
    def do_pack(self, env, route, rec, top=None, bad=None):
        o = env.obj(rec)
        if top is not None:
            setattr(o, top, env.values(bad)[rec.cd.attrs.index(top)])
        if route == 'pack':
            return attempt(o.pack), o
        if route == 'pack_into':
            buffer = bytearray(1 << 17)
            ok, out = attempt(lambda: o.pack_into(buffer, 2))
            return (ok, buffer[2:] if ok else out), o
        stream = io.BytesIO()
        ok, out = attempt(lambda: o.pack_write(stream))
        return (ok, stream.getvalue() if ok else out), o

    def do_unpack(self, env, route, cd, data, into=None):
        cls = env.cls(cd)
        x = cls if into is None else into
        name = route if into is not None else 'create_' + route
        fn = getattr(x, name)
        if route == 'unpack':
            arg = data
        elif route == 'unpack_read':
            arg = io.BytesIO(data)
        else:
            ok, out = attempt(lambda: fn(b'\x77\x77' + data, 2))
            return ok, (into if into is not None and ok else out)
        ok, out = attempt(lambda: fn(arg))
        return ok, (into if into is not None and ok else out)

    # ---- steps
    def step(self):
        rng = self.rng
        cd = rng.choice(self.cds)
        kind = rng.choices(
            ('pack', 'unpack', 'into', 'bad value', 'malformed', 'callback', 'stream', 'abandon', 'define'),
            (24, 24, 8, 14, 12, 8, 8, 4, 3))[0]
        getattr(self, 'step_' + kind.replace(' ', '_'))(cd)
        self.case.stats.hit('step ' + kind)

    def step_pack(self, cd):
        drawn = draw(self.case, cd, big=0.005)
        if drawn is None:
            return
        rec, data = drawn
        route = self.rng.choice(('pack', 'pack_into', 'pack_write'))
        self.note(route, cd, rec)
        (ok, out), o = self.do_pack(self.env, route, rec)
        self.packed(route, cd, rec, data, ok, out)
        self.keep(o)

    def packed(self, route, cd, rec, data, ok, out):
        if not ok:
            self.fail(f'{cd.name}: {route}() raised {out!r} for {short(rec)}')
        if bytes(out[: len(data)]) != data or (len(out) != len(data) and route != 'pack_into'):
            self.fail(f'{cd.name}: {route}() packed {short(bytes(out[:len(data) + 9]))}, expected {short(data)}')
        size = self.env.cls(cd).serializer.size
        if size != len(data):
            self.fail(f'{cd.name}: size is {size} after packing {len(data)} bytes')

    def keep(self, o):
        if len(self.kept) < 40:
            self.kept.append((o, self.env.freeze(o)))

    def step_unpack(self, cd, into=False):
        drawn = draw(self.case, cd, big=0.005)
        if drawn is None:
            return
        rec, data = drawn
        self.unpacked(cd, data, into)

    def unpacked(self, cd, data, into=False):
        rng, env = self.rng, self.env
        route = rng.choice(('unpack', 'unpack_from', 'unpack_read'))
        target = None
        if into:
            olds = [i for i, (x, _) in enumerate(self.kept) if type(x) is env.cls(cd)]
            target = env.cls(cd).__new__(env.cls(cd))
            if olds and rng.random() < 0.7:
                target = self.kept.pop(rng.choice(olds))[0]
        self.note(('' if into else 'create_') + route, cd, data)
        try:
            want, used = cd.decode(data)
        except RefError as e:
            if 'gives up' in str(e):
                return
            want = None
        ok, x = self.do_unpack(env, route, cd, data, target)
        if isinstance(x, Violation):
            raise x
        if want is None:
            if ok:
                self.fail(f'{cd.name}: {route}() accepted {short(data)}')
            if target is None:
                self.failed.append((route, cd, data, type(x)))
            return
        if not ok:
            self.fail(f'{cd.name}: {route}() raised {x!r} for {short(data)}')
        try:
            got = env.rec(x, cd)
        except Mismatch as e:
            self.fail(f'{cd.name}: {route}({short(data)}): {e}')
        if not same(got, want):
            self.fail(f'{cd.name}: {route}({short(data)}) gave {short(got)}, expected {short(want)}')
        size = env.cls(cd).serializer.size
        if size != used:
            self.fail(f'{cd.name}: size is {size} after unpacking {used} bytes')
        self.keep(x)

    def step_into(self, cd):
        self.step_unpack(cd, True)

    def step_bad_value(self, cd):
        drawn = draw(self.case, cd, big=0.005)
        if drawn is None:
            return
        rec, data = drawn
        places = list(sites_in(rec, cd.name))
        if not places:
            return
        path, node, v, o, put = self.rng.choice(places)
        options = [x for x in bad_values(self.rng, node, v, o) if not x[0].startswith('much')]
        if not options:
            return
        what, x = self.rng.choice(options)
        top = path.split('.')[1].split('[')[0]
        bad = put(x)
        route = self.rng.choice(('pack', 'pack_into', 'pack_write'))
        self.note(route, cd, path, what)
        (ok, out), o = self.do_pack(self.env, route, rec, top, bad)
        if isinstance(out, Violation):
            raise out
        if ok:
            self.fail(f'{cd.name}: {route}() packed an unrepresentable value ({what}) at {path}')
        (ok, again), _ = self.do_pack(self.env, route, rec, top, bad)
        if type(again) is not type(out):
            self.fail(f'{cd.name}: {route}() raised {out!r}, and {again!r} the second time')
        if self.rng.random() < 0.5:
            # The same object, put right
            setattr(o, top, self.env.values(rec)[cd.attrs.index(top)])
            ok, out = attempt(o.pack)
            self.packed('pack', cd, rec, data, ok, out)

    def step_malformed(self, cd):
        drawn = draw(self.case, cd, big=0.0)
        if drawn is None:
            return
        data = drawn[1]
        if self.rng.random() < 0.5:
            data = data[: self.rng.randint(0, len(data))]
        else:
            data = battery(self.case, self.env).mutate(data)
        self.unpacked(cd, data, self.rng.random() < 0.2)

    def step_callback(self, cd):
        """A condition or decider raises."""
        H = self.env.hooks
        drawn = draw(self.case, cd, big=0.0)
        if drawn is None or not H.preds:
            return
        rec, data = drawn
        left = self.rng.randrange(4)

        def probe(pid, o):
            nonlocal left
            left -= 1
            if left < 0:
                raise Boom('callback')

        o = self.env.obj(rec)
        H.probe = probe
        self.note('raising callback', cd, left)
        try:
            if self.rng.random() < 0.5:
                ok, out = attempt(self.rng.choice((
                    o.pack, lambda: o.pack_into(bytearray(1 << 17)), lambda: o.pack_write(io.BytesIO()))))
            else:
                ok, out = self.do_unpack(self.env, self.rng.choice(('unpack', 'unpack_from', 'unpack_read')),
                                         cd, data)
        finally:
            H.probe = None
        if left < 0:
            self.case.stats.hit('callbacks raised')
            if ok or not isinstance(out, Boom):
                self.fail(f'{cd.name}: the exception of a callback was turned into {short(out)}')

    def step_stream(self, cd):
        drawn = draw(self.case, cd, big=0.0)
        if drawn is None:
            return
        rec, data = drawn
        o = self.env.obj(rec)
        if self.rng.random() < 0.5:
            stream = BadStream(b'', self.rng.randrange(4))
            fn = lambda: o.pack_write(stream)
        else:
            stream = BadStream(data, self.rng.randrange(6))
            fn = lambda: self.env.cls(cd).create_unpack_read(stream)
        self.note('raising stream', cd, stream.left)
        ok, out = attempt(fn)
        if stream.left < 0:
            self.case.stats.hit('streams raised')
            if ok or not isinstance(out, Boom):
                self.fail(f'{cd.name}: the exception of a stream was turned into {short(out)}')

    def step_abandon(self, cd):
        """Values of a serializer are iterables, which might not be used up."""
        drawn = draw(self.case, cd, big=0.0)
        if drawn is None:
            return
        rec, data = drawn
        o = self.env.obj(rec)
        self.note('abandoned unpacking', cd)
        it = iter(self.env.cls(cd).serializer.preunpack(o).unpack(data))
        for _ in range(self.rng.randrange(3)):
            next(it, None)

    def step_define(self, cd):
        """A class statement which is rejected."""
        aliases = [n for n in self.env.module.__dict__ if n.startswith('HINT')]
        if not aliases:
            return
        text = self.rng.choice(BAD_STATEMENTS).format(
            alias=self.rng.choice(aliases), cls=cd.name, bo='BE' if cd.bo in ('<', '') else 'LE')
        self.note('class statement', cd, text)
        ok, out = attempt(lambda: exec(compile(text, '<bad>', 'exec', dont_inherit=True),
                                       dict(self.env.module.__dict__)))
        if ok:
            self.case.stats.hit('class statements accepted')

    def finish(self):
        for o, was in self.kept:
            now = self.env.freeze(o)
            if now != was:
                self.fail(f'an object unpacked or packed earlier changed from {short(was)} to {short(now)}')
        self.case.stats.hit('objects unchanged', len(self.kept))


def history_case(case, steps=None):
    rng = case.rng
    cds = world(rng)
    if not cds:
        return
    roots = list(cds)
    rng.shuffle(roots)
    env = load(case, roots)
    try:
        h = History(case, cds, env)
        for _ in range(rng.choice((30, 60, 150)) if steps is None else steps):
            h.step()
        h.finish()
        case.stats.case((tuple(cd.sig() for cd in cds), tuple(map(repr, h.log))), {
            'classes': [short(cd.sig(), 100) for cd in cds], 'operations': len(h.log),
            'first': [' '.join(x) for x in h.log[:6]]})
        # The same operations without a history
        if h.failed:
            fresh_env = build.Env(rng.sample(cds, len(cds))).load()
            try:
                for route, cd, data, error in rng.sample(h.failed, min(4, len(h.failed))):
                    ok, x = h.do_unpack(fresh_env, route, cd, data)
                    if ok or type(x) is not error:
                        h.fail(f'{cd.name}: {route}({short(data)}) raised {error.__name__}, '
                               f'with new classes {short(x)}')
                    case.stats.hit('exceptions compared')
            finally:
                fresh_env.unload()
    finally:
        env.unload()


def grow_case(case):
    """Classes defined one after another, with hints used before."""
    rng = case.rng
    cds = world(rng)
    if len(cds) < 2:
        return
    roots = list(cds)
    rng.shuffle(roots)
    env = build.Env(roots)
    env.load()
    case.context = env.source
    env.unload()
    # The same text once more, statement by statement
    env = build.Env(roots)
    prelude = build.HEADER
    import sys
    import types

    name = f'vfgrow_{next(build._serial)}'
    module = types.ModuleType(name)
    env.module = module
    env.made = {}
    module.H = env.hooks
    module.K = env._k
    sys.modules[name] = module
    try:
        exec(compile(prelude, f'<{name}>', 'exec', dont_inherit=True), module.__dict__)
        done = []
        h = History(case, done, env)
        by_name = {cd.name: cd for cd in env._order}
        for part in env.parts:
            exec(compile(part, f'<{name}>', 'exec', dont_inherit=True), module.__dict__)
            for n, cd in by_name.items():
                cls = module.__dict__.get(n)
                if isinstance(cls, type) and cls not in env.by_type:
                    env.by_type[cls] = cd
                    if cd in cds:
                        done.append(cd)
            for cd in done:
                cls = env.cls(cd)
                if cls.attrs != cd.attrs:
                    h.fail(f'{cd.name}.attrs became {cls.attrs}')
            for _ in range(6 if done else 0):
                h.step()
        h.finish()
        case.stats.case((tuple(cd.sig() for cd in cds), tuple(map(repr, h.log))), None)
    finally:
        env.unload()


KINDS = {
    'histories': Kind(history_case, 1200, 20000),
    'growing': Kind(grow_case, 600, 10000),
}
