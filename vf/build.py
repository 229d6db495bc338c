"""Prints schemas as Python source, as a user would write them, and loads the
result as a real module."""

from __future__ import annotations

import sys
import types
from itertools import count

from . import repo  # noqa: F401
from .model import Mismatch, Nest, Node, Rec

import structured
from structured import ByteOrder, Structured

HEADER = '''\
import math
import operator
from dataclasses import dataclass
from structured import *
from typing import (
    Annotated, Any, ClassVar, Generic, List, Optional, Self, Tuple, TypeVar, Union,
)
from vf.userlib import *
'''

_serial = count()
MISSING = '<missing>'


class Hooks:
    """The conditions and deciders of the generated classes report here."""

    TRUTHY = {
        'plain': lambda r: r,
        'bool': bool,
        'int': lambda r: 1 if r else 0,
        'list': lambda r: [0] if r else [],
        'str': lambda r: 'yes' if r else '',
        'none': lambda r: object() if r else None,
        'float': lambda r: 0.5 if r else 0.0,
    }

    def __init__(self, env):
        self.env = env
        self.preds = {}
        self.log = None
        self.calls = 0
        self.probe = None  # called at each callback, if set
        self.probes = []  # Probe serializers
        self.uses = []  # what these were used for

    def seen(self, number, o):
        """The members a probe has to know at this point"""
        return tuple(
            self.env.freeze(getattr(o, f, MISSING)) for f in self.preds[number].fields
        )

    def pred(self, pid, o, result):
        self.calls += 1
        pred = self.preds[pid]
        if self.log is not None:
            seen = tuple(
                self.env.freeze(getattr(o, f, MISSING)) for f in pred.fields
            )
            self.log.append((pid, seen))
        if self.probe is not None:
            self.probe(pid, o)
        return self.TRUTHY[pred.truthy](result)


def converts(node):
    return node.kind == 'SerializeAs' or any(map(converts, node.children()))


class Env:
    """A loaded module of generated classes."""

    def __init__(self, roots, future=False, prelude='', share=0):
        self.hooks = Hooks(self)
        self.consts = []
        self._const_of = {}
        self._done = {}
        self._order = []
        self.future = future
        self.share = share  # 1: hint metadata, 2: hints as well, are used several times
        self.shared = {}
        self.parts = []
        self.by_type = {}
        self.current = None  # the object whose members are being converted
        for cd in roots:
            self.need(cd)
        self.source = (
            ('from __future__ import annotations\n' if future else '')
            + HEADER
            + prelude
            + ''.join(self.parts)
        )
        self.module = None

    # ---- used while printing
    def need(self, cd):
        if id(cd) in self._done:
            return
        self._done[id(cd)] = cd
        text = cd.print(self) if hasattr(cd, 'print') else print_class(cd, self)
        self.parts.append(text)
        self._order.append(cd)

    def pred(self, pred):
        if pred.id is None:
            pred.id = next(_serial)
        self.hooks.preds[pred.id] = pred
        return pred.id

    def const(self, node, value):
        idx = self._const_of.get((id(node), id(value)))  # the same member again
        if idx is None and self.share:
            # (the value of another type might be an object of a class of its own)
            idx = next((i for i, (n, v) in enumerate(self.consts) if v is value and (
                n is node or not converts(n) and not converts(node))), None)
        if idx is None:
            idx = len(self.consts)
            self.consts.append((node, value))
        self._const_of[id(node), id(value)] = idx
        return f'K({idx})'

    def common(self, text, level=1):
        """The same object for the same text."""
        if self.share < level:
            return text
        if text not in self.shared:
            self.shared[text] = name = f'SHARED{len(self.shared)}'
            self.parts.append(f'{name} = {text}\n')
        return self.shared[text]

    # ---- loading
    def load(self):
        name = f'vfcase_{next(_serial)}'
        module = types.ModuleType(name)
        self.module = module
        self.made = {}
        module.H = self.hooks
        module.K = self._k
        sys.modules[name] = module
        code = compile(self.source, f'<{name}>', 'exec', dont_inherit=True)
        exec(code, module.__dict__)
        for cd in self._order:
            cls = module.__dict__.get(cd.name)
            if isinstance(cls, type):
                self.by_type[cls] = cd
        return self

    def unload(self):
        if self.module is not None:
            sys.modules.pop(self.module.__name__, None)

    def _k(self, idx):
        if idx not in self.made:
            node, value = self.consts[idx]
            self.made[idx] = self.lib_default(node, value)
        return self.made[idx]

    def lib_default(self, node, value):
        try:
            return node.lib(value, self)
        except (AttributeError, KeyError):
            return value

    # ---- conversions
    def name(self, name):
        return self.module.__dict__[name]

    def cls(self, cd):
        return self.module.__dict__[cd.name]

    def obj(self, rec):
        cd = rec.cd
        o = self.cls(cd)(*self.values(rec))
        if rec.moved is not None:
            o = o.with_byte_order(getattr(ByteOrder, rec.moved))
        return o

    def values(self, rec):
        outer, self.current = self.current, rec
        try:
            return [
                node.lib(rec.vals[n], self) for n, node in rec.cd.named() if n in rec.vals
            ]
        finally:
            self.current = outer

    def const_value(self, cond):
        idx = self._const_of.get((id(cond.item), id(cond.default)))
        return cond.default if idx is None else self._k(idx)

    def rec(self, x, cd):
        """Model of the Structured object `x`."""
        if not isinstance(x, Structured):
            raise Mismatch(f'expected a Structured object, got {type(x).__name__}: {x!r}')
        known = self.by_type.get(type(x))
        if known is None:
            if cd is None or not any(
                b.__name__ in self.module.__dict__ for b in type(x).__mro__[1:]
            ):
                raise Mismatch(f'unexpected class {type(x)!r}')
            if type(x).attrs != cd.attrs:
                raise Mismatch(f'expected attributes {cd.attrs}, got {type(x).attrs}')
        elif cd is not None and known is not cd:
            raise Mismatch(f'expected class {cd.name}, got {known.name}')
        else:
            cd = known
        out = Rec(cd)
        outer, self.current = self.current, out
        try:
            for n, node in cd.named():
                try:
                    v = getattr(x, n)
                except AttributeError:
                    raise Mismatch(f'{cd.name} object without attribute {n}') from None
                out.vals[n] = self.unlib(node, v)
        finally:
            self.current = outer
        return out

    def chosen(self, union):
        """Member of the union for the object being converted, if that is clear."""
        if self.current is None:
            return None
        try:
            return union.choose(union.pred(self.current))
        except Exception:
            return None

    def unlib(self, node, v):
        return node.unlib(v, self)

    def lib_any(self, node, v):
        if isinstance(v, Rec):
            return self.obj(v)
        if type(v) in (list, tuple):
            return type(v)(self.lib_any(node, x) for x in v)
        return v

    def unlib_any(self, node, x):
        if isinstance(x, Structured):
            return self.rec(x, None)
        if type(x) in (list, tuple):
            return type(x)(self.unlib_any(node, v) for v in x)
        if x is not None and type(x) not in (int, float, bool, bytes, str):
            raise Mismatch(f'union value of unexpected type {type(x)!r}')
        return x

    def freeze(self, x):
        """Comparable picture of any value seen by a callback."""
        if isinstance(x, Rec):
            return (
                '?' if x.cd.anon else x.cd.name,
                tuple(self.freeze(v) for v in x.vals.values()),
            )
        if isinstance(x, Structured):
            known = self.by_type.get(type(x))
            return (
                '?' if known is None or known.anon else known.name,
                tuple(self.freeze(getattr(x, n, MISSING)) for n in type(x).attrs),
            )
        if type(x) in (list, tuple):
            return (type(x).__name__, tuple(map(self.freeze, x)))
        if type(x).__name__.startswith('Custom'):
            return self.freeze(x.value)
        if type(x) is float:
            return repr(x)
        return (type(x).__name__, x)


def print_class(cd, env):
    base = 'Structured'
    if cd.base is not None:
        env.need(cd.base)
        base = cd.base.name
    kwargs = ''
    if cd.bo_name != 'DEFAULT':
        kwargs += f', byte_order=ByteOrder.{cd.bo_name}'
    if cd.mode is not None:
        kwargs += f', byte_order_mode=ByteOrderMode.{cd.mode}'
    deco = ''
    if cd.style in ('dataclass', 'custom_init'):
        kwargs += ', init=False'
    if cd.style == 'dataclass':
        deco = '@dataclass\n'
    lines = []
    for n, hint in cd.body:
        text = hint.src(env) if isinstance(hint, Node) else hint.text
        if isinstance(hint, Node) and hint.nvals and hint.children():
            text = env.common(text, 2)
        lines.append(f'    {n}: {text}\n')
    if cd.style == 'custom_init':
        args = ''.join(f', {n}' for n in cd.attrs)
        lines.append(f'    def __init__(self{args}):\n        self.made_by_user = True\n')
        lines.extend(f'        self.{n} = {n}\n' for n in cd.attrs)
    lines.extend(f'    {line}\n' for line in cd.extra)
    if not lines:
        lines.append('    pass\n')
    return f'\n{deco}class {cd.name}({base}{kwargs}):\n' + ''.join(lines)


def set_pred_fields(cd):
    """Tell the predicates of a class which members come before them."""
    earlier = []
    known = set()
    for n, node in cd.fields:
        for sub in walk_local(node):
            pred = getattr(sub, 'pred', None)
            # (one used for several members: what is there for the first of these)
            if pred is not None and id(pred) not in known:
                known.add(id(pred))
                # (and in every class using it)
                if pred.placed:
                    pred.fields = tuple(f for f in pred.fields if f in earlier)
                else:
                    pred.fields = tuple(earlier)
                    pred.placed = True
            if getattr(sub, 'flavour', None) == 'Probe' and id(sub) not in known:
                known.add(id(sub))
                sub.fields = tuple(earlier)
        if node.nvals:
            earlier.append(n)


def walk_local(node):
    yield node
    if isinstance(node, Nest):
        return
    for child in node.children():
        yield from walk_local(child)
