"""The planted bugs: edits of /repo (never committed there), and programs which show them."""

SEEDS = []
S = 'structured/structured.py'
API, STRUCTS, ARR, STR, TUP, UNI, COND, NEST, SELF = (
    f'structured/serializers/{f}.py' for f in (
        'api', 'structs', 'arrays', 'strings', 'tuples', 'unions', 'conditional', 'structured',
        'self'))
HEAD = '''
import io
import math
from operator import attrgetter
from typing import *
from structured import *

'''


def seed(id, property, edits, needs, breaks, demo):
    if isinstance(edits[0], str):
        edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                      demo=HEAD + demo.strip() + '\n'))


seed('c08-net-128', 'C08',
     (STR, 'if count < 128:\n            st = self.short_len', 'if count <= 128:\n            st = self.short_len'),
     'a .NET string of exactly 128 bytes',
     'the length 128 is stored in one byte, which marks a length of two bytes', '''
class A(Structured):
    x: char[NET]

for n in (127, 128, 129):
    assert A.create_unpack(A(b'q' * n).pack()).x == b'q' * n, n
''')

seed('c09-leading-nul', 'C09',
     (STR, "return (self.decoder(self.serializer.unpack_read(readable)[0]).rstrip('\\0'),)",
      "return (self.decoder(self.serializer.unpack_read(readable)[0]).strip('\\0'),)"),
     'a text which starts with NUL, unpacked from a stream',
     'NUL characters at the start of a text are lost', '''
class A(Structured):
    x: unicode[uint8]

data = A('\\0ab').pack()
assert A.create_unpack(data).x == '\\0ab'
assert A.create_unpack_read(io.BytesIO(data)).x == '\\0ab'
''')

seed('c14-specializations-by-name', 'C14',
     (NEST, 'key = (origin, spec_args)', 'key = (origin.__qualname__, spec_args)'),
     'two generic classes of the same name, both used as hints with the same arguments',
     'the specialization of one generic class is taken for that of another', '''
T = TypeVar('T')

def first():
    class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):
        a: T
    return Inner

def second():
    class Inner(Generic[T], Structured, byte_order=ByteOrder.LE):
        a: uint8
        b: T
    return Inner

first.__qualname__ = second.__qualname__
A, B = first(), second()
A.__qualname__ = B.__qualname__ = 'Inner'

class X(Structured):
    x: A[uint16]

class Y(Structured):
    y: B[uint16]

y = Y.create_unpack(b'\\x01\\x02\\x03')
assert (y.y.a, y.y.b) == (1, 0x302)
''')

seed('c20-static-too-long', 'C20',
     (ARR, 'if count != self.static_length:', 'if count < self.static_length:'),
     'a list longer than the fixed length of an array of complex items',
     'arrays of a fixed length pack additional items', '''
class A(Structured):
    a: array[Header[2], char[uint8]]

try:
    A([b'a', b'b', b'c']).pack()
except ValueError:
    pass
else:
    raise SystemExit('packed three items')
''')

seed('c06-default-order', 'C06',
     (STRUCTS, 'if old_byte_order is byte_order:', 'if byte_order in (old_byte_order, ByteOrder.DEFAULT):'),
     'changing the byte order to the default one',
     'members keep a byte order when it is to be dropped', '''
class A(Structured, byte_order=ByteOrder.BE):
    a: uint16

assert A(1).with_byte_order(ByteOrder.DEFAULT).pack() == b'\\x01\\x00'
''')

seed('c04-terminated-size', 'C04',
     (STR, '            self.size = size\n            return (out.getvalue(),)',
      '            self.size = offset + 1\n            return (out.getvalue(),)'),
     'a terminated string of 256 bytes or more, read from a stream',
     'the size after unpacking counts the last chunk that was read only', '''
class A(Structured):
    a: array[Header[uint8, uint16], null_char]

for n in (3, 255, 256, 600):
    data = A([b'x' * n, b'yz']).pack()
    assert A.create_unpack_read(io.BytesIO(data)).a == [b'x' * n, b'yz'], n
    assert A.serializer.size == len(data)
''')

seed('c04-net-size', 'C04',
     (STR, '''            readable.seek(count_pos)
            count = self.long_len.unpack_read(readable)[0]
            count = self._decode_length(count)
            size = self.long_len.size
''', '''            readable.seek(count_pos)
            count = self.long_len.unpack_read(readable)[0]
            count = self._decode_length(count)
            size = self.short_len.size
'''),
     'a .NET string with a length of two bytes, read from a stream',
     'the size after unpacking is one too small', '''
class A(Structured):
    a: char[NET]

for n in (1, 127, 128, 300):
    data = A(b'x' * n).pack()
    assert A.create_unpack_read(io.BytesIO(data)).a == b'x' * n
    assert A.serializer.size == len(data), n
''')

seed('c06-static-array-size-order', 'C06',
     (ARR, '            self.header_serializer.with_byte_order(byte_order),\n',
      '            self.header_serializer\n'
      '            if self.static_length >= 0\n'
      '            else self.header_serializer.with_byte_order(byte_order),\n'),
     'a fixed length array with a data size of several bytes, in a class with a byte order',
     'the data size of arrays of fixed length ignores the byte order', '''
class A(Structured, byte_order=ByteOrder.BE):
    a: array[Header[2, uint16], char[uint8]]

assert A([b'a', b'bc']).pack() == b'\\x00\\x05\\x01a\\x02bc'
''')

seed('c06-order-not-noted', 'C06',
     (S, '        new_obj.byte_order = byte_order\n', ''),
     'changing the byte order of an object twice, back to that of its class',
     'the second change of byte order is ignored', '''
class A(Structured, byte_order=ByteOrder.BE):
    a: uint16

x = A(1).with_byte_order(ByteOrder.LE)
assert x.pack() == b'\\x01\\x00'
assert x.with_byte_order(ByteOrder.BE).pack() == b'\\x00\\x01'
''')

seed('c14-alias-mutated', 'C14',
     ('structured/utils.py', '            return StructuredAlias(self.cls, resolved)\n',
      '            self.args = resolved\n            return self\n'),
     'specializing a generic class partially, and then another way',
     'a partial specialization changes the hints shared with other classes', '''
T = TypeVar('T')
U = TypeVar('U')
V = TypeVar('V')

class A(Generic[T], Structured):
    a: array[Header[T], uint8]

class B(Generic[U], A[U]):
    pass

class C(Generic[V], A[V]):
    pass

class D(C[uint16]):
    pass

class E(B[uint8]):
    pass

assert D([1]).pack() == b'\\x01\\x00\\x01'
assert E([1]).pack() == b'\\x01\\x01'
''')

seed('c15-default-order', 'C15',
     (S, '                and base.byte_order is not byte_order\n',
      '                and byte_order not in (base.byte_order, ByteOrder.DEFAULT)\n'),
     'a subclass which does not repeat the byte order of its base',
     'the byte order of the base is dropped silently', '''
class A(Structured, byte_order=ByteOrder.BE):
    a: uint16

try:
    class B(A):
        b: uint16
except ValueError:
    pass
else:
    raise SystemExit(f'accepted, packing {B(1, 2).pack()}')
''')

seed('c07-static-zero', 'C07',
     (ARR, '        if len(items) != self.count:\n', '        if self.count and len(items) != self.count:\n'),
     'items in an array of fixed length zero',
     'items of an array of length zero are dropped silently', '''
class A(Structured):
    a: array[Header[0], uint8]
    b: uint8

assert A([], 1).pack() == b'\\x01'
try:
    A([5], 1).pack()
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('c07-unchecked-from', 'C07',
     (ARR, '''            items.extend(item_serializer.unpack_from(buffer, offset + size))
            size += item_serializer.size
        self._check_data_size(data_size, size - header_size)
''', '''            items.extend(item_serializer.unpack_from(buffer, offset + size))
            size += item_serializer.size
        self._check_data_size(data_size, max(size - header_size, data_size))
'''),
     'unpack_from of an array of which the stored data size is too big',
     'a stored data size which is too big is accepted', '''
class A(Structured):
    a: array[Header[uint8, uint8], uint8]

for size in (0, 1, 2, 3, 9):
    data = bytes((2, size, 7, 8)) + bytes(10)
    for fn in (A.create_unpack, A.create_unpack_from, lambda d: A.create_unpack_read(io.BytesIO(d))):
        try:
            assert fn(data).a == [7, 8]
            ok = True
        except ValueError:
            ok = False
        assert ok is (size == 2), size
''')

seed('c03-find', 'C03',
     (STR, '''        end = offset
        try:
            while buffer[end] not in (self.terminator, ord(self.terminator)):
                end += 1
        except IndexError:
            raise ValueError('unterminated string.') from None
''', '''        end = buffer.find(self.terminator, offset)
        if end < 0:
            raise ValueError('unterminated string.')
'''),
     'unpacking a terminated string from a memoryview',
     'buffers other than bytes and bytearray are refused', '''
class A(Structured):
    a: uint8
    b: null_char

for kind in (bytes, bytearray, memoryview):
    assert A.create_unpack(kind(b'\\x01ab\\0')).b == b'ab'
    assert A.create_unpack_from(kind(b'123\\x01ab\\0'), 3).b == b'ab'
''')

seed('c08-net-long', 'C08',
     (STR, 'count = 0x80 | count & 0x7F | (count & 0xFF80) << 1', 'count = 0x80 | count & 0x7F | (count & 0x3F80) << 1'),
     'a .NET string of 16384 bytes or more',
     'the top bit of the length is lost', '''
class A(Structured):
    a: char[NET]

for n in (16383, 16384, 32767):
    assert A.create_unpack(A(b'a' * n).pack()).a == b'a' * n
''')

seed('c09-strip-bytes', 'C09',
     (STR, "            self.decoder(self.serializer.unpack_from(buffer, offset)[0]).rstrip('\\0'),\n",
      "            self.decoder(self.serializer.unpack_from(buffer, offset)[0].rstrip(b'\\0')),\n"),
     'unpack_from of text of which the encoding ends with a zero byte',
     'zero bytes which are part of the text are stripped', '''
class A(Structured):
    a: unicode[uint8, 'utf-16-le']

data = A('ab').pack()
assert A.create_unpack(data).a == 'ab'
assert A.create_unpack_from(data).a == 'ab'
''')

seed('c21-tuple-stale', 'C21',
     (TUP, '''    def preunpack(self, partial_object: Any) -> Serializer:
        self._partial_obj = partial_object
        return self
''', '''    def preunpack(self, partial_object: Any) -> Serializer:
        if not hasattr(self, '_partial_obj'):
            self._partial_obj = partial_object
        return self
'''),
     'unpacking two objects of a class with a condition in a tuple, which decides differently',
     'conditions in tuples see the object unpacked first', '''
class A(Structured):
    a: uint8
    b: Tuple[uint8, Annotated[uint8, Condition(lambda o: o.a, 99)]]

assert A.create_unpack(b'\\x01\\x02\\x03').b == (2, 3)
assert A.create_unpack(b'\\x00\\x02\\x03').b == (2, 99)
assert A.create_unpack(b'\\x01\\x02\\x03').b == (2, 3)
''')

seed('c19-net-short', 'C19',
     (STR, "        return struct.unpack_from(f'{count}s', buffer, offset + size)\n",
      "        return (bytes(buffer[offset + size : offset + size + count]),)\n"),
     'unpack_from of a .NET string which is cut short',
     'truncated strings are accepted', '''
class A(Structured):
    a: char[NET]

for fn in (A.create_unpack, A.create_unpack_from, lambda d: A.create_unpack_read(io.BytesIO(d))):
    assert fn(b'\\x03abc').a == b'abc'
    try:
        fn(b'\\x03ab')
    except Exception:
        pass
    else:
        raise SystemExit('accepted')
''')

seed('c22-only-prepack', 'C22',
     (API, '''            ((ts := type(serializer)).prepack, ts.preunpack)
            != (Serializer.prepack, Serializer.preunpack)
''', '''            type(serializer).prepack is not Serializer.prepack
'''),
     'a user written serializer which only overrides preunpack',
     'preunpack is not called', '''
from structured.serializers import Serializer, StructSerializer

class Ser(StructSerializer):
    def __add__(self, other):
        return Serializer.__add__(self, other)
    def preunpack(self, partial):
        return StructSerializer('H' if partial.a else 'B')

class A(Structured, byte_order=ByteOrder.DEFAULT):
    a: null_char
    b: Annotated[int, Ser('B')]

assert A.create_unpack(b'x\\0\\x01\\x02').b == 0x201
''')

seed('c02-terminated-resize', 'C02',
     (STR, '        st, data = self._st_data(values)\n        st.pack_into(buffer, offset, data)\n',
      '        st, data = self._st_data(values)\n        buffer[offset : offset + st.size] = data\n'),
     'packing a terminated string at the end of a bytearray which is too small',
     'the buffer is resized', '''
class A(Structured):
    a: null_char

buffer = bytearray(4)
A(b'ab').pack_into(buffer, 1)
assert buffer == b'\\0ab\\0'
try:
    A(b'abc').pack_into(buffer, 2)
except Exception:
    pass
assert len(buffer) == 4
''')

seed('c10-decision-remembered', 'C10',
     (UNI, '''        result = self.decider(self._partial_object)
        return self.get_serializer(result, packing)
''', '''        if getattr(self, '_decided_for', None) is not self._partial_object:
            self._decided_for = self._partial_object
            self._decided = self.decider(self._partial_object)
        return self.get_serializer(self._decided, packing)
'''),
     'packing an object again after changing the member its union is decided by',
     'the decision for an object is not made anew', '''
class A(Structured, byte_order=ByteOrder.LE):
    a: uint8
    b: Annotated[Union[uint8, uint16], LookbackDecider(lambda o: o.a, {1: uint8, 2: uint16})]

x = A(1, 5)
assert x.pack() == b'\\x01\\x05'
x.a = 2
assert x.pack() == b'\\x02\\x05\\x00'
''')

seed('c02-nested-other-class', 'C02',
     (NEST, '        values.pack_into(buffer, offset)\n        self.size = values.serializer.size\n',
      '        values.pack_into(buffer, offset)\n        self.size = self.obj_type.serializer.size\n'),
     'a nested object with a serializer of its own (of a subclass, or another byte order), followed by a member',
     'pack_into puts the following member at the wrong place', '''
class In(Structured):
    a: char[uint8]

class Sub(In):
    b: uint8

class A(Structured):
    x: In
    y: uint8

for inner in (In(b'abc'), Sub(b'abc', 1)):
    x = A(inner, 255)
    data = x.pack()
    buffer = bytearray(len(data))
    x.pack_into(buffer)
    assert buffer == data
''')

seed('c23-falsy-size', 'C23',
     ('structured/hint_types/arrays.py', '        if size_kind is not None and size_kind not in _SizeTypes:\n',
      '        if size_kind and size_kind not in _SizeTypes:\n'),
     'an array header with a falsy size argument which is not None',
     'an invalid header is accepted', '''
for bad in (0, False, '', b'', [], 0.0):
    try:
        class A(Structured):
            a: array[Header[2, bad], uint8]
    except TypeError:
        pass
    else:
        raise SystemExit(f'accepted {bad!r}')
''')

seed('c23-metadata-unindexed', 'C23',
     ('structured/base_types.py', '        for a in (base_type, hint):\n', '        for a in (base_type,):\n'),
     'a type which has to be indexed as metadata of an Annotated hint',
     'the member is silently not serialized', '''
for bad in (char, unicode, array, pad, pascal):
    try:
        class A(Structured):
            a: Annotated[bytes, bad]
    except TypeError:
        pass
    else:
        raise SystemExit(f'accepted {bad!r}')
''')

seed('c05-fold-carry', 'C05',
     (STRUCTS, r"rf'(.*?)(\d*)([{_struct_chars}])$'", r"rf'(.*?)(\d?)([{_struct_chars}])$'"),
     'twenty or more consecutive members of the same type',
     'the number of members in the format is wrong', '''
def make(n):
    ns = {'uint16': uint16, 'Structured': Structured}
    exec('class A(Structured):\\n' + ''.join(f'    m{i}: uint16\\n' for i in range(n)), ns)
    return ns['A']

for n in (1, 9, 10, 11, 19, 20, 21, 40, 101):
    assert make(n)(*range(n)).pack() == __import__('struct').pack(f'{n}H', *range(n)), n
''')


seed('c11-condition-shared', 'C11',
     ('structured/hint_types/condition.py',
      '            return ConditionalSerializer(base_type, hint.condition, hint.defaults)\n',
      '''            serializer = hint.__dict__.get('serializer')
            if serializer is None or serializer.num_values != base_type.num_values:
                serializer = hint.serializer = ConditionalSerializer(
                    base_type, hint.condition, hint.defaults
                )
            return serializer
'''),
     'one Condition object guarding members of different types',
     'the second member is packed with the type of the first', '''
extra = Condition(lambda x: x.flag, 0)

class A(Structured, byte_order=ByteOrder.LE):
    flag: bool8
    a: Annotated[uint8, extra]
    b: Annotated[uint32, extra]

x = A(True, 1, 2)
assert x.pack() == b'\\1\\1\\2\\0\\0\\0', x.pack()
assert A(False, 1, 2).pack() == b'\\0'
''')

seed('c21-array-first-object', 'C21',
     (ARR, '''    def preunpack(self, partial_object) -> Self:
        self._partial_object = partial_object
''', '''    def preunpack(self, partial_object) -> Self:
        if type(getattr(self, '_partial_object', None)) is not type(partial_object):
            self._partial_object = partial_object
'''),
     'an array of unions, unpacked twice with different values of the member which decides',
     'the items are decided from the object of an earlier operation', '''
class A(Structured, byte_order=ByteOrder.LE):
    kind: uint8
    items: array[Header[2], Annotated[Union[int, bytes], LookbackDecider(
        lambda x: x.kind, {0: uint8, 1: char[2]})]]

assert A.create_unpack(b'\\0ab').items == [97, 98]
assert A.create_unpack(b'\\1abcd').items == [b'ab', b'cd']
assert A.create_unpack(b'\\0ab').items == [97, 98]
''')

seed('c18-tuple-last-only', 'C18',
     ('structured/serializers/api.py', '        return self.serializers[-1].get_final()\n',
      '''        last = self.serializers[-1]
        return last.get_final() if last.num_values == 1 and not last.size else None
'''),
     'a class ending with a member which takes all data, and which has already been used, nested in another',
     'a member may follow a nested object which takes all the remaining data', '''
class In(Structured):
    n: uint8
    rest: char[math.inf]

def follow():
    class A(Structured):
        a: In
        b: uint8

for use in (False, True):
    if use:
        In.create_unpack(b'abc')
    try:
        follow()
    except TypeError:
        pass
    else:
        raise SystemExit('accepted')
''')

seed('c03-net-read-128', 'C03',
     (STR, '''        count = self.short_len.unpack_read(readable)[0]
        if count >= 128:
''', '''        count = self.short_len.unpack_read(readable)[0]
        if count > 128:
'''),
     'a .NET string whose length is a multiple of 128, read from a stream',
     'the length mark is taken for a short one', '''
class A(Structured):
    x: char[NET]

for n in (0, 1, 127, 128, 129, 200, 256, 384):
    data = A(b'q' * n).pack()
    assert A.create_unpack(data).x == b'q' * n
    assert A.create_unpack_read(io.BytesIO(data)).x == b'q' * n, n
''')

seed('c10-inplace-eager', 'C10',
     (S, '''        for attr, value in zips(
            self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
        ):
            setattr(self, attr, value)
''', '''        values = tuple(self._serializer(False).unpack_from(buffer, offset))
        for attr, value in zips(self.attrs, values, strict=True):
            setattr(self, attr, value)
'''),
     'unpack_from into an object in which the member which decides changes',
     'the union is decided from the old value', '''
class A(Structured, byte_order=ByteOrder.LE):
    kind: uint8
    value: Annotated[Union[int, bytes], LookbackDecider(
        lambda x: x.kind, {0: uint8, 1: char[2]})]

x = A(0, 5)
x.unpack_from(b'\\1ab')
assert x == A(1, b'ab'), x
''')

seed('c17-radd-format', 'C17',
     (STRUCTS, 'actions = repeat(noop_action, other.num_values)', "actions = repeat(noop_action, len(other.base_format))"),
     'a custom type after basic members whose joined format is not one letter for each',
     'the factories are called with the wrong members', '''
class Num(int):
    pass

class A(Structured, byte_order=ByteOrder.LE):
    a: uint8
    b: uint8
    c: uint8
    d: Annotated[Num, SerializeAs(uint16)]
    e: Annotated[str, SerializeAs(uint8)]

x = A.create_unpack(b'\\1\\2\\3\\4\\0\\5')
assert [type(v) for v in (x.a, x.b, x.c, x.d, x.e)] == [int, int, int, Num, str]
''')

seed('c03-terminated-long', 'C03',
     (STR, '                    readable.seek(start_pos + size)\n', '                    readable.seek(start_pos + offset + 1)\n'),
     'a terminated string of more than 256 bytes, read from a stream with something after it',
     'the stream is left in the middle of the string', '''
class A(Structured):
    x: char[b'\\0']
    y: uint8

for n in (0, 5, 254, 255, 256, 257, 511, 512, 600):
    data = b'q' * n + b'\\0\\7'
    assert A.create_unpack_read(io.BytesIO(data)) == A(b'q' * n, 7), n
''')

seed('c09-encode-replace', 'C09',
     ('structured/hint_types/strings.py', 'encoder = partial(str.encode, encoding=encoding)',
      "encoder = partial(str.encode, encoding=encoding, errors='replace')"),
     'a text the codec cannot encode',
     'characters are replaced by question marks', '''
class A(Structured):
    x: unicode[uint8, 'ascii']

for text in ('\\u20ac', 'a\\u0100', '\\ud800'):
    try:
        A(text).pack()
    except UnicodeError:
        pass
    else:
        raise SystemExit(text.encode('utf8', 'replace'))
assert A('abc').pack() == b'\\3abc'
''')

seed('c24-net-from-mask', 'C24',
     (STR, '''            count = self.long_len.unpack_from(buffer, offset)[0]
            count = self._decode_length(count)
''', '''            count = self.long_len.unpack_from(buffer, offset)[0]
            count = count & 0x7F | (count & 0x7F00) >> 1
'''),
     'unpack_from of a .NET string whose length mark has its highest bit set',
     'a length is taken for a smaller one, other than by the other routes', '''
class A(Structured):
    x: char[NET]

for n in (128, 300, 16383, 16384, 20000, 32767):
    data = A(b'q' * n).pack()
    assert A.create_unpack(data).x == b'q' * n
    assert A.create_unpack_from(data).x == b'q' * n
''')

seed('c01-unicode-from-nul', 'C01',
     (STR, "self.decoder(self.serializer.unpack_from(buffer, offset)[0]).rstrip('\\0'),",
      "self.decoder(self.serializer.unpack_from(buffer, offset)[0].rstrip(b'\\0')),"),
     'a text in utf16 or utf32 which ends with a character whose last byte is zero',
     'half of the last character is cut off', '''
class A(Structured):
    x: unicode[uint8, 'utf-16-le']

for text in ('ab', '\\u0100', 'a\\u0400', '\\u0401'):
    data = A(text).pack()
    assert A.create_unpack(data).x == text
    assert A.create_unpack_from(data).x == text
''')

seed('c16-str-private', 'C16',
     (S, "vals = ', '.join((f'{attr}={getattr(self, attr)}' for attr in self.attrs))",
      "vals = ', '.join(\n            f'{attr}={getattr(self, attr)}'\n            for attr in self.attrs\n            if not attr.startswith('_')\n        )"),
     'a member whose name starts with an underscore',
     'it does not show up in the text of the object', '''
class A(Structured):
    _a: uint8
    b: uint8

assert '17' in str(A(17, 2)) and '_a' in repr(A(17, 2))
''')

seed('c17-factory-mutates', 'C17',
     ('structured/hint_types/serialize_as.py', "return type(self)(StructActionSerializer(st.format, actions=(action,)))",
      "self.serializer = StructActionSerializer(st.format, actions=(action,))\n        return self"),
     'deriving two factories from one SerializeAs',
     'the second factory replaces the first', '''
base = SerializeAs(uint8)
one = base.with_factory(lambda x: ('one', x))
two = base.with_factory(lambda x: ('two', x))

class Own:
    def __init__(self, x):
        self.x = x
    def __index__(self):
        return self.x

class A(Structured):
    a: Annotated[Own, one]
    b: Annotated[Own, two]
    c: Annotated[Own, base]

o = A.create_unpack(bytes([1, 2, 3]))
assert (o.a, o.b) == (('one', 1), ('two', 2)), (o.a, o.b)
assert type(o.c) is Own and o.c.x == 3
''')

seed('c22-mul-actions', 'C22',
     (STRUCTS, "res.actions = tuple(chain.from_iterable(repeat(self.actions, other)))",
      "res.actions = tuple(repeat(self.actions[0], other * self.num_values))"),
     'multiplying a serializer with actions for several values',
     'all values are converted by the first action', '''
from structured.serializers import StructActionSerializer
s = StructActionSerializer('BH', ByteOrder.LE, (lambda x: ('a', x), lambda x: ('b', x)))
assert (s * 2).unpack(bytes([1, 2, 0, 3, 4, 0])) == (('a', 1), ('b', 2), ('a', 3), ('b', 4))
''')

seed('c09-decode-replace', 'C09',
     ('structured/hint_types/strings.py', "decoder = partial(bytes.decode, encoding=encoding)",
      "decoder = partial(bytes.decode, encoding=encoding, errors='replace')"),
     'bytes which are no text in the codec',
     'they are replaced by other characters', '''
class A(Structured):
    x: unicode[4]

try:
    A.create_unpack(b'\\xff\\xfeab')
except ValueError:
    pass
else:
    raise SystemExit('not refused')
''')


seed('c15-pad-ids-wrap', 'C15',
     (S, "key = f'{next(self._unique_id)}_pad_'", "key = f'{next(self._unique_id) % 256}_pad_'"),
     'a class and its subclass with 256 paddings from one to the other',
     'the padding of the subclass takes the place of that of the base class', '''
class A(Structured):
    _: pad[2]
    a: uint8

class Many(Structured):
    x: uint8
    exec('\\n'.join(['_: pad[1]'] * 255))

class B(A):
    _: pad[3]
    b: uint8

assert B(1, 2).pack() == b'\\0\\0\\1\\0\\0\\0\\2', B(1, 2).pack()
''')

seed('c18-only-structs', 'C18',
     (API, '''            joined = serializers[-1] + candidate
            if isinstance(joined, CompoundSerializer):''', '''            joined = candidate
            if hasattr(candidate, 'base_format'):
                joined = serializers[-1] + candidate
            if joined is candidate or isinstance(joined, CompoundSerializer):'''),
     'a member taking all of the data, preceded and followed by a member which is not a struct',
     'the class is accepted', '''
try:
    class A(Structured):
        n: char[uint8]
        x: char[math.inf]
        b: char[uint8]
except TypeError:
    pass
else:
    raise SystemExit('not refused')
''')

seed('c06-compound-inplace', 'C06',
     (API, '''        return CompoundSerializer(serializers)

    def __add__''', '''        self.serializers = serializers
        return self

    def __add__'''),
     'with_byte_order() of an object, before packing others',
     'the class gets the byte order as well', '''
class A(Structured, byte_order=ByteOrder.LE):
    a: uint16
    b: char[uint16]

o = A(1, b'x')
data = o.pack()
other = o.with_byte_order(ByteOrder.BE)
assert other.pack() == b'\\0\\1\\0\\1x'
assert o.pack() == data == A(1, b'x').pack()
''')

seed('c16-str-vars', 'C16',
     (S, "vals = ', '.join((f'{attr}={getattr(self, attr)}' for attr in self.attrs))",
      "vals = ', '.join((f'{attr}={value}' for attr, value in vars(self).items()))"),
     'an object with attributes which are not members, or whose members were set in another order',
     'str and repr show other attributes as if they were members', '''
class A(Structured):
    x: int8
    y: int8

    def __post_init__(self):
        self.cache = 3

assert str(A(1, 2)) == 'A(x=1, y=2)', str(A(1, 2))
''')

seed('c16-post-init-again', 'C16',
     (S, """        for attr, value in zips(
            self.attrs, self._serializer(False).unpack_read(readable), strict=True
        ):
            setattr(self, attr, value)
""", """        values = []
        unpacked = self._serializer(False).unpack_read(readable)
        for attr, value in zips(self.attrs, unpacked, strict=True):
            setattr(self, attr, value)
            values.append(value)
        self.__init__(*values)
"""),
     'unpack_read into an object with attributes of its own',
     'attributes which are not members are reset by unpacking', '''
class A(Structured):
    x: int8

    def __post_init__(self):
        self.seen = 0

a = A(1)
a.seen = 7
a.unpack_read(io.BytesIO(b'\\5'))
assert (a.x, a.seen) == (5, 7), a.seen
''')

seed('c13-specialized-reused', 'C13',
     (API, """        else:
            return _SpecializedCompoundSerializer(self, partial_object)
""", """        else:
            try:
                specialized = self._specialized
            except AttributeError:
                specialized = _SpecializedCompoundSerializer(self, partial_object)
                self._specialized = specialized
            specialized.partial_object = partial_object
            return specialized
"""),
     'a recursive class with a condition, union or lookup after the recursive member',
     'members after a recursive member are decided by the innermost object', '''
class A(Structured):
    n: uint8
    sub: Annotated[Self, Condition(lambda o: o.n, None)]
    m: Annotated[uint16, Condition(lambda o: o.n > 1, 5)]

a = A(2, A(1, A(0, None, 5), 5), 7)
assert a.pack() == bytes([2, 1, 0, 7, 0]), a.pack()
assert A.create_unpack(a.pack()) == a
''')

seed('c12-size-of-class', 'C12',
     (NEST, '''        data = values.pack()
        self.size = values.serializer.size
        return data
''', '''        data = values.pack()
        self.size = type(values).serializer.size
        return data
'''),
     'a nested object changed to another byte order, of dynamic size, followed by data sizes',
     'the size of such an item is that of another object', '''
class In(Structured, byte_order=ByteOrder.LE):
    s: char[uint16]

class A(Structured, byte_order=ByteOrder.BE):
    items: array[Header[uint8, uint16], In]

In(b'12345678').pack()
o = A([In(b'abc').with_byte_order(ByteOrder.BE), In(b'q')])
assert o.pack() == b'\\2\\0\\x08\\0\\3abc\\1\\0q', o.pack()
''')

seed('c02-array-seek', 'C02',
     (ARR, '''        # TODO: Why is the typechecker flagging this?
        writable.write(self.pack(*values))  # type: ignore
''', '''        start = writable.tell()
        writable.write(self.pack(*values))  # type: ignore
        writable.seek(start + self.size)
'''),
     'packing an array of complex items to a stream which cannot seek, or to one which appends',
     'packing raises, or leaves the stream at another position', '''
class Sink:
    data = b''

    def write(self, data):
        self.data += data

class A(Structured):
    x: array[Header[uint8], char[uint8]]

sink = Sink()
A([b'a', b'bc']).pack_write(sink)
assert sink.data == b'\\2\\1a\\2bc'
''')

seed('c20-text-remembered', 'C20',
     [(STR, '''        self.encoder = encoder
        self.decoder = decoder
''', '''        self.encoder = encoder
        self.decoder = decoder
        self._last = (None, b'')

    def _encode(self, text: str) -> bytes:
        if text != self._last[0]:
            self._last = (text, b'')
            self._last = (text, self.encoder(text))
        return self._last[1]
'''), (STR, 'return self.serializer.pack(self.encoder(values[0]))', 'return self.serializer.pack(self._encode(values[0]))')],
     'packing a text which cannot be encoded twice',
     'the second time it is packed as an empty text', '''
class A(Structured):
    x: unicode[uint8, 'ascii']

for _ in range(2):
    try:
        A('\\xe9').pack()
    except UnicodeError:
        pass
    else:
        raise SystemExit('not refused')
''')

seed('c15-empty-base-order', 'C15',
     (S, 'byte_order_mode is ByteOrderMode.STRICT', 'base.attrs and byte_order_mode is ByteOrderMode.STRICT'),
     'a base class without members, with a byte order',
     'a subclass with another byte order is accepted', '''
class Base(Structured, byte_order=ByteOrder.LE):
    pass

try:
    class A(Base):
        x: uint16
except ValueError:
    pass
else:
    raise SystemExit('not refused')
''')

seed('c21-transform-by-id', 'C21',
     ('structured/type_checking.py', '''    def transform(self, typehint: Any):
        base_type, *annotations = self.flatten_Annotated(typehint)
''', '''    _known: ClassVar[dict] = {}

    def transform(self, typehint: Any):
        key = id(typehint)
        if get_origin(typehint) is tuple and self is annotated:
            if key not in self._known:
                self._known[key] = self._transform(typehint)
            return self._known[key]
        return self._transform(typehint)

    def _transform(self, typehint: Any):
        flat = self.flatten_Annotated(typehint)
        base_type, *annotations = flat
'''),
     'a tuple hint which was garbage collected, and another one at the same address',
     'a member has the type of a hint of another class', '''
import gc

class Tag:
    pass

def make(t, n):
    class A(Structured):
        x: eval('tuple[' + ', '.join(['t'] * n) + ']')
    return A

for i in range(300):
    n = 1 + i % 5
    t = (uint8, uint16, uint32)[i % 3]
    A = make(t, n)
    values = tuple(range(n))
    assert A.create_unpack(A(values).pack()).x == values
    assert len(A(values).pack()) == n * (1, 2, 4)[i % 3]
    del A
    gc.collect()
''')

seed('c16-eq-attrs', 'C16',
     (S, '''                (getattr(self, attr) == getattr(other, attr) for attr in self.attrs)
            )''', '''                (a == b or a != a and b != b for a, b in zip(
                    type(self)._attrgetter(self)[:256], type(other)._attrgetter(other)[:256]
                ))
            )'''),
     'a class with more than 256 members, or NaN',
     'objects are equal if only the first 256 members are', '''
class A(Structured):
    exec('\\n'.join(f'm{i}: uint8' for i in range(300)))

a, b = A(*[0] * 300), A(*[0] * 299, 1)
assert a == A(*[0] * 300)
assert a != b
''')

seed('c14-typevar-names', 'C14',
     (S, "tvar_map = dict(zip(tvars, args))",
      "by_name = {tvar.__name__: tvar for tvar in tvars}\n        tvar_map = dict(zip((by_name[tvar.__name__] for tvar in tvars), args))"),
     'a generic class with two TypeVars of the same name',
     'members hinted with one of the TypeVars are not specialized', '''
First, Second = TypeVar('Item'), TypeVar('Item')

class Pair(Generic[First, Second], Structured, byte_order=ByteOrder.LE):
    a: First
    b: Second

class Both(Pair[uint8, uint16], byte_order=ByteOrder.LE):
    pass

assert Both.attrs == ('a', 'b'), Both.attrs
assert Both(1, 2).pack() == b'\\1\\2\\0'
''')

seed('c11-defaults-cut', 'C11',
     (COND, "False: SkipSerializer(default),", "False: SkipSerializer(default[:1] * serializer.num_values),"),
     'a condition which skips a serializer of several values',
     'all of the values become the first default', '''
class A(Structured, byte_order=ByteOrder.LE):
    k: uint8
    t: tuple[Annotated[Any, StructSerializer('BH'), Condition(lambda o: o.k, 'x', 'y')], uint8]

assert A.create_unpack(b'\\1\\2\\3\\0\\4').t == (2, 3, 4)
assert A.create_unpack(b'\\0\\4').t == ('x', 'y', 4)
''')

seed('c13-lookahead-nested', 'C13',
     (UNI, """        result = self.decider(self._partial_object)
        serializer = self.get_serializer(result, True)
        serializer.pack_into(buffer, offset, *values)
        self.size = serializer.size""", """        result = self.decider(self._partial_object)
        self._packing = self.get_serializer(result, True)
        self._packing.pack_into(buffer, offset, *values)
        self.size = self._packing.size"""),
     'a lookahead union which contains objects of its own class, followed by a member, and a buffer',
     'the size of the innermost outcome is taken for that of the outermost', '''
class Tree(Structured, byte_order=ByteOrder.LE):
    node: Annotated[
        Union[tuple[uint8, uint32], tuple[uint8, Self, Self]],
        LookaheadDecider(uint8, lambda o: o.node[0], {0: tuple[uint8, uint32], 1: tuple[uint8, Self, Self]})
    ]
    mark: uint16

tree = Tree((1, Tree((0, 5), 6), Tree((1, Tree((0, 1), 2), Tree((0, 3), 4)), 7)), 8)
data = tree.pack()
assert Tree.create_unpack(data) == tree
buffer = bytearray(len(data) + 1)
tree.pack_into(buffer, 1)
assert bytes(buffer[1:]) == data, (bytes(buffer), data)
''')


seed('c16-eq-order', 'C16',
     (S, "        if type(other) is type(self):\n",
      "        if type(other) is type(self) and other.byte_order is self.byte_order:\n"),
     'comparing an object with the same one in another byte order',
     'objects of one class with equal members compare different', '''
class A(Structured, byte_order=ByteOrder.LE):
    a: uint16
    b: char[2]

a = A(1, b'xy')
other = a.with_byte_order(ByteOrder.BE)
assert other.pack() == b'\\0\\1xy'
assert a == other and not a != other
assert A.create_unpack(a.pack()) == other
''')


seed('c14-annotated-typevar', 'C14',
     (S, "                if isinstance(unwrapped, TypeVar):\n", "                if isinstance(attr_type, TypeVar):\n"),
     'a member of a generic class hinted with an annotated TypeVar',
     'the member is not serialized by classes which specialize the generic class', '''
T = TypeVar('T')
class A(Structured, Generic[T], byte_order=ByteOrder.LE):
    a: Annotated[T, 'what it is']
    b: uint8
class B(A[uint16], byte_order=ByteOrder.LE):
    pass
assert B.attrs == ('a', 'b'), B.attrs
assert B(1, 2).pack() == b'\\1\\0\\2'
''')
