"""What a user of the library would write next to the class definitions:
custom types, encoders and serializers."""

from __future__ import annotations

from . import repo as _repo  # noqa: F401
from structured import ByteOrder, EncoderDecoder, Serializer

__all__ = ['CodecRot', 'CodecHex', 'VarInt', 'LazyVarInt', 'XorByte', 'OrderMark', 'Rest', 'Probe',
           'PackProbe', 'UnpackProbe']


class _Custom:
    __slots__ = ('value', 'made')
    log = None

    def __init__(self, value):
        self.value = value
        self.made = 'init'
        if _Custom.log is not None:
            _Custom.log.append((type(self).__name__, 'init', value))

    @classmethod
    def make(cls, value, made='factory'):
        self = object.__new__(cls)
        self.value = value
        self.made = made
        if _Custom.log is not None:
            _Custom.log.append((cls.__name__, made, value))
        return self

    @classmethod
    def factory(cls, n):
        return lambda value: cls.make(value, f'factory {n}')

    def __eq__(self, other):
        if type(other) is type(self):
            return self.value == other.value
        return NotImplemented

    def __hash__(self):
        return hash(self.value)

    def __repr__(self):
        return f'{type(self).__name__}({self.value!r})'


class _CustomBytes(bytes):
    def __new__(cls, value):
        self = super().__new__(cls, value)
        self.value = bytes(value)
        self.made = 'init'
        if _Custom.log is not None:
            _Custom.log.append((cls.__name__, 'init', value))
        return self

    @classmethod
    def make(cls, value, made='factory'):
        self = bytes.__new__(cls, value)
        self.value = bytes(value)
        self.made = made
        if _Custom.log is not None:
            _Custom.log.append((cls.__name__, made, value))
        return self

    @classmethod
    def factory(cls, n):
        return lambda value: cls.make(value, f'factory {n}')


CUSTOM_FLAVOURS = 3
for _i in range(CUSTOM_FLAVOURS):
    for _name, _base, _body in (
        ('Int', _Custom, {'__index__': lambda self: self.value}),
        ('Float', _Custom, {'__float__': lambda self: self.value}),
        ('Bool', _Custom, {'__bool__': lambda self: self.value}),
        ('Bytes', _CustomBytes, {}),
    ):
        _full = f'Custom{_name}{_i}'
        globals()[_full] = type(_full, (_base,), {**_body, '__slots__': ()} if _base is _Custom else dict(_body))
        __all__.append(_full)


class CodecRot(EncoderDecoder):
    @classmethod
    def encode(cls, strng):
        return bytes((b + 13) & 0xFF for b in strng.encode('latin-1'))

    @classmethod
    def decode(cls, byts):
        return bytes((b - 13) & 0xFF for b in byts).decode('latin-1')


class CodecHex(EncoderDecoder):
    @classmethod
    def encode(cls, strng):
        return strng.encode('utf8').hex().encode('ascii')

    @classmethod
    def decode(cls, byts):
        return bytes.fromhex(byts.rstrip(b'\0').decode('ascii')).decode('utf8')


class VarInt(Serializer):
    """LEB128 number, written with nothing but the documented API."""

    num_values = 1

    def __init__(self):
        self.size = 0

    def _encode(self, value):
        if not isinstance(value, int) or value < 0:
            raise ValueError('not a varint')
        out = bytearray()
        while value > 0x7F:
            out.append(value & 0x7F | 0x80)
            value >>= 7
        out.append(value)
        self.size = len(out)
        return bytes(out)

    def pack(self, value):
        return self._encode(value)

    def pack_into(self, buffer, offset, value):
        data = self._encode(value)
        if offset + len(data) > len(buffer):
            raise ValueError('buffer too small')
        for i, b in enumerate(data):
            buffer[offset + i] = b

    def pack_write(self, writable, value):
        writable.write(self._encode(value))

    def _decode(self, get):
        n = shift = size = 0
        while True:
            b = get(size)
            size += 1
            n |= (b & 0x7F) << shift
            shift += 7
            if b < 0x80:
                self.size = size
                return n

    def unpack(self, buffer):
        return (self._decode(lambda i: buffer[i]),)

    def unpack_from(self, buffer, offset=0):
        return (self._decode(lambda i: buffer[offset + i]),)

    def unpack_read(self, readable):
        return (self._decode(lambda i: readable.read(1)[0]),)


class LazyVarInt(VarInt):
    """As VarInt, but unpacking to iterables which do their work late, as the
    documentation allows."""

    def unpack(self, buffer):
        yield self._decode(lambda i: buffer[i])

    def unpack_from(self, buffer, offset=0):
        yield self._decode(lambda i: buffer[offset + i])

    def unpack_read(self, readable):
        yield self._decode(lambda i: readable.read(1)[0])


class XorByte(Serializer):
    """A byte scrambled with an earlier member of the object."""

    num_values = 1
    size = 1

    def __init__(self, attr):
        self.attr = attr

    def prepack(self, partial_object):
        return _Xor(getattr(partial_object, self.attr))

    preunpack = prepack


class _Xor(Serializer):
    num_values = 1
    size = 1

    def __init__(self, key):
        self.key = key & 0xFF

    def pack(self, value):
        return bytes((self._value(value),))

    def _value(self, value):
        if not isinstance(value, int) or not 0 <= value <= 255:
            raise ValueError('not a byte')
        return value ^ self.key

    def pack_into(self, buffer, offset, value):
        value = self._value(value)
        if offset >= len(buffer):
            raise ValueError('buffer too small')
        buffer[offset] = value

    def pack_write(self, writable, value):
        writable.write(self.pack(value))

    def unpack(self, buffer):
        return (buffer[0] ^ self.key,)

    def unpack_from(self, buffer, offset=0):
        return (buffer[offset] ^ self.key,)

    def unpack_read(self, readable):
        return (readable.read(1)[0] ^ self.key,)


class OrderMark(Serializer):
    """Bytes with a marker of the byte order they were packed with."""

    num_values = 1

    def __init__(self, big=False):
        self.size = 0
        self.big = big

    def with_byte_order(self, byte_order):
        return OrderMark(byte_order in (ByteOrder.BE, ByteOrder.NETWORK))

    def pack(self, value):
        if not isinstance(value, bytes):
            raise ValueError('not bytes')
        data = (b'B' if self.big else b'L') + bytes((len(value),)) + value
        self.size = len(data)
        return data

    def pack_into(self, buffer, offset, value):
        data = self.pack(value)
        if offset + len(data) > len(buffer):
            raise ValueError('buffer too small')
        for i, b in enumerate(data):
            buffer[offset + i] = b

    def pack_write(self, writable, value):
        writable.write(self.pack(value))

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        mark, n = buffer[offset], buffer[offset + 1]
        if mark != (ord('B') if self.big else ord('L')):
            raise ValueError('order mark')
        if offset + 2 + n > len(buffer):
            raise ValueError('truncated')
        self.size = n + 2
        return (bytes(buffer[offset + 2 : offset + 2 + n]),)

    def unpack_read(self, readable):
        mark, n = readable.read(1)[0], readable.read(1)[0]
        if mark != (ord('B') if self.big else ord('L')):
            raise ValueError('order mark')
        data = readable.read(n)
        if len(data) != n:
            raise ValueError('truncated')
        self.size = n + 2
        return (data,)


class Rest(Serializer):
    """All of the remaining data."""

    num_values = 1

    def __init__(self):
        self.size = 0

    def get_final(self):
        return self

    def pack(self, value):
        if not isinstance(value, bytes):
            raise ValueError('not bytes')
        self.size = len(value)
        return value

    def pack_into(self, buffer, offset, value):
        data = self.pack(value)
        if offset + len(data) > len(buffer):
            raise ValueError('buffer too small')
        for i, b in enumerate(data):
            buffer[offset + i] = b

    def pack_write(self, writable, value):
        writable.write(self.pack(value))

    def unpack(self, buffer):
        return self.unpack_from(buffer)

    def unpack_from(self, buffer, offset=0):
        data = bytes(buffer[offset:])
        self.size = len(data)
        return (data,)

    def unpack_read(self, readable):
        return self.unpack_from(readable.read())


class Probe(Serializer):
    """A byte, reporting which object it was prepared with."""

    num_values = 1
    size = 1

    def __init__(self, number, hooks):
        self.number = number
        self.hooks = hooks
        self.ready = None
        hooks.probes.append(self)

    def prepack(self, partial_object):
        self.ready = 'pack', self.hooks.seen(self.number, partial_object)
        return self

    def preunpack(self, partial_object):
        self.ready = 'unpack', self.hooks.seen(self.number, partial_object)
        return self

    def _use(self, what):
        self.hooks.uses.append((self.number, what, self.ready))

    def pack(self, value):
        self._use('pack')
        return bytes((value,))

    def pack_into(self, buffer, offset, value):
        self._use('pack')
        if offset >= len(buffer):
            raise ValueError('buffer too small')
        buffer[offset] = value

    def pack_write(self, writable, value):
        writable.write(self.pack(value))

    def unpack(self, buffer):
        self._use('unpack')
        return (buffer[0],)

    def unpack_from(self, buffer, offset=0):
        self._use('unpack')
        return (buffer[offset],)

    def unpack_read(self, readable):
        self._use('unpack')
        return (readable.read(1)[0],)


class PackProbe(Probe):
    """Only prepared for packing."""

    preunpack = Serializer.preunpack


class UnpackProbe(Probe):
    """Only prepared for unpacking."""

    prepack = Serializer.prepack
