#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json of /verif from the table below."""

import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
S, A, U = 'structured/structured.py', 'structured/serializers/', 'structured/hint_types/'
API, STRUCTS, ARR, STR, TUP, UNI, COND, NEST, SELF = (
    A + f for f in ('api.py', 'structs.py', 'arrays.py', 'strings.py', 'tuples.py', 'unions.py',
                    'conditional.py', 'structured.py', 'self.py'))


def m(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files, 'mechanism': mechanism,
            'state': [{'name': n, 'meaning': d, 'where': w} for n, d, w in state],
            'observe_at': observe, 'hook_needed': None,
        },
    })


ALL = [S, API, STRUCTS, ARR, STR, TUP, UNI, COND, NEST, SELF]

prop('C01', 'Packed objects unpack to equal objects',
     'For every class that can be defined and every value its members can represent, unpacking '
     'the packed bytes gives an object of the same class whose serialized members have the same '
     'values and documented types, apart from the documented normalisations (fixed size strings '
     'are padded or cut, floats are rounded to their width, terminators and trailing NULs are '
     'stripped). Packing that object again gives the same bytes as packing those values.',
     ['programs', 'inputs'],
     'all class definitions from the documented hints, combined and nested freely, in all byte '
     'orders, and all values of their members',
     'The tests round trip a few dozen fixed classes with one or two values each; the combinations '
     'of hints, positions in the class, byte orders and values are unbounded, and defects sit in '
     'combinations (an array next to a union, a condition in a tuple).',
     ALL, m(('pack/unpack of the class serializer', S), ('concatenation of member serializers', API),
            ('struct formats', STRUCTS)),
     ['Structured.pack', 'Structured.create_unpack', 'attributes of the unpacked object'])

prop('C02', 'The packing routes agree and write nothing but the packed bytes',
     'pack(), pack_into() and pack_write() of an object produce the same bytes, for every class, '
     'value, kind of writable buffer, offset and stream position. pack_into() and pack_write() '
     'change nothing before or after these bytes and never resize a buffer; a buffer too small '
     'for them makes pack_into() raise. Packing never changes the object.',
     ['programs', 'inputs', 'configurations'],
     'all classes and values, all writable buffers (bytearray, memoryview, mmap, array), offsets, '
     'room left in the buffer, and stream positions',
     'Tests pack each class at offset 0 into one exactly sized bytearray; guard bytes, other '
     'offsets, other buffer types and too small buffers are never looked at.',
     ALL, m(('pack_into with running offsets', API), ('pack_write', STRUCTS), ('array headers written after the items', ARR)),
     ['contents of the buffer and stream around the packed bytes', 'return values', 'members after packing'])

prop('C03', 'The unpacking routes agree and leave their input alone',
     'unpack(), unpack_from(), unpack_read() and the three create_ methods give the same member '
     'values for the same bytes, for every class, kind of buffer, offset, stream position and '
     'data following the object, whether into a new or an already used object. Unpacking never '
     'changes the buffer or stream contents, and the object keeps no reference to the buffer.',
     ['programs', 'inputs', 'configurations'],
     'all classes and data, all readable buffers, offsets, following data, and previous states of '
     'the object',
     'Tests unpack exactly sized bytes, mostly with two routes; unpacking into used objects, other '
     'buffer types, later changes of the buffer, and non-zero offsets are hardly touched.',
     ALL, m(('unpack/unpack_from/unpack_read', S), ('proxy objects for create_*', S), ('offset arithmetic', API)),
     ['members after each route', 'contents of the buffer', 'stream contents and position'])

prop('C04', 'Sizes and stream positions frame consecutive objects exactly',
     'After every pack or unpack operation, the size of the serializer of the class is the number '
     'of bytes that operation wrote or used, and a stream is left right after these bytes. So '
     'objects of any classes written one after another to a stream or buffer can be read back one '
     'after another, in any mixture of routes.',
     ['programs', 'inputs', 'histories'],
     'all sequences of objects of all classes, and all mixtures of packing and unpacking operations '
     'on them',
     'Tests check sizes of a few serializers after one operation; sizes are mutable state shared by '
     'all objects of a class, so only sequences show stale or wrong ones.',
     ALL, m(('size kept by serializers', API), ('rewinding after reading ahead', UNI), ('reading in chunks for terminators', STR)),
     ['Class.serializer.size', 'stream.tell()', 'unpacked values of the following objects'],
     [('size', 'bytes of the most recent operation', API)])

prop('C05', 'Consecutive basic members are packed as one struct format',
     'A class of basic members (integers, floats, bool8, char[n], pascal[n], pad[n]) packs and '
     'unpacks exactly as the struct module does with the members\' codes joined to one format with '
     'the byte order of the class, including alignment bytes, for every combination of members and '
     'all values.',
     ['programs', 'inputs'], 'all sequences of basic members and paddings, byte orders and values',
     'Tests compare some ten formats; joining formats (counts of equal codes, strings which must not '
     'be joined, pads, zero lengths) depends on neighbouring members.',
     [STRUCTS, U + 'basic_types.py', S], m(('fold_overlaps, StructSerializer.__add__/__mul__/__matmul__', STRUCTS), ('unique names of pads', S)),
     ['packed bytes', 'unpacked values'])

prop('C06', 'The byte order of a class governs all of its members',
     'Every multi-byte number in the packed form of a class (members, string lengths, array headers, '
     'items of arrays and tuples, outcomes of unions, guarded members, read ahead values) uses the '
     'byte order of that class, while nested Structured objects keep their own. with_byte_order() '
     'gives an equal object packed in the other order, and leaves the object, its class and others '
     'as they were.',
     ['programs', 'configurations'], 'all classes, all byte orders and changes of byte order',
     'Tests cover byte order for plain numbers and two more serializers; every serializer has to '
     'forward it to all of its parts, in any nesting.',
     [S, API, STRUCTS, ARR, STR, TUP, UNI, COND], m(('with_byte_order of each serializer', API), ('Structured.with_byte_order', S)),
     ['packed bytes under each byte order', 'Class.byte_order'])

prop('C07', 'Arrays keep their items, and their headers describe them',
     'An array packs to its header (the number of items, and if asked for the number of bytes they '
     'take) followed by exactly its items, for every header form and item type, and unpacks to the '
     'same list; a fixed length is never stored, and packing another number of items raises '
     'ValueError. Unpacking raises ValueError when the stored data size differs from the bytes the '
     'items took, and any count or size which does not fit its field is refused.',
     ['programs', 'inputs'], 'all header forms, item types, lengths and stored headers',
     'Tests use few item types and short lists; boundaries of the count and size fields, wrong '
     'headers, and items that are unions, conditions, tuples or arrays themselves are not covered.',
     [ARR, U + 'arrays.py', STRUCTS], m(('three array serializers', ARR), ('choice of the serializer', U + 'arrays.py')),
     ['packed bytes', 'exception types', 'unpacked lists'])

prop('C08', 'Byte strings keep contents and length in each form',
     'Each form of char (fixed length, stored length, .NET length, terminated, rest of the data) and '
     'pascal packs every byte string it can hold as documented and unpacks it to the same bytes. '
     'Strings too long for the stored length are refused; missing terminators and short data are '
     'refused when unpacking.',
     ['inputs'], 'all contents and lengths (0 to beyond each limit), terminators, and positions amid other data',
     'Tests use a handful of short strings per form; limits (127/128, 255/256, 2**15, 2**16, read '
     'chunks of 256 bytes) and contents with terminators or NULs are not sampled.',
     [STR, U + 'strings.py', STRUCTS], m(('string serializers', STR), ('dispatch on the length argument', U + 'strings.py')),
     ['packed bytes', 'unpacked bytes', 'stream positions'])

prop('C09', 'Unicode strings are encoded and decoded exactly',
     'Each form of unicode packs the text encoded with its codec (a Python codec, utf8 by default, '
     'or an EncoderDecoder) in the matching char form, with lengths counted in bytes, and unpacks to '
     'the same text without trailing NULs. Text without an encoding, and bytes which are no text, '
     'raise an error.',
     ['inputs', 'configurations'], 'all texts, encodings, custom codecs and length forms',
     'Tests use ASCII texts and three encodings; multi-byte encodings, lengths in bytes versus '
     'characters, and undecodable bytes are left out.',
     [STR, U + 'strings.py'], m(('UnicodeSerializer', STR), ('unicode[...] and its cache', U + 'strings.py')),
     ['packed bytes', 'unpacked text', 'errors'])

prop('C10', 'Unions pack and unpack as the type their decider chooses',
     'A union is packed and unpacked exactly as the type the decision maps to would be, or the '
     'default, decided anew for every operation from the object at hand. A LookbackDecider sees the '
     'members unpacked so far with their new values; a LookaheadDecider leaves the data it looked at '
     'to be unpacked. A decision which is not mapped, without a default, raises ValueError.',
     ['programs', 'inputs', 'histories'], 'all deciders, maps, outcome types, positions in a class, and orders of decisions',
     'Tests have two unions of basic types; what a decider sees is only visible by watching its calls, '
     'and stale decisions only in sequences of objects.',
     [UNI, API, S], m(('deciders, prepack/preunpack', UNI), ('proxy object', S)),
     ['calls of the decider and the attributes it sees', 'packed bytes', 'unpacked values', 'stream position'])

prop('C11', 'A false condition removes a member from the data',
     'A member guarded by a Condition is packed and unpacked like without it when the condition is '
     'truthy; otherwise it takes no bytes, whatever its value, and unpacks to the default, leaving '
     'the input for the next member. Conditions are evaluated anew for each operation, seeing the '
     'object (when packing) or all members before it with their new values (when unpacking).',
     ['programs', 'inputs', 'histories'], 'all guarded types, conditions on earlier members, truthy and falsy results, and orders of outcomes',
     'Tests have one class with versions; nesting in tuples, arrays and other conditions, and what '
     'the condition sees, are not covered.',
     [COND, U + 'condition.py', API], m(('ConditionalSerializer', COND), ('Condition transformation', U + 'condition.py')),
     ['calls of the condition and the attributes it sees', 'packed bytes', 'unpacked values'])

prop('C12', 'Tuples and nested objects compose',
     'A tuple packs as its items one after another and unpacks to a tuple of them; a nested '
     'Structured object packs as it does alone and unpacks to an object of its class. This holds '
     'for any nesting of these in each other, in arrays, unions and conditions, and a tuple with the '
     'wrong number of items is refused.',
     ['programs', 'inputs'], 'all nestings of tuples, objects, arrays, unions and conditions, to any depth',
     'Tests nest at most two levels of a few types.',
     [TUP, NEST, API, U + 'tuples.py'], m(('TupleSerializer', TUP), ('StructuredSerializer', NEST)),
     ['packed bytes', 'types and values after unpacking'])

prop('C13', 'Recursive and shared types do not interfere',
     'A member hinted with Self packs and unpacks as an object of the class in hand: a subclass '
     'gets objects of the subclass. Objects of recursive classes keep their shape to any depth the '
     'interpreter allows, and classes sharing member types or nested classes give the same results '
     'whatever was packed or unpacked with the others in between.',
     ['programs', 'inputs', 'histories'], 'all recursive shapes (lists, trees), subclasses, and interleavings of classes sharing types',
     'Tests have one linked list of two nodes; serializers are shared mutable objects, so nested use '
     'of the same one shows only in deeper shapes.',
     [SELF, NEST, API, S], m(('SelfSerializer', SELF), ('size updated only at the end', API)),
     ['class of nested objects', 'packed bytes', 'unpacked values'],
     [('partial object', 'the object a serializer is preparing for', API)])

prop('C14', 'Specialized generic classes act like hand written ones',
     'A generic Structured class with its TypeVars specialized, by subclassing (directly, partially, '
     'in several steps) or as a hint within another class, packs and unpacks exactly like the class '
     'with the types written out. The generic class itself, its other specializations, and bare '
     'aliases are not affected, and an unspecialized member is not serialized.',
     ['programs'], 'all generic classes, uses of TypeVars in hints, arguments, and chains of (partial) specialization',
     'Tests specialize three classes; renaming, reusing, nesting and capturing of TypeVars over several '
     'levels are not covered.',
     [S, 'structured/utils.py', NEST, 'structured/type_checking.py'],
     m(('_get_specialization_hints', S), ('StructuredAlias.resolve', 'structured/utils.py'), ('_specializations cache', NEST)),
     ['Class.attrs', 'packed bytes', 'unpacked values', 'annotations'])

prop('C15', 'Subclasses extend, override and remove members as documented',
     'A subclass packs the members of its base in their order, then its own new ones; a redefined '
     'member keeps its place with the new type, and one redefined with a non-serializable hint is '
     'no longer packed. Another byte order than that of the base raises ValueError unless overridden, more than one '
     'Structured base raises TypeError, and base classes are never affected.',
     ['programs', 'configurations'], 'all chains of subclasses, redefinitions, byte orders and modes',
     'Tests have one chain of each kind; positions of redefined members, pads, several levels and '
     'mixins are not combined.',
     [S], m(('__init_subclass__', S), ('get_structured_base', S), ('MetaDict', S)),
     ['Class.attrs', 'Class.byte_order', 'packed bytes', 'exceptions of class statements'])

prop('C16', 'Structured objects initialize, compare and print by their members',
     'The generated __init__ takes exactly one value per serialized member, in order or by name, '
     'stores it and calls __post_init__; objects are equal exactly if of the same class with equal '
     'members; str and repr show the class and every member. Other attributes are not touched by '
     'packing and unpacking, and a class with its own __init__ or as a dataclass keeps working.',
     ['programs', 'inputs', 'histories'], 'all classes and values, ways of passing arguments, and sequences of changes',
     'Tests check one or two fixed classes; names that collide with internals and mixed styles are open.',
     [S], m(('gen_init', S), ('__eq__, __str__, __repr__', S), ('_Proxy', S)),
     ['__init__ calls', '==', 'str()', 'repr()', 'attributes'])

prop('C17', 'Custom types are converted once, in order, by their own factory',
     'A member with SerializeAs packs as the basic type it names and, when unpacked, becomes the '
     'result of calling its type (or factory) with the unpacked value: once per object in the data, '
     'in order, each with its own. This holds next to any other members, repeated, and in tuples, '
     'arrays, unions, conditions and byte orders.',
     ['programs', 'inputs'], 'all positions and combinations of custom types with and without factories',
     'Tests have one class; actions are matched to values by position when formats are joined, so '
     'neighbours matter.',
     [STRUCTS, U + 'serialize_as.py', ARR], m(('StructActionSerializer', STRUCTS), ('SerializeAs', U + 'serialize_as.py')),
     ['calls of types and factories', 'unpacked values', 'packed bytes'])

prop('C18', 'Nothing can follow a member which takes all remaining data',
     'Defining a class in which a member takes all remaining data, directly or within a tuple, '
     'union, condition or nested object, and another serialized member follows, raises TypeError, as '
     'does using it as an array item. Every class without such a conflict can be defined, '
     'and its last member gets exactly the remaining bytes.',
     ['programs'], 'all places of such a member in all combinations of hints and class hierarchies',
     'Tests reject a few direct cases; each wrapper has to forward the mark, also through subclasses and generics.',
     [API, STR, TUP, UNI, COND, NEST, U + 'arrays.py'], m(('get_final/is_final', API), ('check when adding serializers', API)),
     ['exceptions of class statements', 'unpacked values'])

prop('C19', 'Malformed and truncated data is rejected promptly',
     'Unpacking data that is cut short or has impossible lengths, counts, sizes, decisions or text '
     'raises an exception with every route, promptly and without using memory for data it only '
     'claims to have; it never returns an object with invented values, also when a stream fails or '
     'returns less than asked for. The class and other objects remain usable.',
     ['inputs', 'fault_sequences'], 'all prefixes of all packed objects, all corruptions of them, streams failing at any point, and sequences of failing operations',
     'Tests check a few truncations; hostile lengths and truncation at every byte of every type are not run.',
     ALL, m(('length checks', STR), ('count checks', ARR), ('struct errors', STRUCTS)),
     ['exceptions', 'CPU time', 'memory', 'later operations'])

prop('C20', 'Values without an encoding are refused, not mangled',
     'Packing an object with a member its type cannot represent (out of range, of another type, too '
     'long for its length field, a wrong number of items, not encodable) raises an exception on '
     'every route, also deep inside tuples, arrays, unions and nested objects. Afterwards the same '
     'object with a proper value packs as if nothing had happened.',
     ['programs', 'inputs', 'fault_sequences'], 'all types with all values outside of their range, at all places of a class',
     'Tests have a few such values for the simplest types.',
     ALL, m(('struct errors', STRUCTS), ('length checks', ARR), ('number of values', TUP)),
     ['exceptions', 'bytes of later operations'])

prop('C21', 'Results do not depend on what happened before',
     'The result of packing, unpacking or defining a class depends on its arguments only: not on '
     'earlier operations on the same or other objects and classes, failed ones included, nor on the '
     'order in which classes were defined or hints were first used.',
     ['histories', 'programs', 'fault_sequences'], 'all sequences of operations, including failing ones, over classes sharing hints, and all orders of definition',
     'Each test uses fresh classes and one or two operations, but hints, serializers and class caches are shared mutable state.',
     ALL + [U + 'strings.py', U + 'arrays.py'], m(('caches of hints', U + 'arrays.py'), ('cache of specializations', NEST), ('partial objects kept by serializers', ARR)),
     ['results of each operation compared with those in isolation'],
     [('caches', 'hint and specialization caches', U + 'strings.py')])

prop('C22', 'Serializers compose by addition as documented',
     'Used directly, every serializer packs and unpacks num_values values by all routes alike, '
     'updates size with each operation, and accepts longer buffers. Adding serializers gives one for '
     'their values one after another, whatever the grouping, with with_byte_order applying to all '
     'parts and neither operation changing its operands; struct serializers multiply like formats and '
     'are equal only if they do the same; user written serializers take part, getting '
     'prepack and preunpack with the object before each use.',
     ['programs', 'inputs', 'histories'], 'all serializers, sums in all groupings, byte orders, and user written serializers',
     'Tests add a few pairs; associativity, purity of the operands and third party serializers are not covered.',
     [API, STRUCTS, ARR, STR, TUP, UNI, COND], m(('__add__/__radd__', API), ('StructSerializer arithmetic', STRUCTS)),
     ['packed bytes', 'unpacked values', 'size', 'num_values', 'calls received by user written serializers'])

prop('C23', 'Hints are recognized, or rejected when the class is defined',
     'Exactly the members with serializable hints (also aliased, annotated, as strings, or with '
     'from __future__ import annotations) are serialized, in the order of definition; ClassVars and '
     'plain Python hints are left alone. Invalid uses (unindexed types, bad lengths, array headers '
     'or items, deciders without unions, conditions on nothing) raise an error at definition.',
     ['programs'], 'all spellings of all hints, serializable or not, valid or not',
     'Tests have a few spellings of a few hints.',
     [S, 'structured/type_checking.py', 'structured/base_types.py'] + [U + f for f in ('arrays.py', 'strings.py', 'basic_types.py', 'condition.py', 'serialize_as.py', 'tuples.py')],
     m(('annotated.transform', 'structured/type_checking.py'), ('filter_typehints', S), ('argument checks', U + 'arrays.py')),
     ['Class.attrs', 'packed bytes', 'exceptions of class statements'])

prop('C24', 'Any bytes decode alike by all routes, or are refused by all',
     'For any bytes whatsoever, the routes to unpack a class either all give the same object, using '
     'the same number of bytes, as the documented format says, or all raise an exception. What was '
     'unpacked packs to bytes which unpack to the same values again (except for text which takes '
     'more room than it came from: encodings with byte order marks, or fixed sizes).',
     ['inputs', 'programs'], 'all byte strings for all classes',
     'Tests only unpack what they packed; data from elsewhere exercises other paths (unusual bools, '
     'NaNs, non-canonical lengths, NULs).',
     ALL, m(('unpack routes', S), ('string and array headers', STR)),
     ['unpacked values by route', 'bytes used', 'exceptions'])

NOTES = {
    'technique': 'runtime monitoring: generated workloads on the real code, online monitors and a '
                 'reference codec as oracle',
}
LEVEL = ('Exploration: the property held on every execution of this run (counts and samples in the '
         'evidence file), not for all. {extra}Trusts the reference codec in vf/model.py, the struct module and '
         'the CPython codecs.')
EXTRA = {
    'C10': 'Decider calls are recorded and compared with those the reference allows. ',
    'C11': 'Condition calls are recorded and compared with those the reference allows. ',
    'C17': 'Calls of types and factories are recorded and compared with the data. ',
    'C19': 'CPU, memory and wall clock are limited per case. ',
}


def main():
    built = [p['id'] for p in P if (HERE / 'vf' / 'checks' / f"{p['id'].lower()}.py").exists()]
    with open(HERE / 'properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [
            {
                'property': p['id'],
                'quick_cmd': f"./check {p['id']} --tier quick",
                'thorough_cmd': f"./check {p['id']} --tier thorough",
                'technique': NOTES['technique'],
                'level': 'exploration',
                'level_note': LEVEL.format(extra=EXTRA.get(p['id'], '')),
            }
            for p in P if p['id'] in built
        ],
        'not_applicable': [
            {'property': p['id'], 'reason': 'check under construction'}
            for p in P if p['id'] not in built
        ],
    }
    (HERE / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
    print(len(P), 'properties', len(built), 'checks')


if __name__ == '__main__':
    main()
