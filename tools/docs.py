#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/persistence/'
P = []
def p(id, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech])), note))
IN = ['inputs']
p('C01', 'Every integer value survives every way of writing and reading it',
  'Every value of every integral type and of bool is written as a JSON number (or true/false) and is read back unchanged, whether it is written as text or stored in a document, read by the streaming parser or from a document or text, and whether it stands alone, as an element of a list, set, fixed array, pair or tuple, as a map value, behind a smart pointer or optional, or as a member of an object.',
  IN, 'all values of all integer types x all output paths x all input paths x all enclosing containers',
  'Tests round-trip a handful of small values, mostly int, in few contexts; the types share templates with specialised code per type, per container and per direction.',
  ['parse_fundamental.hpp', 'parse_vector.hpp', 'parse_set.hpp', 'parse_array.hpp', 'parse_items.hpp', 'deserialize_fundamental.hpp', 'write_fundamental.hpp', 'serialize_fundamental.hpp', 'number.hpp'],
  [('per-type number parsers', 'parse_fundamental.hpp'), ('per-type deserializers', 'deserialize_fundamental.hpp'), ('integer to text', 'write_fundamental.hpp')],
  'every 8..64-bit value at the solver level')
p('C02', 'A number is accepted exactly when the target type can represent it',
  'Reading a JSON number into an integral or floating-point type succeeds exactly when the number is in the range of that type (for integral types, an integer; integers offered to a floating-point type are covered up to its exact-integer range), and the value stored is then that number; an out-of-range number, a fraction read into an integer, or any other JSON type is reported as a failure and never truncated, wrapped or turned into an infinity.',
  IN, 'all JSON numbers (integers of any sign and up to 20 digits, fractions) x all arithmetic target types x all input paths and contexts',
  'Tests try one or two out-of-range values for a few types; the boundaries lie in different code for each type, container and input path.',
  ['parse_fundamental.hpp', 'deserialize_fundamental.hpp', 'detail/numeric_traits.hpp', 'number.hpp', 'parse_vector.hpp', 'parse_set.hpp', 'parse_array.hpp'],
  [('range checks of the parser', 'parse_fundamental.hpp'), ('range checks of the document reader', 'deserialize_fundamental.hpp')],
  'number tokens symbolic over the whole 64-bit range')
p('C03', 'Strings of arbitrary bytes survive as values and as keys',
  'A string of arbitrary bytes, including quotes, backslashes, control characters and NUL, written as a value, as an element or as a map key produces well-formed JSON text with the required escapes and reads back byte for byte equal through every input path.',
  IN, 'all byte strings (bounded length) in all positions x all input and output paths',
  'Tests use a few printable strings and one or two escapes; embedded NUL bytes and every escape in every position cannot be sampled.',
  ['write_string.hpp', 'serialize_string.hpp', 'parse_string.hpp', 'deserialize_string.hpp', 'write_map.hpp', 'serialize_map.hpp', 'parse_map.hpp', 'deserialize_map.hpp'],
  [('string writer', 'write_string.hpp'), ('map readers', 'deserialize_map.hpp')],
  'RapidJSON is encoded together with the library, not modelled')
p('C04', 'Byte sequences survive Base64 and malformed Base64 is rejected',
  'Every byte sequence is written as the standard padded Base64 text of that sequence and reads back equal; a text whose length, characters or placement of padding are not those of padded Base64 is rejected. Encoding and decoding touch only the bytes of their input and output.',
  IN, 'all byte sequences and all texts (bounded length)',
  'Tests use the RFC vectors and a few malformed texts; the wide code path works on blocks and only boundary lengths with specific bytes show an error.',
  ['base64.hpp', 'write_bytes.hpp', 'parse_bytes.hpp', 'deserialize_bytes.hpp', 'serialize_bytes.hpp', 'bytes.hpp'],
  [('encode/decode', 'base64.hpp')],
  'sequences up to 30 bytes (the wide and scalar code paths and their joins)')
p('C05', 'Dates and times convert exactly and malformed ones are rejected',
  'A date is accepted exactly when it is a valid date of the proleptic Gregorian calendar in the form YYYY-MM-DD and a time exactly when it is a valid instant in the form YYYY-MM-DDTHH:MM:SSZ (a space is accepted for the T) within the range of the system clock; the value read is that date or instant, and writing it gives the same text again.',
  IN, 'all texts of the given lengths; all dates 0000-9999; all instants of the clock range at second resolution (bounded to selected years per tier)',
  'Tests use a handful of dates; leap years, month ends and clock-range ends matter, as do digits replaced by arbitrary bytes.',
  ['datetime.hpp', 'write_date.hpp', 'write_datetime.hpp', 'parse_date.hpp', 'parse_datetime.hpp', 'deserialize_date.hpp', 'deserialize_datetime.hpp'],
  [('text to time and back', 'datetime.hpp')],
  'timegm/gmtime_r are modelled (civil-calendar algorithm) and the model is compared with an independent oracle in the harness')
p('C06', 'Enumerations are read exactly when the text or number names an enumerator',
  'An enumeration with string values is written as the string of its enumerator and a string is accepted exactly when it is the string of some enumerator, in every container and as object member; a plain enumeration is written and read as the number of its underlying type.',
  IN, 'all strings (bounded length) and all underlying values x all containers x all input paths',
  'Tests read known names at top level; near misses (prefix, extension, embedded NUL) in containers are unbounded.',
  ['enum.hpp', 'enum_utility.hpp', 'parse_enum.hpp', 'deserialize_enum.hpp', 'write_enum.hpp', 'serialize_enum.hpp'],
  [('name lookup', 'enum.hpp'), ('enum parser', 'parse_enum.hpp')],
  'strings of up to 7 characters, which covers every enumerator name of the harness and its extensions')
p('C07', 'Containers of any nesting survive and a wrong shape is rejected',
  'Lists, sets, fixed arrays, pairs, tuples and maps, nested in each other, read back equal to what was written; reading succeeds exactly when the JSON value has the shape of the target type at every level (an array or object where expected, exactly N elements for fixed-size types, every element acceptable), and the result then has exactly those elements in order, a document reader replacing whatever the container held before.',
  IN, 'all values of nested container types and all JSON trees (bounded size) x all input paths',
  'Tests cover a few nestings with matching input; wrong element types and counts at inner levels are combinatorial.',
  ['parse_vector.hpp', 'parse_set.hpp', 'parse_array.hpp', 'parse_map.hpp', 'parse_items.hpp', 'deserialize_vector.hpp', 'deserialize_set.hpp', 'deserialize_array.hpp', 'deserialize_map.hpp', 'deserialize_tuple.hpp', 'write_vector.hpp', 'write_set.hpp', 'write_array.hpp', 'write_map.hpp', 'write_tuple.hpp', 'serialize_vector.hpp', 'serialize_set.hpp', 'serialize_array.hpp', 'serialize_map.hpp', 'serialize_tuple.hpp'],
  [('container readers', 'deserialize_vector.hpp'), ('container parsers', 'parse_items.hpp')],
  'trees of bounded depth and width compared with a reference reader')
p('C08', 'Objects are accepted exactly when their members fit',
  'An object is written with each declared member once in declaration order, empty optionals omitted, members of base classes included. From a document an object is accepted exactly when every required member is present and every present member fits its type, in any order and with unknown keys ignored, absent optionals becoming empty, absent members with a default keeping their value; the streaming parser fails on an unknown key and on a member that does not fit, in any position.',
  IN, 'all member subsets, orders, unknown keys and misfits (bounded) for classes with 1-5 members, optionals, defaults, nesting and inheritance',
  'Tests read complete objects in declaration order plus a few missing-member cases; the failing member can be any and combinations matter.',
  ['deserialize_object.hpp', 'parse_object.hpp', 'write_object.hpp', 'serialize_object.hpp', 'object.hpp', 'object_members.hpp', 'object_reflection.hpp'],
  [('member visitor', 'object.hpp'), ('object reader', 'deserialize_object.hpp'), ('object parser', 'parse_object.hpp')],
  'one deviation per tree; compared with a reference reader per class')
p('C09', 'Shared objects are written once and come back shared the same way',
  'Objects reachable through several shared pointers are written once, every other occurrence being a reference that is a valid JSON pointer to the first; after reading, two pointers share an object exactly when they did before. A reference that is malformed, names no object read before, or names an object of another type is rejected and never resolved.',
  IN, 'all sharing patterns (bounded), all object values, all keys and member names on the way, all reference texts (bounded)',
  'Tests have two or three fixed graphs with plain names; keys with reserved characters, positions in other containers and hostile references are unbounded.',
  ['write_pointer.hpp', 'serialize_pointer.hpp', 'deserialize_pointer.hpp', 'detail/references.hpp', 'detail/path.hpp', 'detail/segment.hpp', 'detail/output_context.hpp', 'detail/deserialize_context.hpp'],
  [('reference table', 'detail/references.hpp'), ('pointer text', 'detail/path.hpp')],
  'graphs of up to 12 slots; reference texts up to 3 characters')
exec(open(D + '/tools/more.py').read()) if os.path.exists(D + '/tools/more.py') else None
NA = globals().get('NA', [])
with open(D + '/properties.jsonl', 'w') as f:
    for d, _ in P: f.write(json.dumps(d) + '\n')
    for d, _ in NA: f.write(json.dumps(d) + '\n')
LN = 'Bounded: for every value within the bounds stated in the evidence file the solver decides each assertion over the LLVM bitcode compiled from /repo in this run (%s). Trusts clang, the engine (paths are cross-checked against native runs of the same harness), the libc/libstdc++ models in rt/ and Z3; nothing is claimed beyond the bounds.'
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=d['id'], quick_cmd='python3 check.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + d['id'], evidence_file='evidence/%s.json' % d['id'], technique='symbolic execution of LLVM bitcode with Z3 (bounded), counterexamples replayed natively', level='model_checking', level_note=LN % n) for d, n in P],
  not_applicable=[dict(property=d['id'], reason=r) for d, r in NA], notes='See DESIGN.md. No hooks in /repo; fix: commits are listed in known_findings.json.'), open(D + '/MANIFEST.json', 'w'), indent=1)
