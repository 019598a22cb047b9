"""Job table: which harness entries decide which property, within which bounds."""
JOBS = []
def J(prop, name, file, entry, bounds, defs=(), **kw):
    JOBS.append(dict(property=prop, name=prop.lower() + '_' + name, file=file, entry=entry, bounds=bounds, defs=list(defs), **kw))
INTS = ['char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
CTX = ['plain', 'vector', 'set', 'array', 'pair', 'map', 'member', 'optional', 'tuple', 'unique', 'shared', 'unordered map', 'nested', 'derived', 'list', 'deep']
for t in ['bool'] + INTS:
    J('C01', t, 'c01_int.cpp', 'h_' + t, 'every %s value; contexts plain, vector/set/array of 2, pair, tuple, map value, member, optional and inherited member, smart pointers, nested containers, lists of 29 sizes up to 300; number token abstraction' % t, shadow=True, reach=CTX)
for t in INTS:
    J('C01', t + '_digits', 'c01_int.cpp', 'h_' + t, 'real decimal text: all values within +-128 of 0, of +-10^k (k<=20) and of the type limits', ['REAL_DIGITS'], reach=['plain'])
CTX2 = ['plain', 'vector', 'set', 'array', 'pair', 'map', 'member', 'optional', 'member of 2', 'member of 3', 'tuple']
for t in INTS + ['echar', 'eushort', 'eint', 'ellong', 'eullong']:
    J('C02', t, 'c02_range.cpp', 'h_' + t, 'every 64-bit signed, 64-bit unsigned and finite double JSON number read into %s; 11 contexts; parser, text deserializer, document; number token abstraction' % t, shadow=True, reach=CTX2)
for t in ['float', 'double']:
    J('C02', t, 'c02_range.cpp', 'h_' + t, 'every 64-bit integer and finite double JSON number read into %s; 5 contexts; number token abstraction' % t, shadow=True, reach=['plain', 'vector', 'set', 'array', 'member'])
for t in ['schar', 'uchar']:
    J('C02', 'literal_' + t, 'c02_range.cpp', 'h_lit_' + t, 'decimal literal text of up to 4 arbitrary bytes read as %s' % t, reach=['value', 'rejected'])
for n, d, q in [('plain', 4, 1), ('view', 4, 1), ('vector', 2, 1), ('set', 3, 1), ('key', 4, 1), ('keys2', 2, 1), ('ukey', 3, 1), ('member', 4, 1), ('optional', 4, 1), ('tuple', 3, 1), ('array', 3, 1)]:
    J('C03', n, 'c03_string.cpp', 'h_' + n, 'every byte string of up to %d bytes (NUL included) as %s' % (d, n), ['NS=%d' % d, 'LONGN=40'], reach=[n])
J('C03', 'long', 'c03_string.cpp', 'h_long', 'strings of 40 bytes with one arbitrary byte at any position', ['NS=2', 'LONGN=40'], reach=['long'])
J('C03', 'escape', 'c03_string.cpp', 'h_escape', 'every four bytes after a \\\\u escape', ['NS=2', 'LONGN=40'], reach=['good', 'bad'])
J('C03', 'len', 'c03_string.cpp', 'h_len', 'strings and keys of 68 lengths from 0 to 5000 with one arbitrary byte, in 6 contexts', ['NS=2', 'LONGN=40'], reach=['len'])
J('C03', 'prior', 'c03_string.cpp', 'h_prior', 'strings of up to 300 bytes read or written over other text', ['NS=2', 'LONGN=40'], reach=['prior'])
for lo, hi in [(0, 22), (23, 32), (33, 47), (48, 55), (56, 72), (73, 100)]:
    J('C04', 'encode_%d' % lo, 'c04_base64.cpp', 'h_encode', 'every byte sequence of length %d..%d' % (lo, hi), ['LO=%d' % lo, 'HI=%d' % hi], reach=['encoded'])
J('C04', 'encode_text', 'c04_base64.cpp', 'h_encode_text', 'every string of length 0..26 through the string overload', ['LO=0', 'HI=26'], reach=['encoded'])
J('C04', 'decode', 'c04_base64.cpp', 'h_decode', 'every text of length 0..12', ['LO=0', 'HI=12'], reach=['valid', 'invalid'])
J('C04', 'decode_20', 'c04_base64.cpp', 'h_decode', 'every text of length 13..24', ['LO=13', 'HI=24'], reach=['valid', 'invalid'])
J('C04', 'roundtrip', 'c04_base64.cpp', 'h_roundtrip', 'every byte sequence of length 0..30', ['LO=0', 'HI=30'], reach=['roundtrip'])
J('C04', 'long', 'c04_base64.cpp', 'h_long', '47 lengths from 101 to 6000 with three arbitrary bytes at the beginning, in the middle or at the end', reach=['long'])
J('C04', 'long_decode', 'c04_base64.cpp', 'h_long_decode', 'texts of 47 lengths up to 8000 with one arbitrary character in one of 8 places', reach=['valid', 'invalid'])
J('C04', 'json', 'c04_base64.cpp', 'h_json', 'every byte sequence of length 0..6, through JSON text and document', ['LO=0', 'HI=6'], reach=['json'])
J('C04', 'json_24', 'c04_base64.cpp', 'h_json', 'every byte sequence of length 23..26, through JSON text and document', ['LO=23', 'HI=26'], reach=['json'])
J('C04', 'json_member', 'c04_base64.cpp', 'h_json_member', 'every byte sequence of length 0..4 in a vector member', ['LO=0', 'HI=4'], reach=['json'])
J('C04', 'json_decode', 'c04_base64.cpp', 'h_json_decode', 'every JSON string of up to 5 unescaped characters where bytes are expected', ['LO=0', 'HI=5'], reach=['valid', 'invalid'])
J('C05', 'date', 'c05_date.cpp', 'h_date', 'every 10-character text (no quote, backslash or control characters) read as a date', reach=['valid', 'invalid'])
J('C05', 'length', 'c05_date.cpp', 'h_length', 'every text of 0..22 characters other than 10 (dates) or 20 (date-times)', reach=['date', 'datetime'])
J('C05', 'datetime', 'c05_date.cpp', 'h_datetime', 'every 20-character text with a year in 1700..2199 or a non-digit first character, read as a date-time', reach=['valid', 'invalid'])
YT = 'years 0, 1, 1583, 1676-1678, 1700, 1752, 1899-1904, 1969-1972, 1999-2004, 2022, 2038, 2096-2101, 2200, 2261-2263, 2400, 9999'
J('C05', 'value', 'c05_date.cpp', 'h_value', YT + ', every month, one of day, hour, minute, second arbitrary, the others at three edge values', reach=['in range', 'out of range'], cores=4)
J('C05', 'make', 'c05_date.cpp', 'h_make', YT + ' (within the clock range), every month, day, hour, minute and second', reach=['made'], cores=2)
J('C05', 'format', 'c05_date.cpp', 'h_format', YT + ', every month, one of day, hour, minute, second arbitrary, the others at three edge values', reach=['written'], cores=8)
J('C05', 'format_date', 'c05_date.cpp', 'h_format_date', YT + ', every month and day', reach=['written'], cores=2)
for t in ['date', 'time']:
    J('C05', 'ctx_' + t, 'c05_date.cpp', 'h_ctx_' + t, 'texts with one arbitrary digit, cut off or extended, in 12 contexts', reach=['valid', 'invalid'])
J('C05', 'years', 'c05_date.cpp', 'h_years', 'the first and last second of the edges of February and of the year, every year 1676..2263', reach=['accepted', 'rejected'], cores=4)
J('C05', 'date_years', 'c05_date.cpp', 'h_date_years', 'the edges of February and of the year, every year 0..9999', reach=['accepted', 'rejected'], cores=4)
J('C05', 'subsecond', 'c05_date.cpp', 'h_subsecond', 'two 256-second windows, every nanosecond part', reach=['subsecond'])
CTX6 = ['plain', 'vector', 'set', 'array', 'pair', 'map', 'member', 'optional', 'member of 2', 'member of 3']
for t in ['named', 'described']:
    J('C06', t, 'c06_enum.cpp', 'h_' + t, 'every string of up to 3 arbitrary bytes in 10 contexts', ['MAXN=3'], reach=CTX6 + ['known'])
    J('C06', t + '_long', 'c06_enum.cpp', 'h_' + t, 'every string of up to 7 unescaped characters in 10 contexts', ['MAXN=7'], reach=CTX6 + ['known'])
    J('C06', t + '_types', 'c06_enum.cpp', 'h_' + t + '_types', 'nine JSON values of other types in 10 contexts', ['MAXN=7'], reach=CTX6)
    J('C06', t + '_write', 'c06_enum.cpp', 'h_' + t + '_write', 'every pair of enumerators in 5 contexts', ['MAXN=7'], reach=['plain', 'vector', 'array', 'map', 'tuple'])
for t in ['short', 'uchar', 'llong', 'unscoped', 'ulong']:
    J('C06', 'plain_' + t, 'c06_enum.cpp', 'h_plain_' + t, 'every value of the underlying type; number token abstraction', ['MAXN=7'], shadow=True, reach=['round trip'])
for t in ['R8', 'RU8', 'R16', 'RU16', 'R32', 'RU32', 'R64', 'RU64', 'RC', 'RL']:
    J('C06', 'range_' + t, 'c06_enum.cpp', 'h_range_' + t, 'every 64-bit signed, 64-bit unsigned and finite double JSON number read into an enumeration (%s) in 11 contexts; number token abstraction' % t, ['MAXN=7'], shadow=True, reach=CTX2)
for t in ['many', 'many_described']:
    J('C06', t, 'c06_enum.cpp', 'h_' + t, '32 names of up to 75 characters, each with any one byte in its first or last ten replaced, one byte more or one less', ['MAXN=7'], reach=['known', 'unknown'])
FLAT = ['vint', 'vbool', 'vstr', 'sint', 'sbool', 'sstr', 'aint', 'abool3', 'pair', 'tuple', 'tuple1', 'mint', 'mstr', 'umbool']
NEST = ['vv', 'va', 'vp', 'vm', 'mv', 'mm', 'av', 'sv', 'sp', 'tt', 'pm', 'vvv', 'umv', 'ma', 'vt', 'vst']
for t in FLAT + NEST:
    J('C07', 'trip_' + t, 'c07_container.cpp', 'h_trip_' + t, 'every value of type %s with at most 2 elements per level, strings of at most 1 byte%s; number token abstraction' % (t, ', keys from a set of three' if t in NEST else ''), ['DEPTH=1', 'MAXSTR=1'] + (['KEYCHOICE'] if t in NEST else []), shadow=True, reach=['round trip'])
for t in FLAT:
    J('C07', 'wild_' + t, 'c07_container.cpp', 'h_wild_' + t, 'every JSON tree of depth 1 with at most 3 children, symbolic scalars, read as %s' % t, ['DEPTH=1', 'TREELEN=3'], shadow=True, reach=['fits', 'rejected'])
for t in NEST:
    J('C07', 'near_' + t, 'c07_container.cpp', 'h_near_' + t, 'every JSON tree shaped like %s (at most 2 elements per level) with at most one deviation in shape or length, symbolic scalars' % t, ['DEPTH=1', 'MAXSTR=1'] + (['TREELEN=1'] if t == 'vvv' else []), shadow=True, reach=['fits', 'rejected'])
for t, rc in [('O1', ['good', 'misfit', 'missing', 'unknown']), ('OD', ['good', 'misfit', 'unknown']), ('OO', ['good', 'misfit', 'unknown']), ('O2', ['good', 'misfit', 'missing', 'unknown']), ('O2o', ['good', 'misfit', 'unknown']), ('O3', ['good', 'misfit', 'missing', 'unknown']), ('ODer', ['good', 'misfit', 'missing', 'unknown']), ('OPol', ['good', 'misfit', 'missing', 'unknown']), ('O5', ['good', 'misfit', 'missing', 'unknown'])]:
    J('C08', 'trip_' + t, 'c08_object.cpp', 'h_trip_' + t, 'every value of class %s, containers and strings of length at most 1' % t, ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=['round trip'])
    J('C08', 'read_' + t, 'c08_object.cpp', 'h_read_' + t, 'every subset of the members of class %s in rotated or reversed order, at most one shape deviation or unknown key anywhere, symbolic scalars' % t, ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=rc, cores=8 if t == 'O5' else 1, cost=9 if t == 'O5' else 1)
for t, b in [('members', 'three members'), ('vector', 'three elements and a member'), ('top', 'three elements of a top-level list'), ('fixed', 'array, tuple and pair elements'), ('ukey', 'three entries of an unordered map and a member'), ('names', 'members with names containing / and ~ and the empty name'), ('nested', 'members of shared objects and an optional'), ('unique', 'members behind a unique pointer'), ('set', 'two set elements and two list elements'), ('outer', 'shared objects holding shared objects'), ('variant', 'a variant alternative and a member')]:
    J('C09', t, 'c09_sharing.cpp', 'h_' + t, 'every way to share objects among %s; every object value' % b, shadow=True, reach=['round trip'])
J('C09', 'long', 'c09_sharing.cpp', 'h_long', 'a list of 12 objects any one of which is shared with a member', shadow=True, reach=['round trip'])
J('C09', 'key', 'c09_sharing.cpp', 'h_key', 'an object under every map key of up to 2 unescaped characters shared with a member', shadow=True, reach=['round trip'])
J('C09', 'ref', 'c09_sharing.cpp', 'h_ref', 'every reference text of up to 3 unescaped characters', shadow=True, reach=['good', 'bad'])
for t, r in [('refkind', 'kinds'), ('type', 'type'), ('forward', 'forward')]:
    J('C09', t, 'c09_sharing.cpp', 'h_' + t, 'references of a wrong kind, to another type, or to a later object', reach=[r])
SC = ['bool', 'schar', 'ushort', 'int', 'ulong', 'float', 'double', 'str', 'bytes', 'time', 'date', 'named', 'plain', 'null']
CO = ['vint', 'vbool', 'vstr', 'vv', 'vnamed', 'vbytes', 'vtime', 'sint', 'sstr', 'snamed', 'aint', 'astr', 'abool', 'pair', 'tuple', 'mint', 'mv', 'umstr', 'vp', 'vup', 'msp', 'va']
OB = ['O1', 'OD', 'OO', 'O2', 'O2o', 'O3', 'ODer', 'vO2', 'mO1', 'upO2', 'spO3']
for t in SC + CO + OB:
    J('C10', 'shape_' + t, 'c10_errors.cpp', 'h_shape_' + t, 'every JSON tree shaped like %s with at most one deviation, symbolic scalars' % t, ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=['accepted', 'rejected'])
for t in ['bool', 'int', 'str', 'vec', 'vint', 'map', 'obj', 'time', 'bytes', 'tuple']:
    J('C10', 'text_' + t, 'c10_errors.cpp', 'h_text_' + t, 'one JSON text with any one byte replaced by any value, or cut off anywhere', ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], reach=['accepted', 'malformed'])
for t in INTS + ['float', 'double', 'plain', 'uenum', 'lenum']:
    J('C10', 'num_' + t, 'c10_errors.cpp', 'h_num_' + t, 'every 64-bit signed, 64-bit unsigned and finite double JSON number read into %s in 4 contexts' % t, ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=['accepted'] + ([] if t == 'double' else ['rejected']))
J('C10', 'write', 'c10_errors.cpp', 'h_write', 'finite and non-finite numbers in 8 positions', ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=['written', 'refused'])
for t in ['Every', 'O5']:
    J('C10', 'write_' + t, 'c10_errors.cpp', 'h_write_' + t, 'every value of a class with members of every kind', ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1'], shadow=True, reach=['written'])
B11 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=2']
for t in SC + CO + OB + ['vO3', 'vO1', 'vdbl', 'mnamed', 'adate', 'vsp', 'sv', 'mm']:
    J('C11', 'shape_' + t, 'c11_agree.cpp', 'h_shape_' + t, 'every JSON tree shaped like %s (at most 2 elements per level) with at most one deviation, symbolic scalars; members all present, no unknown keys' % t, B11, shadow=True, reach=['accepted', 'rejected'], **(dict(cores=4, cost=9) if t == 'vO3' else {}))
for t in ['OO', 'O1', 'ON', 'OP']:
    J('C11', 'null_' + t, 'c11_agree.cpp', 'h_null_' + t, 'a member with a value of any JSON type', B11, shadow=True, reach=['accepted', 'rejected'])
for t in ['bool', 'int', 'uint', 'str', 'vec', 'vint', 'map', 'date', 'bytes', 'tuple', 'null', 'set']:
    J('C11', 'text_' + t, 'c11_agree.cpp', 'h_text_' + t, 'one JSON text with any one byte replaced by any value, or cut off anywhere', B11, reach=['accepted', 'rejected'])
for t in ['bool', 'schar', 'str', 'vint', 'vstr', 'mint', 'vv']:
    J('C11', 'any_' + t, 'c11_agree.cpp', 'h_any_' + t, 'every text of up to 4 non-NUL bytes', B11, reach=['accepted', 'rejected'], cost=3)
B12 = ['MAXSTR=1', 'MAXLEN=2', 'TREELEN=2']
for t in SC + CO + OB + ['Every', 'O5', 'char', 'short', 'uint', 'long', 'll', 'ull', 'vdbl', 'adbl', 'mdbl', 'tdbl']:
    big = t in ('Every', 'O5')
    J('C12', t, 'c12_equal.cpp', 'h_' + t, 'every value of %s, containers of at most 2 elements, strings of at most 1 byte; number token abstraction' % t, B12, shadow=True, reach=['written'], cores=2 if big else 1, cost=4 if big else 1)
for t in ['str', 'bytes', 'time', 'date', 'named', 'vstr', 'mv', 'umstr', 'Every', 'O5', 'msp', 'shared']:
    J('C12', 'own_' + t, 'c12_equal.cpp', 'h_own_' + t, 'the document of every value of %s, used after the value is destroyed' % t, B12, shadow=True, reach=['owned'], cores=2 if t == 'O5' else 1, cost=4 if t == 'O5' else 1)
for t, r in [('view', 'views'), ('dict', 'written'), ('chars', 'chars'), ('variant', 'written'), ('raw', 'raw'), ('shared', 'written'), ('doc', 'doc'), ('doc_temp', 'temp')]:
    J('C12', t, 'c12_equal.cpp', 'h_' + t, {'view': 'string views and dictionaries keyed by views', 'dict': 'ordered dictionaries', 'chars': 'character arrays', 'variant': 'variants of 5 alternatives', 'raw': 'raw pointers', 'shared': 'shared pointers in maps and lists', 'doc': 'every document of depth 2 with at most 2 children', 'doc_temp': 'documents of strings parsed from a temporary string'}[t] + ', symbolic content', B12, shadow=True, reach=[r])
B13 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=2', 'DEVS=1']
for t in ['int', 'str', 'time', 'bytes', 'null', 'dbl', 'vint', 'vbool', 'vstr', 'vv', 'vnamed', 'sstr', 'svb', 'aint', 'aa', 'pair', 'tuple', 'mint', 'mv', 'umstr', 'vm', 'vup', 'vsp', 'In', 'vIn', 'mIn', 'Mid']:
    big = t in ('vIn', 'mIn', 'Mid')
    J('C13', t, 'c13_location.cpp', 'h_' + t, 'every JSON tree shaped like %s (at most %d elements per level) with at most one deviation, symbolic scalars' % (t, 1 if big else 2), B13 if not big else [x.replace('TREELEN=2', 'TREELEN=1') for x in B13], shadow=True, reach=['fits', 'located'], cores=2 if big else 1, cost=4 if big else 1)
J('C13', 'long', 'c13_location.cpp', 'h_long', 'a list of 112 elements any one of which does not fit', B13, shadow=True, reach=['long'])
J('C13', 'key', 'c13_location.cpp', 'h_key', 'map keys of up to 3 arbitrary bytes', B13, shadow=True, reach=['key'])
J('C13', 'variant', 'c13_location.cpp', 'h_variant', 'a variant offered a value of any JSON type', B13, shadow=True, reach=['variant'])
for t in ['vec', 'obj', 'str', 'int']:
    J('C13', 'syntax_' + t, 'c13_location.cpp', 'h_syntax_' + t, 'one JSON text with any one byte replaced by any value, or cut off anywhere', B13, reach=['malformed'])
for n in [1, 2, 3, 4, 5, 7, 8, 16, 33, 65, 101, 102, 103, 105]:
    if n > 100: n, m = n, n - 100
    else: m = n
    J('C14', 'any_%d' % n, 'c14_dispatch.cpp', 'h_any_%d' % n, 'every key of up to 1 byte offered to a class of %d members' % m + (' with long names' if n > 100 else ''), ['KL=1'], reach=['no member'])
    J('C14', 'near_%d' % n, 'c14_dispatch.cpp', 'h_near_%d' % n, 'every name of a class of %d members with one byte replaced by any value, one byte appended, or cut off' % m + (' with long names' if n > 100 else ''), ['KL=1'], reach=['member', 'no member'])
    J('C14', 'all_%d' % n, 'c14_dispatch.cpp', 'h_all_%d' % n, ('every value of a class of %d boolean members' if m <= 8 else 'a class of %d boolean members, one different from the others') % m, ['KL=1'], reach=['all'])
    if m > 1: J('C14', 'pick_%d' % n, 'c14_dispatch.cpp', 'h_pick_%d' % n, 'every ordered pair of members of a class of %d members' % m + (' with long names' if n > 100 else ''), ['KL=1'], reach=['pick'])
LC = ['vint', 'vbool', 'vstr', 'sint', 'sstr', 'svb', 'aint', 'astr', 'tuple6', 'pair', 'mint', 'mstr', 'umstr', 'vv', 'mv', 'vm', 'vup', 'vsp', 'vnamed', 'vdate', 'vbytes', 'vdbl', 'va', 'vt']
LO = ['vO2', 'mO2', 'Big']
LB = '%s with 12 elements (3 per inner level), concrete except for one element, in any position at any level, that has symbolic content or does not fit'
for t in LC:
    J('C07', 'long_' + t, 'c07_container.cpp', 'h_long_' + t, LB % t, ['DEPTH=1', 'MAXSTR=1'], shadow=True, reach=['fits', 'rejected'])
for t in ['vint', 'vbool', 'vstr', 'sint', 'sstr', 'aint', 'pair', 'tuple', 'mint', 'mv', 'umstr', 'vv', 'str', 'bytes']:
    J('C07', 'refill_' + t, 'c07_container.cpp', 'h_refill_' + t, 'every document of %s with at most 2 elements per level, or 12 elements with one in focus, read into a container that already has 4 elements' % t, ['DEPTH=1', 'MAXSTR=1'], shadow=True, reach=['fits'] if t in () else ['fits', 'rejected'])
B8 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1']
for t in LO:
    J('C08', 'long_' + t, 'c08_object.cpp', 'h_long_' + t, LB % t + (', members of 20 types' if t == 'Big' else ''), B8, shadow=True, reach=['good', 'misfit', 'missing', 'unknown'])
for n in [1, 2, 3]:
    J('C08', 'keys_L%d' % n, 'c08_object.cpp', 'h_keys_L%d' % n, 'a class of %d members with long names; any one key with any byte replaced, cut off or extended, in place of the member or besides it' % n, B8, shadow=True, reach=['unknown'])
for t in ['OD', 'OO', 'O2', 'O2o', 'O3', 'ODer', 'vO2', 'mO2']:
    J('C08', 'refill_' + t, 'c08_object.cpp', 'h_refill_' + t, 'every document of class %s as above, read into an object with any previous value' % t, B8, shadow=True, reach=['good', 'rejected'])
for t in LC + LO:
    if t not in ('vdbl',): J('C10', 'long_' + t, 'c10_errors.cpp', 'h_long_' + t, LB % t, B8, shadow=True, reach=['accepted', 'rejected'])
    J('C11', 'long_' + t, 'c11_agree.cpp', 'h_long_' + t, LB % t, B11, shadow=True, reach=['accepted', 'rejected'])
    J('C12', 'long_' + t, 'c12_equal.cpp', 'h_long_' + t, LB % t, B12, shadow=True, reach=['written', 'owned'])
    J('C13', 'long_' + t, 'c13_location.cpp', 'h_long_' + t, LB % t, B13, shadow=True, reach=['fits', 'located'])
for t in ['vector', 'map', 'rows', 'set']:
    J('C09', 'many_' + t, 'c09_sharing.cpp', 'h_many_' + t, '300 objects (%s), any of 18 positions shared with a later member, or half of them shared with the other half' % t, shadow=True, reach=['round trip'], max_inst=400000000, cost=3)
J('C09', 'keylen', 'c09_sharing.cpp', 'h_keylen', 'a key of 68 lengths from 0 to 5000 with one arbitrary byte', shadow=True, reach=['round trip'])
J('C09', 'chain', 'c09_sharing.cpp', 'h_chain', 'objects nested 1..40 levels, the innermost shared with the first, middle or last level', shadow=True, reach=['round trip'])
for t in ['self', 'self_root']:
    J('C09', t, 'c09_sharing.cpp', 'h_' + t, 'a class that contains itself: a reference in any of 7 places to any of 16 targets, as text and document', shadow=True, reach=['good', 'bad'])
J('C09', 'prior', 'c09_sharing.cpp', 'h_prior', 'pointers that share an object with others before reading', shadow=True, reach=['prior'])
J('C09', 'wide', 'c09_sharing.cpp', 'h_wide', 'objects in an array of 6, a tuple of 5, a pair, a list of 3 and a member; any one of the 14 places shared with any other', shadow=True, reach=['round trip'])
J('C09', 'deep', 'c09_sharing.cpp', 'h_deep', '16 objects four levels deep under keys with special characters, any one shared with a member', shadow=True, reach=['round trip'])
B16 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=2']
for t in ['bool', 'char', 'schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'str', 'bytes', 'time', 'date', 'named', 'plain', 'uenum', 'lenum', 'null', 'vint', 'vbool', 'vstr', 'vv', 'vnamed', 'vbytes', 'vtime', 'sint', 'sstr', 'aint', 'astr', 'abool', 'pair', 'tuple', 'mint', 'mv', 'umstr', 'va', 'vplain', 'O1', 'OO', 'O2', 'O2o', 'Drv', 'OPol', 'vO2', 'mO1', 'upO2', 'spO2']:
    J('C16', t, 'c16_schema.cpp', 'h_' + t, 'every value of %s (containers and strings of length at most 1), and every JSON tree shaped like it (at most 2 elements per level) with at most one deviation, against the emitted schema' % t, B16, shadow=True, reach=['conforms', 'valid', 'invalid'])
for t in ['vint', 'sint', 'sstr', 'aint', 'astr', 'tuple6', 'pair', 'mstr', 'vv', 'vm', 'vO2', 'mO2', 'vt', 'Out', 'vOut']:
    J('C16', 'long_' + t, 'c16_schema.cpp', 'h_long_' + t, LB % t, B16, shadow=True, reach=['conforms', 'valid', 'invalid'], **(dict(tier='thorough', cost=9) if t == 'vOut' else {}))
J('C16', 'rec', 'c16_schema.cpp', 'h_rec', 'a class that contains itself, nested up to 2 levels', B16, shadow=True, reach=['conforms', 'valid', 'invalid'])
J('C16', 'vrec', 'c16_schema.cpp', 'h_vrec', 'a list of a class that contains itself, nested up to 2 levels', B16, shadow=True, reach=['conforms', 'valid', 'invalid'])
J('C16', 'variant', 'c16_schema.cpp', 'h_variant', 'a variant of five alternatives, and values of any JSON type', B16, shadow=True, reach=['valid', 'invalid'])
J('C16', 'number', 'c16_schema.cpp', 'h_number', 'every finite number, and values of any JSON type', B16, shadow=True, reach=['numbers'])
B15 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1']
for t in ['vec', 'map', 'ptr', 'set', 'tup']:
    J('C15', t, 'c15_nesting.cpp', 'h_' + t, 'a class that contains itself through %s, nested 0..200 levels, with or without a misfit in the innermost value' % {'vec': 'a list', 'map': 'a map', 'ptr': 'an optional pointer', 'set': 'a shared list', 'tup': 'a list of tuples'}[t], B15, shadow=True, reach=['accepted', 'misfit', 'too deep'], max_inst=400000000)
J('C15', 'brackets', 'c15_nesting.cpp', 'h_brackets', '0..200 opening brackets, closed or not, read as three nested lists', B15, shadow=True, reach=['fits', 'rejected'])
J('C15', 'static', 'c15_nesting.cpp', 'h_static', 'containers nested twelve levels', B15, shadow=True, reach=['static'])
for t in ['vup', 'msp', 'sup', 'set', 'vec', 'nest', 'obj']:
    J('C15', 'boom_' + t, 'c15_nesting.cpp', 'h_boom_' + t, 'any one of the first 12 constructions of a user type throws', B15, shadow=True, reach=['intact', 'exception'])
for t in ['vstr', 'map', 'sptr', 'set', 'um', 'obj', 'every']:
    J('C15', 'mem_' + t, 'c15_nesting.cpp', 'h_mem_' + t, 'any one of the first 40 allocations fails, reading or writing', B15, shadow=True, reach=['exhausted'])

B17 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1']
for t in SC + CO + OB:
    by = t in ('tuple', 'O3', 'ODer', 'spO3')
    J('C17', t, 'c17_history.cpp', 'h_' + ('by_' if by else '') + t, 'every JSON tree shaped like %s with at most one deviation, before and after calls with %s and extended texts of it' % (t, 'one other document' if by else 'every other tree of that shape'), B17, shadow=True, reach=['accepted', 'rejected'])
for t in LC + LO:
    J('C17', 'long_' + t, 'c17_history.cpp', 'h_long_' + t, LB % t + ', before and after calls with another document', B17, shadow=True, reach=['accepted', 'rejected'])
for t, r, b in [('refused', ['refused'], 'objects written before and after six kinds of objects that are refused'), ('types', ['types'], 'six kinds of documents offered to six types, in every order of two'), ('alias', ['shared', 'separate'], 'a document of shared and unshared objects read twice'), ('reent', ['reent'], 'constructors of user types that read and write while being read')]:
    J('C17', t, 'c17_history.cpp', 'h_' + t, b + '; symbolic content', B17, shadow=True, reach=r)
for t, b in [('often', 'up to 300 calls of one of 8 kinds and one of another kind first'), ('large', 'one call of 8 kinds with a string of 68 lengths up to 5000 first'), ('mixed', 'every sequence of three calls of 8 kinds first')]:
    J('C17', t, 'c17_history.cpp', 'h_' + t, b + '; then reading and writing of objects with symbolic content, references and all', B17, shadow=True, reach=['often'], max_inst=400000000, cost=3)
B18 = ['MAXSTR=1', 'MAXLEN=1', 'TREELEN=1']
S18 = [t for t in SC if t not in ('float', 'double')]
for t in S18 + CO + OB:
    J('C18', 'any_' + t, 'c18_text.cpp', 'h_any_' + t, 'every text of up to 4 non-NUL bytes offered to %s' % t, B18 + ['TXT=4'], reach=['rejected'])
for t in ['vint', 'vstr', 'esc', 'sur', 'map', 'O2', 'vO1', 'aint', 'bytes', 'named', 'set', 'sp', 'up', 'O3', 'tuple', 'date', 'time', 'ODer', 'msp']:
    J('C18', 'win_' + t, 'c18_text.cpp', 'h_win_' + t, 'one JSON text with any %s, or any byte inserted anywhere' % ('byte replaced by any other' if t in ('O3', 'tuple', 'date', 'time', 'ODer', 'msp') else 'two neighbouring bytes replaced by any two'), B18 + ['TXT=4'], reach=['accepted', 'rejected'])
for t in S18 + CO + OB + ['Every', 'O5']:
    big = t in ('Every', 'O5')
    J('C19', 'all_' + t, 'c19_output.cpp', 'h_all_' + t, 'every value of %s, containers of at most 2 elements, strings of at most 1 byte; number token abstraction' % t, B12, shadow=True, reach=['written'], cores=2 if big else 1, cost=4 if big else 1)
for t in LC + LO:
    if t not in ('vdbl',): J('C19', 'long_' + t, 'c19_output.cpp', 'h_long_' + t, LB % t, B12, shadow=True, reach=['written'])
for t in ['float', 'double']:
    J('C19', t, 'c19_output.cpp', 'h_' + t, 'every two %s values, finite or not, in 24 positions' % t, B12, shadow=True, reach=['written', 'refused'])
for t, b in [('among', 'lists of 1..20 numbers'), ('among_obj', 'maps of lists of 1..8 objects')]:
    J('C19', t, 'c19_output.cpp', 'h_' + t, b + ' with one arbitrary double in any position', B12, shadow=True, reach=['written', 'refused'])
for n in range(1, 13):
    t = 'W%d' % n
    J('C20', 'accept_' + t, 'c20_variant.cpp', 'h_accept_' + t, 'every JSON tree shaped like an alternative of variant %s with at most one deviation, symbolic scalars, in 8 positions' % t, B18, shadow=True, reach=['fits', 'rejected'])
    J('C20', 'trip_' + t, 'c20_variant.cpp', 'h_trip_' + t, 'every value of variant %s, containers and strings of length at most 1' % t, B18, shadow=True, reach=['round trip'])
    J('C20', 'refill_' + t, 'c20_variant.cpp', 'h_refill_' + t, 'every JSON tree shaped like an alternative of variant %s, read into a variant with any previous value' % t, B18, shadow=True, reach=['fits'])
J('C20', 'number', 'c20_variant.cpp', 'h_number', 'every 64-bit integer and finite double', B18, shadow=True, reach=['number'])
J('C20', 'list', 'c20_variant.cpp', 'h_list', 'lists of 29 sizes from 0 to 300 of variants of 4 types, the first, middle or last arbitrary', B18, shadow=True, reach=['fits', 'rejected'])
J('C20', 'fail', 'c20_variant.cpp', 'h_fail', 'lists of 29 sizes up to 300 as alternatives, the first, middle or last element arbitrary', B18, shadow=True, reach=['fits', 'rejected'])
J('C20', 'wide', 'c20_variant.cpp', 'h_wide', 'a variant of 12 classes and every object with members of one or two of them', B18, shadow=True, reach=['fits', 'rejected'])
J('C20', 'floats', 'c20_variant.cpp', 'h_floats', 'every finite double and 64-bit integer offered to variants with float before and after double', B18, shadow=True, reach=['float', 'double'])
J('C20', 'stale', 'c20_variant.cpp', 'h_stale', 'a document with a reference to an object that an alternative of a variant has read, the alternative fitting as a whole or failing after it; 4 forms, 5 targets, 4 positions, symbolic numbers', B18, shadow=True, reach=['fits', 'rejected'])
J('C20', 'late', 'c20_variant.cpp', 'h_late', 'objects that match an alternative up to the last member', B18, shadow=True, reach=['fits', 'rejected'])
for t in ['double', 'float']:
    J('C21', t, 'c21_float.cpp', 'h_' + t, 'every two finite %s values in 14 positions of a document' % t, B18, shadow=True, reach=['round trip'])
    J('C21', 'text_' + t, 'c21_float.cpp', 'h_text_' + t, 'all multiples of 0.25 below 2^20 as %s in 14 positions, through text; number token abstraction' % t, B18, shadow=True, reach=['round trip'])
    J('C21', 'offer_' + t, 'c21_float.cpp', 'h_offer_' + t, 'every finite double in a document offered to %s' % t, B18, shadow=True, reach=['in range'] + (['out of range'] if t == 'float' else []))
J('C21', 'sweep', 'c21_float.cpp', 'h_sweep', 'lists and maps of 29 sizes from 1 to 301 numbers, the first, middle or last an arbitrary finite double', B18, shadow=True, reach=['round trip'])
J('C21', 'among', 'c21_float.cpp', 'h_among', 'lists of 1..20 numbers with one arbitrary finite double in any position', B18, shadow=True, reach=['round trip'])
# size and length sweeps
SWC = ['vint', 'vbool', 'vstr', 'sint', 'sstr', 'mint', 'mstr', 'umstr', 'vv', 'mv', 'vm', 'vsp', 'vup', 'vt', 'pair', 'a33', 'a17', 'vnamed']; SWO = ['vO2', 'mO2']
LNC = ['str', 'vstr', 'sstr', 'mstr', 'umstr', 'tuple', 'vsp', 'aastr']; LNO = ['O2', 'mO2']
SLOW = ['sint', 'vv', 'mv', 'vm', 'pair', 'mO2'] # quick tier of C07 and C08 only
def sweeps(prop, file, b, cs, ls, r1, r2):
    slow = SLOW if prop == 'C11' else SLOW + ['sstr', 'vsp', 'vup', 'vt', 'a33', 'a17', 'vnamed', 'umstr'] if prop in ('C10', 'C12', 'C13', 'C19') else ['vm', 'mv'] if prop == 'C07' else []
    for t in cs: J(prop, 'sweep_' + t, file, 'h_sweep_' + t, '%s with sizes from 0 to %d (at one level), concrete except for the first, middle or last element, which has symbolic content or does not fit' % (t, 12 if t == 'sint' else 40 if t == 'sstr' else 300), b + ['SWEEP'], shadow=True, reach=r1, cost=5, **(dict(tier='thorough') if t in slow else {}))
    for t in ls: J(prop, 'len_' + t, file, 'h_len_' + t, '%s with a string or key of 68 lengths from 0 to 5000 with one arbitrary byte first, in the middle or last' % t, b + ['SWEEP'], shadow=True, reach=r2, cost=5)
sweeps('C07', 'c07_container.cpp', ['DEPTH=1', 'MAXSTR=1'], SWC, LNC, ['fits', 'rejected'], ['fits'])
for t in SWC: J('C07', 'resize_' + t, 'c07_container.cpp', 'h_resize_' + t, '%s with sizes from 0 to %s, read into a container that held from 0 to %s elements' % ((t, 11, 6) if t in ('vv', 'mv', 'vm', 'pair') else (t, 65, 130)), ['DEPTH=1', 'MAXSTR=1', 'SWEEP'], shadow=True, reach=['fits', 'rejected'], cost=5)
sweeps('C08', 'c08_object.cpp', B8, SWO, LNO, ['good', 'misfit'], ['good'])
sweeps('C10', 'c10_errors.cpp', B8, SWC + SWO, LNC + LNO, ['accepted', 'rejected'], ['accepted'])
sweeps('C11', 'c11_agree.cpp', B11, SWC + SWO, LNC + LNO, ['accepted', 'rejected'], ['accepted'])
sweeps('C12', 'c12_equal.cpp', B12, SWC + SWO, LNC + LNO, ['written', 'owned'], ['written', 'owned'])
sweeps('C13', 'c13_location.cpp', B13, SWC + SWO, LNC + LNO, ['fits', 'located'], ['fits'])
sweeps('C19', 'c19_output.cpp', B12, SWC + SWO, LNC + LNO, ['written'], ['written'])
for t in 'snprintf sscanf strtol tochars cstr ctype sort list cont ptr exc mutex math time str misc'.split():
    J('SELF', t, 'selftest.cpp', 't_' + t, 'engine and runtime models against the native run')
