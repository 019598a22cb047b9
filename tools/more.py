p('C10', 'Failure is always reported, and only as a failure',
  'The bool-returning reading functions return false for every input that does not fit and never throw; the value-returning and throwing functions throw a library exception for exactly those inputs and return the value otherwise. Parsing in place gives the same result as parsing constant text, and a text that is malformed JSON is always rejected. A failed write reports failure and leaves the target string as it was.',
  IN, 'all JSON trees (bounded size, one deviation) and all texts with one damaged byte or cut off x all target types x all entry points',
  'Tests try a few malformed inputs per entry point; the failing position and the entry point multiply.',
  ['parse.hpp', 'parse_base.hpp', 'deserialize.hpp', 'deserialize_base.hpp', 'utility.hpp', 'exception.hpp', 'write.hpp', 'serialize.hpp', 'detail/deserialize_context.hpp', 'detail/parse_event.hpp'],
  [('entry points', 'deserialize.hpp'), ('entry points of the parser', 'parse.hpp'), ('convenience functions', 'utility.hpp')],
  'every entry point on the same symbolic input')
p('C11', 'The streaming parser and the document reader agree',
  'For the same JSON text the streaming parser and the document reader either both fail or both succeed with equal values, for every type that both support, as long as objects carry exactly their declared members and floating-point targets are offered values they represent exactly (the parser, as documented, does not insist on required members and does not ignore unknown ones).',
  IN, 'all JSON trees (bounded size, one deviation), damaged texts and arbitrary texts of up to 4 bytes x all common types',
  'Tests exercise the two readers with separate inputs; agreement is a relation over all inputs.',
  ['parse.hpp', 'deserialize.hpp', 'parse_fundamental.hpp', 'deserialize_fundamental.hpp', 'parse_items.hpp', 'parse_map.hpp', 'parse_object.hpp', 'deserialize_object.hpp', 'parse_pointer.hpp', 'deserialize_pointer.hpp'],
  [('streaming parser', 'parse_base.hpp'), ('document reader', 'deserialize_base.hpp')],
  'both readers run on the same symbolic text, results compared')
p('C12', 'Text and document output agree, and a document owns its content',
  'For every value, the text written directly equals the text of the document built from the value, and both succeed or fail together; the document stays valid and unchanged after the value it was built from is changed or destroyed, and a document parsed from a text stays valid after the text is gone.',
  IN, 'all values (bounded size) of all writable types',
  'Tests compare a few values and keep the source alive; dangling references only show for strings that are not literals.',
  ['write.hpp', 'serialize.hpp', 'write_string.hpp', 'serialize_string.hpp', 'write_map.hpp', 'serialize_map.hpp', 'write_object.hpp', 'serialize_object.hpp', 'write_variant.hpp', 'serialize_variant.hpp', 'write_tuple.hpp', 'serialize_tuple.hpp', 'utility.hpp'],
  [('text writers', 'write.hpp'), ('document builders', 'serialize.hpp')],
  'both writers run on the same symbolic value; the document is used after the value is freed, with freed memory an error')
p('C13', 'An error names the place in the document that does not fit',
  'When the document reader fails with an exception, its path is a JSON pointer (with reserved characters escaped) to an element that really does not fit; when the streaming parser fails, its offset lies inside the text of such an element, and for malformed JSON it is the offset RapidJSON reports.',
  IN, 'all JSON trees (bounded size) with one misfit in any position x all container types; map keys of arbitrary bytes',
  'Tests check a few fixed error messages; every position in every container kind has its own path code.',
  ['exception.hpp', 'detail/path.hpp', 'detail/segment.hpp', 'detail/deserialize_context.hpp', 'deserialize_vector.hpp', 'deserialize_map.hpp', 'deserialize_object.hpp', 'deserialize_tuple.hpp', 'deserialize_array.hpp', 'deserialize_set.hpp', 'parse_base.hpp', 'utility.hpp'],
  [('path of the reader', 'detail/path.hpp'), ('offset of the parser', 'parse_base.hpp')],
  'the misfit element is known from the construction of the tree')
p('C14', 'Every object key reaches exactly the member it names',
  'For a class with any number of members and any member names, an object key is dispatched by the streaming parser and by the document reader to the member of exactly that name; a key that names no member reaches none, however similar it is. The lookup tables are built for every set of names in finite time.',
  IN, 'all keys within one byte of a member name or of at most one byte, all pairs of members, for classes of 1-65 members including adversarial name sets',
  'Tests have a few classes with few names; the perfect hash can misbehave for particular name sets only.',
  ['parse_object.hpp', 'detail/perfect_hash.hpp', 'detail/bitset.hpp', 'detail/make_array.hpp', 'object.hpp', 'object_members.hpp', 'deserialize_object.hpp'],
  [('perfect hash', 'detail/perfect_hash.hpp'), ('member dispatch', 'parse_object.hpp')],
  'symbolic key bytes run through the hash tables built from the declared names')
p('C15', 'Nesting, exceptions and memory exhaustion never corrupt or crash a reader',
  'A value of a class that contains itself is read back correctly however deeply it is nested, or its reading is reported as an ordinary failure; it never ends in another exception, a crash or a wrong value. The document reader takes any depth, the streaming parser at least twenty levels of such a class. An exception thrown by a constructor of a user type and std::bad_alloc, at whatever point they occur while reading or writing, reach the caller, and every object created until then is destroyed exactly once with nothing leaked.',
  ['inputs', 'fault_sequences'], 'all depths 0-200 with and without a misfit, all brackets 0-200 deep; each of the first 12 constructions and each of the first 40 allocations failing, in every reading and writing function',
  'Tests nest two or three levels and never let an allocation or a constructor fail.',
  ['detail/polymorphic_stack.hpp', 'parse.hpp', 'parse_base.hpp', 'parse_items.hpp', 'parse_object.hpp', 'parse_pointer.hpp', 'parse_map.hpp', 'deserialize_pointer.hpp', 'deserialize_vector.hpp', 'write_object.hpp', 'serialize_object.hpp'],
  [('stack of parsers', 'detail/polymorphic_stack.hpp'), ('parse loop', 'parse.hpp')],
  'the failing allocation or construction is a symbolic variable; depth up to 200')
p('C16', 'The JSON schema emitted for a type describes its JSON documents',
  'For every type with a schema, the emitted schema is a well-formed, finite JSON Schema whose references all resolve; every value of the type, as written to text or to a document, conforms to it; every JSON document that conforms to it is accepted by the readers, and every document the readers accept conforms to it unless it has unknown keys or repeats elements of a set (enumerations with names are described as strings without listing the names; numbers offered to floating-point types are covered up to their range; shared objects that are written as back-references are not described).',
  IN, 'all values (bounded size) and all JSON trees (bounded size, one deviation) x the types with a schema, nested, repeated and self-containing classes included',
  'Tests compare the schema of a few types with a fixed text and never validate a document against it.',
  ['schema.hpp', 'schema_utility.hpp', 'write_object.hpp', 'write_variant.hpp', 'write_map.hpp', 'deserialize_object.hpp', 'deserialize_array.hpp', 'deserialize_tuple.hpp'],
  [('schema generator', 'schema.hpp'), ('schema writer', 'schema_utility.hpp')],
  'the emitted schema is interpreted by an independent validator over symbolic documents')
p('C17', 'Every call stands alone and leaves its input as it was',
  'The result of reading or writing depends on nothing but the text, document or object given: it is the same whatever calls, successful or failed, on the same or other types, came before, and also when constructors of user types read and write while they are being read. Reading does not change the text or document (except where the text is handed over) and writing does not change the object; objects read by different calls share nothing.',
  ['inputs', 'histories'], 'all JSON trees (bounded size, one deviation) x all types, before and after calls with all other trees of the same shape and with malformed extensions of them; pairs of types',
  'Every test makes its calls once, on fresh objects; state that leaks between calls shows only in particular sequences.',
  ['parse.hpp', 'parse_base.hpp', 'parse_object.hpp', 'parse_map.hpp', 'deserialize.hpp', 'deserialize_pointer.hpp', 'detail/deserialize_context.hpp', 'detail/references.hpp', 'write.hpp', 'serialize.hpp', 'detail/polymorphic_stack.hpp'],
  [('parser state', 'parse_base.hpp'), ('reader state', 'detail/deserialize_context.hpp')],
  'sequences of a dozen calls around two symbolic documents')
p('C18', 'Any text is rejected or read into a value that can be written and read again',
  'Whatever bytes a text consists of, the readers return, without throwing when they report by a flag and without touching memory that is not theirs: they reject the text, with an offset inside it, or return an object. An object that was accepted can be written as text and as document and reads back equal from both.',
  IN, 'all texts of up to 4 bytes and valid texts with any two neighbouring bytes replaced or one inserted x all types without floating-point numbers',
  'Tests feed a few malformed texts; memory errors and half-read values hide behind particular bytes in particular positions.',
  ['parse.hpp', 'deserialize.hpp', 'parse_fundamental.hpp', 'parse_string.hpp', 'parse_bytes.hpp', 'parse_enum.hpp', 'parse_date.hpp', 'parse_datetime.hpp', 'base64.hpp', 'datetime.hpp', 'parse_object.hpp', 'detail/perfect_hash.hpp', 'detail/polymorphic_stack.hpp'],
  [('parse entry', 'parse.hpp'), ('document reader entry', 'deserialize.hpp')],
  'raw symbolic bytes through the real RapidJSON reader')
p('C19', 'Written text is well-formed JSON; non-finite numbers are refused anywhere',
  'Every text that is written successfully is a well-formed JSON text. An object is written, to text or to a document, exactly when every floating-point number in it, in whatever position, is finite; otherwise writing fails as a whole, by its result or by an exception, and the target string is left as it was.',
  IN, 'all values (bounded size) of all writable types; all float and double values in 24 positions, and any one of up to 20 elements',
  'Tests write a few values and one infinity at top level; a failure inside a container, member or variant has to travel through the code of each of them.',
  ['write_fundamental.hpp', 'serialize_fundamental.hpp', 'write.hpp', 'serialize.hpp', 'write_object.hpp', 'serialize_object.hpp', 'write_vector.hpp', 'write_map.hpp', 'write_tuple.hpp', 'write_array.hpp', 'write_set.hpp', 'write_pointer.hpp', 'write_variant.hpp', 'serialize_vector.hpp', 'serialize_map.hpp', 'serialize_tuple.hpp', 'serialize_array.hpp', 'serialize_set.hpp', 'serialize_pointer.hpp'],
  [('number writer', 'write_fundamental.hpp'), ('failure propagation', 'write_object.hpp')],
  'an independent JSON recogniser over symbolic output; all bit patterns of the numbers')
p('C20', 'A variant is written as what it holds and read as the first type that fits',
  'A variant is written exactly as the value it holds. From a document it is read as the first of its alternatives, in declaration order, that accepts the JSON value as a whole, in every position (alone, in containers, as a member or optional member, inside another variant), and is rejected when there is none; nothing is left of alternatives that failed half way or of the value held before.',
  IN, 'all JSON trees shaped like an alternative (bounded size, one deviation) x 9 variants x 8 positions; all values of the variants; all numbers',
  'Tests read variants of two or three plainly different types at top level.',
  ['deserialize_variant.hpp', 'serialize_variant.hpp', 'write_variant.hpp', 'deserialize_base.hpp', 'deserialize_object.hpp', 'deserialize_fundamental.hpp'],
  [('alternative selection', 'deserialize_variant.hpp')],
  'a reference reader picks the first alternative that fits')
p('C21', 'Finite floating-point values survive',
  'Every finite float and double, including negative zero and subnormal numbers, comes back bit for bit from a document it was stored in, in every position; a number in a document is accepted by a floating-point type exactly when it is in its range and is then rounded to nearest. Through text the same holds for numbers whose decimal form RapidJSON reads exactly.',
  IN, 'all finite float and double values in 14 positions; multiples of 0.25 below 2^20 through text',
  'Tests use a handful of values such as 1.5 and 3.14.',
  ['serialize_fundamental.hpp', 'deserialize_fundamental.hpp', 'write_fundamental.hpp', 'parse_fundamental.hpp', 'detail/numeric_traits.hpp'],
  [('number writer', 'write_fundamental.hpp'), ('number reader', 'deserialize_fundamental.hpp')],
  'bit-vector and floating-point reasoning over all bit patterns')
