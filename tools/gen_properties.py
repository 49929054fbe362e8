"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
B = "src/infi/instruct/buffer/"
S = "src/infi/instruct/struct/"
I = "src/infi/instruct/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "A bit view reads exactly the bits of its window",
     "A bit view over any byte source and any bit window behaves as the exact sequence of bits in that window, least significant bit of each byte first. "
     "Every index, slice (positive, negative, omitted, beyond the ends, or a slice of a slice), iteration, length, membership test and conversion to bytes, byte array or bit string yields precisely those bits, zero-extended to whole bytes, and an index at or past the end is an error. "
     "Reading never changes the view or its source, and neither do changes of the byte array that was read.",
     ["inputs", "histories"], "all windows, all slices and indexes at bit granularity, all contents, all nestings of views",
     "Tests sample 100 random slices and a few fixed indexes; they never exercise non-zero window starts combined with nested slices, byte-array conversion of partial bytes, or the sequence operations.",
     [B + "io_buffer.py"], [("window translation and byte/bit extraction", B + "io_buffer.py:BitView")],
     ["BitView / BitAwareByteArray public sequence API"])

prop("C02", "A bit-aware byte array behaves as a list of bits under any edits",
     "Starting from any contents and bit window, every sequence of edits (slice or index assignment of equal, shorter or longer values, deletion, insertion, extension, concatenation, zero-filling and the inherited list operations) leaves exactly the bits that the same edits leave on a plain list of bits. "
     "Bits outside the edited range keep their value and order, added filler bits are zero, operands are not modified, and an integer that does not fit the assigned range is rejected.",
     ["histories", "inputs"], "all edit histories up to a depth, at bit granularity, from all reachable and from constructed windows",
     "Tests try a dozen single edits with hand-picked values plus a few random concatenations; shifts across byte boundaries depend on start, length and value offsets modulo 8 and on what earlier edits left behind.",
     [B + "io_buffer.py"], [("range replacement, shifting and zero insertion", B + "io_buffer.py:BitAwareByteArray")],
     ["BitAwareByteArray public API"])

prop("C03", "Position expressions address exactly the declared bytes and bits",
     "A position built from any combination of byte indexes, byte slices (closed or open-ended), lists, concatenation, bit indexes and bit slices of those, with constant or computed bounds, addresses exactly the bits an ordinary slicing of the addressed sequence would give, in that order. "
     "A field placed there reads those bits and writes those bits only. "
     "Bits beyond the parent range and positions that address the same bit twice are rejected rather than misplaced.",
     ["programs", "inputs"], "all position expressions of a grammar up to a size, over all bit patterns that distinguish positions",
     "Tests check about ten expressions, none of which takes bits of a multi-part range.",
     [B + "reference/range.py", B + "range.py", B + "field_reference_builder.py", B + "io_buffer.py"],
     [("range reference evaluation", B + "reference/range.py"), ("range lists", B + "range.py:SequentialRangeList"),
      ("absolute positions", B + "field_reference_builder.py")],
     ["bytes_ref[...] expressions used as where= of packed/unpacked fields", "SequentialRangeList public methods"])

prop("C04", "Packing puts every field exactly where it is declared",
     "Packing a record yields a byte string in which each field's encoded bits are exactly at the field's declared position, every bit no field covers is zero, and the length reaches the end of the last field or the explicitly declared record size. "
     "This holds whatever the number, naming, declaration order and byte or bit alignment of the fields, including fields inherited from or redefined over base records. "
     "An encoding longer than its place never disturbs a neighbouring field, and one that is too short for it, or a record exceeding its declared size, is rejected.",
     ["programs", "inputs"], "all record layouts (partitions of the record into fields, names, orders, splits) up to a size, with values from boundary sets",
     "Tests pack a couple of dozen fixed layouts; field order comes from attribute names and each set grows or pads the shared output buffer, so errors depend on the combination of layout and order.",
     [B + "buffer.py", B + "io_buffer.py", B + "serialize.py"],
     [("pack loop", B + "buffer.py:Buffer.pack"), ("output buffer", B + "io_buffer.py:OutputBuffer.set"), ("inherited fields", B + "buffer.py:_all_fields")],
     ["Buffer.pack() result", "Buffer subclasses' byte_size"])

prop("C05", "Unpacking a packed record gives the record back",
     "For every record definition whose positions and sizes are constants, length fields, field arithmetic, member functions, positions after other fields, total size or open ends, unpacking the packed form of any instance yields an instance with equal field values, and packing that again yields identical bytes. "
     "Bytes that follow the packed form are ignored wherever the definition bounds its fields.",
     ["programs", "inputs"], "all definitions of a family of dynamic layouts, all values within small domains, with and without trailing bytes",
     "Tests pin single values for each feature; pack and unpack resolve positions through different code, so they can disagree on combinations no test uses.",
     [B + "buffer.py", B + "macros.py", B + "field_reference_builder.py", B + "reference/", B + "serialize.py"],
     [("pack/unpack", B + "buffer.py"), ("separate pack and unpack position references", B + "field_reference_builder.py"), ("after/total size", B + "reference/after_field.py")],
     ["Buffer.pack()", "Buffer.unpack()"])

prop("C06", "Record integers and floats keep value, width, sign and byte order",
     "An integer or float field of a record is stored in exactly its declared width and byte order, two's complement where signed and of a standard width, plain unsigned otherwise, and reading it back gives the same value; this covers every width in bits, whole or partial bytes, and the ready-made list element types. "
     "A value that the declared width and sign cannot represent is rejected, never wrapped or truncated. "
     "Integers of a non-standard width are stored as unsigned numbers, and those of a partial-byte width from the least significant bit on, whatever the byte order.",
     ["inputs", "configurations"], "all field kinds x widths x byte orders x signs, with exhaustive values for narrow widths and boundary values for wide ones",
     "Tests use a few values in native order; no test packs a three-byte big-endian integer, unpacks a double, or tries an out-of-range value.",
     [B + "serialize.py", B + "macros.py"], [("integer and float packers", B + "serialize.py:pack_int/unpack_int/pack_float/unpack_float"), ("field macros and list element types", B + "macros.py")],
     ["int_field, uint_field, be_/le_ variants, float_field, int8..uint64 element types"])

prop("C07", "Record text, byte and JSON fields keep their content",
     "A text field stores the encoded text justified left, right or centred and filled with its padding byte to the width of its place, and reads back the stored bytes without the padding and strip bytes on the justified side(s), decoded; a byte field stores and returns exact bytes; a JSON field returns an equal document. "
     "This holds for every width (including zero and open-ended places), padding, strip byte, encoding and content that fits.",
     ["inputs", "configurations"], "all strings over a small alphabet including padding and strip bytes up to a length, for all justify/padding/strip/encoding/width combinations",
     "Tests check four literal strings; centred text, text containing the padding or strip byte and list elements of text are never tried.",
     [B + "serialize.py", B + "macros.py"], [("string, JSON and byte array packers", B + "serialize.py")],
     ["str_field, json_field, bytearray_field, str_type, str_type_factory"])

prop("C08", "Every size a record reports is the number of bytes it occupies",
     "The class-level size of a fixed-layout record, the computed size of an instance, the value of a total-size, length-of or position-after expression and the size returned by unpacking all agree with the bytes actually produced by packing or consumed by unpacking. "
     "Class-level size is absent exactly when the layout depends on the instance. "
     "Inherited fields count; fields skipped by a condition do not.",
     ["programs", "inputs"], "all layouts of the static and dynamic families, including inheritance, unordered positions and conditional tails",
     "Tests assert sizes of five classes; sizes are recomputed through four different paths that are never compared with each other.",
     [B + "buffer.py", B + "reference/total_size.py", B + "reference/after_field.py", B + "reference/builtins.py", B + "compat.py"],
     [("static size", B + "buffer.py:BufferType.calc_byte_size"), ("total size", B + "reference/total_size.py"), ("after", B + "reference/after_field.py")],
     ["byte_size", "calc_byte_size()", "unpack() result", "total_size / len_ref / after_ref fields", "len(pack())"])

prop("C09", "Computed fields resolve by dependency, once, and cycles are errors",
     "When fields' values or positions are computed from other fields (arithmetic, min/max, length, function and member-function calls), packing and unpacking give the result of evaluating the dependency graph, independent of field names and declaration order. "
     "Each computation runs at most once per pack or unpack, and its result is stored on the instance. "
     "A cyclic dependency is always reported as an error that identifies the record's field, and never yields a value, endless recursion or a hang.",
     ["programs", "configurations"], "all directed dependency graphs on 3 to 4 fields x field naming orders, and all expression shapes to a depth",
     "Tests contain one cycle and a handful of acyclic two-field chains; resolution order is driven by attribute names, so a wrong order shows only for particular graphs and names.",
     [B + "reference/", B + "buffer.py", B + "field_reference_builder.py"],
     [("memoised evaluation and cycle detection", B + "reference/reference.py:Reference.deref"), ("assignment before pack", B + "field_reference_builder.py")],
     ["Buffer.pack()/unpack() results, call counts of user functions, raised errors"])

prop("C10", "Records are independent: no operation leaks into another",
     "The result of creating, packing, unpacking, sizing or printing one record depends only on that record and the arguments, never on what was done before or is being done concurrently with other instances of the same or another class. "
     "Repeating an operation gives the same result, inputs are not modified, results are not later changed by other operations, and a copy of an instance (shallow or deep) is an instance of its own. "
     "This holds for every interleaving of threads working on distinct instances and every history of operations and failures.",
     ["schedules", "histories"], "all interleavings of two threads up to a preemption bound, all operation histories on two instances up to a depth, for stream- and buffer-based records",
     "Class-level definitions are shared by all instances, and a test that uses one instance at a time on one thread cannot see state kept in the wrong place.",
     [B + "reference/reference.py", B + "reference/contexts.py", B + "buffer.py", B + "serialize.py", B + "io_buffer.py", S + "__init__.py", S + "lazy.py", I + "base.py"],
     [("per-call context cache", B + "reference/reference.py:Context"), ("default copies", S + "__init__.py:copy_if_supported")],
     ["results of pack/unpack/create_from_string/to_bytes under a controlled scheduler"])

prop("C11", "Truncated record data is rejected",
     "Unpacking a record from data that ends before the end of any field with a bounded position raises an error of the library; it never returns a record with missing, shortened or zero-filled content. "
     "This holds for every cut point and every field kind, in nested records and lists as well.",
     ["fault_sequences", "inputs"], "every proper prefix of the packed form of every record of the static and dynamic families",
     "One test cuts one string by one byte.",
     [B + "io_buffer.py", B + "serialize.py", B + "buffer.py"], [("length checks", B + "serialize.py"), ("input slicing", B + "io_buffer.py:InputBuffer.get")],
     ["Buffer.unpack() on prefixes"])

prop("C12", "Lists and nested records hold exactly the declared elements",
     "A list field packs its elements back to back in order and unpacks exactly the declared count (in a place with an open end, at most what the data holds), or as many as fill its place, each from where the previous one ended; a nested record is packed and unpacked as it would be alone. "
     "When the element type is chosen at unpack time the chooser sees the enclosing record, the remaining data, the element index, the count and the elements so far, and the chosen type, value or skip is what is stored. "
     "Elements may be numbers, text, or fixed or variable size records, including bit-sized and inherited ones.",
     ["programs", "inputs"], "all lists up to a length over element kinds x count mode x place mode x trailing data",
     "Tests use lists of three integers or records whose size is a whole number of bytes.",
     [B + "serialize.py", B + "macros.py", B + "buffer.py"], [("list packer/unpacker", B + "serialize.py:pack_list/unpack_list"), ("selectors", B + "macros.py:unpack_selector_decorator")],
     ["list_field and buffer_field values after pack/unpack"])

prop("C13", "Conditional fields are present exactly when their condition holds",
     "A field with a pack condition contributes bytes exactly when the condition is true for that instance, and a field with an unpack condition is read exactly when it is true for that data and is None otherwise. "
     "Conditions may be constants, functions of the record or expressions over other fields, and a skipped field neither affects nor fails the others.",
     ["programs", "inputs"], "all combinations of conditions over up to three optional fields and all flag values",
     "No test uses a pack or unpack condition.",
     [B + "buffer.py", B + "macros.py", B + "field_reference_builder.py", B + "reference/total_size.py"],
     [("pack_if/unpack_if", B + "buffer.py:Buffer.pack/unpack")],
     ["pack() bytes, attributes after unpack()"])

prop("C14", "A struct serializes as its fields in order and parses back",
     "For every struct built from the provided field kinds, nested to any depth, the serialized form is the concatenation of the fields' encodings in declaration order, and parsing it yields equal field values; the stream and string forms agree. "
     "A nested struct serializes and parses exactly as it does alone, including fields that refer to other fields of the same struct. "
     "A value that a field cannot represent is rejected instead of producing bytes that parse differently.",
     ["programs", "inputs"], "all structs of a field grammar up to two levels and three fields, with boundary values per field",
     "Tests cover about ten struct types with one value each; nested structs with dependent fields, arrays of variable elements and mixed containers are not tested.",
     [S + "__init__.py", I + "base.py", I + "array.py", I + "string.py", I + "padding.py", I + "struct_macros.py", S + "pointer.py", S + "optional.py"],
     [("field list container", S + "__init__.py:FieldListContainer"), ("context propagation", S + "__init__.py:get_updated_context")],
     ["to_bytes / write_to_stream / write_to_string / create_from_string / create_from_stream"])

prop("C15", "Primitive numbers have their documented wire format",
     "Every primitive integer type stores any value of its documented width and sign in exactly that many bytes in its documented byte order and reads it back unchanged, and every float type stores the IEEE format of its width. "
     "Values outside the range or of the wrong kind, and data that is too short, are rejected with the library's error.",
     ["inputs", "configurations"], "all 30 primitive types, exhaustive for 8 and 16 bits, boundary and walking-bit values for 32 and 64, as marshals and as fields",
     "Tests use two of the thirty types with one value each.",
     [I + "numeric.py", I + "numeric_macros.py"], [("numeric marshals", I + "numeric.py:NumericMarshal"), ("field shortcuts", I + "numeric_macros.py")],
     ["UBInt8 .. NFloat64 and their Marshal forms"])

prop("C16", "Strings, buffers and arrays of structs keep content and length",
     "A padded or fixed-size string, a length-prefixed string or buffer, and a fixed, counted or byte-counted array each occupy exactly the prefix and content bytes their definition implies, and reading gives back the elements or the text without padding on the declared side(s). "
     "A fixed-size item always occupies its size; content that does not fit its size, or whose length the prefix cannot hold, is rejected. "
     "This holds for every padding byte, direction, prefix type and content, including empty.",
     ["inputs", "configurations"], "all contents over a small alphabet up to a length x padding x direction x prefix type x element type",
     "Tests write one or two strings per type, never one that is too long, left-padded, or contains the padding byte.",
     [I + "string.py", I + "string_macros.py", I + "array.py", I + "array_macros.py"], [("padding and stripping", I + "string.py"), ("arrays", I + "array.py")],
     ["PaddedString, FixedSizeString/Buffer, VarSizeString/Buffer, FixedSizeArray, VarSizeArray, SumSizeArray"])

prop("C17", "Bit fields of a struct pack and parse at exactly their bit positions",
     "Bit fields, flags and bit padding occupy consecutive bits from the least significant bit of the first byte on, and positional bit fields occupy exactly their listed bit slices, whatever the widths and byte crossings; parsing extracts the same bits. "
     "The underlying bit stream behaves as a sequence of bits under any series of writes, reads and seeks, and refuses to go past its end. "
     "A group that is not a whole number of bytes is rejected at definition.",
     ["programs", "inputs", "histories"], "all width partitions of up to 3 bytes, all assignments of slices to positional fields, all bit-stream operation sequences to a depth",
     "Tests use four layouts with one value each.",
     [S + "bit.py", I + "utils/bitstringio.py", I + "struct_macros.py"], [("bit stream", I + "utils/bitstringio.py"), ("bit containers", S + "bit.py")],
     ["BitFields/BitField/BitFlag/BitPadding/Bits structs", "BitStringIO"])

prop("C18", "Struct size queries match the serialized length",
     "The size reported for an instance equals the length of its serialized form, the minimum and maximum reported for a type bound the serialized length of every instance, and a type is reported as fixed-size only if all its instances have that one size. "
     "Sizes of composite types are the sums of their parts' sizes, and size bounds stay within zero and the platform maximum under addition.",
     ["programs", "inputs"], "all structs of the field grammar with boundary values; all small size-bound pairs",
     "Tests compare sizes for five types; size computation is separate code from serialization in every field type.",
     [I + "base.py", I + "array.py", I + "string.py", S + "__init__.py", S + "bit.py", S + "optional.py", S + "selector.py", S + "pointer.py", I + "numeric_macros.py"],
     [("sizeof/min_max_sizeof", I + "base.py:MarshalBase"), ("bounds arithmetic", I + "base.py:MinMax")],
     ["sizeof, min_max_sizeof, is_fixed_size, MinMax"])

prop("C19", "Lazily parsed fields are indistinguishable from eager ones",
     "Every history of reading, assigning, serializing, sizing and re-parsing applied to a struct with lazily parsed fields gives the same values, bytes and sizes as on the same struct without laziness, for parsed and for freshly constructed instances. "
     "Parsing happens at most once, a later parse of another instance is unaffected, and assignment before the first read is not lost.",
     ["histories", "programs"], "all operation histories up to a depth over structs with lazy groups of every fixed-size field kind",
     "One test parses one struct and reads three lazy fields.",
     [S + "lazy.py", S + "__init__.py"], [("deferred parse", S + "lazy.py:LazyFieldListContainer.instantiate_if_needed")],
     ["attributes, to_bytes, sizeof, repr of structs using Lazy(...)"])

prop("C20", "Parsing consumes exactly one object's bytes, even with look-ahead",
     "Parsing an object from a stream consumes exactly the bytes of that object, so objects written back to back parse back in order and the bytes after them are left untouched. "
     "When the concrete type is chosen by a key or a function that looks ahead, the look-ahead bytes are given again to the chosen type, in order and once, for every look-ahead length up to the object's length, and a choice that does not consume them or an unknown key without default is an error. "
     "This also holds for nested choices, arrays of choices, and record types adapted for use in streams.",
     ["inputs", "histories", "programs"], "all sequences of look-ahead and plain reads up to a depth; all selector nestings and look-ahead lengths",
     "Tests read from strings that end with the object and look ahead once; keyed selection is never tested.",
     [S + "selector.py", I + "utils/read_ahead_stream.py", I + "struct_macros.py", I + "base.py", B + "compat.py", I + "array.py"],
     [("look-ahead buffer", I + "utils/read_ahead_stream.py"), ("selectors", S + "selector.py")],
     ["stream position after create_from_stream", "parsed objects"])

prop("C21", "Truncated or short-reading streams never yield an object",
     "If the stream ends before the serialized form is complete, or hands out fewer bytes than requested, parsing raises an error instead of returning an object with missing, shortened or default content, at every cut point and for every field kind. "
     "After such a failure, parsing complete data with the same types succeeds.",
     ["fault_sequences", "inputs"], "every proper prefix of every serialized struct of the field grammar and every single short read",
     "No test truncates a stream.",
     [I + "numeric.py", I + "string.py", I + "padding.py", I + "errors.py", S + "bit.py", S + "lazy.py", I + "array.py", I + "mapping.py"],
     [("length checks after read", I + "numeric.py"), ("lazy read", S + "lazy.py"), ("padding read", I + "padding.py")],
     ["create_from_stream / create_from_string on faulty streams"])

prop("C22", "Instances start with the given values or each field's own default",
     "Creating a struct or record sets every field passed by keyword to that value and every other field to its declared default, through any combination of class inheritance and user-defined constructors, and passes the remaining arguments (and those a constructor names itself) on to the user's constructor. "
     "Defaults are not shared: changing one instance's value never changes another instance or the default. "
     "A struct definition without fields, and a record keyword that names no field, are rejected.",
     ["programs", "histories"], "all constructor/inheritance shapes up to three levels x keyword subsets x field kinds; mutation histories on two instances",
     "Tests cover four shapes with fixed arguments and no mutable defaults.",
     [S + "__init__.py", S + "const.py", S + "lazy.py", B + "buffer.py"], [("metaclass constructor", S + "__init__.py:StructType"), ("record constructor", B + "buffer.py:Buffer.__init__")],
     ["instance attributes after construction"])

prop("C23", "Constant, mapped and optional fields admit only valid content",
     "A constant field always has its constant value, in instances and on the wire: assigning or parsing anything else is an error and parsing the constant succeeds, for plain and for struct constants. "
     "A mapped field converts between names and wire values one to one and rejects unknown ones. "
     "An optional field is read exactly when its condition holds for the data before it, and is written exactly when it has a value.",
     ["inputs", "configurations"], "all values of one-byte and struct constants, all maps over small domains, all optional-field patterns",
     "Tests try one constant value and one optional field; parsing a struct constant and mapped fields are never tested.",
     [S + "const.py", I + "mapping.py", I + "mapping_macros.py", S + "optional.py"], [("const check", S + "const.py"), ("maps", I + "mapping.py"), ("optional", S + "optional.py")],
     ["ConstField, MappingField, OptionalField"])

prop("C24", "Printing an object always works and shows its field values",
     "The printed form of a struct or record never raises, in any state: freshly created with unset fields, partly filled, parsed, nested, with absent optional fields, or before lazy parsing. "
     "It names the type and every field, including inherited ones, with the field's current value in the requested number format, marks unset fields, and printing changes nothing. The error of a failed pack or unpack prints as well, and names the class and the field.",
     ["histories", "inputs"], "all set/unset patterns of all field kinds, before and after pack/parse",
     "Tests print one record and one fully set struct.",
     [S + "__init__.py", I + "numeric.py", I + "array.py", S + "bit.py", S + "lazy.py", S + "const.py", I + "padding.py", B + "buffer.py", I + "utils/safe_repr.py", B + "reference/"],
     [("to_repr", S + "__init__.py"), ("record repr", B + "buffer.py:Buffer.__repr__")],
     ["repr() of structs and records, to_repr with a format context"])

prop("C25", "The context reaches everything that takes part in a struct operation",
     "When a struct is read, written or printed with a context, every number, length, key, predicate, selecting function and element of every field, at every depth, gets that context. "
     "Inside a struct whose class has a _context_ it also gets the entries of that context, where the given context's entries take precedence over the outer struct's and these over the inner struct's; the entry 'struct' is the innermost struct that is being handled. "
     "Lazy fields that are read later get the context with which their struct was read. The arguments that follow the context when a struct is read reach, unchanged, its constructor, those of the structs in it, and the types of all its fields and elements (lengths and keys need not get them). Neither the given context, nor a class's _context_, nor the empty context is ever changed by an operation.",
     ["programs", "histories"], "all trees of field kinds with contexts given, on the outer and on the inner class, in histories of reads, writes and prints",
     "Tests never pass a context except for two printing formats.",
     [S + "__init__.py", S + "lazy.py", S + "bit.py", S + "selector.py", S + "optional.py", S + "const.py", I + "base.py", I + "array.py", I + "string.py", I + "mapping.py"],
     [("context of a struct", S + "__init__.py"), ("context classes", I + "base.py"), ("lazy read", S + "lazy.py")],
     ["the context received by marshals, readers, predicates and functions"])

prop("C26", "Every sequence of bytes is decoded as its definition says, or rejected",
     "For every struct, type and record definition and any bytes at all, not only bytes that the library wrote, parsing either gives the values that the definition assigns to these bytes or fails. "
     "It fails for bytes that the definition excludes: unknown keys and mapped values, wrong constants, negative counts and lengths, totals that elements overrun, contents that are not text or JSON, nested records larger than their place, and counts or lengths beyond the data. "
     "It accepts all others: every bit pattern of a number, any non-zero flag, any content of padding and of unassigned bits, empty and full-length values. It always ends and uses no byte beyond the object. "
     "What was parsed serializes to the canonical encoding of its values, with the size that it reports, and this parses to the same values.",
     ["inputs", "programs"], "all byte strings that deviate from a default in one or two reads (single deciding bytes: all 256 values), for all definitions of two grammars",
     "Tests parse bytes that were written by the library or spelled out for one definition; arbitrary and hostile bytes are never parsed.",
     [I + "array.py", I + "string.py", I + "numeric.py", I + "mapping.py", S + "selector.py", S + "const.py", S + "optional.py", S + "pointer.py", S + "bit.py", S + "lazy.py", B + "serialize.py", B + "buffer.py", B + "compat.py"],
     [("sizes and counts", I + "array.py"), ("choice of a struct", S + "selector.py"), ("record parsing", B + "serialize.py")],
     ["create_from_string, create_from_stream, unpack and what they give or raise"])

prop("C27", "What has no meaning is refused: definitions, arguments, values and inputs",
     "A definition, value or input that cannot be honoured never passes silently: it is refused when it is made, or at the latest by every use of it that depends on it, and never yields bytes or values. "
     "For records this holds for unknown names of endianness, sign, alignment and encoding with every kind and size of field, for sizes that a field cannot have, for missing, contradicting or wrong places, for indexes that are negative, reversed, stepped or outside of their parent, also computed ones, for element counts that are negative or not whole numbers, for misspelled arguments, "
     "for arithmetic and order on references that are not numbers, and for using the result of a comparison or of arithmetic on references as a truth value. "
     "For structs it holds for groups with content that they cannot hold, and for wrong sizes, defaults, paddings, maps, constants and selections. "
     "Values that a field cannot hold are never written, and what is not bytes is never parsed. All that is right is accepted.",
     ["programs", "inputs"], "all combinations of right and wrong arguments, indexes, operands and values from fixed alphabets, for all kinds of fields",
     "Tests refuse a few single mistakes; most of the arguments, operators and indexes are never tried with anything wrong.",
     [B + "macros.py", B + "field_reference_builder.py", B + "serialize.py", B + "range.py", B + "reference/reference.py", B + "reference/range.py", I + "struct_macros.py", S + "bit.py", S + "lazy.py", I + "mapping.py", I + "string.py", I + "numeric.py", I + "array.py", I + "padding.py", I + "base.py"],
     [("definition of fields", B + "field_reference_builder.py"), ("operators", B + "reference/reference.py"), ("indexes", B + "reference/range.py")],
     ["errors of definitions, pack, unpack, to_bytes, create_from_string and of operators on references"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
