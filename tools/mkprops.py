#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
B="binread/src/"; D="binread_derive/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Scalars decode exactly, in the requested byte order",
 "Reading an integer, float or char consumes exactly its size in bytes and yields the value those bytes denote in the requested byte order (big, little, or the host's when native is requested), bit for bit, at every reader position. Every entry point (read, read_args, read_options, read_be/le/ne, read_type, and the _args forms) gives the same result for the same byte order. A scalar that does not fit in the remaining input is an UnexpectedEof I/O error that leaves the reader where it was.",
 ["inputs"],"all byte strings, all positions (also beyond 2^32), all scalar types, all three byte orders, all entry points",
 "Tests read a handful of constants, mostly u8/u16/u32 at small offsets; 128-bit, float NaN payloads, short input per type and the agreement of entry points are never exercised together.",
 [B+"binread_impls.rs",B+"lib.rs",B+"endian.rs"],
 [("scalar read","binread/src/binread_impls.rs: binread_impl!"),("char read","binread/src/binread_impls.rs: impl BinRead for char"),("entry points","binread/src/lib.rs: BinRead, BinReaderExt")],
 ["BinRead::read*","BinReaderExt::read_*","reader position"])
p("C02","Byte order follows the documented precedence",
 "Each value of a derived type is read in the byte order given by the innermost applicable rule: a directive on the field (conditional or not), then on the enum variant, then on the type, then the order the caller passed in, then the host's. A type that carries its own byte-order directive always uses it, whatever its container or caller asks for, and a type without one inherits its container's.",
 ["programs","inputs"],"all nestings of types, variants and fields with and without byte-order directives, all conditions, all byte orders requested by the caller, all inputs",
 "The tests cover one enum, one tuple struct and one conditional field; the property is about every nesting of containers, collections, pointers, magic and maps.",
 [D+"parser/types/cond_endian.rs",D+"codegen/read_options.rs",D+"codegen/read_options/struct.rs",D+"parser/top_level_attrs.rs"],
 [("option override","binread_derive/src/codegen/read_options.rs: ReadOptionsGenerator::endian"),("variant override","binread_derive/src/parser/top_level_attrs.rs: Enum::with_variant")],
 ["values of derived types","magic matching"])
p("C03","Values are laid out back to back, in declaration order",
 "Without positioning directives, a struct, tuple, array, counted vector, or enum variant is read as the concatenation of its parts in declaration (index) order, each part starting at the byte where the previous one ended, and the result holds every part in its own slot. A successful read leaves the reader just after the last byte of the last part. Generic, nested, tuple-like and unit-like definitions obey the same rule.",
 ["programs","inputs"],"all type definitions built from scalars, tuples (1 to 32), arrays (0 to 32, any length with const generics), vectors, boxes, options and nested derived types; all inputs",
 "Tests fix a few definitions and one input each; swapped, skipped or doubled elements in other arities, positions or nestings are not reached.",
 [B+"binread_impls.rs",D+"codegen/read_options/struct.rs"],
 [("fields in order","binread_derive/src/codegen/read_options/struct.rs: StructGenerator::read_fields"),("arrays","binread/src/binread_impls.rs: binread_array_impl!, const generic impl"),("tuples","binread/src/binread_impls.rs: binread_tuple_impl!"),("vectors","binread/src/binread_impls.rs: impl BinRead for Vec")],
 ["values of derived types","reader position"])
p("C04","A failed read leaves the reader where it started",
 "Whenever reading a derived type (or a scalar) fails - truncated input, magic mismatch, failed assertion, failed conversion, no matching variant, a bad seek or pointer, or an error from the reader - the reader is back at the position it had before that read began, at whatever nesting depth the failure happened. Reading again from there with the same input gives the same error.",
 ["programs","inputs","fault_sequences"],"all derived types, all failing inputs (every truncation point), every start position, every cause of failure",
 "Six tests check one failure each at start position 1; the restore has to hold at every failure point of every definition, including inside pointers, variants and collections.",
 [D+"codegen/read_options.rs",D+"codegen/read_options/enum.rs",B+"binread_impls.rs"],
 [("restore on error","binread_derive/src/codegen/read_options.rs: generate"),("scalar restore","binread/src/binread_impls.rs: binread_impl!"),("variant restore","binread_derive/src/codegen/read_options/enum.rs: generate_data_enum")],
 ["reader position after Err"])
p("C05","Magic values gate parsing exactly",
 "A type, variant or field with a magic value is read only if the bytes at its position equal that value, in the byte order in force there; parsing then continues with the byte after the magic. Any other bytes give a BadMagic error carrying the position of the magic and the value actually found, and too few bytes an UnexpectedEof error. This holds for every kind of magic literal and on every item that accepts one.",
 ["programs","inputs"],"all literal kinds (byte, byte string, char, integer, float), all items that accept magic, all byte orders, all inputs including near misses",
 "Tests use a few one-byte or two-byte magics and look only at success or failure, rarely at the error's contents; near misses, wide integers and nested items are not sampled.",
 [B+"error.rs",D+"parser/types/magic.rs",D+"codegen/read_options.rs"],
 [("comparison","binread/src/error.rs: magic"),("generation","binread_derive/src/codegen/read_options.rs: get_magic, PreludeGenerator::add_magic_pre_assertion")],
 ["BadMagic { pos, found }","reader position"])
p("C06","A parse succeeds only if every assertion holds",
 "A successful read implies that every assertion and pre-assertion on the type, chosen variant and fields evaluated to true, over the values of the fields read so far and the imported arguments. Otherwise the first assertion that fails, in evaluation order, determines the error: AssertFail with the condition's text or the given (formatted) message, or Custom holding the given value, at the start position of the type. Pre-assertions are decided before any field is read.",
 ["programs","inputs"],"all definitions with any number of assertions at every level that accepts them, all message forms, all inputs and arguments",
 "Each test has one assertion and two inputs; order of several assertions, mixing of levels, multi-term conditions and error contents are only sampled.",
 [D+"codegen/read_options.rs",B+"private.rs",D+"parser/types/assert.rs",D+"codegen/read_options/enum.rs"],
 [("check","binread/src/private.rs: assert"),("generation","binread_derive/src/codegen/read_options.rs: get_assertions"),("unit structs and variants","binread_derive/src/codegen/read_options/struct.rs: generate_unit_struct")],
 ["Ok/Err","AssertFail { pos, message }","custom_err"])
p("C07","The first variant that parses is the one returned",
 "Reading an enum with data tries the variants in declaration order, each from the position where the enum starts, and returns the first one that parses, with nothing carried over from the attempts before it. If none parses, the error lists one entry per variant, in order, with that variant's name and own error (or is a single NoVariantMatch if so requested), at the enum's start position.",
 ["programs","inputs"],"all enums (unit, tuple and named variants, with or without magic, assertions, pre-assertions and arguments), both error modes, all inputs including ambiguous ones",
 "Tests use at most two variants and unambiguous inputs; order, restart position and error lists for longer and overlapping variant lists are not covered.",
 [D+"codegen/read_options/enum.rs",D+"parser/top_level_attrs.rs",D+"parser/types/enum_error_mode.rs"],
 [("variant loop","binread_derive/src/codegen/read_options/enum.rs: generate_data_enum"),("per-variant options","binread_derive/src/parser/top_level_attrs.rs: Enum::with_variant")],
 ["variant chosen","EnumErrors / NoVariantMatch","reader position"])
p("C08","Unit-like enums map each value to exactly its variant",
 "A unit-like enum with an underlying integer type reads exactly one such integer and yields the variant whose discriminant equals it; one with per-variant magic values reads exactly one value of that type and yields the first variant whose magic equals it and whose pre-assertions hold. Every other value is a NoVariantMatch error at the start position, and a magic on the enum itself must match first.",
 ["programs","inputs"],"all underlying types and discriminant layouts (explicit, implicit, negative, sparse), all magic kinds, all values, all byte orders",
 "Three tests with at most three variants; the mapping must hold for every integer type, discriminant gap and repeated magic with differing pre-assertions.",
 [D+"codegen/read_options/enum.rs"],
 [("discriminant match","binread_derive/src/codegen/read_options/enum.rs: generate_unit_enum_repr"),("magic match","binread_derive/src/codegen/read_options/enum.rs: generate_unit_enum_magic")],
 ["variant chosen","NoVariantMatch { pos }","bytes consumed"])
p("C09","Padding, alignment and seeks land on the documented byte",
 "seek_before, pad_before and align_before move the reader, in that order, before the field is read, and pad_size_to, pad_after and align_after, in that order, after it: padding moves by the given amount, alignment to the nearest multiple at or after the current absolute position, pad_size_to to at least the given distance from the field's start and never backwards. restore_position puts the reader back to where it was before all of this. A movement to before the start of the input is an I/O error.",
 ["programs","inputs"],"all combinations of positioning directives and operand values (also taken from earlier fields), all field sizes, all absolute start positions",
 "One test checks pad_before and pad_after by one byte; alignment, pad_size_to, seeks and restore_position are covered by doc examples only, always from position 0.",
 [D+"codegen/read_options/struct.rs"],
 [("seek generation","binread_derive/src/codegen/read_options/struct.rs: generate_seek_before, generate_seek_after, map_align, map_pad"),("restore","binread_derive/src/codegen/read_options/struct.rs: wrap_save_restore")],
 ["values of the field and of later fields","reader position"])
p("C10","Skipped and computed fields read nothing",
 "A field with a false condition takes its alternate (or default) value, and one with calc, default or ignore its computed value, without reading, moving or failing on any input (only a magic value on the field is still expected, see C23); a field whose condition is true is read exactly as if the condition were absent. Expressions see the final values of all earlier fields and of the imported arguments, and a temporary field takes part in parsing but is absent from the result.",
 ["programs","inputs"],"all placements of conditional, computed and temporary fields, all condition outcomes, all inputs, including empty remaining input",
 "The tests fix one definition and one or two inputs; the interplay with surrounding fields, positions and later expressions is not explored.",
 [D+"codegen/read_options/struct.rs",D+"parser/types/condition.rs",D+"parser/types/read_mode.rs",D+"lib.rs"],
 [("condition","binread_derive/src/codegen/read_options/struct.rs: FieldGenerator::wrap_condition"),("generated values","binread_derive/src/codegen/read_options/struct.rs: FieldGenerator::read_value"),("temp removal","binread_derive/src/lib.rs: clean_field_attrs")],
 ["field values","reader position"])
p("C11","try turns any failure of a field into None, without moving",
 "A field marked try is Some of exactly what the field would have read when that read succeeds, and None when it fails for any reason; in the latter case the reader is back where the field's value began (after its magic and the movements before it), so that the following fields read the same bytes as if the attempt had not been made. Pointers resolved after the other fields are not part of the attempt: a target that cannot be read is an error of the whole read.",
 ["programs","inputs"],"all field types (scalars, arrays, tuples, collections, strings, derived types, custom parsers), all inputs failing at any byte of the field",
 "The only test fails on the first element of an array at the end of input, where nothing was consumed, and does not look at the position.",
 [D+"codegen/read_options/struct.rs"],
 [("conversion","binread_derive/src/codegen/read_options/struct.rs: FieldGenerator::try_conversion")],
 ["field value","values of later fields","reader position"])
p("C12","map and try_map transform exactly what was read",
 "A mapped field or type reads one value of the function's input type, under the byte order, arguments, magic and pre-assertions that apply to the item, calls the function once on it and stores its result. When a fallible mapping fails with an I/O error that error is returned as Io, with any other error it is returned as Custom holding it and the position of the item.",
 ["programs","inputs"],"all input types, function forms (path, closure, capturing closure, call), items (field, struct), error types, inputs",
 "Tests use one integer type per form; byte order and magic on mapped types, I/O errors from the mapping and compound input types are not covered.",
 [D+"codegen/read_options.rs",D+"codegen/read_options/struct.rs",B+"private.rs"],
 [("type-level map","binread_derive/src/codegen/read_options.rs: generate"),("field-level map","binread_derive/src/codegen/read_options/struct.rs: FieldGenerator::map_value"),("error mapping","binread_derive/src/codegen/read_options.rs: get_map_err")],
 ["field values","Error::Custom / Error::Io"])
p("C13","Arguments and options reach nested and custom parsers unchanged",
 "The arguments given for a field reach the field's parser with the values they have at that point, each under its own name and position, for every element of a collection and through pointers, boxes and options. A custom parser sees exactly the byte order, count and offset in force at its field, and what it returns is what the field holds. A type whose arguments are () can be read without arguments; one with other arguments cannot.",
 ["programs","inputs"],"all argument lists (list and tuple form), all wrappers and nesting depths, all custom parsers, all directive settings",
 "Tests pass one or two constants through one level; positions, order and propagation through wrappers are not sampled.",
 [D+"parser/types/imports.rs",D+"parser/types/passed_args.rs",D+"codegen/read_options/struct.rs",B+"lib.rs",B+"options.rs"],
 [("imports","binread_derive/src/parser/types/imports.rs: Imports::idents, types"),("passing","binread_derive/src/codegen/read_options/struct.rs: get_passed_args, prefix_args_and_options"),("default args","binread/src/lib.rs: BinRead::args_default")],
 ["values computed from arguments","ReadOptions seen by a custom parser"])
p("C14","File pointers read their target and never disturb the sequence",
 "After a top-level read, every file pointer anywhere in the result (in collections, boxes, options, positions, variants, behind other pointers) holds the stored pointer and the value found at offset plus pointer (the pointer taken as a signed 64-bit distance), where the offset is the one in force at its field, read with that field's options and arguments. The fields after a pointer, and the final reader position, are the same as if the pointer were a plain integer, whether it is resolved at once or after the other fields. A target that cannot be read is an error. A type's own after_parse likewise runs exactly once for each value read, with the options and arguments of the field that holds it.",
 ["programs","inputs"],"all pointer widths and signs, targets, offsets (offset, offset_after, inherited), wrappers, deref_now or not, immediate parsing, all inputs including pointers outside the input",
 "Tests have five fixed pointers with valid targets; wrappers, nested pointers, signed pointers, failures and offsets from data are not explored.",
 [B+"file_ptr.rs",B+"binread_impls.rs",B+"pos_value.rs",B+"private.rs",D+"codegen/read_options/struct.rs"],
 [("resolution","binread/src/file_ptr.rs: FilePtr::after_parse, parse"),("propagation","binread/src/binread_impls.rs: after_parse of Vec, arrays, tuples, Box, Option"),("scheduling","binread_derive/src/codegen/read_options/struct.rs: generate_after_parse, deref_now")],
 ["FilePtr::ptr, deref","values of later fields","reader position"])
p("C15","Collections hold exactly the elements their rule selects",
 "A counted collection holds exactly count elements; until holds the elements up to and including the first that meets the condition, until_exclusive those before it, until_eof all elements up to the end of input, and raw byte reads exactly count bytes. Elements are consecutive, in order, read with the field's byte order, offset and arguments, and the reader is left just after the last element consumed. Too little input is an error, except that it ends until_eof; any other error of an element is returned.",
 ["programs","inputs"],"all element types (also enums and pointers), counts (also from data and larger than the input), conditions, target collections, inputs",
 "Doc examples read at most five bytes; element types other than u8, positions after the read, offsets and failures in the middle are not covered.",
 [B+"helpers.rs",B+"binread_impls.rs"],
 [("helpers","binread/src/helpers.rs: read_bytes, until, until_exclusive, until_eof, count"),("vectors","binread/src/binread_impls.rs: impl BinRead for Vec")],
 ["collection contents","reader position","error"])
p("C16","Punctuated lists alternate elements and separators",
 "A separated list of n elements reads element, separator, element, ... with n-1 separators and none after the last element, a trailing-separated list exactly n separators; elements and separators are kept in order and read in the field's byte order, elements with the field's arguments. Any element or separator that does not parse is an error, and pointers held by elements are resolved.",
 ["programs","inputs"],"all element and separator types, counts from 0 up, both forms, all byte orders, all inputs",
 "Tests use one list of three one-byte elements whose separators are ignored.",
 [B+"punctuated.rs"],
 [("separated","binread/src/punctuated.rs: Punctuated::separated"),("trailing","binread/src/punctuated.rs: Punctuated::separated_trailing")],
 ["list contents and separators","reader position"])
p("C17","Null-terminated strings stop at the first terminator",
 "A null-terminated string holds exactly the units before the first zero unit at or after its position and consumes them and that terminator, nothing more; wide strings read 16-bit units in the byte order in force. If the input ends before a terminator the read is an UnexpectedEof error. Conversions to text never panic: they replace invalid sequences, or report them in the lossless form, and agree with the standard library's decoding.",
 ["inputs"],"all byte strings (also invalid UTF-8/UTF-16, odd lengths, no terminator, long strings), all positions, byte orders, consecutive strings",
 "Tests read two ASCII strings that are properly terminated.",
 [B+"strings.rs"],
 [("narrow","binread/src/strings.rs: impl BinRead for Vec<NonZeroU8>"),("wide","binread/src/strings.rs: impl BinRead for Vec<NonZeroU16>"),("text","binread/src/strings.rs: into_string, into_string_lossless, to_string, Debug")],
 ["string contents","reader position","to_string / Debug"])
p("C18","Hostile input is rejected cleanly and cheaply",
 "For every input, reading a (non-recursive) type whose own expressions do not panic returns Ok or Err: it never panics, aborts or overflows, and it terminates. Memory used while reading is bounded by a constant plus a multiple of the input actually present, whatever counts, sizes and pointers the input claims.",
 ["programs","inputs"],"all byte strings, in particular extreme counts, pointers, paddings and positions; all types and built-in parsers",
 "Tests use well-formed data and small counts; extreme values claimed by the input are never tried.",
 [B+"binread_impls.rs",B+"helpers.rs",B+"punctuated.rs",B+"file_ptr.rs",B+"strings.rs",D+"codegen/read_options/struct.rs"],
 [("incremental collection","binread/src/binread_impls.rs: impl BinRead for Vec"),("bounded buffers","binread/src/helpers.rs: read_bytes; binread/src/punctuated.rs"),("seek arithmetic","binread_derive/src/codegen/read_options/struct.rs: generate_seek_after, map_align")],
 ["panics","allocation","termination"])
p("C19","Results do not depend on how the reader delivers bytes",
 "For every type and input, a reader that returns the same bytes in pieces of any size, with interruptions in between, gives the same value or error and the same final position as one that returns everything asked for at once.",
 ["programs","inputs","schedules"],"all splittings of the byte stream into short reads and Interrupted errors, all types, all inputs",
 "All derive tests read from an in-memory cursor that never splits a read.",
 [B+"binread_impls.rs",B+"strings.rs",B+"helpers.rs",B+"io/no_std.rs"],
 [("exact reads","binread/src/binread_impls.rs: binread_impl!; binread/src/io/no_std.rs: Read::read_exact, Bytes")],
 ["value or error","reader position"])
p("C20","Reader errors surface and are never mistaken for data",
 "If the reader fails while bytes a parse needs are read, or while seeking or querying the position, the parse does not succeed with other data: the result is an Io error of the same kind, except where the definition recovers from failures (try fields, another enum variant, an end-of-input condition for until_eof), where it is exactly the documented recovery. If the reader can still seek, it is left at the start position.",
 ["programs","inputs","fault_sequences"],"every byte position and every operation at which the reader may fail, all error kinds, all types and inputs",
 "No test injects errors into the parsing of a type; only the no_std Read helpers are tested with a failing reader.",
 [B+"binread_impls.rs",B+"strings.rs",B+"helpers.rs",B+"file_ptr.rs",D+"codegen/read_options.rs",D+"codegen/read_options/struct.rs"],
 [("error propagation","binread/src/error.rs: From<io::Error>; binread_derive/src/codegen/read_options.rs: generate")],
 ["Err(Io(kind))","reader position"])
p("C21","The feature set does not change what is parsed",
 "For every definition, input and options accepted in two feature sets (with or without std, const generics, template output on or off), the result, the error and the final position are the same.",
 ["configurations","programs","inputs"],"all combinations of std, const_generics and debug_template, all definitions and inputs valid in them",
 "The test suite runs in three feature sets but never compares them, and covers the alternative implementations with the same few inputs.",
 [B+"binread_impls.rs",B+"strings.rs",B+"file_ptr.rs",B+"io/mod.rs",D+"codegen/read_options/debug_template.rs",D+"codegen/read_options.rs"],
 [("conditional code","binread/src/*.rs: #[cfg(feature = ...)]; binread_derive/src/codegen/read_options/debug_template.rs")],
 ["value or error","reader position"])
p("C22","The no_std I/O layer behaves like the standard library's",
 "The cursor, exact reads, byte iteration, seeking and position queries offered without std return the same values, positions, lengths and error kinds as their standard-library counterparts for every sequence of operations on every buffer, also after seeks beyond the end and after errors.",
 ["histories","inputs"],"all operation sequences (read, read_exact, bytes, seek from start, current and end, set_position, position) on all buffers",
 "One test runs a fixed sequence of eight operations without relative or end seeks; the other runs a fixed reader.",
 [B+"io/cursor.rs",B+"io/no_std.rs",B+"io/error.rs",B+"io/mod.rs"],
 [("cursor","binread/src/io/cursor.rs"),("traits","binread/src/io/no_std.rs")],
 ["return values, buffers, positions, error kinds"],
 [("position","next byte to read, may exceed the length","binread/src/io/cursor.rs: Cursor::pos")])
p("C23","Directives compose",
 "A field, variant or type carrying any accepted combination of directives behaves as the documented sequence of the individual directives: options and arguments, then magic, position save, condition, movements before, read, conversion, mapping, immediate post-processing, movements after, assertions, position restore; deferred post-processing after the last field; then the assertions of the type.",
 ["programs","inputs"],"all definitions in which many directives are combined on the same and neighbouring items, nested to several levels; all inputs",
 "Each test exercises one directive, rarely two; there are far more combinations than tests.",
 [D+"codegen/read_options/struct.rs",D+"codegen/read_options.rs",D+"codegen/read_options/enum.rs"],
 [("field pipeline","binread_derive/src/codegen/read_options/struct.rs: generate_field")],
 ["value or error","reader position"])
p("C24","The derive macro accepts what is valid and rejects the rest",
 "Every definition that uses documented directives in documented places compiles, whatever its field, variant and type names; every definition with an unknown, misplaced, conflicting, repeated or malformed directive is rejected with a compile error that points into it. Every faulty item in a definition is reported, and every unparsable attribute on one; the macro itself never panics.",
 ["programs"],"all struct, enum and union definitions with valid and with faulty directives, names (including raw identifiers), field kinds, visibilities and generics",
 "33 fixed UI cases with one fault each; names, combinations and multi-fault definitions are not explored.",
 [D+"parser/mod.rs",D+"parser/macros.rs",D+"parser/meta_types.rs",D+"parser/top_level_attrs.rs",D+"parser/field_level_attrs.rs",D+"parser/types",D+"codegen/sanitization.rs",D+"lib.rs"],
 [("directive parsing","binread_derive/src/parser/macros.rs: parse_any!, attr_struct!"),("conflict detection","binread_derive/src/parser/mod.rs: TrySet"),("validation","binread_derive/src/parser/top_level_attrs.rs, field_level_attrs.rs: validate, push_field"),("identifier generation","binread_derive/src/codegen/sanitization.rs: make_ident")],
 ["compiler diagnostics"])
p("C25","Equivalent spellings of a definition parse identically",
 "The two attribute names, the two value forms (name = value and name(value)), one or several attributes, any order of different directives, aliases (ignore/default, deref_now/postprocess_now), trailing commas and derive or attribute macro do not change what a definition parses.",
 ["programs","inputs"],"all respellings of all definitions, all inputs",
 "Tests use one spelling per directive; the equivalences are only implied.",
 [D+"parser/mod.rs",D+"parser/meta_types.rs",D+"parser/attrs.rs",D+"lib.rs",D+"parser/types/read_mode.rs"],
 [("attribute merging","binread_derive/src/parser/mod.rs: FromAttrs::set_from_attrs"),("value forms","binread_derive/src/parser/meta_types.rs: MetaValue"),("attribute macro","binread_derive/src/lib.rs: derive_binread")],
 ["value or error","reader position"])
p("C26","Parsing depends only on the bytes it covers",
 "For a definition without absolute movements, prepending bytes and starting after them shifts every position in the result and changes nothing else; appending bytes changes no successful result unless the definition asks for the end of input; and repeating a read, on the same or a fresh reader, gives the same result.",
 ["programs","inputs","histories"],"all relocatable definitions, all prefixes (also beyond 2^32 bytes) and suffixes, all repeated and interleaved reads",
 "Tests parse from position 0 of an exactly sized buffer.",
 [B+"binread_impls.rs",B+"pos_value.rs",D+"codegen/read_options.rs",D+"codegen/read_options/struct.rs"],
 [("relative reads","binread_derive/src/codegen/read_options.rs: generate (position saved per read)")],
 ["value or error","reader position"])
p("C27","Wrapper types are transparent",
 "Reading Box<T>, Option<T>, a position-recording wrapper, a one-element tuple or array of T consumes the same bytes and holds the same value, or fails with the same error, as reading T, including post-processing, arguments and options; the recorded position is the reader's absolute position where T begins, and unit-like types read nothing.",
 ["programs","inputs"],"all wrapped types and nestings of wrappers, all inputs, positions and options",
 "One test wraps a u8 in the position wrapper; Box and PhantomData are untested.",
 [B+"binread_impls.rs",B+"pos_value.rs"],
 [("wrappers","binread/src/binread_impls.rs: Box, Option, PhantomData, (); binread/src/pos_value.rs")],
 ["values, positions, errors"])
p("C28","Every value read is dropped exactly once",
 "However a read ends - success, error in the middle of a collection, array, tuple, struct, enum attempt or pointer, or a panic in user code - each element that was constructed is dropped exactly once and none is leaked or exposed uninitialised.",
 ["inputs","fault_sequences"],"all containers and nestings, all element indices at which reading fails, all feature sets",
 "No test counts constructions and drops, and array reading with const generics goes through partially initialised storage.",
 [B+"binread_impls.rs",B+"helpers.rs",B+"punctuated.rs",B+"lib.rs"],
 [("array construction","binread/src/binread_impls.rs: binread_array_impl!, array_init::try_array_init"),("unit arguments","binread/src/lib.rs: BinRead::args_default")],
 ["constructions and drops"])
p("C29","The debug template describes the bytes actually read",
 "With template output enabled, each entry written for a field names the position, byte order, type and element count with which that value was read, in reading order, and, where the entry is for a field's own scalar, array, string or pointer, the field; a struct's entries are enclosed in one balanced block, which ends with the name of the field it was read for. The output set last, by call or else by the environment, receives the entries of the reads made while it is set, after definitions of the types named in them, and no others; entries are not mixed with those of other threads.",
 ["configurations","programs","inputs"],"all definitions, inputs and positions; all sequences of reads and changes of the output",
 "No test reads the template output.",
 [B+"binary_template.rs",B+"binread_impls.rs",B+"strings.rs",D+"codegen/read_options/debug_template.rs"],
 [("entries","binread/src/binary_template.rs: write, write_named, write_vec*, write_start_struct, write_end_struct")],
 ["template text"])
p("C30","Wrapped values and errors give access to exactly what they hold",
 "A resolved file pointer, a recorded position and a punctuated list dereference, compare, print, clone and unwrap as exactly the value or values read, together with the stored pointer, position or separators, and changing one through them changes what they hold; an unresolved pointer gives no value. An error gives access to a custom error as its own type only, carries the message, positions and nested errors of what failed, displays as it debug-prints, and io errors convert to Io errors of the same kind.",
 ["inputs"],"all wrapped values, comparisons and assignments, all errors of nested types and assertions with custom errors",
 "The tests dereference one pointer and one position, print one value each, and downcast one custom error.",
 [B+"file_ptr.rs",B+"pos_value.rs",B+"punctuated.rs",B+"error.rs",B+"endian.rs",B+"options.rs"],
 [("access","binread/src/file_ptr.rs, pos_value.rs, punctuated.rs: Deref, DerefMut, Debug, PartialEq, into_inner"),("errors","binread/src/error.rs: Error::custom_err, Debug, Display, From<io::Error>")],
 ["values, texts, comparisons"])
p("C31","Reads do not influence each other",
 "What a read returns, and where it leaves its reader, depends only on its definition, options, arguments and reader: not on reads of the same or other types done before it (also ones that failed or panicked), in the middle of it (from within its reader or a custom parser), or at the same time in other threads.",
 ["schedules","histories","programs","inputs"],"all definitions and inputs, all interleavings of reads at the operations of their readers, all threads",
 "Every test reads one value at a time, and none looks at a read that follows one that was given up.",
 [B+"binread_impls.rs",B+"binary_template.rs",B+"lib.rs",D+"codegen/read_options.rs",D+"codegen/read_options/debug_template.rs"],
 [("reading without shared state","binread/src/lib.rs: BinRead; binread_derive/src/codegen/read_options.rs: generate"),("global state","binread/src/binary_template.rs: FILE and the counters")],
 ["value or error","reader position"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
