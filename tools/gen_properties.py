#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one python dict per property).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "JSON round trip returns the value that was serialized",
 "Serializing a list or map made of null, booleans, integers, unsigned integers, finite floats, NUL-free strings, blobs, lists and maps to JSON and deserializing the text gives a variant that compares equal to the original, whatever the layout parameters (compact or pretty, any indent).",
 ["inputs", "configurations"], "every value tree within the bounds (shape, string bytes, integer values, blob bytes) and every layout parameter combination",
 "test_roundtrip and the rand tests push a handful of fixed documents and printable random strings through one layout; they cannot cover every byte value, escape, integer digit count, buffer-flush position or nesting.",
 ["src/JSONEmitter.cc", "src/JSONParser.cc", "lib/json/JSON_parser.c", "src/VariantEmitting.cc", "src/VariantParsing.cc"],
 [("emitter escaping and separators", "src/JSONEmitter.cc"), ("character state machine", "lib/json/JSON_parser.c"), ("event to value assembly", "src/VariantParsing.cc")],
 ["SerializeJSON", "DeserializeJSON"])

prop("C02", "JSON deserialization of any byte buffer is memory safe and terminates",
 "For any bytes whatsoever, deserializing a memory buffer as JSON ends by returning a value or throwing an exception: it never reads or writes outside the buffers involved, never trips an internal assertion, never loops for ever, and releases everything it allocated.",
 ["inputs"], "every byte string up to the length bound, both as one buffer and continued through the incremental parser",
 "test_json_parser feeds a few dozen literal documents; malformed input is an unbounded space that example tests and random printable strings do not enter.",
 ["lib/json/JSON_parser.c", "src/JSONParser.cc", "src/ParserInput.cc", "src/Parser.cc", "src/VariantParsing.cc", "src/Base64.cc"],
 [("parse buffer growth and assertions", "lib/json/JSON_parser.c"), ("Run loop", "src/JSONParser.cc")],
 ["Deserialize(ptr, len, SERIALIZE_JSON)"])

prop("C03", "JSON text is accepted exactly when well formed and denotes the right value",
 "A document is accepted only if it is a JSON text (the library's documented comment extension allowed, trailing bytes after the first complete document ignored); an accepted document yields exactly the value the JSON grammar assigns to it - structure, key set with last duplicate winning, literal, integer value, decoded string bytes - and every well-formed document within the bounds is accepted.",
 ["inputs"], "every byte string up to the length bound, plus structured documents with symbolic pieces (string bodies with escapes and surrogates, integers of every digit count)",
 "the existing tests compare a few fixed documents with their expected value; acceptance of ill-formed text and wrong decoding of rare escapes are invisible to them.",
 ["lib/json/JSON_parser.c", "src/JSONParser.cc", "src/VariantParsing.cc"],
 [("state transition table", "lib/json/JSON_parser.c"), ("error state handling", "src/JSONParser.cc")],
 ["DeserializeJSON"])

prop("C04", "Emitted JSON is standard JSON that an independent reader decodes to the value",
 "The text produced for any value whose strings hold no NUL is a single well-formed RFC 8259 document without raw control characters inside strings, and a reader that knows only the RFC recovers the same value (blobs appearing as the documented tagged base64 string); in strict mode a value JSON cannot represent is refused with an exception instead.",
 ["inputs", "configurations"], "every value tree within the bounds and every combination of pretty, indent and strict",
 "round-trip tests cannot see mistakes that the library's own parser undoes, and examples cover few bytes.",
 ["src/JSONEmitter.cc", "src/JSONEmitter.h", "src/Emitter.cc"],
 [("string escaping, separators, indentation, flushing", "src/JSONEmitter.cc")],
 ["SerializeJSON"])

prop("C05", "Base64: decoding an encoding returns the bytes, and the decoder is safe",
 "Encoding any sequence of buffers (including empty ones) yields the standard base64 text of their concatenation with no byte outside the announced size written, decoding that text gives back exactly the bytes, and decoding arbitrary text never reads or writes outside its buffers.",
 ["inputs"], "every byte content, length and segmentation of the source and every byte string offered to the decoder, within the bounds",
 "test_base64 compares a few fixed strings; segment boundaries, line-wrap widths and non-alphabet bytes are not enumerated.",
 ["src/Base64.cc", "src/Base64.h"],
 [("encoder over iovec", "src/Base64.cc"), ("decoding table", "src/Base64.cc")],
 ["SerializeJSON / DeserializeJSON of a blob", "Base64Encode / Base64Decode"])

prop("C06", "Blobs are equal exactly when their bytes are equal",
 "Two blobs compare equal exactly when the concatenation of their buffers is the same byte string, whatever way each is split into buffers; comparison is antisymmetric, and copying a blob yields an equal blob whose bytes are independent of the original's storage.",
 ["inputs"], "every content and every segmentation within the bounds",
 "no test compares blobs with different segmentation or where one is a prefix of the other.",
 ["src/Blob.cc", "include/Variant/Blob.h", "src/Variant.cc"],
 [("segment walking comparison", "src/Blob.cc")],
 ["operator== on blob variants", "Variant::Copy"])

prop("C07", "Paths: text form, lookup, set and erase agree with each other",
 "Every path made of string keys and indices whose last key is not empty survives conversion to text and back; after setting a value at a path, has-path is true and get-path returns that value while every unrelated path keeps its value; erasing a path makes only that entry disappear (a list entry that is not last becomes null); queries never change the document.",
 ["inputs", "histories"], "every path (key bytes, index values) and document shape within the bounds and every sequence of set/erase up to the bound",
 "test_path checks a few literal paths; the escape grammar and the interaction of set, get and erase over arbitrary documents is not enumerable by example.",
 ["src/Path.cc", "include/Variant/Path.h", "src/Variant.cc"],
 [("path scanner", "src/Path.cc"), ("path walking accessors", "src/Variant.cc")],
 ["ParsePath", "PathString", "SetPath", "GetPath", "HasPath", "ErasePath"])

prop("C08", "Comparison is a consistent equivalence and order on values",
 "Equality is reflexive (NaN aside), symmetric and transitive and agrees with structural equality of lists, maps, strings and blobs; numbers of any kind compare by mathematical value; strings compare by byte order antisymmetrically; values of incomparable types are never equal; and a reference compares exactly like the value it refers to.",
 ["inputs"], "every pair and triple of values within the bounds, including all 64-bit integers and mixed signedness",
 "test_numerics and test_variant compare fixed pairs only.",
 ["src/Variant.cc", "src/Blob.cc"],
 [("per type comparison", "src/Variant.cc")],
 ["Variant::Compare", "operator==", "operator<"])

prop("C09", "Numeric access and arithmetic return the exact mathematical result",
 "Reading a number back in a type that can represent it returns it exactly, text form of an integer is its decimal representation and converts back to it, and addition, subtraction, multiplication, division, remainder, negation, increment and decrement of integers equal the 64-bit machine result of the documented result type (divisors other than zero, quotients that fit); conversions that cannot succeed throw.",
 ["inputs"], "all 64-bit operand values and all pairs of operand kinds",
 "test_numerics uses a few dozen constants out of 2^128 operand pairs.",
 ["src/Variant.cc", "src/GuessScalar.cc"],
 [("numeric upcast and operator templates", "src/Variant.cc"), ("string conversions", "src/Variant.cc")],
 ["AsInt", "AsUnsigned", "AsLongDouble", "AsString", "operator+ - * / %"])

prop("C10", "Copies are independent and assignment shares only containers",
 "A deep copy equals its original and no later modification of either is visible through the other at any depth; assigning or passing a list, map or blob shares it so changes are visible through both names, while reassigning one name, or changing a null, boolean, number or string through one name, never alters the other; assigning to a value itself, a part of it or the contents it holds gives exactly what was assigned.",
 ["inputs", "histories"], "every value shape and every sequence of mutations up to the bounds",
 "aliasing bugs appear only for particular sequences of assignments and in-place mutations that the tests do not perform.",
 ["src/Variant.cc", "include/Variant/Variant.h"],
 [("shared storage handling in copy/assign", "src/Variant.cc")],
 ["Variant::Copy", "operator=", "Clear", "Append", "Set", "Erase"])

prop("C11", "Reading through references never changes data; stale ones throw",
 "Indexing a missing key or index for reading leaves the document unchanged, assigning through it creates exactly that element (lists padded with nulls), and a reference whose target has been destroyed throws an invalid-reference error on every use instead of touching freed memory.",
 ["inputs", "histories"], "every sequence of reference creation, mutation, destruction and use up to the bounds, with symbolic keys and indices",
 "tests exercise a few orders of operations; dangling references need particular lifetimes.",
 ["src/Variant.cc", "include/Variant/Variant.h"],
 [("reference validity flag and proxy resolution", "src/Variant.cc")],
 ["operator[]", "At", "AtPath", "VariantRef"])

prop("C12", "Sinks receive exactly the serialized bytes or the caller gets an error",
 "Whatever number of bytes the output accepts per call, the bytes delivered are exactly the serialized text, once and in order; a memory output never writes past the space it was given; and when the output fails or is too small the serialize call reports an exception - it neither hangs, nor terminates the process, nor silently drops data.",
 ["inputs", "fault_sequences", "configurations"], "every split of the output into accepted chunk sizes, every failure position, every capacity, every document within the bounds",
 "test_memoryoutput uses one buffer size and no failing output exists in the tests.",
 ["src/EmitterOutput.cc", "src/JSONEmitter.cc", "src/BundleHdrEmitter.h", "src/VariantEmitting.cc", "src/Payload.cc"],
 [("write loops and buffering", "src/JSONEmitter.cc"), ("memory output bound check", "src/EmitterOutput.cc")],
 ["Serialize to memory, stream and user outputs"])

prop("C13", "Parsing does not depend on how the input arrives",
 "For a given byte sequence, deserializing it from memory and from a stream that delivers it in arbitrary pieces gives the same value or the same rejection, and the buffered input hands out exactly the bytes of its source in order regardless of the pattern of requests and releases.",
 ["inputs", "schedules"], "every byte sequence, every sequence of read sizes and every sequence of get/release requests within the bounds, with small internal buffers",
 "tests read whole strings or small files that fit into one buffer fill.",
 ["src/ParserInput.cc", "src/JSONParser.cc", "src/BundleHdrParser.cc", "src/GuessFormat.cc"],
 [("buffer refill and compaction", "src/ParserInput.cc"), ("incremental parser loop", "src/JSONParser.cc")],
 ["ParserInput::GetPtr/Release", "Deserialize*"])

prop("C14", "Bundle header: round trip and safe parsing of any bytes",
 "A map of scalar or list-of-scalar entries within the format's documented character restrictions survives serialization and parsing with the same keys and equal values (booleans are stored as 0 and 1), and parsing arbitrary bytes as a bundle header returns a map or throws without reading outside the input and without hanging.",
 ["inputs"], "every key/value content within the restrictions and every byte string up to the bound",
 "the bundle tests parse two or three literal headers.",
 ["src/BundleHdrEmitter.cc", "src/BundleHdrEmitter.h", "src/BundleHdrParser.cc", "src/GuessScalar.cc"],
 [("line scanner", "src/BundleHdrParser.cc")],
 ["SerializeBundleHdr", "DeserializeBundleHdr"])

prop("C15", "Payload framing: header, terminator and payload come back intact",
 "Serializing a map with a binary payload and deserializing it returns the same header entries and exactly the payload bytes and length, the payload starts at a 32-byte aligned offset after a NUL terminator, and a stream cut short inside the payload is reported as an error rather than read past its end.",
 ["inputs", "fault_sequences"], "every payload content and segmentation, header size, truncation point and sink behaviour within the bounds",
 "test_payload uses one document and one payload.",
 ["src/Payload.cc", "include/Variant/Payload.h"],
 [("padding computation, proxy input scan, length check", "src/Payload.cc")],
 ["SerializeWithPayload", "DeserializeWithPayload"])

prop("C16", "Schema validation verdict follows the JSON Schema draft-4 rules",
 "For every schema built from the draft-4 keywords and every datum, validation reports errors exactly when the specification's rule for one of the keywords is violated, whatever combination of keywords, numeric kinds and nesting is used, and it never crashes.",
 ["inputs", "configurations"], "every keyword parameter value and datum within the bounds, for each keyword and for combinations through allOf, anyOf, oneOf, not, items, properties and dependencies",
 "the schema test-suite checks a few concrete data per keyword; boundary values, mixed numeric kinds and keyword interaction are unbounded.",
 ["src/Schema.cc", "include/Variant/Schema.h"],
 [("one validator per keyword", "src/Schema.cc")],
 ["SchemaValidate"])

prop("C17", "Schema defaults fill in what is missing and touch nothing else",
 "Adding schema defaults never changes a value that was already present and not null, adds exactly the defaults the schema specifies for missing properties and ends even when the schema contains itself; it leaves the schema unchanged and unshared with the data, and applying it a second time changes nothing.",
 ["inputs"], "every data shape and default value within the bounds over nested properties, items and combinators",
 "no test checks idempotence, aliasing or preservation over arbitrary data.",
 ["src/Schema.cc"],
 [("default application", "src/Schema.cc")],
 ["AddSchemaDefaults"])

prop("C18", "JSON Pointer and Patch operations follow the RFCs and are all-or-nothing",
 "A pointer resolves to the member RFC 6901 names; each add, remove, replace, move, copy or test operation has the effect RFC 6902 prescribes; and when an operation or a whole patch fails, the document is exactly what it was before.",
 ["inputs", "histories", "fault_sequences"], "every document shape, pointer text, and sequence of operations with failure at any position within the bounds",
 "the tests apply a single successful add and look up the RFC's example pointers; failed patches and array edits are never checked.",
 ["src/Extensions.cc", "include/Variant/Extensions.h"],
 [("pointer walk", "src/Extensions.cc"), ("undo log", "src/Extensions.cc")],
 ["JSONPointerLookup/Add/Remove/Replace/Move/Copy", "JSONPatch"])

prop("C19", "Applying a JSON diff turns the source into the destination",
 "For any two documents, patching a copy of the first with the diff from the first to the second succeeds and yields a document equal to the second, and the diff of equal documents is empty.",
 ["inputs"], "every pair of documents within the bounds, including keys containing / and ~ and lists of different lengths",
 "the test checks one pair of maps.",
 ["src/Extensions.cc"],
 [("diff recursion and pointer formatting", "src/Extensions.cc")],
 ["JSONDiff", "JSONPatch"])

prop("C20", "Recursive diff, update and flatten preserve every entry",
 "Updating a base with the recursive difference to a target makes every entry of the target appear in the base with the target's value and keeps all other entries; recursive update overwrites exactly the paths named by the update; flattening a document maps each leaf, under its path text, to its value, and expanding restores documents made of maps.",
 ["inputs"], "every pair of documents within the bounds",
 "the extension tests use one hand-written pair of documents per function.",
 ["src/Extensions.cc"],
 [("recursive merge/diff", "src/Extensions.cc")],
 ["RDiff", "RUpdate", "FlattenPath", "ExpandPath"])

prop("C21", "Scalar guessing and boolean text follow their documented rules",
 "Plain text scalars become null, boolean, integer, unsigned, float or string according to the documented patterns and to nothing else - in particular integer text becomes exactly that integer or, when out of range, is never wrapped - and text converts to false exactly for blank-trimmed case-insensitive abbreviations of no, false or 0.",
 ["inputs"], "every byte string up to the length bound",
 "the guess tests try a few words.",
 ["src/GuessScalar.cc", "src/ParseBool.cc"],
 [("pattern classification", "src/GuessScalar.cc"), ("prefix comparison", "src/ParseBool.cc")],
 ["bundle header and YAML scalars", "AsBool on strings"])

prop("C22", "Format guessing is total, safe and depends only on the first visible byte",
 "Guessing the format of any input never reads outside the available bytes, consumes nothing, and announces XML exactly when the first visible byte is '<' and otherwise YAML, of which JSON is a part, whatever the chunking; the guessing read functions hand the whole input, unchanged, to the reader of that format.",
 ["inputs", "schedules"], "every byte string up to the bound and every chunking",
 "test_guess guesses a few documents from memory.",
 ["src/GuessFormat.cc", "src/Parser.cc", "src/ParserInput.cc"],
 [("first visible byte scan", "src/GuessFormat.cc")],
 ["GuessFormat", "DeserializeGuess"])

prop("C23", "YAML binding maps every event to the right value and back",
 "The event stream handed to the YAML library for any value describes that value (structure, scalar text, style and tag such that strings cannot be re-read as other kinds), the value rebuilt from any well-nested YAML event stream is the one the events describe including anchors and aliases, and failures of the YAML library surface as exceptions without leaks.",
 ["inputs", "fault_sequences"], "every value tree and every event stream within the bounds, with the YAML library failing at any call",
 "the tests round-trip a few documents and the YAML library never fails in them.",
 ["src/YAMLEmitter.cc", "src/YAMLParser.cc", "src/VariantParsing.cc", "src/GuessScalar.cc"],
 [("event emission", "src/YAMLEmitter.cc"), ("event dispatch", "src/YAMLParser.cc")],
 ["SerializeYAML", "DeserializeYAML"])

prop("C24", "XML plist binding maps every event to the right value and back",
 "The element stream handed to the XML writer for any value describes that value, the value rebuilt from any element stream is the one the elements describe or the document is rejected, and failures of the XML library surface as exceptions without leaks or out-of-bounds access.",
 ["inputs", "fault_sequences"], "every value tree and every element stream within the bounds, with the XML library failing at any call",
 "the tests round-trip a few documents and the XML library never fails in them.",
 ["src/XMLPLISTEmitter.cc", "src/XMLPLISTParser.cc", "src/XMLPLISTDefs.h", "src/VariantParsing.cc"],
 [("element emission", "src/XMLPLISTEmitter.cc"), ("node dispatch", "src/XMLPLISTParser.cc")],
 ["SerializeXMLPLIST", "DeserializeXMLPLIST"])

prop("C25", "Iterating over all documents yields each document once, in order",
 "For a stream holding one or more serialized documents the all-documents iterator produces exactly those documents in order and then equals the end iterator; copies of the iterator stay valid and see the same sequence.",
 ["inputs", "histories"], "every number and content of documents and every interleaving of iterator copies and increments within the bounds",
 "test_loadall walks one literal stream once.",
 ["src/VariantParsing.cc", "src/Parser.cc", "src/JSONParser.cc"],
 [("iterator value chain", "src/VariantParsing.cc")],
 ["DeserializeAll", "LoadAllIterator"])

prop("C26", "Argument parsing stores what was given and enforces its constraints",
 "For every command line, parsing either returns a result in which each given option or argument holds the value its action prescribes, absent ones hold their default or are absent, and all declared constraints (type, choices, minimum, maximum, lengths, pattern, counts, required, exclusive groups) are satisfied, or it exits reporting an error; a command line that satisfies every constraint is never rejected. Parsing again, or with a parser built from the description of the first, gives the same result, and the generated schema accepts every result and refuses a value that the declaration of its option forbids. A declaration that conflicts with an earlier one is refused and changes nothing, or loses only its short letter when that was asked for.",
 ["inputs", "configurations"], "every argument vector and option declaration within the bounds",
 "test_argparse runs a fixed list of command lines.",
 ["src/ArgParse.cc", "include/Variant/ArgParse.h"],
 [("option handling and requirement checks", "src/ArgParse.cc")],
 ["ArgParse::Parse", "ArgParse::GenerateSchema", "ArgParse::GetDescription", "ArgParse::Merge"])

prop("C27", "URI handling: components reassemble and resolution follows RFC 3986",
 "Splitting any URI into its parts loses nothing - the parts concatenated give back the trimmed URI - and resolving a reference against a base gives the RFC 3986 result for dot segments, absolute paths, authorities, queries and fragments without reading outside the strings.",
 ["inputs"], "every base and reference text up to the bounds",
 "the resolve test checks a fixed table of pairs.",
 ["src/SchemaLoader.cc", "include/Variant/Schema.h"],
 [("uri regular expression and dot segment removal", "src/SchemaLoader.cc")],
 ["SchemaLoader::ParseURI", "SchemaLoader::ResolveURI"])

prop("C28", "Every failure surfaces as an exception and releases what was acquired",
 "Whatever exception interrupts a parse, serialization, validation or container operation - malformed input, a throwing callback, schema loader, output or input, or memory running out - it reaches the caller, the objects involved remain usable or destructible, and no memory is leaked, freed twice or used after being freed.",
 ["inputs", "fault_sequences"], "every position at which a callback, loader or output throws or an allocation fails within the bounds",
 "tests do not inject failures and do not run under a leak checker.",
 ["src/Parser.cc", "src/JSONParser.cc", "src/VariantParsing.cc", "src/Emitter.cc", "src/JSONEmitter.cc", "src/Variant.cc", "src/Blob.cc", "src/Schema.cc", "src/Extensions.cc"],
 [("ownership by shared pointers and destructors", "include/Variant/SharedPtr.h")],
 ["all public entry points"])

prop("C29", "Container operations behave like an ordinary list and map",
 "Every sequence of container operations - get, set, append, contains, index of, erase, clear, size, merge, iteration, typed extraction and assignment of standard containers - applied to a value directly, through a reference or through a not yet existing element has the result and effect of the same operations on an ordinary list or map. A null value becomes the container the operation needs, an operation that does not suit the value throws and changes nothing, and another name for the same container sees the same content.",
 ["programs", "inputs"], "every sequence of operations on every value through every kind of handle within the bounds",
 "the container tests run fixed sequences on fixed values, mostly on a plain variable.",
 ["src/Variant.cc", "include/Variant/Variant.h"],
 [("operations dispatched by the kind of value, reference or missing element", "src/Variant.cc"), ("typed extraction templates", "include/Variant/Variant.h")],
 ["Variant::Get", "Variant::Set", "Variant::At", "Variant::Append", "Variant::Erase", "Variant::Merge", "Variant::As"])

prop("C30", "Schema documents are found by URI and fragment, loaded once, kept apart",
 "A document registered under a URI is found there, each of its parts is found under the percent-decoded JSON pointer in the fragment, and schemas inside it are registered under their resolved id only when that id extends the document's URI. References are resolved against the closest enclosing id; a missing document is requested once, under its resolved URI, from the search path, the transfer library or the missing handler in the documented order, and a document nobody has is an error.",
 ["inputs", "configurations", "fault_sequences"], "every document, fragment, id, reference and availability of the sources within the bounds",
 "the schema tests use inline references and one loader with fixed URIs.",
 ["src/SchemaLoader.cc", "include/Variant/SchemaLoader.h", "include/Variant/Schema.h", "src/Schema.cc"],
 [("registration and lookup of documents", "src/SchemaLoader.cc"), ("loading on demand", "src/SchemaLoader.cc")],
 ["SchemaLoader::AddSchema", "SchemaLoader::GetSchema", "SchemaLoader::ForgetSchema", "AdvSchemaLoader::AddPath", "SchemaValidate"])
prop("C31", "Emitter parameters take effect when given; streamed calls equal serializing",
 "Every documented parameter of an emitter has the value it was last given, at creation, alone or together with others, reads back as that value, and governs what is written from then on; unknown parameters change nothing. Each streaming call hands exactly its value to the emitter, and writing a value call by call gives the same document as serializing it.",
 ["inputs", "configurations", "programs"], "every set of parameters at creation, every change while writing, every value and call within the bounds",
 "the tests create emitters with one or two fixed parameters and never change or read them back.",
 ["include/Variant/Emitter.h", "src/Emitter.cc", "src/VariantEmitting.cc", "src/JSONEmitter.cc", "src/BundleHdrEmitter.cc", "src/XMLPLISTEmitter.cc", "src/YAMLEmitter.cc"],
 [("parameters of the emitters", "src/YAMLEmitter.cc"), ("streaming operators", "include/Variant/Emitter.h")],
 ["Emitter::SetParam", "Emitter::SetParams", "Emitter::GetParam", "Emitter::GetParams", "operator<<(Emitter&, ...)", "CreateEmitter"])

prop("C32", "Configuration files, printed configuration, help and program name",
 "Every value a configuration file gives for a declared option takes effect as if given on the command line at that place, whatever else the file holds, and a file that is missing or malformed is rejected. The printed configuration is the result of the command line so far, and the help shows every declared option, its description, default and choices exactly when it is meant to be shown. The program name is the last component of the name given, or of the running program when none is given.",
 ["inputs", "configurations", "programs"], "every file, command line, declaration and program name within the bounds",
 "no test loads a configuration file, prints one, or reads the help text.",
 ["include/Variant/ArgParse.h", "src/ArgParse.cc"],
 [("merging a configuration file", "src/ArgParse.cc"), ("help text", "src/ArgParse.cc")],
 ["ArgParse::Parse", "ArgParse::PrintHelp", "ArgParse::GetProgramName", "ArgParse::SetProgramName"])

prop("C33", "The command line tool prints exactly what was asked for, or fails",
 "For every document and command line, varsh prints the document, or the part at the given path, its keys, its length, or the document with the given value set there, in the chosen format and layout, to the chosen output and nothing else. A command line, document, path, file or schema that cannot be honoured makes it fail instead of printing something else.",
 ["inputs", "configurations", "programs"], "every command line and document within the bounds",
 "no test runs the tool.",
 ["src/varsh.cc", "src/ArgParse.cc", "src/VariantParsing.cc", "src/VariantEmitting.cc"],
 [("handling of one input", "src/varsh.cc"), ("options of the tool", "src/varsh.cc")],
 ["standard output and exit status of varsh"])

prop("C34", "A validation error names the value and the keyword that disagree",
 "Every error of a failed validation carries a data path that leads to a value in the data and a schema path that leads, following references, to a keyword of a schema that applies to that value and is not met by it; when no alternative of a choice matches, each alternative is explained in the same way. A keyword that is itself malformed is reported once, with the path of that keyword. The printed report contains the messages and paths, and nothing is reported for valid data.",
 ["inputs"], "every schema of the described forms and every data within the bounds",
 "the tests only look at whether validation failed.",
 ["include/Variant/Schema.h", "src/Schema.cc", "src/Path.cc"],
 [("paths kept during validation", "src/Schema.cc"), ("text of a path", "src/Path.cc")],
 ["SchemaValidate", "ValidationError::GetDataPath", "ValidationError::GetSchemaPath", "SchemaError::GetSchemaPath", "SchemaResult::PrettyPrintMessage"])

prop("C35", "Handlers see every event once, in order; recordings replay them",
 "The handlers on a parser are told every event of the document exactly once and in order, each going to the handler on top at that moment, also when a handler leaves, is replaced, or passes a container on to another. A recorded document played back gives the same events with the right container lengths, and passed on to a JSON emitter gives the text of serializing the value. The parser shows its end or its failure, and the position in the message of a JSON error is that of the first byte that cannot be right.",
 ["inputs", "histories", "configurations"], "every document of the described forms in four formats, every event at which a handler acts, and every wrong byte within the bounds",
 "no test changes handlers in the middle of a document, copies a recording that is played twice, or reads the position in a message.",
 ["include/Variant/Parser.h", "src/Parser.cc", "src/EventBuffer.h", "src/EventBuffer.cc", "src/JSONParser.cc", "src/BundleHdrParser.cc"],
 [("stack of handlers", "include/Variant/Parser.h"), ("recording and playing back", "src/EventBuffer.h"), ("position of an error", "src/JSONParser.cc")],
 ["Parser::Run", "Parser::PushAction", "Parser::PopAction", "Parser::Done", "Parser::Error", "Parser::ErrorStr", "Parser::Reset", "EventBuffer::Fill", "EventBuffer::Playback"])

prop("C36", "Values made from C++ values equal them and cast back element by element",
 "A value constructed or assigned from a C++ number, text, blob, vector or map has the kind of that type and exactly its contents, whatever was there before, and no other name for the old value changes. Casting a list or map to a vector or map converts every element in its place, or throws if the value or one element does not convert. Reading an entry into a variable stores the entry, the default if there is none, or throws and leaves the variable as it was.",
 ["inputs"], "every 64-bit number, all texts and keys within the bounds, all containers within the bounds, every kind of value assigned over or cast from",
 "the tests convert a handful of vectors and maps with two or three fixed numbers and never a value that does not convert.",
 ["include/Variant/Variant.h", "src/Variant.cc"],
 [("constructors and assignment", "include/Variant/Variant.h"), ("casts to containers and complex numbers", "include/Variant/Variant.h"), ("initialisation of a value of a kind", "src/Variant.cc")],
 ["Variant::Variant", "Variant::operator=", "variant_cast", "Variant::As", "Variant::GetInto", "Variant::GetPathInto"])
prop("C37", "Text, memory, named file, open file and stream are read and written alike",
 "Serializing to a named file leaves exactly the bytes that serializing to a text gives, whatever the file held before; an open file, a stream or a buffer receives the same bytes after what is in it already. Reading from any of them gives the same value, or fails, as reading the same bytes from memory, and so does the function of one format. A file that cannot be opened is reported by an exception, files opened by the library are closed again, files of the caller stay open, and no other file changes.",
 ["inputs", "configurations"], "all documents within the bounds, every entry point and format, every earlier content and absence of the file",
 "most of these functions are called by no test, and none of the tests looks at an existing file, a missing directory or an open file afterwards.",
 ["include/Variant/Variant.h", "include/Variant/Payload.h", "src/Emitter.cc", "src/EmitterOutput.cc", "src/Parser.cc", "src/ParserInput.cc", "src/VariantEmitting.cc", "src/VariantParsing.cc", "src/Payload.cc"],
 [("functions of one format", "include/Variant/Variant.h"), ("outputs by name, file and stream", "src/EmitterOutput.cc"), ("inputs by name, file and stream", "src/ParserInput.cc")],
 ["Serialize", "SerializeWithPayload", "Deserialize", "DeserializeFile", "DeserializeAll", "DeserializeAllFile", "DeserializeWithPayloadFile", "SerializeJSON", "DeserializeJSONFile"])

prop("C38", "What a value cannot do is refused with the documented exception, no change",
 "An operation that a value of its kind does not have throws the class of exception documented for it: a missing key, an index out of range, an unexpected or inconvertible kind, an operand that is not a number, an operation without meaning. The value, its container and the operand stay as they were, and the text of a missing key error names the key. An operation that the kind has never throws.",
 ["inputs", "programs"], "58 operations, every kind of value within the bounds, every key, index, path and operand within the bounds, directly and through references",
 "the tests provoke three or four of these errors and accept any exception.",
 ["src/Variant.cc", "src/Exceptions.cc", "include/Variant/Variant.h", "include/Variant/Exceptions.h"],
 [("operations without an implementation for a kind", "src/Variant.cc"), ("promotion of two operands", "src/Variant.cc"), ("classes of exceptions and their text", "src/Exceptions.cc")],
 ["Variant::At", "Variant::Get", "Variant::Set", "Variant::Erase", "Variant::Add", "Variant::AsInt", "Variant::AsList", "Variant::GetPath", "Variant::SetPath"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
