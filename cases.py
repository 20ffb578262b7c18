"""Bounds and cases of every check.  'params' are the quick-tier bounds, 'thorough' overrides them in the thorough tier."""
BUDGET = {"quick": 780, "thorough": 840}
COMMON_ASSUMPTIONS = [
    "encoding: clang 18 -O1 bitcode of every library source in /repo's current tree, executed by /verif/engine; addresses are (object, offset) pairs",
    "libstdc++ containers and strings are the real headers; iostreams, stdexcept, libc text functions and POSIX regex are the models in /verif/rt",
    "malloc succeeds for sizes below 2^28; single thread; 'C' locale",
]
PROPS = {}
PROPS["C01"] = {"harness": "C01.cpp", "cases": [
    {"name": "value", "id": 0, "params": {"D": 2, "W": 1, "LAY": 0}, "thorough": {"D": 1, "W": 2, "VIA": 3}, "reach": ["value"], "what": "every list or map of depth D width W over all kinds of leaf"},
    {"name": "wide", "id": 0, "params": {"D": 2, "W": 2, "LAY": 0, "KINDS": 71}, "thorough": {"D": 3, "KINDS": 65}, "reach": ["value"], "what": "lists of depth D width W with null, boolean and integer (thorough: null only) leaves"},
    {"name": "pairs", "id": 0, "params": {"D": 1, "W": 2, "LAY": 0, "KINDS": 129}, "thorough": {"KINDS": 133}, "reach": ["value"], "what": "maps of W members with null (thorough: and integer) leaves"},
    {"name": "layout", "id": 0, "params": {"D": 1, "W": 1, "LAY": 1}, "thorough": {"D": 2}, "reach": ["value"], "what": "depth D width W, compact and pretty with 6 indents"},
    {"name": "string", "id": 1, "params": {"N": 2, "VIA": 3}, "thorough": {"N": 3}, "reach": ["string"], "what": "all NUL-free strings up to N bytes as value and key"},
    {"name": "int", "id": 2, "params": {"BITS": 24}, "thorough": {"BITS": 64}, "pending": 12, "reach": ["int"], "what": "every integer within 2^BITS of 0 or of the end of the 64-bit range"},
    {"name": "float", "id": 3, "params": {}, "reach": ["float"], "what": "a table of 20 floats"},
    {"name": "blob", "id": 4, "params": {"N": 2}, "thorough": {"N": 3}, "reach": ["blob"], "what": "all blobs up to N bytes"},
    {"name": "big", "id": 5, "params": {"FROM": 502, "RANGE": 10}, "reach": ["big"], "what": "strings crossing the output buffer with any two bytes there"},
    {"name": "huge", "id": 6, "params": {}, "reach": ["huge"], "what": "strings crossing the token buffer with any two bytes there"},
    {"name": "deep", "id": 7, "params": {}, "reach": ["deep"], "what": "nesting across the parser stack growth"},
]}
PROPS["C02"] = {"harness": "C02.cpp", "cases": [
    {"name": "any", "id": 0, "params": {"N": 6}, "thorough": {"N": 8}, "reach": ["value", "refused"], "what": "all byte strings up to N bytes"},
    {"name": "prefix", "id": 1, "params": {"N": 4}, "thorough": {"N": 6}, "reach": ["value", "refused"], "what": "17 prefixes leading into every lexer state, then any N bytes"},
    {"name": "grow", "id": 2, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["value", "refused"], "what": "tokens crossing the token buffer size with any N bytes there"},
    {"name": "deep", "id": 3, "params": {"N": 2}, "thorough": {"N": 3}, "reach": ["value", "refused"], "what": "nesting crossing the parser stack size"},
    {"name": "blob", "id": 4, "params": {"N": 5}, "thorough": {"N": 7}, "reach": ["value", "refused"], "what": "tagged blob strings with any N bytes of base64 text"},
    {"name": "number", "id": 5, "params": {"N": 2}, "reach": ["value", "refused"], "what": "numbers crossing the token buffer size"},
]}
PROPS["C03"] = {"harness": "C03.cpp", "cases": [
    {"name": "any", "id": 0, "params": {"N": 5}, "thorough": {"N": 7}, "reach": ["accepted", "rejected"], "what": "all texts up to N bytes"},
    {"name": "string", "id": 1, "params": {"N": 5}, "thorough": {"N": 6}, "reach": ["accepted", "rejected"], "what": "all string bodies of N bytes"},
    {"name": "unicode", "id": 2, "params": {}, "reach": ["accepted", "rejected"], "what": "all 4-byte tails of a unicode escape"},
    {"name": "surrogate", "id": 3, "params": {}, "thorough": {"D": 0}, "reach": ["accepted", "rejected"], "what": "all pairs of unicode escapes"},
    {"name": "number", "id": 4, "params": {"N": 7}, "thorough": {"N": 9}, "reach": ["accepted", "rejected"], "what": "all lists of N bytes over digits, signs, point, exponent, comma, blank"},
    {"name": "structure", "id": 5, "params": {"N": 10}, "thorough": {"N": 12}, "reach": ["accepted", "rejected"], "what": "all texts of N bytes over brackets, braces, comma, colon, quote, a digit, a letter"},
    {"name": "object", "id": 6, "params": {}, "reach": ["accepted", "rejected"], "what": "objects of two members with any one-byte keys and values"},
    {"name": "comment", "id": 7, "params": {"N": 4}, "thorough": {"N": 6}, "reach": ["accepted", "rejected"], "what": "comments of N bytes at 14 places with 8 continuations"},
    {"name": "integer", "id": 8, "params": {"DIG": 18}, "pending": 12, "reach": ["accepted", "rejected"], "what": "all integers of DIG digits"},
    {"name": "literal", "id": 9, "params": {"N": 5}, "reach": ["accepted", "rejected"], "what": "t, f or n followed by any N bytes"},
    {"name": "no-fraction", "id": 10, "params": {"N": 2}, "finding": "json-no-fraction-digits", "expect": "malformed JSON accepted", "what": "numbers without digits after the decimal point"},
    {"name": "big-integer", "id": 11, "params": {}, "finding": "json-integer-saturates", "expect": "read as a different value", "what": "20-digit integers beyond 64 bits"},
]}
PROPS["C04"] = {"harness": "C04.cpp", "cases": [
    {"name": "wide", "id": 0, "params": {"D": 2, "W": 2, "LAY": 0, "KINDS": 71}, "thorough": {"D": 3, "KINDS": 65}, "reach": ["value"], "what": "lists of depth D width W with null, boolean and integer (thorough: null only) leaves"},
    {"name": "pairs", "id": 0, "params": {"D": 1, "W": 2, "LAY": 0, "KINDS": 129}, "thorough": {"KINDS": 133}, "reach": ["value"], "what": "maps of W members with null (thorough: and integer) leaves"},
    {"name": "value", "id": 0, "params": {"D": 1, "W": 1, "LAY": 0}, "thorough": {"D": 1, "W": 2}, "reach": ["value"], "what": "every value of depth D width W, scalars at the root included"},
    {"name": "layout", "id": 0, "params": {"D": 2, "W": 1, "LAY": 1, "IND": 4}, "thorough": {"IND": 6}, "reach": ["value"], "what": "depth D width W, compact and pretty with IND indents"},
    {"name": "string", "id": 1, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["string"], "what": "all NUL-free strings up to N bytes as value and key"},
    {"name": "float", "id": 2, "params": {}, "reach": ["float"], "what": "20 floats at 5 precisions"},
    {"name": "strict", "id": 3, "params": {}, "reach": ["refused", "strict-ok"], "what": "strict mode"},
    {"name": "big", "id": 4, "params": {}, "reach": ["big"], "what": "texts crossing the output buffer, large blobs, deep nesting"},
]}
PROPS["C05"] = {"harness": "C05.cpp", "cases": [
    {"name": "encode", "id": 0, "params": {"N": 5, "SEGS": 3}, "thorough": {"N": 7}, "reach": ["encode"], "what": "all byte strings up to N bytes cut into up to SEGS buffers, line lengths 0/4/72: RFC 4648 text, size bound, decode(encode)=id"},
    {"name": "decode", "id": 1, "params": {"N": 4}, "thorough": {"N": 7}, "reach": ["decode", "decoded-some"], "what": "all texts up to N bytes"},
    {"name": "json", "id": 2, "params": {"N": 2}, "thorough": {"N": 4}, "reach": ["json"], "what": "blobs through JSON text"},
]}
PROPS["C06"] = {"harness": "C06.cpp", "cases": [
    {"name": "compare", "id": 0, "params": {"N": 3, "SEGS": 3}, "thorough": {"N": 5}, "reach": ["equal", "different"], "what": "all pairs of byte strings up to N bytes, each cut into up to SEGS (possibly empty) buffers"},
    {"name": "copy", "id": 1, "params": {"N": 4, "SEGS": 3}, "thorough": {"N": 7}, "reach": ["copy"], "what": "all byte strings up to N bytes in up to SEGS buffers, three ownership kinds, three ways to copy"},
    {"name": "empty", "id": 2, "params": {"N": 2, "SEGS": 2}, "reach": ["empty"], "what": "values of blob type without a blob"},
]}
PROPS["C07"] = {"harness": "C07.cpp", "cases": [
    {"name": "text", "id": 0, "params": {"LEN": 2, "KEY": 2}, "thorough": {"LEN": 3}, "reach": ["text"], "what": "all paths of up to LEN elements, keys of up to KEY arbitrary bytes, any 32-bit index"},
    {"name": "any", "id": 1, "params": {"N": 4}, "thorough": {"N": 5}, "reach": ["parsed", "rejected"], "what": "all texts up to N bytes parsed as path"},
    {"name": "written", "id": 3, "params": {"LEN": 2, "KEY": 2}, "thorough": {"LEN": 3}, "reach": ["written", "not-a-number"], "what": "written paths of up to LEN elements: keys of up to KEY bytes, each plain or escaped, a first key with or without its slash, indexes of one, two or ten digits with or without a leading zero"},
    {"name": "query", "id": 2, "params": {"D": 2, "W": 2, "OPS": 0, "P": 3, "NULLS": 1}, "thorough": {"D": 3, "W": 1, "P": 4}, "reach": ["present", "absent"], "what": "documents of depth D width W, one lookup by a path of up to P elements through every query function"},
    {"name": "op1", "id": 2, "params": {"D": 2, "W": 2, "OPS": 1, "P": 2, "RE": 1, "NULLS": 1, "PROBE": 0}, "thorough": {"P": 3}, "reach": ["set", "set-refused", "erase", "at-default"], "what": "one operation on any document of depth D width W"},
    {"name": "op2", "id": 2, "params": {"D": 1, "W": 1, "OPS": 2, "P": 2, "RE": 1, "NULLS": 1, "PROBE": 0}, "thorough": {"D": 2, "W": 1}, "reach": ["set", "set-refused", "erase", "at-default"], "what": "sequences of two operations"},
]}
PROPS["C08"] = {"harness": "C08.cpp", "cases": [
    {"name": "ints", "id": 0, "params": {}, "reach": ["eq", "lt", "gt"], "what": "all pairs of signed/unsigned 64-bit integers, operators and references"},
    {"name": "floats", "id": 1, "params": {}, "reach": ["ff", "fi"], "what": "13 floats against each other and against every 64-bit integer"},
    {"name": "strings", "id": 2, "params": {"N": 2}, "thorough": {"N": 4}, "reach": ["strings"], "what": "all pairs of strings up to N bytes"},
    {"name": "trees", "id": 3, "params": {"D": 1, "W": 1}, "thorough": {"W": 2, "REFS": 0}, "reach": ["equal", "different", "incomparable"], "what": "all pairs of values of depth D, width W over every kind of leaf"},
    {"name": "index", "id": 4, "params": {"N": 2}, "thorough": {"N": 3}, "reach": ["index"], "what": "search in lists of up to N scalars"},
]}
PROPS["C09"] = {"harness": "C09.cpp", "cases": [
    {"name": "access", "id": 0, "params": {}, "reach": ["access"], "what": "every 64-bit value through every accessor type"},
    {"name": "decimal", "id": 1, "params": {}, "pending": 12, "reach": ["pos", "neg"], "what": "text form of every 64-bit integer and back"},
    {"name": "arith", "id": 2, "params": {"BITS": 12}, "reach": ["arith"], "what": "+ - * on all 64-bit operands, / and % on operands of BITS bits, all operand kinds"},
    {"name": "arith64", "id": 2, "params": {"BITS": 64}, "reach": ["arith"], "what": "all operators on all 64-bit operands"},
    {"name": "unary", "id": 3, "params": {}, "reach": ["unary"], "what": "negation, increment, decrement of every 64-bit value"},
    {"name": "mixed", "id": 4, "params": {}, "reach": ["mixed"], "what": "float arithmetic on a table of values"},
    {"name": "refuse", "id": 5, "params": {}, "reach": ["refuse"], "what": "arithmetic and conversions of values that are not numbers"},
    {"name": "strtext", "id": 6, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["number", "not-number"], "what": "integer conversion of all texts up to N bytes"},
]}
PROPS["C10"] = {"harness": "C10.cpp", "cases": [
    {"name": "copy", "id": 0, "params": {"D": 2, "W": 1, "OPS": 1, "P": 2}, "thorough": {"OPS": 2}, "reach": ["copy", "clear", "blob"], "what": "every value of depth D width W, deep copy, OPS modifications at any path on either side"},
    {"name": "share", "id": 1, "params": {"D": 1, "W": 1}, "thorough": {"D": 2}, "reach": ["reassign", "shared", "unshared"], "what": "assignment, then one modification or reassignment of either name"},
    {"name": "element", "id": 2, "params": {}, "reach": ["element"], "what": "values taken out of containers"},
    {"name": "self", "id": 3, "params": {}, "reach": ["self", "part", "key", "contents"], "what": "self assignment and assigning a part, a key or the contents of a value to it"},
]}
PROPS["C11"] = {"harness": "C11.cpp", "cases": [
    {"name": "read", "id": 0, "params": {"D": 1, "W": 1, "P": 2}, "thorough": {"D": 2, "P": 2}, "reach": ["present", "absent", "refused"], "what": "documents of depth D width W, index chains of up to P steps, 13 reading operations"},
    {"name": "write", "id": 1, "params": {"D": 2, "W": 1, "P": 2}, "thorough": {"P": 3}, "reach": ["assigned", "blocked", "default"], "what": "assignment through index chains of up to P steps"},
    {"name": "stale", "id": 2, "params": {}, "reach": ["stale"], "what": "5 kinds of target, 4 ways to destroy it, 24 operations on the stale reference"},
    {"name": "grow", "id": 3, "params": {"N": 3}, "reach": ["kept", "moved"], "what": "references into lists that grow"},
    {"name": "chain", "id": 4, "params": {}, "reach": ["chain"], "what": "references to references"},
    {"name": "through", "id": 5, "params": {"W": 1, "IMAX": 9}, "thorough": {"W": 2}, "reach": ["done", "refused"], "what": "48 operations through a reference taken before or after the element was made, directly, by a path or as a reference to a reference, on every kind of element, compared with the operation on the value itself"},
    {"name": "missing", "id": 5, "params": {"MISSING": 1, "KINDS": 1}, "reach": ["missing", "created"], "what": "the same operations through a reference to an element that does not exist"},
]}
PROPS["C12"] = {"harness": "C12.cpp", "cases": [
    {"name": "chunks", "id": 0, "params": {"SHORT": 3, "CHUNK": 70}, "thorough": {"SHORT": 4}, "reach": ["chunked"], "what": "JSON, pretty JSON, bundle header and payload framing into an output accepting any number of bytes in its first SHORT calls"},
    {"name": "chunks-big", "id": 0, "params": {"FMT": 0, "BIG": 505, "SHORT": 1, "CHUNK": 600, "TWO": 1}, "thorough": {"SHORT": 2, "CHUNK": 130}, "reach": ["chunked"], "what": "JSON texts longer than the output buffer"},
    {"name": "chunks-blob", "id": 0, "params": {"FMT": 0, "BLOB": 100, "SHORT": 1, "CHUNK": 600, "MIN": 100}, "thorough": {"SHORT": 2}, "reach": ["chunked"], "what": "JSON texts with a blob longer than what the emitter buffers, the output accepting any part of it"},
    {"name": "indent-short", "id": 5, "params": {"IND": 133, "INDMIN": 128, "LENS": 1, "ITEMS": 2, "SHORT": 1, "CHUNK": 600, "MIN": 100}, "thorough": {"SHORT": 2}, "reach": ["indented"], "what": "indentation longer than what the emitter buffers, the output accepting any part of it"},
    {"name": "fail", "id": 1, "params": {"SHORT": 1, "CALLS": 12}, "thorough": {"SHORT": 2, "CALLS": 14}, "reach": ["failed", "not-failed"], "what": "the output throws at any of its first CALLS writes or when flushed"},
    {"name": "fail-big", "id": 1, "params": {"FMT": 0, "BIG": 505, "SHORT": 0, "CALLS": 5, "TWO": 1}, "reach": ["failed", "not-failed"], "what": "the same for long texts"},
    {"name": "memory", "id": 2, "params": {}, "reach": ["fits", "too-small"], "what": "memory outputs of every capacity up to the length of the text plus one"},
    {"name": "memory-big", "id": 2, "params": {"FMT": 0, "BIG": 505, "BELOW": 20, "TWO": 1}, "reach": ["fits", "too-small"], "what": "the same for long texts"},
    {"name": "stream", "id": 3, "params": {"SHORT": 1}, "reach": ["stream", "stream-failed"], "what": "stream buffers accepting part of the data, full after any number of bytes, failing to synchronise"},
    {"name": "indent", "id": 5, "params": {"IND": 140, "LENS": 2}, "thorough": {"IND": 200, "LENS": 4}, "reach": ["indented"], "what": "pretty JSON with every indent up to IND, texts of several lengths, across the output buffer"},
    {"name": "file", "id": 4, "params": {}, "reach": ["file", "file-failed"], "what": "files on a device full after any number of bytes or failing when flushed"},
]}
PROPS["C13"] = {"harness": "C13.cpp", "cases": [
    {"name": "protocol", "id": 0, "params": {"N": 4, "OPS": 2, "READS": 2, "ASK": 5, "BUFS": 4}, "thorough": {"N": 5, "OPS": 3, "ASK": 7, "BUFS": 5}, "reach": ["data", "end"], "what": "all texts up to N bytes, buffers of 1 to 16 bytes, OPS requests of any size with any release, short reads"},
    {"name": "json", "id": 1, "params": {"N": 4, "READS": 2, "BUFS": 3}, "thorough": {"N": 5, "BUFS": 5}, "reach": ["value", "refused"], "what": "all JSON texts up to N bytes in any pieces"},
    {"name": "json-shape", "id": 1, "params": {"N": 2, "READS": 2, "SHAPE": 1, "BUFS": 3}, "thorough": {"N": 3, "BUFS": 5}, "reach": ["value", "refused"], "what": "7 JSON prefixes and any N bytes in any pieces"},
    {"name": "header", "id": 2, "params": {"N": 5, "READS": 2, "BUFS": 3}, "thorough": {"N": 6, "BUFS": 5}, "reach": ["value"], "what": "all bundle headers up to N bytes in any pieces"},
    {"name": "header-shape", "id": 2, "params": {"N": 2, "READS": 2, "SHAPE": 1, "BUFS": 3}, "thorough": {"N": 3, "BUFS": 5}, "reach": ["value"], "what": "4 bundle header prefixes and any N bytes in any pieces"},
    {"name": "file", "id": 3, "params": {"N": 1, "SHAPE": 1}, "thorough": {"N": 2}, "reach": ["value", "refused", "error"], "what": "files, stream buffers and files with a read error at the end"},
    {"name": "error", "id": 4, "params": {"N": 1, "SHAPE": 1, "READS": 1, "BUFS": 3}, "thorough": {"N": 2, "READS": 2}, "reach": ["boom", "ok"], "what": "the source throws after any number of bytes"},
]}
PROPS["C21"] = {"harness": "C21.cpp", "cases": [
    {"name": "any", "id": 0, "params": {"N": 4}, "thorough": {"N": 5}, "reach": ["null", "bool", "inf", "nan", "float", "string", "octal", "hex", "integer"], "what": "all texts up to N bytes without NUL, newline, # and |"},
    {"name": "numeric", "id": 1, "params": {"N": 7}, "thorough": {"N": 9}, "reach": ["float", "string", "octal", "hex", "integer"], "what": "all texts of N bytes over digits, signs, point, exponent and radix letters"},
    {"name": "words", "id": 2, "params": {}, "reach": ["null", "bool", "inf", "nan", "string"], "what": "every literal with any one byte replaced or appended"},
    {"name": "digits", "id": 3, "params": {"DIG": 18}, "pending": 12, "reach": ["integer"], "what": "all integers of DIG digits with and without sign"},
    {"name": "edge", "id": 4, "params": {}, "reach": ["edge"], "what": "integers around the ends of the signed and unsigned 64-bit ranges, with and without a stale error number"},
    {"name": "radix", "id": 6, "params": {}, "pending": 12, "reach": ["octal", "hex"], "what": "hexadecimal numbers of 15 and 16 digits, octal ones of 21 and 22"},
    {"name": "boolean", "id": 5, "params": {"N": 6}, "thorough": {"N": 7}, "reach": ["true", "false"], "what": "all texts up to N bytes as boolean"},
]}
PROPS["C22"] = {"harness": "C22.cpp", "cases": [
    {"name": "guess", "id": 0, "params": {"N": 6}, "thorough": {"N": 8, "READS": 3}, "reach": ["xml", "yaml", "blank"], "what": "all inputs up to N bytes, in memory and as streams with buffers of 1 to 16 bytes and short reads"},
    {"name": "dispatch", "id": 1, "params": {"N": 4, "BUFS": 3}, "thorough": {"N": 5, "BUFS": 5, "READS": 2}, "reach": ["read-xml", "read-yaml"], "what": "all inputs up to N bytes through the guessing functions, the YAML and XML libraries modelled"},
]}
PROPS["C14"] = {"harness": "C14.cpp", "cases": [
    {"name": "round", "id": 0, "params": {"W": 1, "K": 2, "LW": 2, "S": 2}, "thorough": {"S": 3}, "reach": ["round-trip"], "what": "maps of W entries: integers, unsigned, 7 floats, booleans (stored as 0/1), strings up to S bytes, lists of up to LW of them"},
    {"name": "pairs", "id": 0, "params": {"W": 2, "K": 1, "LW": 1, "S": 1, "IMAX": 9}, "thorough": {"K": 2}, "reach": ["round-trip"], "what": "maps of W entries"},
    {"name": "any", "id": 1, "params": {"N": 6}, "thorough": {"N": 8}, "reach": ["entries", "empty"], "what": "all byte strings up to N bytes"},
    {"name": "prefix", "id": 2, "params": {"N": 4}, "thorough": {"N": 5}, "reach": ["entries"], "what": "8 prefixes and any N bytes"},
    {"name": "line", "id": 3, "params": {"N": 1}, "thorough": {"N": 2}, "reach": ["line"], "what": "one entry with blanks, comments and other lines around it"},
    {"name": "long", "id": 4, "params": {"N": 2}, "reach": ["long"], "what": "lines crossing the 4096-byte read-ahead, from memory and from an input that hands out what is asked for"},
    {"name": "refuse", "id": 5, "params": {}, "reach": ["refused"], "what": "nested maps, nested lists, blobs and scalar documents are refused"},
    {"name": "limits", "id": 6, "params": {"SPAN": 255}, "reach": ["limits"], "what": "integers within SPAN of the limits of 64 bits, signed and unsigned, written and read back"},
]}
PROPS["C15"] = {"harness": "C15.cpp", "cases": [
    {"name": "round", "id": 0, "params": {"N": 3, "FILL": 2, "BUFS": 2}, "thorough": {"N": 4, "FILL": 4, "BUFS": 5}, "reach": ["payload", "no-payload", "twice"], "what": "payloads up to N bytes in up to 2 buffers, memory (copied, referenced) and streams in pieces, two messages in a row"},
    {"name": "align", "id": 0, "params": {"N": 1, "FILL": 40, "HOWS": 1, "SECOND": 0}, "thorough": {"FILL": 130}, "reach": ["payload", "no-payload"], "what": "FILL consecutive header sizes"},
    {"name": "cut", "id": 1, "params": {"N": 3, "BUFS": 2}, "thorough": {"N": 4, "BUFS": 5}, "reach": ["payload-cut", "header-cut"], "what": "the stream cut at every position"},
    {"name": "any", "id": 2, "params": {"N": 4}, "thorough": {"N": 6}, "reach": ["payload", "refused"], "what": "5 headers followed by any N+1 bytes"},
    {"name": "places", "id": 3, "params": {"N": 2}, "reach": ["places"], "what": "6 length paths and 3 data paths, lists of 0 to 5 entries, length present or not"},
    {"name": "outputs", "id": 5, "params": {"N": 3}, "thorough": {"N": 4, "SHORTS": 3}, "reach": ["stream", "memory", "no-room", "pieces", "behind"], "what": "stream buffers, memory with too little, just enough and more room, outputs that take part of the bytes up to SHORTS times, outputs written to before"},
    {"name": "options", "id": 4, "params": {"N": 2}, "reach": ["options"], "what": "all combinations of payload, ignore_payload, payload_length and a length in the value"},
]}
PROPS["C23"] = {"harness": "C23.cpp", "cases": [
    {"name": "scalar", "id": 0, "params": {"D": 0, "S": 6, "KINDS": 307}, "thorough": {"S": 7}, "reach": ["round-trip"], "what": "scalars, all strings up to S bytes, written and read back, the YAML library choosing plain or quoted where it may"},
    {"name": "integers", "id": 0, "params": {"D": 0, "KINDS": 12, "IMAX": 99999}, "thorough": {"IMAX": 9999999999}, "pending": 12, "reach": ["round-trip"], "what": "integers of magnitude up to IMAX"},
    {"name": "round", "id": 0, "params": {"D": 1, "W": 1, "S": 1, "K": 1, "SHORT": 1, "IMAX": 99}, "thorough": {"S": 2, "K": 2}, "reach": ["round-trip"], "what": "values of depth D width W with strings of up to S bytes"},
    {"name": "tree", "id": 0, "params": {"D": 2, "W": 2, "S": 1, "K": 1, "KINDS": 193, "EAGER": 0, "KEYS": 1}, "thorough": {"KINDS": 195}, "reach": ["round-trip"], "what": "values of depth D width W"},
    {"name": "styles", "id": 0, "params": {"D": 1, "W": 1, "S": 2, "K": 1, "KINDS": 208, "STYLES": 1, "EAGER": 0, "KEYS": 1}, "reach": ["round-trip"], "what": "all combinations of scalar, map and list style"},
    {"name": "anchors", "id": 1, "params": {"D": 1, "W": 2, "PLAIN": 1}, "thorough": {"W": 3}, "reach": ["value", "dangling"], "what": "all event streams of depth D width W with anchors and aliases over two names on values and keys"},
    {"name": "anchors-deep", "id": 1, "params": {"D": 2, "W": 1, "PLAIN": 1}, "thorough": {"D": 3}, "reach": ["value", "dangling"], "what": "the same for deeper streams"},
    {"name": "anchored", "id": 7, "params": {"N": 2, "D": 1, "W": 1, "PLAIN": 1}, "thorough": {"N": 3}, "reach": ["value", "dangling"], "what": "a list or map that starts with a container, N entries with anchors and aliases over two names"},
    {"name": "scalars", "id": 1, "params": {"D": 1, "W": 1, "ANCHORS": 0, "TXT": 3}, "thorough": {"TXT": 5}, "reach": ["value"], "what": "all scalar texts up to TXT bytes in every style with and without a tag"},
    {"name": "tagged", "id": 1, "params": {"D": 1, "W": 1, "ANCHORS": 0, "TAGS": 2}, "reach": ["value"], "what": "ten scalar texts in every style without a tag, with the text tag and with a tag of the document's own"},
    {"name": "write-fail", "id": 2, "params": {"D": 1, "W": 1, "S": 1, "KINDS": 244, "IMAX": 9}, "thorough": {"D": 2}, "reach": ["failed", "not-failed"], "what": "the YAML library fails at any call, the output at any write or flush"},
    {"name": "read-fail", "id": 3, "params": {"D": 1, "W": 1, "PLAIN": 1, "BUFS": 3}, "thorough": {"D": 2}, "reach": ["failed", "not-failed"], "what": "the YAML library fails at any call or the input throws, then the parser is run again"},
    {"name": "binary", "id": 4, "params": {"S": 4}, "thorough": {"S": 7}, "reach": ["binary"], "what": "blobs up to S bytes"},
    {"name": "binary-text", "id": 5, "params": {"S": 5}, "thorough": {"S": 8}, "reach": ["binary"], "what": "all texts up to S bytes with the binary tag"},
    {"name": "params", "id": 6, "params": {}, "reach": ["params"], "what": "all style, document, indent and width parameters"},
    {"name": "limits", "id": 8, "params": {"SPAN": 255}, "reach": ["limits"], "what": "integers within SPAN of the limits of 64 bits, signed and unsigned, written and read back"},
]}
PROPS["C24"] = {"harness": "C24.cpp", "cases": [
    {"name": "scalar", "id": 0, "params": {"D": 0, "S": 6, "KINDS": 307, "SHORT": 1}, "thorough": {"S": 8}, "reach": ["round-trip"], "what": "scalars, all strings up to S bytes, written and read back"},
    {"name": "integers", "id": 0, "params": {"D": 0, "KINDS": 12, "IMAX": 99999}, "thorough": {"IMAX": 9999999999}, "pending": 12, "reach": ["round-trip"], "what": "integers of magnitude up to IMAX"},
    {"name": "round", "id": 0, "params": {"D": 1, "W": 2, "S": 1, "K": 1, "IMAX": 9}, "thorough": {"S": 2, "K": 2}, "reach": ["round-trip"], "what": "values of depth D width W with strings of up to S bytes"},
    {"name": "tree", "id": 0, "params": {"D": 2, "W": 2, "S": 1, "K": 1, "KINDS": 193, "KEYS": 1}, "thorough": {"KINDS": 195}, "reach": ["round-trip"], "what": "values of depth D width W"},
    {"name": "document", "id": 1, "params": {"D": 1, "W": 1, "S": 2, "K": 1, "DIG": 3, "OTHER": 1, "UPPER": 1, "NOISE": 0, "SPLIT": 1}, "thorough": {"NOISE": 1}, "reach": ["value", "refused"], "what": "all documents of depth D width W in upper or lower case, unknown elements read as strings, text split by comments"},
    {"name": "noise", "id": 1, "params": {"D": 1, "W": 1, "S": 1, "K": 1, "FEW": 1}, "thorough": {"FEW": 0, "DIG": 1}, "reach": ["value", "refused"], "what": "all documents of depth D width W with comments and white space between elements"},
    {"name": "write-fail", "id": 2, "params": {"D": 1, "W": 1, "S": 1, "KINDS": 244, "IMAX": 9}, "thorough": {"D": 2}, "reach": ["failed", "not-failed"], "what": "the XML library fails at any call, the output at any write or flush"},
    {"name": "read-fail", "id": 3, "params": {"D": 1, "W": 1, "S": 1, "K": 1, "FEW": 1, "NOISE": 0, "BUFS": 2}, "thorough": {"D": 2}, "reach": ["failed", "not-failed", "create-failed"], "what": "the XML library fails at any call or the input throws, then the parser is run again"},
    {"name": "any", "id": 4, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["value", "refused"], "what": "all well-nested sequences of up to N nodes, complete or cut short"},
    {"name": "binary", "id": 5, "params": {"S": 4}, "thorough": {"S": 7}, "reach": ["binary"], "what": "blobs up to S bytes"},
    {"name": "binary-text", "id": 6, "params": {"S": 5}, "thorough": {"S": 8}, "reach": ["binary"], "what": "all texts up to S bytes in a data element"},
    {"name": "integer-text", "id": 7, "params": {"HX": 3, "LOW": 3}, "thorough": {"HX": 8, "LOW": 5}, "reach": ["hexadecimal", "large"], "what": "hexadecimal integer texts of up to HX digits, decimal ones at the largest magnitudes with the last LOW digits arbitrary, with or without a sign"},
    {"name": "limits", "id": 8, "params": {"SPAN": 255}, "reach": ["limits"], "what": "integers within SPAN of the limits of 64 bits, signed and unsigned, written and read back"},
]}
PROPS["C25"] = {"harness": "C25.cpp", "cases": [
    {"name": "history", "id": 0, "params": {"N": 3, "OPS": 3}, "thorough": {"N": 3, "OPS": 5}, "reach": ["walked", "end"], "what": "YAML streams of 1 to N documents, two iterators, OPS increments and copies in any order"},
    {"name": "formats", "id": 1, "params": {}, "reach": ["formats"], "what": "one document in JSON, bundle header and XML, in memory and as a stream"},
    {"name": "fail", "id": 2, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["failed", "not-failed"], "what": "the YAML library fails at any event of a stream of up to N documents"},
    {"name": "caller", "id": 3, "params": {}, "reach": ["caller", "caller-failed"], "what": "a parse that fails at any event or ends early, then the caller's own actions are run on the same parser"},
]}
PROPS["C18"] = {"harness": "C18.cpp", "cases": [
    {"name": "lookup", "id": 0, "params": {"N": 4}, "thorough": {"N": 5}, "reach": ["root", "found", "refused"], "what": "all pointer texts of up to N bytes against documents of depth 2 and width 2"},
    {"name": "function", "id": 1, "params": {"N": 4, "D": 1}, "thorough": {"N": 4, "D": 2}, "reach": ["done", "refused"], "what": "add, remove and replace functions, all pointer texts of up to N bytes"},
    {"name": "function-two", "id": 1, "params": {"N": 2, "D": 1, "TWO": 1}, "thorough": {"N": 3}, "reach": ["done", "refused"], "what": "move and copy functions, all pairs of pointer texts of up to N and 2 bytes"},
    {"name": "op", "id": 2, "params": {"N": 4, "D": 1}, "thorough": {"N": 4, "D": 2}, "reach": ["done", "refused"], "what": "a patch of one add, remove, replace or test operation"},
    {"name": "op-two", "id": 2, "params": {"N": 2, "D": 1, "TWO": 1}, "thorough": {"N": 3}, "reach": ["done", "refused"], "what": "a patch of one move or copy operation"},
    {"name": "patch", "id": 3, "params": {"OPS": 2, "VC": 1, "POOL": 7}, "thorough": {"POOL": 14, "DEEP": 1}, "reach": ["done", "refused"], "what": "patches of OPS operations at POOL places of a document of lists and maps with symbolic leaves"},
    {"name": "fail", "id": 4, "params": {"OPS": 2, "VC": 1, "POOL": 4}, "thorough": {"POOL": 9}, "reach": ["refused"], "what": "OPS operations followed by one that is malformed"},
    {"name": "large", "id": 6, "params": {}, "reach": ["refused"], "what": "every operation and the lookup at an index around 2^31, 2^32, 2^64 and multiples of them (the last digit symbolic) of a list of two"},
    {"name": "unshared", "id": 5, "params": {}, "reach": ["unshared"], "what": "changing the patched document afterwards"},
]}
PROPS["C19"] = {"harness": "C19.cpp", "cases": [
    {"name": "pairs", "id": 0, "params": {"W": 2, "D": 1, "KINDS": 196}, "thorough": {"KINDS": 212}, "reach": ["empty", "patched"], "what": "all pairs of documents of depth 1 and width W, symbolic keys and leaves"},
    {"name": "keys", "id": 0, "params": {"W": 1, "KL": 3, "KINDS": 132}, "thorough": {"KL": 5}, "reach": ["empty", "patched"], "what": "pairs of maps with one key of KL arbitrary bytes each"},
    {"name": "lists", "id": 1, "params": {"L": 6}, "thorough": {"L": 8}, "reach": ["empty", "patched"], "what": "all pairs of lists of up to L small integers"},
    {"name": "inner-lists", "id": 1, "params": {"L": 4, "IN": 1}, "thorough": {"L": 5}, "reach": ["empty", "patched"], "what": "the same below a map key"},
    {"name": "nested", "id": 3, "params": {"W": 1, "KINDS": 196, "KEYS": 1}, "thorough": {"W": 2}, "reach": ["empty", "patched"], "what": "pairs of lists of up to two containers"},
    {"name": "deep", "id": 0, "params": {"W": 1, "D": 2, "KINDS": 196}, "thorough": {"D": 3}, "reach": ["empty", "patched"], "what": "pairs of documents of depth D and width 1, symbolic keys"},
    {"name": "kinds", "id": 4, "params": {"W": 1, "D": 1, "KINDS": 511}, "thorough": {"W": 2, "KINDS": 335}, "reach": ["empty", "patched"], "what": "pairs of documents with numbers of every kind, bools, texts and blobs"},
    {"name": "equal", "id": 2, "params": {"D": 2, "W": 2, "KINDS": 196}, "thorough": {"KINDS": 212}, "reach": ["equal"], "what": "a document and its copy"},
]}
PROPS["C20"] = {"harness": "C20.cpp", "cases": [
    {"name": "update", "id": 0, "params": {"D": 1, "W": 2, "KINDS": 197}, "thorough": {"W": 3}, "reach": ["updated"], "what": "all pairs of documents of depth D and width W with symbolic keys"},
    {"name": "update-deep", "id": 0, "params": {"D": 2, "W": 1, "KINDS": 197}, "thorough": {"D": 3}, "reach": ["updated"], "what": "all pairs of documents of depth D and width 1 with symbolic keys"},
    {"name": "diff", "id": 1, "params": {"D": 1, "W": 3, "KINDS": 196}, "thorough": {"W": 3, "KINDS": 212}, "reach": ["same", "differ"], "what": "all pairs of maps with up to W symbolic keys"},
    {"name": "diff-deep", "id": 1, "params": {"D": 2, "W": 2, "KINDS": 196, "KEYS": 1}, "thorough": {"KEYS": 0}, "reach": ["same", "differ"], "what": "all pairs of maps of depth D"},
    {"name": "flatten", "id": 2, "params": {"D": 2, "W": 2, "KINDS": 196}, "thorough": {"KINDS": 213}, "reach": ["flat"], "what": "documents of depth D and width W with symbolic keys"},
    {"name": "flatten-options", "id": 2, "params": {"D": 2, "W": 1, "KINDS": 196, "OPT": 1}, "thorough": {"W": 2, "KEYS": 1}, "reach": ["flat"], "what": "the same with symbolic delimiters and prefixes"},
    {"name": "expand", "id": 3, "params": {"D": 2, "W": 2, "KINDS": 132, "OPT": 1}, "thorough": {"D": 3, "W": 1}, "reach": ["expanded"], "what": "documents of nested maps with letter keys and any delimiter"},
    {"name": "strings", "id": 4, "params": {"KINDS": 20}, "reach": ["text"], "what": "integers up to 999 and one byte strings in a list and a map"},
]}
PROPS["C27"] = {"harness": "C27.cpp", "cases": [
    {"name": "split", "id": 0, "params": {"N": 7}, "thorough": {"N": 9}, "reach": ["no-authority", "authority", "refused"], "what": "all texts up to N bytes"},
    {"name": "split-rest", "id": 1, "params": {"N": 6}, "thorough": {"N": 8}, "reach": ["no-authority", "authority", "refused", "odd-authority"], "what": "five beginnings of a URI followed by all texts up to N bytes"},
    {"name": "dots", "id": 2, "params": {"NB": 4, "N": 6}, "thorough": {"NB": 5, "N": 8}, "reach": ["resolved"], "what": "paths of up to NB and references of up to N bytes over letter, dot and slash"},
    {"name": "resolve", "id": 3, "params": {}, "reach": ["resolved"], "what": "bases and references with and without scheme, authority, path, query and fragment"},
    {"name": "any", "id": 4, "params": {"N": 3, "NR": 3}, "thorough": {"N": 4, "NR": 4}, "reach": ["total"], "what": "all pairs of texts up to N and NR bytes: no failure"},
]}
PROPS["C16"] = {"harness": "C16.cpp", "cases": [
    {"name": "range", "id": 0, "params": {"KD": 3}, "thorough": {"KD": 7}, "reach": ["valid", "invalid"], "what": "minimum, maximum and their exclusive flags, all 64-bit signed and unsigned values"},
    {"name": "range-float", "id": 0, "params": {"KD": 7, "SMALL": 1, "NF": 3}, "thorough": {"NF": 6}, "reach": ["valid", "invalid"], "what": "the same mixing small integers and NF floating point values"},
    {"name": "multiple", "id": 1, "params": {"KD": 3}, "reach": ["valid", "invalid"], "what": "multipleOf over signed and unsigned values up to 100"},
    {"name": "multiple-float", "id": 1, "params": {"KD": 7}, "reach": ["valid", "invalid"], "what": "multipleOf with floating point values exact in binary"},
    {"name": "string", "id": 2, "params": {"N": 4}, "thorough": {"N": 6}, "reach": ["valid", "invalid"], "what": "minLength, maxLength and three patterns over all texts up to N bytes"},
    {"name": "array", "id": 3, "params": {"W": 1}, "thorough": {"W": 2}, "reach": ["valid", "invalid"], "what": "minItems, maxItems, uniqueItems, items, additionalItems"},
    {"name": "object", "id": 4, "params": {"W": 3, "WHAT": 4}, "thorough": {"W": 4}, "reach": ["valid", "invalid"], "what": "minProperties, maxProperties, required, dependencies over up to W symbolic keys"},
    {"name": "properties", "id": 4, "params": {"W": 2, "LEAF": 1}, "thorough": {"W": 3}, "reach": ["valid", "invalid"], "what": "properties, patternProperties and additionalProperties in any combination"},
    {"name": "combine", "id": 5, "params": {}, "thorough": {"NSUB": 3}, "reach": ["valid", "invalid"], "what": "allOf, anyOf, oneOf and not over simple schemas"},
    {"name": "nest", "id": 5, "params": {"NEST": 1, "NSUB": 2}, "thorough": {"NSUB": 3}, "reach": ["valid", "invalid"], "what": "combinators below each other and below items and additionalProperties"},
    {"name": "type", "id": 6, "params": {}, "reach": ["valid", "invalid"], "what": "every type name and pair of names against every kind of value"},
    {"name": "enum", "id": 7, "params": {"W": 2}, "thorough": {"W": 3}, "reach": ["valid", "invalid"], "what": "enum of W scalars of any kind"},
    {"name": "enum-deep", "id": 7, "params": {"W": 1, "D": 1, "KINDS": 197}, "thorough": {"D": 2}, "reach": ["valid", "invalid"], "what": "enum of lists and maps"},
    {"name": "unique", "id": 8, "params": {"W": 3}, "thorough": {"W": 4}, "reach": ["valid", "invalid"], "what": "uniqueItems over W scalars of any kind"},
    {"name": "unique-deep", "id": 8, "params": {"W": 2, "D": 1, "KINDS": 197}, "thorough": {"D": 2}, "reach": ["valid", "invalid"], "what": "uniqueItems over lists and maps"},
    {"name": "ref", "id": 9, "params": {}, "reach": ["valid", "invalid"], "what": "references to a definition and to the schema itself"},
    {"name": "wrong", "id": 10, "params": {}, "reach": ["reported", "not-applied"], "what": "endless references, multipleOf 0 and a pattern that is no regular expression"},
]}
PROPS["C34"] = {"harness": "C34.cpp", "cases": [
    {"name": "number", "id": 0, "params": {"KD": 1, "SMALL": 1}, "thorough": {"KD": 7}, "reach": ["valid", "invalid"], "what": "minimum, maximum, their exclusive flags, small numbers"},
    {"name": "string", "id": 2, "params": {"N": 2}, "thorough": {"N": 4}, "reach": ["valid", "invalid"], "what": "minLength, maxLength and patterns, texts up to N bytes"},
    {"name": "array", "id": 3, "params": {"W": 1}, "thorough": {"W": 2}, "reach": ["valid", "invalid"], "what": "keywords of arrays"},
    {"name": "object", "id": 4, "params": {"W": 2, "WHAT": 4}, "thorough": {"W": 3}, "reach": ["valid", "invalid"], "what": "minProperties, maxProperties, required, dependencies over symbolic keys"},
    {"name": "properties", "id": 4, "params": {"W": 2, "LEAF": 1}, "thorough": {"W": 3}, "reach": ["valid", "invalid"], "what": "properties, patternProperties and additionalProperties over symbolic keys"},
    {"name": "combine", "id": 5, "params": {}, "thorough": {"NSUB": 3}, "reach": ["valid", "invalid", "alternatives"], "what": "allOf, anyOf, oneOf and not"},
    {"name": "nest", "id": 5, "params": {"NEST": 1, "NSUB": 2}, "thorough": {"NSUB": 3}, "reach": ["valid", "invalid", "alternatives"], "what": "the same below each other and below items and additionalProperties"},
    {"name": "type", "id": 6, "params": {}, "reach": ["valid", "invalid"], "what": "every type name and pair of names"},
    {"name": "enum", "id": 7, "params": {"W": 1}, "thorough": {"W": 2}, "reach": ["valid", "invalid"], "what": "enum"},
    {"name": "ref", "id": 9, "params": {}, "reach": ["valid", "invalid"], "what": "references"},
    {"name": "wrong", "id": 10, "params": {}, "reach": ["reported", "not-applied"], "what": "every keyword with a value of the wrong kind, at the top, in a property, in an item and in allOf"},
]}
PROPS["C17"] = {"harness": "C17.cpp", "cases": [
    {"name": "shapes", "id": 0, "params": {"D": 2, "KINDS": 63, "W": 1, "DW": 1, "DD": 2}, "thorough": {"DW": 2}, "reach": ["filled", "complete", "again"], "what": "schemas of depth D with one entry at each level against data of depth DD"},
    {"name": "wide", "id": 0, "params": {"D": 1, "KINDS": 191, "W": 2, "DW": 2, "DD": 1, "NUL": 1}, "thorough": {"W": 3}, "reach": ["filled", "complete", "again"], "what": "schemas of depth 1 with W entries, list defaults, against data of depth 1 with nulls"},
    {"name": "ref", "id": 1, "params": {"DW": 1}, "reach": ["filled", "complete"], "what": "defaults found through a reference"},
    {"name": "recursive", "id": 2, "params": {}, "reach": ["recursive"], "what": "three schemas that contain themselves against data of depth 2"},
    {"name": "loop", "id": 3, "params": {}, "reach": ["loop"], "what": "a schema that is a reference to itself"},
]}
PROPS["C28"] = {"harness": "C28.cpp", "cases": [
    {"name": "handler", "id": 0, "params": {"EVENTS": 24}, "reach": ["thrown", "again", "complete"], "what": "JSON, bundle header, YAML and XML documents parsed with a handler that throws at any of the events, or handles none"},
    {"name": "output", "id": 1, "params": {"WRITES": 20}, "reach": ["thrown", "complete"], "what": "the four formats written to an output that throws at any of its writes"},
    {"name": "loader", "id": 2, "params": {}, "reach": ["thrown", "loaded", "missing"], "what": "schema loaders that throw, find nothing or load a schema, referred to from six keywords"},
    {"name": "memory", "id": 3, "params": {"NEWS": 80}, "thorough": {"NEWS": 250}, "reach": ["failed", "complete"], "samples": 0, "what": "parsing, writing, copying, editing, blobs, references, paths, updates, comparing and schema validation with any of the first NEWS allocations failing"},
]}
PROPS["C33"] = {"harness": "C33.cpp", "cases": [
    {"name": "select", "id": 0, "params": {"D": 1, "W": 1, "SEGS": 1}, "thorough": {"D": 2, "SEGS": 2}, "reach": ["printed", "failed"],
     "what": "any small JSON document, printed whole or in part, with a part set, its keys listed or its length printed"},
    {"name": "formats", "id": 1, "params": {"HOW": 0}, "reach": ["printed"], "what": "every input format with every output format"},
    {"name": "exclusive", "id": 1, "params": {"HOW": 1}, "reach": ["printed", "failed"], "what": "formats given more than once"},
    {"name": "layout", "id": 1, "params": {"HOW": 2}, "thorough": {"FEW": 0}, "reach": ["printed"], "what": "every layout option"},
    {"name": "files", "id": 2, "params": {"FMTS": 2}, "thorough": {"FMTS": 3, "FEW": 0}, "reach": ["no-output", "printed", "failed", "file"], "what": "up to two input files, an output file (writable or not) and a file of the value to set, present or missing"},
    {"name": "schema", "id": 3, "params": {}, "reach": ["printed", "failed"], "what": "documents that follow a schema or do not"},
    {"name": "extend", "id": 4, "params": {"D": 2, "W": 1}, "thorough": {"W": 2}, "reach": ["printed"], "what": "flattened and expanded paths with every option"},
    {"name": "payload", "id": 5, "params": {}, "reach": ["printed"], "what": "documents with payloads, read or written"},
]}
PROPS["C26"] = {"harness": "C26.cpp", "cases": [
    {"name": "option", "id": 0, "params": {"TOKS": 1, "N": 2}, "thorough": {"TOKS": 2, "N": 2, "S": 2}, "reach": ["accepted", "rejected"],
     "what": "an option of any kind with any constraint, default or requirement, given or not, written in any way, with any short text as its argument"},
    {"name": "mixed", "id": 1, "params": {"TOKS": 3}, "thorough": {"TOKS": 4}, "reach": ["accepted", "rejected", "list", "ended"],
     "what": "options, clusters, arguments and the end marker in any order"},
    {"name": "groups", "id": 2, "params": {"TOKS": 2}, "thorough": {"TOKS": 3}, "reach": ["accepted", "rejected", "exclusive"],
     "what": "exclusive and required groups of any members"},
    {"name": "env", "id": 3, "params": {"N": 2, "S": 2}, "thorough": {"N": 4, "S": 3}, "reach": ["accepted", "rejected", "set"],
     "what": "an option that may also come from the environment"},
    {"name": "limits", "id": 4, "params": {}, "reach": ["accepted", "rejected"], "what": "numbers near the limits of 64 bits"},
    {"name": "any", "id": 5, "params": {"WORDS": 2, "LEN": 3}, "thorough": {"WORDS": 3, "LEN": 4}, "reach": ["accepted", "rejected"],
     "what": "any words at all: rejected, or a result within the declared constraints"},
    {"name": "again", "id": 6, "params": {"TOKS": 2}, "thorough": {"TOKS": 3}, "reach": ["twice", "merged", "rejected"],
     "what": "parsing twice, and parsing with the merged description of another parser"},
    {"name": "list", "id": 7, "params": {"V": 3}, "thorough": {"V": 5}, "reach": ["accepted", "rejected"], "what": "options and arguments given up to V times with any range or choices for each value"},
    {"name": "schema", "pending": 24, "id": 0, "params": {"TOKS": 1, "N": 1, "S": 1, "SCHEMA": 1}, "reach": ["accepted", "rejected"],
     "what": "the result satisfies the generated schema"},
    {"name": "schema groups", "pending": 16, "id": 2, "params": {"TOKS": 1, "SCHEMA": 1}, "thorough": {"TOKS": 2, "SCHEMA": 1}, "reach": ["accepted", "exclusive"],
     "what": "the result satisfies the generated schema with groups"},
    {"name": "merged", "pending": 24, "id": 0, "params": {"TOKS": 1, "N": 1, "S": 2, "MERGED": 1}, "thorough": {"S": 3}, "reach": ["accepted", "rejected"],
     "what": "the first case with a parser built from the description of another; without unsigned options, which descriptions do not know"},
    {"name": "declaring", "id": 9, "params": {}, "reach": ["both", "one", "none"],
     "what": "two declarations with any long name, short letter and key, conflicts resolved or refused, then given in any way"},
    {"name": "strict", "pending": 24, "id": 8, "params": {"S": 2}, "thorough": {"S": 3}, "reach": ["absent", "allowed", "forbidden"],
     "what": "a value of any kind in the place of an option of any kind with any constraint: the generated schema accepts it exactly when the declaration allows it"},
]}
PROPS["C29"] = {"harness": "C29.cpp", "cases": [
    {"name": "one", "id": 0, "params": {"K": 1, "W": 2}, "reach": ["done", "refused"], "what": "31 operations on values of any kind through 7 kinds of handle"},
    {"name": "two", "id": 0, "params": {"K": 2, "W": 1, "HANDLES": 37}, "thorough": {"HANDLES": 127}, "reach": ["done", "refused"], "what": "sequences of 2 operations"},
    {"name": "three", "id": 0, "params": {"K": 3, "W": 1, "HANDLES": 32}, "thorough_only": True, "reach": ["done", "refused"], "what": "sequences of 3 operations on an element that does not exist at first"},
    {"name": "casts", "id": 1, "params": {}, "reach": ["fits", "other"], "what": "all 64-bit integers extracted as every integer type"},
    {"name": "nested", "id": 2, "params": {}, "reach": ["path", "no-path"], "what": "vectors and maps of vectors"},
    {"name": "complex", "id": 3, "params": {}, "reach": ["complex"], "what": "complex numbers"},
]}
PROPS["C30"] = {"harness": "C30.cpp", "cases": [
    {"name": "lookup", "id": 0, "params": {"W": 1, "D": 1, "N": 2}, "thorough": {"N": 4}, "reach": ["found", "absent"], "what": "documents of depth D below one key, fragments of up to N bytes, 5 URIs"},
    {"name": "pointer", "id": 0, "params": {"W": 1, "D": 1, "N": 3, "SLASH": 1, "URIS": 1}, "thorough": {"N": 4}, "reach": ["found", "absent"], "what": "the same for a slash and up to N bytes"},
    {"name": "ids", "id": 1, "params": {}, "reach": ["registered", "not-registered"], "what": "nested schemas with 9 forms of id at 4 places under 5 URIs"},
    {"name": "refs", "id": 2, "params": {}, "reach": ["valid", "invalid", "missing"], "what": "references of 6 forms to documents loaded on demand"},
    {"name": "chain", "id": 3, "params": {}, "reach": ["found", "missing"], "what": "loaders on top of one another and missing handlers"},
    {"name": "files", "id": 4, "params": {}, "reach": ["loaded", "missing"], "what": "documents in files on a search path, at absolute paths, by transfer and from a handler"},
]}
PROPS["C31"] = {"harness": "C31.cpp", "cases": [
    {"name": "json", "id": 0, "params": {"FMT": 0, "NMAX": 4}, "thorough": {"NMAX": 9, "TWICE": 1}, "reach": ["single", "together", "unknown", "strict", "text"], "what": "JSON emitter: any parameters given at creation and changed while writing"},
    {"name": "bundle", "id": 0, "params": {"FMT": 1}, "reach": ["single", "unknown", "text"], "what": "bundle header emitter: the same"},
    {"name": "xml", "id": 0, "params": {"FMT": 2}, "reach": ["single", "together", "unknown", "elements"], "what": "XML property list emitter: the same"},
    {"name": "yaml", "id": 0, "params": {"FMT": 3}, "thorough": {"TWICE": 1}, "reach": ["single", "together", "unknown", "events"], "what": "YAML emitter: the same"},
    {"name": "calls", "id": 1, "params": {"N": 1}, "thorough": {"N": 2}, "reach": ["calls"], "what": "30 streaming calls reach an emitter of the caller's own with all 64-bit numbers unchanged"},
    {"name": "value", "id": 2, "params": {"D": 2, "W": 1}, "thorough": {"D": 1, "W": 2}, "reach": ["value"], "what": "a value of depth D width W emitted to an emitter of the caller's own"},
    {"name": "stream json", "id": 3, "params": {"D": 1, "W": 1, "IMAX": 99}, "thorough": {"W": 2, "IMAX": 9}, "reach": ["json"], "what": "values streamed and serialized as JSON"},
    {"name": "stream yaml", "id": 4, "params": {"D": 1, "W": 1, "IMAX": 9}, "thorough": {"W": 2}, "reach": ["yaml"], "what": "values streamed and serialized as YAML"},
    {"name": "stream xml", "id": 5, "params": {"D": 1, "W": 1, "IMAX": 9}, "thorough": {"W": 2}, "reach": ["xml"], "what": "values streamed and serialized as XML property list"},
]}
PROPS["C32"] = {"harness": "C32.cpp", "cases": [
    {"name": "json", "id": 0, "params": {"E": 1}, "thorough": {"E": 2}, "reach": ["result", "rejected", "printed", "unknown"], "what": "JSON files with up to E entries for 7 kinds of option and undeclared keys, words before and after, printing the configuration"},
    {"name": "formats", "id": 1, "params": {}, "reach": ["result", "rejected"], "what": "4 kinds of configuration option with files of 3 formats"},
    {"name": "help", "id": 2, "params": {}, "reach": ["help", "advanced"], "what": "help for options, flags, groups and arguments, advanced or not"},
    {"name": "places", "id": 4, "params": {}, "thorough": {"ITEMS": 4}, "reach": ["result"], "what": "JSON files with entries for options inside lists and nested maps, large and fractional numbers"},
    {"name": "name", "id": 3, "params": {"S": 4}, "thorough": {"S": 7}, "reach": ["name"], "what": "program names of up to S bytes given in 5 ways, or found through the system"},
]}
PROPS["C35"] = {"harness": "C35.cpp", "cases": [
    {"name": "handlers", "id": 0, "params": {"W": 2, "SHORT": 0, "BUFS": 1}, "thorough": {"BUFS": 3}, "reach": ["delegated", "left", "replaced"], "what": "documents of depth 2 and width W in four formats; at any event the handler goes, is replaced, or leaves the container to another"},
    {"name": "record", "id": 1, "params": {"W": 2, "SHORT": 0, "BUFS": 2}, "thorough": {"WI": 2}, "reach": ["played"], "what": "the same documents recorded, copied and played back"},
    {"name": "transcode", "id": 2, "params": {"W": 2, "SHORT": 0, "BUFS": 1}, "thorough": {"SHORT": 1}, "reach": ["transcoded"], "what": "the same documents handed on to a JSON emitter, directly and recorded, two layouts"},
    {"name": "throwing", "id": 3, "params": {"W": 2, "SHORT": 0, "BUFS": 1}, "thorough": {"BUFS": 3}, "reach": ["thrown"], "what": "a handler that throws at any event"},
    {"name": "reset", "id": 4, "params": {"BUFS": 2}, "thorough": {"BUFS": 5}, "reach": ["reset"], "what": "up to 3 JSON documents in one input, the parser reset in between"},
    {"name": "position", "id": 5, "params": {"N": 2, "BUFS": 1}, "thorough": {"N": 4, "BUFS": 3}, "reach": ["position"], "what": "13 beginnings with blanks and line ends, then any byte that cannot follow"},
]}
PROPS["C36"] = {"harness": "C36.cpp", "cases": [
    {"name": "basic", "id": 0, "params": {"S": 3}, "thorough": {"S": 5}, "reach": ["basic"], "what": "every 64-bit value through every integer type, bools, four floats, texts and blobs up to S bytes and every kind by name, constructed and assigned over a value of six kinds"},
    {"name": "container", "id": 1, "params": {"N": 3}, "thorough": {"N": 4}, "reach": ["container"], "what": "vectors and maps of eight element types with up to N symbolic elements and keys, made into a value and cast back"},
    {"name": "cast", "id": 2, "params": {"W": 3}, "thorough": {"W": 4}, "reach": ["map", "list", "refused"], "what": "every value of depth 1 and width W cast to a vector and to a map of integers"},
    {"name": "complex", "id": 3, "params": {}, "reach": ["complex", "refused"], "what": "every form of a complex number over four floats"},
    {"name": "into", "id": 4, "params": {"W": 1}, "thorough": {"W": 2}, "reach": ["refused", "present", "default"], "what": "reading an entry into a variable by key and by path, with and without a default"},
    {"name": "real", "id": 5, "params": {}, "reach": ["real"], "what": "11 floats as every other type, increment, decrement and negation"},
]}
PROPS["C37"] = {"harness": "C37.cpp", "cases": [
    {"name": "write", "id": 0, "params": {"S": 2}, "thorough": {"S": 3}, "reach": ["file", "memory", "refused"], "what": "JSON, indented JSON, bundle header and both payload formats through ten entry points, over a missing, a short and a long file and into a directory that does not exist"},
    {"name": "read", "id": 1, "params": {"N": 2}, "thorough": {"N": 3}, "reach": ["value", "missing", "refused"], "what": "the same formats with N arbitrary bytes inside, complete or one byte short, through 13 entry points"},
    {"name": "read-other", "id": 2, "params": {"N": 2}, "thorough": {"N": 4}, "reach": ["xml", "yaml"], "what": "all inputs of up to N bytes through the YAML and XML functions"},
    {"name": "write-other", "id": 3, "params": {}, "reach": ["xml", "yaml"], "what": "a list through the YAML and XML functions"},
]}
PROPS["C38"] = {"harness": "C38.cpp", "cases": [
    {"name": "refuse", "id": 0, "params": {"W": 1, "D": 1}, "thorough": {"W": 2, "D": 1}, "reach": ["done", "key", "range", "kind", "numeric", "operation"], "what": "58 operations on every kind of value of depth D and width W, directly, through a reference and through a reference into a map"},
]}
