#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the one place where the property texts are kept)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Network byte order is big-endian and reversible",
  "Encoding a number of any OSC numeric type for the wire yields its big-endian bytes, and decoding gives back exactly the original bits; data of types that are not byte-swapped passes through both directions unchanged. Bundle timetags are written and read as two big-endian 32-bit words.",
  ["inputs"], "every bit pattern of every numeric type; every timetag",
  "The tests print a few messages; no test compares wire bytes over all bit patterns.",
  ["osc_byteorder.h", "osc_mem.c", "osc_timetag.c"],
  [("osc_mem_encodeByteorder/decodeByteorder/shouldByteswap", "osc_mem.c"), ("byte swap macros", "osc_byteorder.h"), ("osc_timetag_encodeForHeader/decodeFromHeader", "osc_timetag.c")])
p("C02", "OSC padding and data-size arithmetic",
  "The padded size of a string is the smallest multiple of 4 that leaves room for the terminating NUL, the padded size of a blob is its 4-byte size field plus its bytes rounded up to a multiple of 4, and the wire size reported for each typetag is the OSC size of that type. Unknown typetags and missing data are reported as errors, and nothing outside the given data is read.",
  ["inputs"], "every length, every typetag value, every string length",
  "Tests only use a few short strings; boundary lengths (3, 4, 5 mod 4) and typetag values above 127 are not enumerated.",
  ["osc_util.c", "osc_mem.c"],
  [("osc_util_getPaddingForNBytes / getPaddedStringLen / getPaddedStringLen / getBlobLength", "osc_util.c"), ("osc_sizeof, osc_data_lengths", "osc_mem.c")])
p("C03", "Serialized atoms read and write wire bytes faithfully",
  "Reading a serialized argument as any numeric type equals decoding its big-endian bytes according to its typetag and then converting the value as C does, and the boolean typetags read as 1 and 0; non-numeric types read as 0. Writing a value into a serialized argument whose typetag is of the same size stores the big-endian bytes of that value and changes no other byte.",
  ["inputs"], "every typetag, every wire value, every getter and setter",
  "Tests read a handful of values with matching getter and typetag; cross-type conversions at the extremes (negative, above 2^31, NaN) are not sampled.",
  ["osc_atom_s.c"], [("osc_atom_s_get*/set*", "osc_atom_s.c")])
p("C04", "In-memory atoms keep value and type; conversions follow C",
  "After storing a value of any type in an atom, the atom reports the typetag of that type and reading it back with the same type gives the identical value, and reading it with any other numeric type gives the C conversion of the stored value. Storing replaces the previous value completely, whatever its type was, and reading never changes the atom.",
  ["inputs", "histories"], "every value of every type, every pair (stored type, read type), after every previous content",
  "Tests store few values; the 10x12 type matrix at its numeric extremes and overwriting of owned strings are not sampled.",
  ["osc_atom_u.c"], [("osc_atom_u_set*/get*/clear/copy", "osc_atom_u.c")], [("alloc", "who owns the heap value", "osc_atom_u.r")])
p("C05", "Atom serialization round trip and exact size query",
  "The size reported for serializing an atom is the number of bytes that serializing it writes, is a multiple of 4 and matches the OSC size of its type; a buffer that is too small is left untouched. Deserializing the written bytes gives an atom with the same typetag and value.",
  ["inputs"], "every atom type and value; every buffer size",
  "No test compares the size query against bytes written, nor uses a short buffer.",
  ["osc_atom_u.c", "osc_atom_s.c"], [("osc_atom_u_nserialize", "osc_atom_u.c"), ("osc_atom_s_deserialize", "osc_atom_s.c")])
p("C06", "Message serialization has the OSC layout and round-trips",
  "A serialized message is a 4-byte big-endian size followed by exactly that many bytes: the NUL-padded address, the NUL-padded typetag string with one tag per argument in order, then each argument's data in order, every part 4-byte aligned. The size query equals the bytes written, a too small buffer is not overrun, and deserializing gives a message with the same address, argument count, types and values.",
  ["inputs"], "every address, every list of arguments",
  "Tests serialize a few fixed messages and only look at printed output.",
  ["osc_message_u.c", "osc_message_s.c"], [("osc_message_u_nserialize", "osc_message_u.c"), ("osc_message_s_deserialize / osc_message_s_wrap", "osc_message_s.c")])
p("C07", "Bundle serialization: header, order, size, round trip",
  "A serialized bundle starts with '#bundle', a NUL and an 8-byte timetag, followed by its messages, in list order, each prefixed with its size; the reported length equals the bytes written and the size query. Deserializing gives the same messages in the same order, and every serialized bundle the library produces passes its own sanity check.",
  ["inputs"], "every list of messages",
  "Tests use a few hand-written bundles.",
  ["osc_bundle_u.c", "osc_bundle_s.c", "osc_error.c"], [("osc_bundle_u_nserialize/serialize", "osc_bundle_u.c"), ("osc_bundle_s_deserialize/setBundleID", "osc_bundle_s.c")])
p("C08", "Bundle sanity check accepts exactly well-formed bundles, safely",
  "The bundle sanity check accepts a byte block if and only if it starts with a bundle header and the size-prefixed messages that follow tile it exactly, each at least 4 bytes long and with an address that begins with '/'; anything else is rejected with an error. For every input, valid or hostile, the check terminates and never reads outside the given block.",
  ["inputs"], "every byte sequence of every length",
  "Tests never call the sanity check on malformed input; hostile size fields cannot be sampled exhaustively.",
  ["osc_error.c"], [("osc_error_bundleSanityCheck", "osc_error.c")])
p("C09", "A message's argument list behaves as an ordered sequence",
  "Appending, prepending, inserting, and removing arguments of a message have the effect of the same operation on a sequence: argument count, order, positional access and forward/backward iteration agree after every operation, and the other arguments keep their value. An out-of-range position is rejected or clamped without touching memory outside the list.",
  ["histories", "inputs"], "every sequence of list operations on a message",
  "Tests build lists by appending only.",
  ["osc_message_u.c"], [("osc_message_u_appendAtom/prependAtom/insertAtom/removeAtom/getArg/getArgCount/clearArgs", "osc_message_u.c")], [("arghead/argtail/argc/next/prev", "the doubly linked argument list", "osc_message_u.r")])
p("C10", "A bundle's message list behaves as an ordered sequence",
  "Adding, inserting after a given message and removing messages of an in-memory bundle have the effect of the same operation on a sequence: message count, order, head, tail and iteration agree after every operation. Adding without duplicates leaves exactly one message per address, and looking up an address finds exactly the messages that have it.",
  ["histories", "inputs"], "every sequence of operations on a bundle",
  "Tests only append messages and serialize.",
  ["osc_bundle_u.c"], [("osc_bundle_u_addMsg/addMsgWithoutDups/replaceMessage/removeMsg/insertMessage/lookupAddress", "osc_bundle_u.c")], [("msghead/msgtail/msgcount", "the message list", "osc_bundle_u.r")])
p("C11", "Address pattern matching implements the OSC pattern language",
  "Matching an address against a pattern reports a complete match exactly when the pattern, read with the OSC meaning of '?', '*', '[a-z]', '[!a-z]' and '{a,b}' (lists of non-empty strings) within one '/'-delimited part, can produce the whole address, for all legal addresses and well-formed patterns with at most one '*' per part; the offsets reported never exceed the lengths of the strings. Matching never reads beyond the terminating NUL of either string and always terminates, also on malformed patterns.",
  ["inputs"], "every address and pattern string",
  "The match table has about a hundred pairs.",
  ["osc_match.c"], [("osc_match and its helpers", "osc_match.c")])
p("C12", "The hash table is a map",
  "After any sequence of stores, replacements and removals, looking up a key gives the value most recently stored under that key (byte-wise comparison of the key) or nothing if it was removed or never stored, whatever collisions occur. Iterating over the table visits every stored entry exactly once, and the entry count is their number.",
  ["histories", "inputs"], "every sequence of operations, every key, every table size",
  "Only indirectly used by the tests, without removal or forced collisions.",
  ["osc_hashtab.c"], [("osc_hashtab_store/storeSafe/lookup/remove/foreach/clear", "osc_hashtab.c")], [("slots/nentries", "buckets and entry count", "osc_hashtab.r")])
p("C13", "The linked list is a deque with a consistent count",
  "Appending, prepending, reading at a position, popping at either end or at a position, iterating, copying and clearing have the effect of the same operation on a sequence; the count, the order, forward links and backward links agree after every operation. Positions outside the list give nothing and touch no other memory.",
  ["histories", "inputs"], "every sequence of operations",
  "Not tested at all.",
  ["osc_linkedlist.c"], [("osc_linkedlist_append/prepend/peekHead/peekTail/peekNth/popHead/popTail/popNth/iterate/clone/clear", "osc_linkedlist.c")], [("head/tail/count", "list state", "osc_linkedlist.r")])
p("C14", "Arrays: bounds, copy, resize and append preserve elements",
  "Accessing an array element inside the bounds gives that element and outside the bounds gives nothing; copying, copying a part into another array, and resizing keep the elements they should and never write outside the destination. Newly allocated or grown elements are cleared.",
  ["inputs", "histories"], "every length, element size, index and offset",
  "Tests use arrays only through the expression evaluator with small sizes.",
  ["osc_array.c", "osc_atom_array_u.c"], [("osc_array_get/copy/copyInto/resize", "osc_array.c"), ("osc_atom_array_u_copyInto/resize/append", "osc_atom_array_u.c")])
p("C15", "String quoting: exact length, always in bounds, NUL-terminated",
  "Quoting and escaping a string yields the original characters with each quote or backslash preceded by a backslash and, where asked for, surrounded by double quotes; the size query equals the length of the text written. A buffer that is too small is never overrun and what is written is NUL-terminated.",
  ["inputs"], "every string and every buffer size",
  "Tests print strings without meta characters into big buffers.",
  ["osc_strfmt.c"], [("osc_strfmt_quotedString / addQuotes / addQuotesAndQuoteMeta / stringWithQuotedMeta / countMeta", "osc_strfmt.c")])
p("C16", "Timetag arithmetic and order are those of 64-bit fixed point",
  "Comparing timetags is the total order of their 64-bit fixed-point values; adding is 64-bit addition and subtracting gives the absolute difference, with the carry between fraction and seconds handled for all values. The immediate timetag (0, 1) and only it is recognised as immediate, and converting a number of seconds to a timetag and back keeps it to within the resolution of the fraction.",
  ["inputs"], "every pair of timetags",
  "Expression tests use single values; borrow cases need specific fractions.",
  ["osc_timetag.c"], [("osc_timetag_add/subtract/compare/isImmediate/floatToTimetag/timetagToFloat", "osc_timetag.c")])
p("C17", "Calendar text of a timetag is the UTC date of its seconds since 1900",
  "Formatting a timetag gives the Gregorian UTC date and time of its seconds since 1900-01-01T00:00:00, for every 32-bit number of seconds, and parsing such text gives back the same seconds. The formatted text fits the reported size and is NUL-terminated.",
  ["inputs"], "every 32-bit number of seconds",
  "One date is tested; leap years, year ends and century years are not.",
  ["osc_timetag.c", "contrib/strptime.c"], [("osc_timetag_toISO8601/fromISO8601/isleap/getmonth", "osc_timetag.c")])
p("C18", "Reading a serialized message: fields, arguments, rename",
  "Wrapping a well-formed serialized message exposes its address, typetags, argument count and size, and the n-th argument is the n-th typetag with the data at the sum of the sizes of the preceding arguments, whatever order arguments are asked for in; out-of-range indices are refused. Copying it under a new address gives a well-formed message with the new address and the same typetags and data, and iterating visits each argument exactly once in order.",
  ["inputs"], "every well-formed message, every index and access order",
  "Tests read arguments of a few messages in order.",
  ["osc_message_s.c", "osc_message_iterator_s.c"], [("osc_message_s_wrap/getArg/renameCopy/getArgCount", "osc_message_s.c"), ("osc_message_iterator_s", "osc_message_iterator_s.c")], [("data_offset_cache", "lazily built offsets", "osc_message_s.r")])
p("C19", "The byte-stream parser accepts exactly the framed byte grammar",
  "Fed one byte at a time, the stream parser accepts exactly the bytes that may come next in the stream's current state and moves to the documented successor state, and any other byte leads to the error state and is never accepted silently. No byte and no state makes it read or write outside its state, and resetting always gives the initial state.",
  ["histories", "inputs"], "every state and every byte",
  "One recorded byte stream is tested.",
  ["osc_serial.c", "osc_serial.h"], [("osc_serial_processByte and its state word", "osc_serial.c")])
p("C20", "Serialized bundle edits keep the bundle well-formed",
  "Appending, removing, replacing and concatenating messages of a serialized bundle produce a bundle that passes the sanity check, whose length is the sum of its parts, and which contains exactly the expected messages in the expected order. The union, intersection and difference of two bundles hold, for each address, the first message of the addresses that either, both or exactly one of the two bundles has. Iterating over it visits each message exactly once, and address queries answer according to the messages present.",
  ["inputs", "histories"], "every well-formed bundle and message",
  "Tests exercise concatenation of a few fixed bundles at most.",
  ["osc_bundle_s.c", "osc_bundle_iterator_s.c"], [("osc_bundle_s_appendMessage/removeMessage/replaceMessage/concat/union/intersection/difference/lookupAddress/addressExists/getMsgCount", "osc_bundle_s.c"), ("osc_bundle_iterator_s", "osc_bundle_iterator_s.c")])
p("C21", "Dispatch calls exactly the handlers of matching selectors",
  "Dispatching a bundle calls the method registered for a selector exactly for the messages whose address matches that selector, and messages that match no selector go to the delegation method if one is set. Registering, rebinding and renaming entries in a dispatch table never affects other entries.",
  ["histories", "inputs"], "every table and bundle",
  "Not tested.",
  ["osc_dispatch.c", "osc_vtable.c"], [("osc_dispatch_*", "osc_dispatch.c"), ("osc_vtable_addEntry/lookup/renameEntry", "osc_vtable.c")])
p("C22", "Typetag classification and promotion order",
  "The predicates for numeric, integer, unsigned, float, string and boolean typetags classify every byte value consistently, and the promotion order used to choose the type of a mixed operation is a total order in which wider types come after narrower ones and floating point after integers. Unknown typetags are treated as unknown and no byte value makes the lookup read outside its tables.",
  ["inputs"], "every byte value, every pair",
  "Tests mix few types.",
  ["osc_typetag.c", "osc_typetag.h"], [("osc_typetag_compare / osc_typetag_str / classification macros", "osc_typetag.c")])
p("C23", "Address validation accepts exactly legal OSC addresses",
  "An address is accepted if and only if it begins with '/', has at least one more character and contains none of the characters the validator forbids, and the error reported names the first offence; validation never reads past the terminator.",
  ["inputs"], "every string",
  "A few good addresses are used in tests.",
  ["osc_error.c"], [("osc_error_validateAddress", "osc_error.c")])
p("C24", "Expression operators compute the promised type and value",
  "Applying +, -, *, / or a comparison to two numeric atoms (integers and floats) gives the value of the C operation on the operands converted to the promoted type (a double as soon as one is a float), with division by zero reported (the string Inf) rather than executed, and comparisons agree with the numeric order. Operators never modify their operands, and on lists they work element by element, a list of one element going with every element of the other.",
  ["inputs"], "every pair of operand types and values",
  "expressions.txt holds some hundred fixed cases.",
  ["osc_expr.c"], [("osc_expr_add/subtract/multiply/divide/lt/le/gt/gte/eq/neq/and/or/mod", "osc_expr.c")])
p("C25", "Copies are equal and independent",
  "A deep copy of an atom, message or bundle is equal to the original, shares no memory with it, and leaves it unchanged; releasing either leaves the other intact, and releasing a structure frees each of its parts exactly once.",
  ["inputs", "histories"], "every atom, message and bundle",
  "Sharing shows only after one copy is changed or freed.",
  ["osc_atom_u.c", "osc_message_u.c", "osc_bundle_u.c"], [("osc_atom_u_copy, osc_message_u_deepCopy, osc_bundle_u_copy, *_free", "osc_*_u.c")])
p("C26", "Text form of a bundle parses back to the same bundle",
  "Formatting a bundle as text (from memory or from its serialized form) and parsing the text gives a bundle with the same messages in the same order, and in each the same address and the same arguments with the same types and values: strings of any characters, 32-bit integers, printable characters, true, false, nil, nested bundles, numbers whose digits are all printed and timetags of whole seconds. The length query gives exactly the length of the text.",
  ["inputs"], "every bundle of such arguments",
  "The tests parse a few texts.",
  ["osc_parser.y", "osc_scanner.l", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_u.c", "osc_message_s.c"], [("osc_parser_parseString", "osc_parser.y"), ("osc_scanner_lex", "osc_scanner.l"), ("osc_bundle_u_nformat", "osc_bundle_u.c"), ("osc_bundle_s_nformat", "osc_bundle_s.c")])
p("C27", "Queries partition the messages of a bundle",
  "Selecting from a bundle puts each message among the complete matches of exactly the selectors it matches completely, among the partial matches of those it matches partially, and among the unmatched messages exactly if it matches none.",
  ["inputs"], "every bundle and selector list",
  "Not tested.",
  ["osc_query.c", "osc_rset.c"], [("osc_query_select", "osc_query.c"), ("osc_rset_*", "osc_rset.c")])
p("C28", "Flattening and exploding nested bundles are inverse",
  "Exploding a bundle puts each message under nested bundles addressed by the components of its address, down to the given depth; flattening replaces each nested bundle by its messages under the joined addresses, down to the given depth. Exploding by '/' and flattening with nothing between the parts gives back the same set of addresses and values, for distinct addresses without pattern characters of which none is a leading part of another. Neither changes the source bundle.",
  ["inputs"], "every bundle, separator and depth",
  "Three fixed bundles are tested.",
  ["osc_bundle_u.c", "osc_message_u.c", "osc_bundle_s.c"], [("osc_bundle_u_flatten/explode", "osc_bundle_u.c"), ("osc_message_u_explode", "osc_message_u.c"), ("osc_bundle_s_flatten/explode", "osc_bundle_s.c")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
