DED = "deductive verification of function contracts on the real code (CBMC code contracts)"
MIX = "function contracts on the real code, deductive where loop-free or loop-contracted, bounded unwinding elsewhere (CBMC)"
TRUST = "Trusts CBMC (front end, back end, its C library models); assumes allocation succeeds; two's-complement wraparound; LP64 little-endian linux target."
NOTES = {
 "C01": ("proof", DED, "Encode/decode of every typetag that the byte-order functions name, all bit patterns, loop-free. " + TRUST),
 "C02": ("proof", DED, "Padding, wire sizes and typetag table proved for all lengths and tags; strings of any length (strlen by contract). " + TRUST),
 "C14": ("proof", DED, "Arrays of any length and element size at an arbitrary tracked byte offset; libc memcpy/realloc trusted. " + TRUST),
 "C15": ("other", MIX, "The meta-character predicate is proved for every character; the string functions are bounded (3-4 characters, all contents and buffer sizes) with a snprintf model, plus run-time contracts on sampled longer strings. " + TRUST),
 "C08": ("proof", DED, "bundleSanityCheck proved by a loop contract against a ghost tiling predicate, for blocks of any length and content; the loop annotations sit in /repo behind LIBO_CONTRACTS. " + TRUST),
 "C22": ("proof", DED, "Classification, names and the promotion order proved for all byte values; getLargestType bounded to 2x2 atoms. " + TRUST),
 "C23": ("proof", DED, "validateAddress proved by a loop contract against a ghost predicate for strings of any length, strlen by contract. " + TRUST),
 "C04": ("proof", DED, "Every getter, scalar setter and the stored-type x read-type lemma proved for all values; owned strings/blobs bounded to 5 bytes; text conversion of numbers only as run-time contract. " + TRUST),
 "C05": ("proof", DED, "nserialize proved for scalars, strings and blobs of any length (arbitrary byte of the output) and any buffer size; round trip proved for scalars, bounded to 6 bytes for strings and blobs; nested bundles in C07. " + TRUST),
 "C25": ("other", MIX, "Scalar atom copies proved for all values; strings, blobs, messages and bundles bounded. " + TRUST),
 "C03": ("proof", DED, "Every getter/setter contract is proved for all typetags and all data bytes, with memory safety and frame. String atoms (strtod) are outside. " + TRUST),
 "C16": ("proof", DED, "Loop-free timetag operations over the full 64-bit domain; the float fraction of a timetag (a division by 2^32-1) and the float round trip are run-time contracts only. " + TRUST),
 "C09": ("proof", MIX, "Append/prepend/remove/clear/atom constructors proved for messages of any length (head/tail/neighbour records, arbitrary count); insert/get and list walks bounded to a few arguments; histories as run-time contract. " + TRUST),
 "C10": ("proof", MIX, "Add/remove/clear proved for bundles of any length; walks (replace, duplicates) bounded; lookup, set operations and histories as run-time contracts. " + TRUST),
 "C11": ("other", MIX, "osc_match against a set-of-positions oracle as a run-time contract on sampled patterns and addresses; alternatives of {} are non-empty. " + TRUST),
 "C12": ("other", MIX, "Each operation against the map specification, bounded to 2-3 entries of colliding and non-colliding keys; histories as run-time contract. " + TRUST),
 "C13": ("proof", MIX, "Append/prepend/pop/unlink proved for lists of any length; position walks bounded to 5; histories as run-time contract. " + TRUST),
 "C06": ("other", MIX, "Layout, exact size, short buffers and round trip for every shape of up to 3 arguments with every value (bounded), plus run-time contracts on sampled messages of up to 20 arguments, nested bundles included. " + TRUST),
 "C07": ("other", MIX, "Header, order, size and round trip for bundles of fixed shapes with every value (bounded), plus run-time contracts on sampled nested bundles. " + TRUST),
 "C18": ("other", MIX, "Fields, arguments and rename for fixed shapes with every value (bounded), plus run-time contracts on sampled messages. " + TRUST),
 "C20": ("other", MIX, "Append, replace and concat for fixed shapes with every value (bounded); remove, look-ups, set operations, wrap/explode and histories of edits as run-time contracts. " + TRUST),
 "C19": ("proof", DED, "The step function of the parser is proved against the grammar for every state and every byte, without unwinding; a lemma over the step contract (closure of the state invariant) extends it to every history of bytes. " + TRUST),
 "C17": ("proof", DED, "The calendar conversion is proved by loop contracts in /repo (behind LIBO_CONTRACTS) against the day-number definition of the Gregorian calendar, for every number of seconds; snprintf, strptime and sscanf are contracts; the digits of the fraction are not specified. " + TRUST),
 "C27": ("other", MIX, "Every outcome of osc_match (by its contract) for up to 3 messages and 3 selectors with a recording result set, the result set itself for fixed selectors, plus run-time contracts on sampled bundles with the real match. Selectors of a query are distinct. " + TRUST),
 "C21": ("other", MIX, "Every outcome of osc_match (by its contract) for 2 messages and 2 entries, every table operation on fixed selectors, plus run-time contracts on sampled histories and bundles with the real match. A method may be called without messages. " + TRUST),
 "C24": ("proof", DED, "Each operator is proved for all 100 pairs of types and all values against the getter and setter contracts (C04), loop-free; lists, ++, --, and, or, mod as run-time contracts. Strings, timetags and booleans as operands are outside. " + TRUST),
 "C26": ("other", MIX, "Run-time contracts on sampled nested bundles through the real formatter, scanner and parser: the table-driven parser that flex and bison generate is outside the verifier's reach. " + TRUST),
 "C28": ("other", MIX, "Exploding and flattening of fixed addresses for every value, with osc_match by its contract (bounded), plus run-time contracts against recursive oracles on sampled nested bundles. Every message has an argument. " + TRUST),
}
from collections import defaultdict
NA = defaultdict(lambda: "no contract built yet")
CAUGHT = {}
