P = {
"C01": "Contracts on osc_mem_encodeByteorder/decodeByteorder and the ntoh/hton family: for each typetag, the bytes written are the big-endian bytes of the value, decode(encode(x)) = x. Oracle: shifts. All bit patterns.",
"C02": "Contracts on osc_util_getPadded…, osc_sizeof, osc_getBlobLength with the spec's formulas (multiple of 4, room for the NUL, minimal). Strings of any length through strlen's contract.",
"C03": "Contract on every osc_atom_s getter and setter: result is the C conversion of the big-endian value of the stored type; setters write exactly the data bytes (frame). All typetags, all bytes. Text→number (strtod) outside.",
"C04": "Contract on every osc_atom_u getter/setter, and the lemma stored type × read type = C conversion; owned strings and blobs are bounded (5 bytes).",
"C05": "osc_atom_u_nserialize: size, bytes (arbitrary tracked byte, any length), short buffer writes nothing; deserialize∘serialize = id.",
"C06": "Message layout against the abstract message of model.h (address, typetags, data written from the OSC 1.0 text alone), exact size, short buffers, round trip. Shapes bounded, values full.",
"C07": "The same for bundles, nested ones in the sweep.",
"C08": "osc_error_bundleSanityCheck: loop contract against a ghost predicate 'the bytes from here to the end are tiled by well-sized messages'; any length and content; memory safety within the stated length.",
"C09": "Unserialized message as a doubly linked list: each operation on head/tail/neighbour records with an arbitrary count and unknown rest of the list (local reasoning, hence any length); walks bounded; histories swept.",
"C10": "The same for osc_bundle_u; lookups, set operations and histories swept.",
"C11": "osc_match against a different algorithm (set of reachable address positions, one bit each). Swept only: CBMC does not get through the backtracking matcher even at 3 characters within the time of a check.",
"C12": "Each hash-table operation against a map, from every table reachable with ≤3 keys of ≤2 characters (colliding ones included), real hash function; histories swept.",
"C13": "As C09, for osc_linkedlist.",
"C14": "osc_array: arrays of any length and element size, one tracked byte.",
"C15": "String formatting: exact lengths, contents and no write past the buffer, every buffer size; bounded texts, snprintf by contract.",
"C16": "Timetag arithmetic and comparison over the full 64-bit domain, IMMEDIATE included.",
"C17": "toISO8601 by loop contracts over years and the month search: the seconds of the printed date, computed by the day-number formula, are the argument — for every uint32. fromISO8601 the other way. snprintf/strptime/sscanf by contract; the fraction's digits are left open.",
"C18": "Wrapping and reading a serialized message against model.h; rename; iterator. Shapes bounded, values full; swept for long ones.",
"C19": "The parser is a step function (state word × byte → state word). Contract: the grammar's transition relation, for every state and byte. Lemma: the contract preserves the invariant and reset establishes it; so the statement holds after every history. No unwinding.",
"C20": "Edits of serialized bundles against sequences of abstract messages (seq.h). Append/replace/concat verified for fixed shapes; the rest swept.",
"C21": "Dispatch: osc_match is replaced by its contract (any function of its two arguments, offset inside the pattern), append by a recording contract; obligations: every method is given exactly its complete and partial matches, the delegation exactly the rest. Table operations against a list.",
"C22": "Typetag predicates and promotion order for all byte values and pairs: totality, antisymmetry, transitivity, width order.",
"C23": "osc_error_validateAddress: loop contract, strings of any length.",
"C24": "Operators against the getters' and setters' contracts (C04): 100 pairs of types × all values; integer value in the promoted type, division by zero reported, comparison = numeric order. cvc5 for the arithmetic.",
"C25": "Copies: equality and independence (no shared memory, freed exactly once; the sweep runs under ASan and counts the blocks still allocated at the end).",
"C26": "text.c. The oracle is the abstract bundle itself: `text_u_sweep` and `text_s_sweep` build it (in memory, or as bytes written by the model from the OSC specification), format it, check the queried length, parse the text with the real flex/bison parser and compare every address, type and value in order. The generated parser is an interpreter over tables of thousands of entries; no contract within CBMC's reach covers it, so the check is a bounded one (sampled bundles of up to 6 messages of 12 arguments, nested 2 deep) and counted as such.",
"C27": "Query: as C21 with the result set's operations as recording contracts; the result set itself verified for fixed selectors; swept with everything real.",
"C28": "nested.c. Oracles: a recursive insertion by address components, and a recursive listing with joined addresses, both over abstract bundles. CBMC proofs run osc_bundle_u_explode/flatten on bundles of fixed addresses and every value (two components, three, a depth limit, a shared first component, disjoint ones, another separator; flattening two levels with and without separator, depth limit, enclosing addresses kept and dropped, an argument beside the nested bundle), osc_match by its contract for plain addresses; sweeps check explode, flatten and their composition, in memory and serialized, on sampled bundles with nested arguments.",
}
