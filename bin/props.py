"""Property metadata: the single source of properties.jsonl and MANIFEST.json (bin/gen.py writes both)."""
T = 'bounded symbolic execution of the LLVM bitcode compiled from the current sources, SMT (QF_BV by bit-blasting + CDCL, cross-checked by Z3); counterexamples replayed natively under ASan'


def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [])


PROPS = [
 P('P01', 'Validating untrusted bytes never reads outside the given buffer',
   'Checking any byte sequence of any size for being a valid tuple terminates, touches only the bytes inside the given buffer, modifies nothing, and returns either a verdict of validity or a reason. The outcome depends on nothing but those bytes and the schema.',
   ['inputs'], 'every content of buffers of every size up to the bound, with and without a schema',
   'The tests feed a few dozen hand-made and randomly damaged tuples; a missing bounds check shows only for particular combinations of size, offset and payload headers.',
   ['src/audit.cxx', 'src/ro.cxx', 'fast_positive/tuples/details/field.h'],
   [dict(name='audit of index, payload chunks and holes', where='src/audit.cxx'), dict(name='light header check', where='src/ro.cxx')],
   'all contents of buffers up to the stated number of units; larger buffers are outside the bound'),
 P('P02', 'The validity verdict agrees with the format definition',
   'Bytes are accepted as a tuple exactly when they are well-formed: the stated size is that of the buffer, every descriptor has a known type and a payload of the right extent inside the buffer, and payloads and holes cover the data area without gaps and overlaps. Holes are accepted or refused as the caller asked.',
   ['inputs'], 'every content of buffers of every size up to the bound, holes allowed or not',
   'Both a missing and an excessive check concern particular combinations of descriptors that hand-made samples do not hit.',
   ['src/audit.cxx', 'src/ro.cxx', 'fast_positive/tuples/details/field.h'],
   [dict(name='audit of index, payload chunks and holes', where='src/audit.cxx')],
   'all contents of buffers up to the stated number of units, without a schema; the verdict for tuples flagged as sorted is only checked for soundness'),
 P('P03', 'Every mutation leaves a valid tuple whose bookkeeping matches its bytes',
   'After any single store, insertion, erasure, compaction or sorting applied to any valid modifiable tuple, successful or failed, the serialized form passes validation, the modifiable form passes its own consistency check, and no memory outside the tuple is touched. The reported size, number of fields and amount of junk are those of the serialized form.',
   ['inputs', 'histories'], 'every valid tuple within the bound as the starting state (so every history leading to it), every operation, identifier, value and length within the bound',
   'Tests run a few fixed sequences; a slip in hole splitting, merging or chunk exchange needs a particular layout of holes and payloads.',
   ['src/gear.cxx', 'src/rw.cxx', 'fast_positive/tuples/details/rw.h', 'src/audit.cxx'],
   [dict(name='allocation, release and reallocation of payload chunks and descriptors', where='src/gear.cxx'), dict(name='hole search and merge', where='src/gear.cxx')],
   'inductive step from every reachable-or-not valid state up to the stated layout size'),
 P('P04', 'A stored value is read back exactly',
   'After a successful store of a value of any type, reading the field returns exactly that value; after a successful insertion into a collection, exactly one more item with exactly that value is present and the previous items are all still there. Storing an empty value into a field whose absence is indistinguishable from empty removes the field and reads back as empty; otherwise the field is reported as present.',
   ['inputs', 'histories'], 'every starting tuple, type, identifier, value and length within the bound',
   'Tests sample a handful of values per type; boundary lengths, special values and reuse of holes interact.',
   ['src/rw.cxx', 'fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/meta.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/field.h'],
   [dict(name='per-type read/write/emptiness traits', where='fast_positive/tuples/details/meta.h'), dict(name='assignment and appending', where='fast_positive/tuples/details/rw.h')],
   'all types with symbolic values; stated lengths of variable-size values'),
 P('P05', 'An operation on one field leaves every other field untouched',
   'After any successful store, insertion or erasure addressed to one identifier and type, every field with a different identifier or type is present exactly as before with exactly the same value, and no new field of another identifier appears. Compaction, sorting and optimization change no field at all.',
   ['inputs', 'histories'], 'every starting tuple, operation, identifier and value within the bound',
   'Corruption of a neighbour needs a particular layout of holes and payload chunks which the fixed test sequences do not reach.',
   ['src/gear.cxx', 'src/rw.cxx', 'fast_positive/tuples/details/rw.h'],
   [dict(name='payload relocation and hole exchange', where='src/gear.cxx')],
   'inductive step from every valid state up to the stated layout size'),
 P('P06', 'Erasing removes exactly the addressed field and reports whether it did',
   'Erasing a single field removes exactly one field of that identifier and type if there is any, erasing a collection removes all of its items, and the result tells whether anything was removed. Nothing else changes and a removed field reads as absent.',
   ['inputs', 'histories'], 'every starting tuple, identifier, type and collection size within the bound',
   'Needs duplicates, adjacent holes and tail positions in combination.',
   ['src/gear.cxx', 'src/rw.cxx', 'fast_positive/tuples/details/rw.h'],
   [dict(name='release of descriptors and payload', where='src/gear.cxx'), dict(name='erase entry points', where='src/rw.cxx')],
   'inductive step from every valid state up to the stated layout size'),
 P('P07', 'Compaction, sorting and optimization keep the content and drop all junk',
   'Compaction, index sorting and optimization of any valid tuple keep exactly the same fields with the same values and never fail. After compaction or optimization no holes remain and all the space they took is returned, and the result is valid where holes are not allowed.',
   ['inputs', 'histories'], 'every valid tuple within the bound',
   'The interesting inputs are arrangements of holes, payload order and payload-less fields that the tests never build.',
   ['src/gear.cxx', 'src/rw.cxx'],
   [dict(name='compactification', where='src/gear.cxx'), dict(name='index sorting', where='src/gear.cxx')],
   'inductive step from every valid state up to the stated layout size'),
 P('P08', 'Serialized, cloned and reopened tuples hold the same content',
   'The bytes taken from a modifiable tuple, with or without optimization, are a valid tuple which holds exactly the same fields and values. So does every read-only copy, clone or moved handle made of it, and every modifiable tuple opened from those bytes.',
   ['inputs', 'histories'], 'every field type with every value, every stated length of variable-size values, fresh, overwritten and collection fields, each serialized and reopened form',
   'Tests serialize a handful of fixed contents; a wrong length or a shifted payload for one type or one length class would pass.',
   ['src/rw.cxx', 'src/ro.cxx', 'src/gear.cxx', 'fast_positive/tuples.h', 'fast_positive/tuples/details/rw.h'],
   [dict(name='taking the serialized form', where='src/rw.cxx'), dict(name='managed read-only clones and conversions', where='fast_positive/tuples.h')],
   'all types with symbolic values; stated lengths of variable-size values'),
 P('P09', 'An operation that fails for lack of space changes nothing',
   'When a store or an insertion into a tuple of limited capacity does not fit, it reports lack of space and the tuple still holds exactly the fields and values it held before. Erasing and maintenance never fail for lack of space.',
   ['inputs', 'histories', 'fault_sequences'], 'every starting tuple, remaining capacity and operation within the bound',
   'The failing point depends on the exact remaining room for descriptors and payload together with the holes present.',
   ['src/gear.cxx', 'src/rw.cxx', 'fast_positive/tuples/details/rw.h'],
   [dict(name='space check before modification', where='src/gear.cxx')],
   'inductive step from every valid state up to the stated layout size and slack'),
 P('P10', 'A tuple which grows on demand accepts all that fits the format and loses nothing',
   'A self-growing tuple accepts every store or insertion whose result fits the format limit, whatever room it had, keeps all other fields and values, and stays consistent. Once the format limit is reached the operation is refused and nothing changes.',
   ['inputs', 'histories'], 'every starting tuple within the bound, every initial room, mixes of sizes up to the format limit, every field type',
   'Growth happens at layout-dependent moments and moves the whole tuple; tests reach it in one or two places only.',
   ['src/autogrowth.cxx', 'src/gear.cxx', 'fast_positive/tuples.h'],
   [dict(name='reallocation on lack of space and retry', where='src/autogrowth.cxx')],
   'inductive step from every valid state up to the stated layout size; sequences up to the stated number of steps for the format limit'),
 P('P11', 'Field lookup finds the first matching field whatever the CPU',
   'Looking up a field by identifier and type returns the first matching descriptor of the index, or nothing if there is none, for every number of fields, every content of the index and every placement in memory. Every implementation selectable for the CPU gives that same answer and never touches a memory page which the tuple does not occupy.',
   ['inputs', 'configurations'], 'every content of an index of every length up to the bound, placements at page boundaries and around vector sizes, every implementation',
   'Tests compare implementations on random data with few matches; tails, page ends and matches in the last vector are rarely hit, and only the variant chosen for the CPU of the test machine serves real lookups.',
   ['src/scan_portable.cxx', 'src/scan_SSE2.cxx', 'src/scan_AVX.cxx', 'src/scan_AVX2.cxx', 'fast_positive/tuples/details/scan.h'],
   [dict(name='vectorized scan of the index', where='src/scan_AVX2.cxx')],
   'index lengths up to the stated number for each implementation; the run-time choice by CPU features is outside'),
 P('P12', 'Reading an accepted tuple returns what its bytes hold',
   'For any bytes accepted as a tuple, presence tests, typed reads, collections and forward, backward and random iteration return exactly the fields and values the bytes hold, each once, and touch only those bytes. Absent fields read as empty or are refused as the caller asked, and reading by a wrong type is refused.',
   ['inputs'], 'every content of small buffers and every value in tuples of up to three fields of every type, every identifier',
   'Tests read tuples which the library wrote itself, in a few shapes; foreign layouts, duplicates, payload order and every value type are not sampled.',
   ['src/ro.cxx', 'fast_positive/tuples/details/ro.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/meta.h'],
   [dict(name='typed getters and collections', where='fast_positive/tuples/details/getter.h'), dict(name='iterators', where='fast_positive/tuples/details/ro.h')],
   'buffers up to the stated number of units with any content; layouts of up to three fields of all types with symbolic values; no schema'),
 P('P13', 'Numeric stores and reads are exact or refused',
   'Storing a number of any width and kind into a field of any numeric type keeps the very number (the integral part for a fraction stored as an integer, the nearest single precision for a single precision field), or refuses it and changes nothing. Integers which the type of the field can hold are accepted, infinities and not-a-number keep their nature, and general numeric reads return the very number held.',
   ['inputs'], 'every value of every source type, every numeric field type, single fields and collections',
   'Conversions fail at range edges and for particular pairs of types; tests try a few values for a few pairs.',
   ['fast_positive/tuples/details/rw.h', 'src/rw.cxx', 'fast_positive/tuples/details/getter.h'],
   [dict(name='range checks of numeric conversions', where='fast_positive/tuples/details/rw.h'), dict(name='the same for collections', where='src/rw.cxx')],
   'all values of all widths; one field and one neighbour in the tuple'),
 P('P14', 'Preplaced fields behave as stored values at their defined place',
   'A preplaced field of any type holds exactly the last value stored, starts with its initial value, and is present, absent, empty or refused on reading as its definition asks; neighbours and loose fields are unaffected, also when space runs out. The serialized form keeps it at its defined place, is valid for the schema, and every copy and every iteration over fields in definition order shows the same.',
   ['inputs', 'histories'], 'every type of the field, every value, every initial value, two kinds of neighbours, short histories of stores, removals, compaction and reset, ample and tight buffers',
   'Tests use preplaced fields for a few types with a few values and no removal; presence, reserved values and failures for lack of space are not sampled.',
   ['fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/meta.h', 'src/gear.cxx', 'src/ro.cxx', 'src/schema.cxx'],
   [dict(name='preplaced access and reserved values', where='fast_positive/tuples/details/meta.h'), dict(name='release and reuse of preplaced payloads', where='src/gear.cxx')],
   'schemas of three preplaced fields and one loose field; histories of a fill and two steps (quick) or three steps (thorough); opaque structures are outside'),
 P('P15', 'A schema gives every field its own identity, place and name',
   'After any sequence of definitions and imports every field is found by its name, its identity and its place and keeps its nature and initial value; no two fields share a name, an identity or a place, and preplaced fields are aligned. A definition is refused exactly when its name is taken or too long or its place is taken, and a refused definition changes nothing.',
   ['inputs', 'histories'], 'every sequence of definitions and imports within the bound, every descriptor and offset looked up, every identifier and offset of a token',
   'Mistakes in the layout of the image or in the binary searches concern particular orders and numbers of definitions.',
   ['src/schema.cxx', 'fast_positive/tuples/schema.h', 'fast_positive/tuples/token.h', 'fast_positive/tuples/essentials.h'],
   [dict(name='definitions and the image of preplaced fields', where='src/schema.cxx'), dict(name='packing of tokens', where='fast_positive/tuples/essentials.h')],
   'sequences of three definitions (quick) or four (thorough) over representative types and names; all identifiers and offsets for tokens; inner tokens of nested tuples are not implemented by the library'),
 P('P16', 'A collection shows and edits exactly its own items',
   'Walking a collection of a modifiable tuple visits every item of that identifier and type exactly once and no others. Writing to or erasing a position or a range of positions of the walk, erasing the collection, or inserting an item changes exactly those items, reports truly what was done, and keeps all other items and fields.',
   ['inputs', 'histories'], 'every starting tuple within the bound, every item addressed, every value, fixed and growing tuples',
   'Tests walk a few collections in order of creation; mixes with foreign fields, holes and erasure during a walk are not sampled.',
   ['fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/scan.h', 'src/rw.cxx', 'src/gear.cxx'],
   [dict(name='collections and their iterators', where='fast_positive/tuples/details/rw.h')],
   'inductive step from every valid state up to the stated layout size; items of the stated types'),
 P('P17', 'Reported sizes and free space are true and promised room is there',
   'The reported size, net size, number of fields, emptiness, junk, capacity and free space of a modifiable tuple always agree with its serialized form and with each other. A tuple made or reopened with room for a number of fields and bytes really takes them, and the reported free space can be used up to the last unit and not beyond.',
   ['inputs', 'histories', 'configurations'], 'every requested room, every starting tuple and every distribution of fields within the bound',
   'The accounts go wrong for particular mixes of holes and free space, which the tests do not build.',
   ['fast_positive/tuples/details/rw.h', 'src/rw.cxx', 'src/gear.cxx', 'fast_positive/tuples.h'],
   [dict(name='space accounting', where='fast_positive/tuples/details/rw.h'), dict(name='estimation of the buffer', where='src/rw.cxx')],
   'stated numbers of fields and bytes asked for; layouts up to the stated size'),
 P('P18', 'The C interface modifies exactly what is asked and reports errors truly',
   'Every update, insertion, replacement and erasure through the C interface changes exactly the named field or fields, keeps all others with their values, and returns success only if that was done. A refused call, be it a missing field, a bad argument, a wrong type or lack of space, returns the error which fits the reason and changes nothing, and buffers which are too small are never written.',
   ['inputs', 'histories'], 'every starting tuple within the bound, every type and value, every size of the given buffers within the bound',
   'Each of the many C functions forwards type, column and value by hand; tests call them in a few ways with ample space.',
   ['src/compat_rw.cxx', 'src/compat_common.cxx', 'src/compat_field.cxx', 'src/rw.cxx'],
   [dict(name='C interface for modification', where='src/compat_rw.cxx')],
   'inductive step from every valid state up to the stated layout size; all types with symbolic values; buffers up to the stated size'),
 P('P19', 'The C interface finds, counts and reads exactly what the tuple holds',
   'Through the C interface, lookup, counting and walking with any filter of columns and types visit exactly the matching fields, each once, in order. The column, type, size and value of a field are those which the bytes hold, an absent field reads as empty or as an error, and nothing outside of the tuple is touched.',
   ['inputs'], 'every accepted content of small buffers, every column, type and filter, every value of every type',
   'Filters, removed fields, absent columns and each typed reader form a space which tests sample thinly.',
   ['src/compat_ro.cxx', 'src/compat_field.cxx', 'src/compat_common.cxx'],
   [dict(name='C interface for reading', where='src/compat_ro.cxx')],
   'buffers up to the stated number of units with any content; layouts of up to three fields with symbolic values'),
 P('P20', 'Handles keep exactly their own content and release memory once',
   'Whatever sequence of creation, copying, moving, swapping, cloning, modification and release of modifiable and read-only tuples a program makes, each handle keeps showing exactly the content given to it, unaffected by changes of others. No memory is used after release, released twice or left behind, and a hollow or misfitting source is refused.',
   ['histories', 'inputs'], 'every sequence of operations within the bound over two modifiable and two read-only handles, with and without a schema',
   'Sharing of reference-counted buffers goes wrong only for particular orders of copies, moves and modifications.',
   ['src/managed.cxx', 'fast_positive/tuples.h', 'src/1Hippeus/buffer.cxx', 'src/rw.cxx'],
   [dict(name='shared buffers with reference counts', where='src/1Hippeus/buffer.cxx'), dict(name='managed tuples', where='src/managed.cxx')],
   'histories of three steps (quick) or four (thorough); one thread'),
 P('P21', 'Running out of memory leaves everything as it was',
   'When an allocation fails at any point of an operation, the operation reports lack of memory, all tuples, handles and schemas involved still hold exactly what they held before, and the same operation succeeds once memory is available. No memory leaks in such a case.',
   ['fault_sequences', 'histories'], 'every operation which may allocate, with a failure at every one of its allocations',
   'Tests never run out of memory; each failing allocation is a separate path.',
   ['src/autogrowth.cxx', 'src/managed.cxx', 'src/rw.cxx', 'src/schema.cxx', 'src/1Hippeus/allot_stdcxx.cxx', 'src/compat_rw.cxx'],
   [dict(name='growing of a tuple', where='src/autogrowth.cxx'), dict(name='schema definitions', where='src/schema.cxx')],
   'one failing allocation per operation; the failing allocation is any of the first stated number'),
 P('P22', 'Times are converted without running ahead and compared in order',
   'A time given in milliseconds, microseconds, nanoseconds, hundreds of nanoseconds or system structures is kept with exact seconds and a fraction never ahead of the given one and less than one least unit behind; the reverse conversions round down likewise. Times compare as the moments they denote.',
   ['inputs'], 'every moment which the format can hold, every unit',
   'Rounding of fixed-point conversions fails for single values out of billions.',
   ['fast_positive/tuples/types/datetime.h', 'src/time.cxx'],
   [dict(name='fixed point conversions', where='fast_positive/tuples/types/datetime.h')],
   'all values; reading of the system clock is outside'),
 P('P23', 'Fields described by a C structure behave as those of a schema',
   'A field described at compile time as a member of a structure, and the same field described at run time, denote the same bytes and the same rules: what is stored through either is read through either, with the same presence, the same refusals and the same effects of removal. No other field is affected.',
   ['inputs', 'histories'], 'every type of member, every value, with and without distinguishable emptiness, in fixed and growing tuples',
   'The two descriptions are separate template instances for each type; tests cover a few pairs.',
   ['fast_positive/tuples/token.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/field.h', 'fast_positive/tuples/details/meta.h', 'src/schema.cxx'],
   [dict(name='static tokens', where='fast_positive/tuples/token.h'), dict(name='preplaced fields', where='fast_positive/tuples/details/field.h')],
   'structures of the stated members; histories of a store, a check and a removal'),
 P('P24', 'Tuples at the limits of the format stay valid, intact and inside memory',
   'A tuple which comes close to or reaches the largest size or the largest number of fields can be opened, copied, extended and removed from as any other: an operation which stays within the limits succeeds when there is room, or always when the tuple grows on demand, and any other is refused without effect. The serialized form never exceeds the limits and is accepted by its own check, and no memory outside of the tuple is touched.',
   ['inputs', 'histories'], 'every distance from the limits within the bound, every reserve, with and without fields at fixed places, every small operation',
   'Arithmetic of sizes wraps or overlaps only within a few units of the limits, for particular reserves.',
   ['src/rw.cxx', 'src/autogrowth.cxx', 'fast_positive/tuples/details/rw.h', 'src/managed.cxx', 'src/audit.cxx'],
   [dict(name='estimation of space', where='fast_positive/tuples/details/rw.h'), dict(name='growing of a tuple', where='src/autogrowth.cxx')],
   'up to three units or fields below the limits; one large value with symbolic bytes or up to 8191 fields; removal of values above 2047 units is a known finding of P03'),
]

NOT_APPLICABLE = []
