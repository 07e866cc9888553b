"""The properties, and what is written of them: python3 vlib/props.py rewrites properties.jsonl and MANIFEST.json.
A property is listed once its check exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="exploration", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "over": over, "quant": quant, "why": " ".join(why.split()), "files": files,
              "mech": mech, "technique": technique, "note": " ".join(note.split()), "level": level})


IN, HI, SC, FA, CR, CO, PR = "inputs", "histories", "schedules", "fault_sequences", "crash_points", "configurations", "programs"

prop("C01", "What is serialized is what is read back",
     """Every serializable Python value - None, booleans, integers from -2^31 to 2^32-1, floats (rounded to single precision), strings of any width without NUL
     characters, lists, tuples, dicts, sets, bytearrays, primitive vectors and bitvectors, nested up to 256 levels of which each set or dict counts as two - reads back, item by item, as an equal value of the
     corresponding type, primitive vectors with their type code. This holds for each of the three outputs (a file, named in any script, bytearray, u8 primitive vector), and whether or not
     the data is validated when it is opened.""",
     [IN, CO], "all serializable values, three outputs, validation on or off",
     "The tests round-trip a few dozen fixed values; the encoding picks its representation from the content (ranges, string width, bit patterns, sizes), so each boundary combination is another path.",
     ["python/pointless_create.c", "src/pointless_create.c", "src/pointless_value.c", "python/pointless_object.c", "src/pointless_reader.c"],
     [("recursive import of Python objects", "python/pointless_create.c:pointless_export_py_rec"), ("heap layout and compression of vectors", "src/pointless_create.c:pointless_create_output_and_end_"),
      ("values handed back to Python", "python/pointless_instance_dispatch.c:pypointless_value")],
     "generated-value round trip monitored by a reference comparison, under ASan+UBSan",
     "Random and boundary-directed values compared with an independent statement of the expected result; sanitizers watch every execution. Trusts CPython and the generator's reach.")

prop("C02", "Sharing and cycles between containers survive a round trip",
     """Container objects of the source correspond one to one to containers of the stored data: an object which is referenced several times is stored once and is the same
     container along every path that reaches it, and distinct non-empty objects remain distinct containers, even when they are equal. References form the same graph as in
     the source, including cycles through lists and dicts, and an empty vector carries no identity.""",
     [IN], "all object graphs of containers, with sharing and cycles",
     "The tests use a handful of small cyclic graphs; identity has to hold for every combination of container types, orders of discovery and references.",
     ["python/pointless_create.c", "src/pointless_create.c", "python/pointless_vector.c", "python/pointless_map.c", "python/pointless_set.c"],
     [("object to handle map", "python/pointless_create.c:pointless_export_py_rec"), ("container_id", "python/pointless_vector.c:PyPointlessVector_get_container_id")],
     "random graphs, monitored for a bijection of identities, under ASan+UBSan",
     "Random graphs of up to 40 containers plus keys shared between sets and maps; the monitor requires a bijection of source identities and container ids reached by all paths.")

prop("C03", "Output is well-formed, and the same value gives the same bytes",
     """Whatever the library writes opens with validation switched on, and obeys the file format as independently specified: every offset in range and aligned, no two
     heap objects overlapping, equal strings stored once (and equal bitvectors too while normalize_bitvector is on), hash tables in which every key is reachable by its hash.
     Serializing the same value gives byte-identical output for all three targets, on repeated calls and in other processes
     (sets in the order Python iterates them).""",
     [IN, CO], "all serializable values; targets, processes and hash seeds",
     "No test looks at the bytes which are written, or compares outputs.",
     ["src/pointless_create.c", "src/pointless_create_cache.c", "src/pointless_hash_table.c", "python/pointless_create.c"],
     [("layout of the file", "src/pointless_create.c:pointless_create_output_and_end_"), ("hash table layout", "src/pointless_hash_table.c:pointless_hash_table_populate")],
     "offline checker: an independent decoder of the format reads every output; differential across targets and processes",
     "Each output is decoded by a separately written parser which accepts only files obeying the format and must give the source value.")

prop("C04", "What cannot be stored is refused, without side effects",
     """A value which contains anything that cannot be stored - an integer outside -2^31..2^32-1, an unsupported type, a string with a NUL character, too deep a nesting, a
     NaN, container or cyclic vector as a key, keys which become equal once stored - makes serialization raise an exception for all three targets. No output file is created or
     replaced and no temporary file remains, and the library works as before for the values that follow.""",
     [IN], "all values with an unserializable part anywhere in them",
     "Tests try a few unsupported values at the top level; the refusal has to unwind from any position in any container and leave no trace.",
     ["python/pointless_create.c", "src/pointless_create.c", "src/pointless_cycle_marker.c"],
     [("error paths of the import", "python/pointless_create.c:pointless_export_py_rec"), ("hashability of keys", "src/pointless_create.c:pointless_create_output_and_end_")],
     "poisoned values monitored for an exception, an untouched directory and a working library, under ASan+UBSan",
     "One poison is planted at a random position of a generated value. Which exception is raised is only required to be a ValueError, TypeError, OSError or RecursionError.")

prop("C05", "A stored map answers as the dict it was made from",
     """Looking up any key in a stored map - by indexing, get or in, with a Python value or with a value read from any file - gives the value of the equal key of the source
     dict, or reports it missing if there is none, where integers, booleans and single-precision floats are equal by value, and sequences item by item. This holds whatever keys
     collide, for table sizes up to the largest, and for tables written by other implementations of the format; length and all iterations give each entry exactly once and in
     the same order, and unhashable keys are refused with an exception.""",
     [IN], "all dicts and all keys looked up, present or not",
     "Tests look up the keys of a few small dicts; collisions, equal spellings of different types and near misses need constructed keys.",
     ["python/pointless_map.c", "src/pointless_hash_table.c", "src/pointless_hash.c", "src/pointless_cmp.c", "python/pointless_pyobject_hash.c", "python/pointless_pyobject_cmp.c"],
     [("probe", "src/pointless_hash_table.c:pointless_hash_table_probe_ext"), ("hash of Python objects", "python/pointless_pyobject_hash.c"), ("comparison", "python/pointless_pyobject_cmp.c")],
     "model based: every answer is compared with a Python dict, keys built to collide, under ASan+UBSan",
     "Keys are constructed to collide by inverting the hash; tables also come from an independent encoder. Lookups with a PrimVector object are outside (documented limitation).")

prop("C06", "A stored set answers as the set it was made from",
     """Membership of any value in a stored set is that of the equal value in the source set, with integers, booleans and single-precision floats equal by value and sequences
     equal item by item, whatever items collide. Length and iteration give each item exactly once, iterators are independent of each other and stay exhausted, and unhashable
     values are refused with an exception.""",
     [IN], "all sets and all values looked up",
     "As for maps: the tests probe small sets of distinct hashes.",
     ["python/pointless_set.c", "src/pointless_hash_table.c", "src/pointless_hash.c"],
     [("probe", "src/pointless_hash_table.c:pointless_hash_table_probe_ext"), ("iteration", "python/pointless_set.c")],
     "model based: every answer is compared with a Python set, items built to collide, under ASan+UBSan",
     "As C05.")

prop("C07", "Equal keys hash alike in every representation",
     """The hash of a value which can be a key is the same for the Python object, for every other Python spelling of it that compares equal (1, True and 1.0; tuples, vectors and
     primitive vectors of any width with equal items; bitvectors however stored), and for the stored value, and equals the published hash functions of the file format. Values
     which are not hashable - containers other than vectors, vectors that contain one or take part in a cycle - are refused by hashing, and the is_hashable flag of a stored
     vector is clear exactly if it is part of a reference cycle.""",
     [IN, CO], "all hashable values, all representations of them",
     "Tests compare hashes for a few hundred random values of some types; the two implementations (Python objects, stored values) branch on type, width and storage class.",
     ["src/pointless_hash.c", "python/pointless_pyobject_hash.c", "src/pointless_bitvector.c", "src/pointless_cycle_marker.c"],
     [("hash of stored values", "src/pointless_hash.c"), ("hash of Python objects", "python/pointless_pyobject_hash.c"), ("cycle marker", "src/pointless_cycle_marker.c")],
     "differential: four hash computations per value against an independent implementation, under ASan+UBSan",
     "The independent hash functions are in vlib/fmt.py. is_hashable is compared with the strongly connected components computed by the check.")

prop("C08", "Comparison is one total order, in every representation",
     """Comparing two values of comparable types gives the same result for Python objects, stored values and any mixture of the two; it is antisymmetric and transitive, agrees
     with numeric, code point, bit by bit and item by item lexicographic order, and zero exactly for equal values. Comparing incomparable types raises an exception instead of
     giving an order, and comparing cyclic values terminates.""",
     [IN, CO], "all pairs and triples of values, stored or not",
     "Tests compare random values of equal types through one representation at a time.",
     ["src/pointless_cmp.c", "python/pointless_pyobject_cmp.c", "src/pointless_unicode_utils.c", "src/pointless_bitvector.c"],
     [("comparison of stored values", "src/pointless_cmp.c"), ("comparison of Python objects", "python/pointless_pyobject_cmp.c")],
     "differential and algebraic: all mixtures of representations against a Python order, sortedness of random sets, under ASan+UBSan",
     "The reference order is Python's, on single precision floats.")

prop("C09", "A stored vector behaves as the read-only sequence it was made from",
     """A vector read from stored data, every slice of it and every slice of a slice answer length, indexing (negative and out of range too), slicing, iteration in both directions,
     membership, ordering and equality among vectors, min, max, range and bisect_left as the Python list of the same items does. This holds for every item type, and while the
     vector it was sliced from and the object it was opened with are released; a slice keeps the identity of its container, and the buffer of a primitive vector is read-only and
     holds exactly its items.""",
     [IN, HI], "all vectors, slices and operation sequences",
     "Tests check single operations on whole vectors; slices of slices at offsets, every width and iterators that outlive their vector are combinations nobody samples.",
     ["python/pointless_vector.c", "python/pointless_pyobject_cmp.c"],
     [("item access", "python/pointless_vector.c:PyPointlessVector_subscript_priv"), ("slicing", "python/pointless_vector.c:PyPointlessVector_slice")],
     "model based: random operation histories compared with a Python list, under ASan+UBSan",
     "Comparison with maps, sets and PrimVectors is not defined and outside; slice steps other than one must be refused.")

prop("C10", "A primitive vector behaves as the array of its type",
     """Every operation on a primitive vector of any of the nine types - construction from sequences and buffers, item access and assignment, append, append_bulk, pop, pop_bulk,
     remove, fast_remove, index, membership, slicing, clear, min, max, range, iteration, serialize and FromRemap - has the effect and result it has on an array of that type. A
     value which the type cannot represent exactly (rounding of floats apart) is refused with an exception, and an operation which fails leaves the vector as it was.""",
     [IN, HI], "all operation histories, types and values",
     "The tests exercise some operations with in-range random values; limits of each type, failing bulk operations and aliasing (a vector appended to itself) are not sampled.",
     ["python/pointless_prim_vector.c", "src/pointless_dynarray.c"],
     [("number parsing and range checks", "python/pointless_prim_vector.c:pypointless_parse_number"), ("roll back of failed bulk appends", "python/pointless_prim_vector.c:PyPointlessPrimVector_append_bulk")],
     "model based: random operation histories compared with array.array, under ASan+UBSan",
     "Modifying a vector from inside its own reverse iteration is outside. fast_remove must move the last item into the gap.")

prop("C11", "sort and sort_proj give an ordered permutation",
     """Sorting a primitive vector leaves the same items in non-decreasing order, and sort_proj leaves the same projection, ordered by the items of the key vectors it refers to, the
     first key first - for every item type, mixture of key types (primitive vectors, stored vectors and slices of them), number of keys and input order. A projection with an item out of
     bounds, keys of different lengths or of a wrong type are refused with an exception and nothing is changed, and NaNs never lose or duplicate an item.""",
     [IN], "all vectors, projections and keys",
     "Tests sort random vectors; patterned inputs, ties and boundary projections reach other branches of the quicksort and the bounds check.",
     ["src/custom_sort.c", "python/pointless_prim_vector.c"],
     [("quicksort", "src/custom_sort.c:bentley_sort_"), ("bounds check", "python/pointless_prim_vector.c:PyPointlessPrimVector_sort_proj")],
     "property monitored on patterned inputs: permutation, order and refusals, under ASan+UBSan",
     "The order is checked with Python's comparison of key tuples.")

prop("C12", "A bitvector behaves as the list of its bits, however it is stored",
     """A bitvector - mutable, or read from stored data in any of the storage classes of the format - answers length, items, iteration, prefix and postfix counts, IsAnySet, comparison and
     hashing as the list of its bits does, and equal bitvectors have equal hashes whatever their representation. Append, extend, append_bulk (also of itself), pop, item assignment and copy
     have their list effect on mutable ones and are refused by stored ones; a copy is independent of its original, and refused operations change nothing.""",
     [IN, HI], "all operation histories, sizes and storage classes",
     "Tests use random bits, for which only the packed and full storage classes occur, and few mutations after construction.",
     ["python/pointless_bitvector.c", "src/pointless_bitvector.c", "src/bitutils.c"],
     [("bit access per storage class", "src/pointless_bitvector.c:pointless_bitvector_is_set_bits"), ("growth", "python/pointless_bitvector.c:PyPointlessBitvector_extend_by")],
     "model based: random operation histories compared with a list of bools, under ASan+UBSan",
     "Stored bitvectors come from the library and from an independent encoder of the format.")

prop("C13", "A corrupt or hostile file is refused, or is safe to use",
     "For every byte sequence presented as a file (as a file name, a bytearray or a PrimVector of bytes, with validation, which is the default), creating the Pointless object terminates and "
     "either raises ValueError or OSError, or yields an object on every value of which every operation (reading, slicing, iterating, buffers, lookups, hashing, comparing, "
     "repr, serializing it again) terminates with a result or an ordinary exception, never SystemError, and without any access outside the file's memory, undefined behaviour or unbounded recursion. "
     "In an accepted file every set and map finds each of its own keys, its length is the number of its items, and strings are legal Python strings.",
     "inputs", "all byte sequences: truncated, extended, with flipped bits, with counts, offsets, references or types replaced, with cycles, aliased and overlapping items, wrong hash tables and arbitrary nesting",
     "The tests only read files the library wrote; the space of corruptions is unbounded and the failures are memory errors, which need a sanitizer to be seen.",
     ["src/pointless_validate.c", "src/pointless_validate_heap.c", "src/pointless_validate_heap_ref.c", "src/pointless_validate_hash_table.c", "src/pointless_walk.c", "src/pointless_reader.c", "src/pointless_cycle_marker.c"],
     [("three validation passes", "src/pointless_validate.c:pointless_validate"), ("heap bounds", "src/pointless_validate_heap.c:pointless_require_heap"),
      ("references and inline values", "src/pointless_validate_heap_ref.c"), ("hash table invariants", "src/pointless_validate_hash_table.c:pointless_hash_table_validate"),
      ("header and offset tables", "src/pointless_reader.c:pointless_init")],
     "structure aware fault injection into file images, everything reachable exercised under ASan+UBSan",
     "Time is bounded per case; bitvectors of billions of bits and keys whose expansion is exponential (as for nested tuples in Python) are left out of comparisons and hashing.")

prop("C26", "No call of the Python API can crash the interpreter",
     "For every sequence of calls of the functions, types, methods, iterators and operators of the module, with arguments of any type and value - objects which were created without being "
     "initialised, are initialised again, are exported as buffers or iterated meanwhile, subclasses of the built-in types, and objects whose special methods change the objects in use, return "
     "wrong types or raise - the process survives without any invalid memory access or undefined behaviour, and every call returns a result without an exception, or no result with one.",
     "histories", "all sequences of calls with arbitrary arguments, including hostile Python objects that call back",
     "The tests call the API as intended. Misuse has no bound, and its failures (use after free, reads past the end) often only show under a sanitizer.",
     ["pointless_ext.c", "python/pointless_object.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c", "python/pointless_create.c", "python/pointless_vector.c", "python/pointless_map.c", "python/pointless_set.c"],
     [("objects which are not open", "python/pointless_object.c"), ("iteration over arguments", "python/pointless_prim_vector.c:PyPointlessPrimVector_append_bulk"),
      ("export of arbitrary objects", "python/pointless_create.c:pointless_export_py_rec")],
     "random sessions of API calls with hostile objects, monitored by ASan+UBSan and CPython's own result checks",
     "Sessions of up to 60 calls over a pool of up to 40 objects; SystemError raised on purpose (bad internal call) is not a violation.")

prop("C14", "Nothing leaks, whether a call succeeds or fails",
     "For every workload - serializing storable and unstorable values to any target, opening valid and corrupt files, reading, iterating, looking up, comparing, hashing, printing, and any history "
     "of operations on primitive vectors and bitvectors, with failing calls anywhere in it - once all its objects are dropped, repeating it does not increase the memory in use, "
     "the open file descriptors, the mapped files, or the reference counts of any object which outlives it.",
     "histories", "all sequences of calls, successful and failing, that drop what they made",
     "A leak is invisible to assertions on results; error paths leak differently at each point of failure.",
     ["python/pointless_create.c", "src/pointless_create.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c", "python/pointless_map.c", "python/pointless_vector.c", "src/pointless_reader.c"],
     [("release of the create state", "src/pointless_create.c:pointless_create_end"), ("cleanup of failed calls", "python/pointless_create.c:pointless_write_object"),
      ("release of a file", "src/pointless_reader.c:pointless_close")],
     "allocator byte counts, file descriptors, mappings and reference counts monitored over repeated workloads",
     "A leak is reported when each of 12 and then 30 consecutive identical runs leaves more behind, so caches are not leaks.")

prop("C15", "A file stays open exactly as long as something read from it is in use",
     "Values, slices, iterators and buffers obtained from an opened file or buffer read correctly for as long as they exist, whatever else was dropped and in whatever order, also when the opening "
     "object is gone, the file was replaced or unlinked, or the buffer it came from was changed. GetRefs counts exactly the vectors, bitvectors, maps and sets which are alive, each of which holds one "
     "reference to the opening object; file descriptor and mapping are released when the last object goes. An opening object in use cannot be initialised again; GetINode and GetFileNo identify the open file (an exception, for buffers), and __sizeof__ accounts for its bytes.",
     "histories", "all histories of opening, deriving values from values, replacing files and dropping objects, in any order",
     "Tests keep everything alive until the end; an early release shows only if memory is reused or unmapped, and a late one never fails an assertion.",
     ["python/pointless_object.c", "python/pointless_vector.c", "python/pointless_map.c", "python/pointless_set.c", "python/pointless_bitvector.c", "src/pointless_reader.c"],
     [("reference counts by kind", "python/pointless_object.c:PyPointless_GetRefs"), ("values hold the opening object", "python/pointless_vector.c:PyPointlessVector_New"),
      ("release of file and mapping", "src/pointless_reader.c:pointless_close")],
     "random object histories checked online against a model of which objects are alive, under ASan+UBSan",
     "An exhausted iterator may or may not keep its container alive. Files are replaced by renaming or unlinked, never truncated in place.")

prop("C16", "A file appears complete or not at all",
     """serialize(obj, fname) replaces the file of that name atomically: at every moment, and when the process dies at any point, the name refers to what was there before (a file, or
     nothing), untouched, or to the complete new file. When the call returns normally the complete file is there, readable by its owner, and it had been flushed to stable storage before it got the name. When
     anything fails - any system call, a full disk, memory, a value which cannot be stored - the call raises an exception, what was there is as it was, and neither temporary files nor file descriptors are
     left behind (unless removing the temporary file is what failed). Partial writes are completed. Any number of processes may write the same name at once: each succeeds, and the file is always one of theirs, whole.""",
     [FA, CR, SC], "all values and names, any one failing system call (or all later ones of a kind), death before or after any system call, any interleaving with other writers and readers",
     "Tests write files on a healthy disk in one process; what matters shows only when a particular system call fails, the process dies between two of them, or two writers overlap.",
     ["src/pointless_create.c", "python/pointless_create.c"],
     [("temporary file, sync, rename", "src/pointless_create.c:pointless_create_output_and_end_f"), ("cleanup on failure", "src/pointless_create.c:pointless_create_output_and_end_f"),
      ("errors of the output callbacks", "src/pointless_create.c:file_write")],
     "system-call tracing with fault and crash injection at each call; a monitor judges the directory, both files, descriptors and the order of write, fsync and rename",
     "Children of the check are traced with ptrace. Durability is judged by the order of the calls, assuming that fsync does what it says.", level="fault_enumeration")

prop("C17", "Running out of memory is an exception and nothing else",
     """Whenever an allocation fails, in the library or in the interpreter on its behalf, during any call of the API - serializing, opening, validating, reading, looking up, comparing, hashing,
     printing, and every operation of primitive vectors and bitvectors - the call raises an exception or gives the very result it gives without the failure. The process does not crash or exit, no memory is
     accessed out of bounds or left behind, values which were to be changed are as before (operations which add several items may have added the first of them; an object whose
     initialisation fails may be empty), and the same call works once there is memory again.""",
     [FA, IN], "all calls of the API, each of the allocations they make failing alone, or it and all later ones",
     "No test runs out of memory; each allocation has its own cleanup path, none of which runs otherwise.",
     ["src/pointless_create.c", "src/pointless_cycle_marker.c", "src/pointless_dynarray.c", "src/pointless_validate.c", "src/pointless_reader.c", "python/pointless_create.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c"],
     [("allocation wrappers", "src/pointless_malloc.c:pointless_malloc"), ("cleanup of a failed output", "src/pointless_create.c:pointless_create_output_and_end_"), ("growth of arrays", "src/pointless_dynarray.c:pointless_dynarray_grow")],
     "allocation-failure injection at each allocation of generated calls, with result, state and leak monitors under ASan+UBSan",
     "The library's allocations are intercepted at link time, the interpreter's through its allocator hooks. Trusts CPython to survive refused allocations.", level="fault_enumeration")

prop("C19", "Stored values can be serialized again",
     """A value taken from opened data - the root, any value within it, a slice of a vector, a key - can be serialized again, alone or as part of a new Python value, mixed with values of other
     files, with any options, and any number of times over. It is stored as the Python value it was made from would be: equal items, vectors of a primitive type keep the type, sets and maps
     answer for the same keys, the containers within it keep their identity (shared ones stay shared, distinct ones distinct, cycles cycles), and one object used at several places is one container.
     A slice contributes exactly its items. This also holds for data of other writers of the format, and the output is well-formed and the same each time.""",
     [IN, HI], "all stored values and combinations of them in a new value, options, and repeated serialization",
     "The tests re-serialize a few values whole; conversion has a path of its own for each type and its own tables for identity, which only matter on shared, cyclic and sliced values.",
     ["src/pointless_recreate.c", "python/pointless_create.c", "src/pointless_create.c"],
     [("conversion of stored values", "src/pointless_recreate.c:pointless_recreate_convert_rec"), ("slices", "src/pointless_recreate.c:pointless_recreate_vector_slice"),
      ("import of stored objects", "python/pointless_create.c:pointless_export_py_rec")],
     "generated mixes of stored and Python values, monitored through the library and an independent decoder against the original sources and their identities, under ASan+UBSan",
     "Whether two separately obtained objects of one stored container stay two containers is left open.")

prop("C22", "The C reading API gives what is stored",
     """What a C program reads from a file it has opened is what the file holds. Types, lengths, items of vectors of each type, the code points of strings, bits and counts are those stored; the hash of
     a value agrees with the one in the file; set and map lookups find exactly the keys equal to the one asked for, with its value; iteration gives each item once (an iterator by hash at least once, and
     every item of that hash); the helpers (value, integer, set, map or vector under a string, n-byte string, unicode or integer key; membership of integers; same keys in two containers;
     evaluation of index paths such as "[1]['a']") give the value when there is one of the requested kind and the failure result else; the walk visits every container below the root. No call
     reads outside the file's data or the caller's buffers, changes the file, or leaks; failures are reported by result.
     The vector helper serves vectors of primitive types and empty ones; integer helpers match keys of integer type only; paths refuse items of 64 bit vectors.""",
     [IN], "all valid files (of this library and of other writers), values within them, and keys/paths, present and absent",
     "The reading API is the library's main purpose, yet the Python tests use a fraction of it and the C tests a few fixed values.",
     ["src/pointless_reader.c", "src/pointless_reader_helpers.c", "src/pointless_reader_utils.c", "src/pointless_eval.c", "src/pointless_walk.c", "src/pointless_hash_table.c", "src/pointless_cmp.c"],
     [("accessors", "src/pointless_reader.c"), ("helpers", "src/pointless_reader_helpers.c"), ("paths", "src/pointless_eval.c"), ("probing", "src/pointless_hash_table.c")],
     "generated files and calls of the C API, every result monitored against an independent decoder of the file's bytes, under ASan+UBSan",
     "Uses the decoder vlib/fmt.py. C entry points are called through ctypes in the sanitized library.")

prop("C23", "The C creation API writes what it was told",
     """A file a C program builds with pointless_create_* holds what was built: output (to a file, to a buffer, or 64 or 32 bit) succeeds and the result is valid and decodes to the graph of the handles, with equal
     strings, bitvectors, integers and constants possibly shared and other containers kept distinct as the handles were. Each pointless_create_* call returns a handle or POINTLESS_CREATE_VALUE_FAIL, and calls with
     handles which do not exist or have the wrong type (value_append, value transfer, set_add, map_add) are refused with FAIL. Output fails, with a message and no file left behind, exactly when no root is set
     or a set or map holds unhashable, empty-slot or duplicate keys. Buffers of owner vectors stay the caller's; handed-over ones are freed with the context. Two contexts do not disturb one another, the same
     calls write the same bytes, and when memory is refused the call or output fails (or the file is right); in every case pointless_create_end/output leave nothing allocated or open.
     Strings end at their first NUL; value vectors of only integers or only floats may be stored as vectors of primitive type; empty vectors have no identity; the 32 bit version is not supported for output.""",
     [IN], "all programs of pointless_create_* calls, with wrong handles and refused allocations, and two contexts interleaved",
     "The Python extension uses a part of this API in one order; tests of it write a few fixed files.",
     ["src/pointless_create.c", "src/pointless_create_cache.c", "src/pointless_hash_table.c", "src/pointless_value.c", "include/pointless/pointless_create.h"],
     [("handles and vectors", "src/pointless_create.c"), ("refusals and clean-up", "src/pointless_create.c"), ("buffers handed over", "src/pointless_create.c")],
     "generated programs of creation calls, with injected allocation failures, run in the sanitized library; files decoded independently and compared with the program; ledger of the library's allocations",
     "Model of the program in Python, file decoder vlib/fmt.py; malloc and relatives are wrapped in the C harness to count and refuse.")

prop("C24", "Checked integer operations and the expression evaluator are exact",
     """The checked additions and multiplications of 32 bit, 64 bit and size_t integers give the exact result, or say that it overflows, never a wrapped value. The expression evaluator (compile, then evaluate)
     gives the exact unsigned 64 bit value of an expression of numbers, + - * / and parentheses, products and quotients binding first and otherwise from left to right, with division truncated; it reports
     failure for text which is not an expression, overflow, results below zero and division by zero, at compilation or evaluation, and evaluation after a failed compilation fails. No text makes it access
     memory outside its own, however long or deeply nested. Numbers of up to 30 digits and expressions of up to 512 tokens are considered; variables are not.""",
     [IN], "all pairs of integers and all texts",
     "Sizes of everything written and read pass through these operations; tests sample a handful of values.",
     ["src/pointless_int_ops.c", "include/pointless/pointless_int_ops.h"],
     [("checked operations", "include/pointless/pointless_int_ops.h"), ("evaluator", "src/pointless_int_ops.c")],
     "generated operands around every power of two and generated expressions, results monitored against Python's exact integers, under ASan+UBSan",
     "Exact arithmetic of Python as oracle.")

prop("C25", "Judy arrays behave as ordered maps and sets",
     """The bundled Judy library, on which graph building, cycle detection, caches and validation rest, behaves as the ordered maps and sets it implements: after any history of insertions, deletions and bulk
     builds, JudyL (word to word), Judy1 (words), JudySL (strings) and JudyHS (byte strings) hold just the keys and last values put in; get, first/last/next/previous, the same for empty indexes, counts
     of ranges and by-count selection answer as a sorted list would; insertion and deletion report whether they changed anything; freeing gives back all memory, and its amount is the one
     reported. A JudyL or Judy1 insertion which fails for lack of memory changes nothing and leaks nothing. No memory is accessed outside the arrays.
     Failing deletions and failing JudySL/JudyHS insertions, for lack of memory, are not considered.""",
     [IN], "all histories of operations, over keys dense, sparse and clustered, and refused allocations",
     "Judy has some dozens of node kinds, converted into one another at population thresholds; no test of the repository addresses it.",
     ["judy-1.0.5/src/JudyCommon/JudyIns.c", "judy-1.0.5/src/JudyCommon/JudyDel.c", "judy-1.0.5/src/JudyCommon/JudyCascade.c", "judy-1.0.5/src/JudyCommon/JudyDecascade.c", "judy-1.0.5/src/JudyCommon/JudyGet.c",
      "judy-1.0.5/src/JudyCommon/JudyPrevNext.c", "judy-1.0.5/src/JudyCommon/JudyCount.c", "judy-1.0.5/src/JudySL/JudySL.c", "judy-1.0.5/src/JudyHS/JudyHS.c"],
     [("insertion and deletion", "judy-1.0.5/src/JudyCommon/JudyIns.c"), ("node conversion", "judy-1.0.5/src/JudyCommon/JudyCascade.c"), ("ordered access", "judy-1.0.5/src/JudyCommon/JudyPrevNext.c")],
     "generated histories of operations, every answer monitored against a sorted model, Judy itself compiled with AddressSanitizer, allocations refused and counted",
     "A Python dict and sorted list as the model.")

prop("C18", "Threads do not disturb one another",
     """C: after a file was opened, any number of threads may read it through the same pointless_t at once; threads which create, open, recreate, evaluate and sort on objects of their own are
     independent. Python: threads may share opened files and their values, open, replace and drop them, initialise one object again at once (one is served, others may be refused with ValueError),
     serialize values which no one changes, to one name too, open buffers which others attempt to resize, and sort vectors of their own. Each result is what the call gives alone (for a
     name written by several: one writer's complete value), there is no data race, nothing is freed in use, and the interpreter survives.""",
     SC, "all schedules of threads over shared readers and independent writers",
     "A race needs a particular schedule, and usually shows nothing; the two threaded tests do not look at the results.",
     ["src/pointless_reader.c", "src/pointless_create.c", "src/pointless_eval.c", "src/pointless_int_ops.c", "src/pointless_cycle_marker.c", "python/pointless_object.c", "pointless_ext.c", "judy-1.0.5/src/JudyCommon/JudyMalloc.c"],
     [("the lock of the interpreter is released", "python/pointless_object.c:PyPointless_init"), ("readers without state", "src/pointless_reader.c"), ("buffers in use are locked", "python/pointless_prim_vector.c")],
     "C threads (harness/threads.c) and Python threads with short switch intervals, all code compiled with ThreadSanitizer, results compared with those of single-threaded runs",
     "Schedules are those of the machine, with barriers and random order; overlapping tasks are counted. ThreadSanitizer sees the interpreter lock through its mutex, so unlocked accesses are found when they do not collide in time.")

prop("C20", "The text of a value shows the value",
     """str() and repr() of any stored value, or slice of one, give the same text, which is that of its items in order in Python's notation: vectors as lists (as tuples within keys, with the comma of a single item),
     dicts as "{key: value}", sets as "set([item, ...])", strings as repr() gives, integers, None, True and False, floats with 6 decimals, bitvectors as their bits from last to first followed by "b". A container
     within itself, and only that, is abbreviated to "[...]", "{...}" or "set([...])" depending on its type. Primitive vectors and bitvectors of the program's own are shown likewise. Where printing was disallowed
     (allow_print=False) the text has the type and the address only.""",
     [IN], "all values, slices and keys",
     "One test looks at texts, of a few vectors; nesting of keys, values, slices and cycles gives unlimited combinations.",
     ["python/pointless_print.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c"],
     [("text of stored values", "python/pointless_print.c"), ("detection of cycles", "python/pointless_print.c:print_state_has_container"), ("text of primitive vectors", "python/pointless_prim_vector.c:PyPointlessPrimVector_str")],
     "generated values, slices and cyclic graphs, their texts compared with an independent rendering of the items read one by one, and evaluated where possible",
     "Values whose text would have more than 20000 items are not printed.")

prop("C21", "Stored data is read-only, and exported memory stays in place",
     """Nothing a program does with values it has read changes them, the file, or what is read from it again: assignment, deletion, attributes, methods which modify lists, dicts, sets and bitvectors, and
     writing through the buffer protocol are all refused with an exception, and so is making objects of the types of stored values directly, bitvectors aside; a copy of a stored bitvector can be changed without
     changing the original. What was opened from a bytearray or primitive vector does not depend on it further: changing, resizing or dropping it has no effect. The memory of a primitive vector is writable through the
     buffer protocol, and vector and buffers see one another's writes; while any buffer is exported each operation that would change the vector's length, initialising it again included, is refused with BufferError and changes
     nothing, the memory does not move, and it outlives the vector itself; once all are released the vector can be resized again.""",
     [IN, HI], "all stored values and ways of writing; all histories of vectors with exported buffers",
     "No test tries to write; a missing lock or read-only flag shows only when someone does, by corrupting memory.",
     ["python/pointless_vector.c", "python/pointless_prim_vector.c", "python/pointless_bitvector.c", "python/pointless_map.c", "python/pointless_set.c", "src/pointless_reader.c"],
     [("read-only buffers", "python/pointless_vector.c:PyPointlessVector_as_buffer"), ("resizing is locked", "python/pointless_prim_vector.c:PyPointlessPrimVector_can_resize"), ("a copy is made of buffers", "src/pointless_reader.c:_pointless_open_b")],
     "attempts to write to generated values, and histories of vectors with exported buffers, monitored against what was stored and a model of the vector, under ASan+UBSan",
     "Ways of writing are those Python has without ctypes memory access.")

prop("C27", "The string, bitvector, array and sorting helpers of the C library are exact",
     """For strings of one, two or four byte characters ending at their first NUL: the length functions count the characters; the copy functions copy them and the NUL; pointless_is_*_ascii tells whether all fit
     into a byte; the conversions give a new block with the same characters, or null when memory is refused; pointless_cmp_string_*_* orders by code points, whatever the two widths, and the *_n forms take the second
     string as so many characters without a NUL; the string hashes of version 1 depend on the characters alone, not on their width. For bitvectors: length, each bit, "any set", the 32 and 64 bit hash and
     the comparison (first differing bit, then length) are the same for each of the stored forms (buffer, all zero, all one, 0..01..1, 1..10..0, packed) and for loose bits; bits past the end do not matter.
     A dynamic array holds what was pushed, item by item or in bulk, less what was popped, as swapped or given, and a push whose memory is refused returns 0 and leaves it as it was. bentley_sort_ permutes,
     sorts, calls back only with indices in range, and returns 0 exactly when the comparison failed. The number of buckets for n items is the least power of two not below n + n/2 (2 for one item, 0 when there is none below 2^32).
     None of this reads or writes outside of the operands.""",
     [IN, HI, FA], "all strings, bitvectors and forms, array histories with refused allocations, and orders to be sorted",
     "Most of these are reached from Python with one width, one form or a short input; the tests of the library compare none of them with a model.",
     ["src/pointless_unicode_utils.c", "src/pointless_cmp.c", "src/pointless_hash.c", "src/pointless_bitvector.c", "src/pointless_dynarray.c", "src/custom_sort.c", "src/bitutils.c", "src/pointless_hash_table.c"],
     [("string comparison", "src/pointless_cmp.c:POINTLESS_CMP_STRING"), ("forms of bitvectors", "src/pointless_bitvector.c"), ("growth of arrays", "src/pointless_dynarray.c:pointless_dynarray_grow"),
      ("sort", "src/custom_sort.c:bentley_qsort_priv")],
     "generated inputs in exactly sized heap blocks, run in the sanitized library with injected allocation failures, compared with Python's own strings, lists and sort",
     "Operands are within the documented contract (strings end with NUL, indices are in range, converted strings fit).")

prop("C28", "Copies and printouts made by the C library show what a file holds",
     """pointless_recreate_64(in, out) writes a file whose values are those of the input, container by container: strings, numbers, bits and item types are equal, what was shared or cyclic in the input is so in the
     copy, and nothing else is. The two names may be the same. It returns 0 with a message, leaves the destination as it was and nothing else behind, when the input is missing or not valid, the destination
     cannot be written, or memory is refused; it never changes another file, and all it allocated and opened is released. pointless_recreate_value and pointless_recreate_vector_slice do the same for one value, or a range of
     items of a value vector, into a file under construction, for any number of sources; what separate calls copied is separate. pointless_debug_print and _print_value write the whole value as text: integers in decimal, floats as %f,
     True, False, NULL, strings quoted with ? for other than ASCII, bits as <0101>, vectors as [..,..] (with H when hashable or of primitive type), sets as set([.., ..]) and maps as {..: ..} in the order of
     pointless_cmp_reader, which is transitive, and [...], set([...]) or {...} for a container within itself; they return 0 with a message when memory is refused.""",
     [IN, FA], "all files, also damaged ones; all values and slices of them; bad destinations and refused allocations",
     "Neither is used by the Python tests on more than trivial values; wrong sharing in a copy or an order which depends on the representation is not visible in small examples.",
     ["src/pointless_recreate.c", "src/pointless_debug.c", "src/custom_sort.c", "src/pointless_cmp.c", "src/pointless_create.c"],
     [("copy with maps of what was copied", "src/pointless_recreate.c:pointless_recreate_convert_rec"), ("printing", "src/pointless_debug.c:pointless_print_value"), ("order of keys", "src/pointless_cmp.c:pointless_cmp_reader_rec")],
     "generated files copied and printed by the sanitized library with injected failures; copies decoded independently and matched one to one, text compared with a model, ledger of allocations, files and descriptors",
     "The order of keys is taken from pointless_cmp_reader and checked for consistency. Values whose text is longer than 60000 characters are not printed.")


def write():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/vp/venv/bin/python vlib/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "/opt/vp/venv/bin/python vlib/drv.py %s --tier quick" % p["id"],
                     "thorough_cmd": "/opt/vp/venv/bin/python vlib/drv.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in have],
         "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties" % len(have))


if __name__ == "__main__":
    write()
