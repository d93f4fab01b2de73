"""Single source of properties.jsonl, MANIFEST.json and the per-property table of DESIGN.md.

python3 meta/catalog.py   rewrites the first two (and checks them against the schemas when these are present)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, level_note=level_note))


A = "awkward0/array/"

prop("C01", "Selecting from a jagged array gives exactly what nested lists give",
     "For any jagged array, an integer, slice, boolean mask, integer array, tuple of these (row, then element), jagged boolean mask or jagged integer index returns exactly what the same selection returns on the equivalent nested Python lists, or raises where lists cannot satisfy it (out of range, wrong mask length). This holds however the rows are physically stored (contiguous offsets, gaps, reordered, unreachable content, stops longer than starts, any integer dtype or stride), for every kind of content, and again for selections of the selected array. Iteration, integer indexing, len and tolist always agree with each other.",
     ["inputs", "histories"], "every jagged structure up to the bound, in ten physical layouts, with twenty-two kinds of content, every selection of a systematic alphabet, and chains of selections",
     "the tests select from a handful of hand-written arrays that are nearly all stored as one contiguous offsets array of numbers; the guarantee is over all structures, layouts and chains of selections",
     [A + "jagged.py"], [("JaggedArray.__getitem__ and its per-dimension helper", A + "jagged.py"), ("offsets/starts/stops bookkeeping after a selection", A + "jagged.py")],
     ["result of x[selection], iterated, indexed and converted with tolist()"],
     "exhaustive within the bounds against a nested-list reference model")

prop("C02", "Jagged structure: offsets, counts, parents and constructors agree",
     "The counts, offsets, starts, stops, parents, local index and flattened content reported by a jagged array all describe the same nested list as iterating over it, whatever its physical layout. Building a jagged array from an iterable, offsets, counts, parents, uniques, a local index or a regular array gives exactly the nested list those inputs describe, and building it again from the quantities it reports gives the same nested list. Conversions between offsets, counts, starts/stops and parents are mutually inverse.",
     ["inputs"], "every count vector, parents vector and offsets vector up to the bound, in every layout",
     "tests check one or two literal arrays per constructor; empty rows at either end, negative parents and gaps are combinations they do not reach",
     [A + "jagged.py"], [("from* constructors and the conversion functions", A + "jagged.py"), ("counts/offsets/parents/localindex properties", A + "jagged.py")],
     ["x.counts, x.offsets, x.parents, x.localindex, x.flatten() and JaggedArray.from*"],
     "exhaustive within the bounds against a nested-list reference model")

prop("C03", "Structure-changing operations preserve every element",
     "flatten, pad, fillna, concatenate (both axes), compact, regular, zip, the conversion to another array's jaggedness, and deepcopy return exactly the nested list that the same operation gives on nested Python lists: no element is lost, duplicated, reordered or replaced, and no unreachable content becomes visible. The result does not depend on how the input is physically stored.",
     ["inputs", "programs"], "every jagged structure up to the bound in every layout and content kind, every operation and argument, and compositions of two operations",
     "tests apply each operation to one contiguous array; gaps, reordering, padding to zero, empty operands and mixed content kinds are not reached",
     [A + "jagged.py", A + "base.py", A + "masked.py"], [("flatten, pad, regular, compact, concatenate, zip, tojagged", A + "jagged.py"), ("_util_pad, _util_flatten, _util_fillna", A + "base.py")],
     ["value of the returned array"], "exhaustive within the bounds against a nested-list reference model")

prop("C04", "Universal functions act element by element and broadcast correctly",
     "A Numpy universal function or arithmetic, comparison or logical operator applied to jagged arrays with flat arrays and scalars, in any argument order, gives the result of applying it to each element, with a flat array's i-th value applied to every element of row i. Operands whose row lengths differ raise an error instead of giving a wrong result. Multiple-output functions, nested jaggedness, tables and masked content obey the same rule, operands are never modified, and the result does not depend on the physical layout of either operand.",
     ["inputs"], "every pair of jagged structures up to the bound, each in every layout, times every operator class and operand order",
     "tests combine arrays sharing the same offsets; operands with different physical layouts, nested structure or unequal counts hidden by equal totals are not reached",
     [A + "jagged.py", A + "table.py", "awkward0/util.py"], [("JaggedArray.__array_ufunc__ and tojagged broadcasting", A + "jagged.py"), ("NDArrayOperatorsMixin", "awkward0/util.py")],
     ["result of the operator, and the operands afterwards"], "exhaustive within the bounds against an element-wise reference model")

prop("C05", "Reducers summarise each row exactly, with the documented identities",
     "sum, prod, min, max, any, all, count, count_nonzero, mean, var and std of a jagged array give, for each row, that statistic of exactly the row's own elements: NaN and missing values do not take part, an empty row gives the identity of the operation, and content outside any row never contributes. On flat arrays, tables (per column) and nested jagged arrays (innermost axis) the same holds, and the result does not depend on the physical layout.",
     ["inputs"], "every jagged structure and small value assignment (including NaN, infinities, booleans and several dtypes) up to the bound, in every layout, for every reducer",
     "tests reduce contiguous arrays; empty rows at the end, gaps, reordering, overlapping rows and NaN in combination are not reached",
     [A + "jagged.py", A + "base.py"], [("JaggedArray._reduce, reduceat and identity substitution", A + "jagged.py"), ("reducers in AwkwardArray", A + "base.py")],
     ["value returned by each reducer"], "exhaustive within the bounds against a per-row reference model")

prop("C06", "Combinatorics enumerate exactly the right tuples, in order",
     "cross, pairs, distincts and choose(n) of a jagged array enumerate, row by row, exactly the cartesian product, the pairs with repetition, the distinct pairs and the n-element combinations of the row's elements, each once and in the documented order (lexicographic; for choose, combinations of earlier elements first); the arg- versions give local indexes which, applied to the array, give the same tuples. With nested=True the same tuples are grouped by their left element. The result does not depend on the physical layout of the operands.",
     ["inputs"], "every jagged structure, and every pair of structures for cross, up to the bound, in every layout",
     "tests use one or two contiguous arrays; empty rows, gaps, chained crosses and unequal layouts are not reached",
     [A + "jagged.py"], [("cross/argcross, pairs, distincts, choose", A + "jagged.py")],
     ["tolist() of the result, and selecting with the arg- version"], "exhaustive within the bounds against itertools")

prop("C07", "argmin, argmax and argsort locate elements within their own row",
     "argmin and argmax of a jagged array give, for every non-empty row, the position inside that row of the first smallest or largest element, and nothing for an empty row, so that selecting with them yields exactly the minimum or maximum. argsort gives a permutation of each row's positions which sorts that row in the requested direction. The result does not depend on the physical layout, and the operands are not modified.",
     ["inputs"], "every jagged structure with every small assignment of values (ties included) up to the bound, in every layout",
     "tests use contiguous arrays without ties; gaps, reordering, empty first or last rows and ties are not reached",
     [A + "jagged.py", A + "chunked.py"], [("argmin/argmax/_argminmax and argsort", A + "jagged.py")],
     ["x.argmin(), x.argmax(), x.argsort(), x[x.argmin()]"], "exhaustive within the bounds against a per-row reference model")

prop("C08", "Reassigning parts of an array never leaves stale derived information",
     "After any sequence of reading derived quantities (offsets, counts, parents, local index, validity) and reassigning starts, stops, offsets, counts, parents, content, mask, index or tags, an array reports and computes exactly what a freshly built array with the same parts would. A copy made at any point is unaffected by later reassignment of the original, and the other way round.",
     ["histories"], "every sequence up to the bound of reads, reassignments and copies",
     "the tests do not reassign parts after reading cached quantities; the guarantee is over orders of operations",
     [A + "jagged.py", A + "masked.py", A + "indexed.py", A + "union.py"], [("property setters resetting cached offsets/counts/parents/isvalid", A + "jagged.py")],
     ["all derived quantities and the nested-list value after every step"], "exhaustive histories within the bounds against a freshly built array")

prop("C09", "Missing values stay exactly where they are",
     "An element of a masked array is missing exactly when its mask says so, in all three encodings (byte mask, bit mask in either bit order, index with a sentinel), with either sense of the mask, and selecting by integer, slice, mask or integer array moves missing and present elements exactly as on a list with None. Converting between the encodings, and boolmask, isvalid, unmasked content, copies and fillna agree with that. The content stored underneath a missing element is never shown.",
     ["inputs"], "every mask up to the bound (crossing byte boundaries for bit masks), every encoding, sense and bit order, times every selection",
     "tests use one mask per class; bit order crossed with sense, length and selection is not reached",
     [A + "masked.py"], [("MaskedArray, BitMaskedArray, IndexedMaskedArray __getitem__/__iter__/boolmask", A + "masked.py")],
     ["iteration, indexing, tolist, boolmask, ismasked, fillna"], "exhaustive within the bounds against a list with None")

prop("C10", "Missing values propagate through computation and are left out of reductions",
     "A universal function of masked arrays gives a missing result exactly where any operand is missing and the ordinary result elsewhere, for every combination of encodings, plain arrays and scalars. Reducers ignore missing elements, and concatenation, flattening, counts and filling keep each element's value and missing status. Values stored under missing elements never influence any result, and operands are not modified.",
     ["inputs"], "every pair of masks up to the bound in every encoding, times operators and reducers",
     "tests combine one mask with a scalar; mixed encodings and the values hidden under masks are not varied",
     [A + "masked.py"], [("__array_ufunc__, _reduce/_prepare, fillna, flatten, _concatenate_axis0", A + "masked.py")],
     ["result values, operands afterwards"], "exhaustive within the bounds against a list with None; hidden values are varied")

prop("C11", "A chunked array behaves as the concatenation of its chunks",
     "Selections, universal functions, reducers, counts, flattening, padding and concatenation of a chunked array give exactly what they give on the single array obtained by joining its chunks, wherever the chunk boundaries fall and whichever chunks are empty. Global and local positions convert into each other consistently, and operands chunked differently combine correctly or are refused.",
     ["inputs"], "every way to cut arrays up to the bound into chunks (empty chunks included), times every operation; pairs of different cuts for binary operations",
     "tests use one or two fixed chunkings; boundaries crossed with selections are combinatorial",
     [A + "chunked.py"], [("ChunkedArray global2local/local2global, __getitem__, __array_ufunc__", A + "chunked.py")],
     ["value of every operation"], "exhaustive within the bounds against the joined array")

prop("C12", "An appendable array holds exactly what was appended",
     "After any interleaving of append, extend, selection, arithmetic, reduction and slicing, an appendable array's length and elements are exactly those appended so far, in order, whatever the chunk size. Values reserved but not yet appended are never visible in any result, and results taken earlier do not change when more is appended.",
     ["histories"], "every interleaving up to the bound of appends, extends and reads, for several chunk sizes and dtypes",
     "the tests append a fixed sequence and look once; the guarantee is over histories crossing chunk boundaries",
     [A + "chunked.py"], [("AppendableArray.append/extend", A + "chunked.py")],
     ["length, iteration and derived results after every step"], "exhaustive histories within the bounds against a list")

prop("C13", "Tables keep rows intact through selections and column changes",
     "Selecting rows of a table by integer, slice, mask or integer array, selecting columns by name or list of names, and chains of both give the same rows as a list of records, including on tables that are themselves views and in jagged tables. Adding, replacing and deleting columns changes exactly those columns, is visible through selections of the same table in the same way as documented for views, and a failed change leaves the table as it was. Row access by name, attribute and iteration agree.",
     ["inputs", "histories"], "every chain up to the bound of row selections, column selections and column changes",
     "tests slice one table once or twice; views of views with negative steps, masks of views and changes after selections are histories they do not reach",
     [A + "table.py"], [("Table._newslice/_index views and __getitem__/__setitem__/__delitem__", A + "table.py")],
     ["rows, columns and values after every step"], "exhaustive chains within the bounds against a list of records")

prop("C14", "Indexed and sparse arrays look like the dense array they stand for",
     "An indexed array is indistinguishable from its content gathered by its index, and a sparse array from the dense array with its stored values at their positions and the default everywhere else, under selections, chains of selections, universal functions, reducers, counts and concatenation. This holds for repeated and unordered indexes, empty storage, storage at the ends, and nested content, and reading never changes the array or the user's index.",
     ["inputs"], "every index vector up to the bound over several content kinds, times every selection and operation",
     "tests use one index per class; empty storage, ends of the range and chained selections are not reached",
     [A + "indexed.py"], [("IndexedArray.__getitem__", A + "indexed.py"), ("SparseArray.__getitem__, dense, boolmask", A + "indexed.py")],
     ["value of every operation"], "exhaustive within the bounds against the dense array")

prop("C15", "A union array yields each element from the branch its tag names",
     "Element i of a union array is always the element at the i-th index of the branch named by the i-th tag, under iteration, every selection and chains of them, whatever mixture of branches remains. A universal function applies to each element by its own type and keeps positions; counts and column selection follow the same rule. Unused branches and content never influence a result.",
     ["inputs"], "every tag vector and index assignment up to the bound over several branch combinations, times every selection and operation",
     "tests use one or two tag vectors; selections leaving one branch or none, and branches out of order, are combinations they do not reach",
     [A + "union.py"], [("UnionArray.__getitem__, __array_ufunc__, fromtags", A + "union.py")],
     ["value of every operation"], "exhaustive within the bounds against a list")

prop("C16", "A virtual array is what it generates, whatever its cache forgets",
     "A virtual array always behaves as the array its generator returns: before and after materialisation, through selections and arithmetic, with no cache, a persistent cache or a cache that evicts at any moment. The generator is called only when data are needed and not again while the value is cached. Columns assigned to or deleted from a virtual table survive eviction and rematerialisation, and two virtual arrays never see each other's cached value.",
     ["histories", "fault_sequences"], "every sequence up to the bound of reads, evictions, column assignments and deletions, copies and selections, over several cache behaviours",
     "the tests materialise once; the guarantee is over evictions at arbitrary points of a history",
     [A + "virtual.py", "awkward0/util.py"], [("VirtualArray.array/materialize and replay of assignments", A + "virtual.py"), ("cache keys", A + "virtual.py")],
     ["value and number of generator calls after every step"], "exhaustive histories within the bounds against an eager model")

prop("C17", "String arrays hold the exact strings",
     "A string array built from any iterable of strings (or bytes), from a character array, or from offsets holds exactly those strings, including empty, non-ASCII and multi-byte ones, in every encoding supported. Selections, concatenation, comparison with a string or another string array, and conversions to Numpy and back behave as on a list of Python strings.",
     ["inputs"], "every tuple up to the bound over an alphabet of strings with one- to four-byte characters, times encodings, constructors and selections",
     "tests use one ASCII list; multi-byte characters crossing element boundaries and empty strings at the ends are not reached",
     [A + "objects.py"], [("StringArray constructors, __getitem__ and comparison", A + "objects.py")],
     ["tolist(), comparison results"], "exhaustive within the bounds against lists of str/bytes")

prop("C18", "Object arrays and mixed-in methods see the right data everywhere",
     "Each element of an object array is the object its generator makes from the corresponding stored element, through selections and chains, in jagged, masked and chunked arrays alike. Methods mixed into an array stay available through selection, jagged nesting, masking, concatenation and arithmetic exactly as documented, and act on the data of that selection.",
     ["inputs", "programs"], "every selection and nesting up to the bound over object and method arrays",
     "tests check one selection of one nesting; combinations of nesting and selection are not reached",
     [A + "objects.py"], [("ObjectArray.__getitem__, Methods.mixin/maybemixin", A + "objects.py")],
     ["objects and method results"], "exhaustive within the bounds against lists of objects")

prop("C19", "fromiter and tolist are inverse for every mixture of data",
     "Converting Python data (numbers, booleans, strings, bytes, None, lists, dictionaries, named tuples, and any mixture of them nested in any order) to arrays with fromiter and back with tolist gives the same data. The same holds for iterables consumed once and for reading in chunks, and the kind of array chosen depends only on the data, not on the order in which kinds of values appear.",
     ["inputs"], "every data structure up to a size bound over an alphabet of primitive values, nested lists and records, in every order",
     "tests give a dozen literals; type promotions triggered late in the data by None, unions and empty lists are combinatorial",
     ["awkward0/generate.py"], [("fromiter and the type-inference fillers", "awkward0/generate.py")],
     ["fromiter(data).tolist()"], "exhaustive within the bounds; the data are their own oracle")

prop("C20", "Serialising and reading back gives the same array",
     "Serialising any array to a storage mapping, pickling it, or copying it, and reading it back gives an array with the same value, the same type and the same behaviour, for every nesting of array classes, for views, shared and cyclic parts, and with or without compression (functions that cannot be found by their names, and methods mixed into a class, are not stored). Shared parts stay shared, and the original is unchanged.",
     ["inputs"], "every nesting up to the bound of array classes over small contents, for every storage, prefix and compression policy",
     "tests round-trip each class once in its simplest form; nestings, views and sharing are combinatorial",
     ["awkward0/persist.py"] + [A + f for f in ("jagged.py", "table.py", "masked.py", "indexed.py", "union.py", "chunked.py", "objects.py", "virtual.py")], [("serialize/deserialize and __awkward_serialize__ of each class", "awkward0/persist.py")],
     ["value, type and sharing of the array read back"], "exhaustive within the bounds; the original is the oracle")

prop("C21", "File containers hold exactly what the history of writes put there",
     "After any sequence of saves (in any mode, of one or several arrays, with any naming options) to an awkd file, or of assignments and deletions in HDF5 groups, and of closings and reopenings, reading a name returns the last array stored under it, listing gives exactly the names present, and absent names raise KeyError. A write refused because a name exists changes nothing. When a write fails in the middle because an array can't be stored or read, or a storage operation raises, every entry other than those being written can still be read, listing and reading stay consistent, and the container can still be written to.",
     ["histories", "fault_sequences"], "every sequence up to the bound of container operations, with a failure injected at every storage operation",
     "tests write once and read once; overwriting, mode combinations and failures at each point are histories they do not reach",
     ["awkward0/persist.py"], [("save, load, hdf5 and the awkd container", "awkward0/persist.py")],
     ["names listed, values read, errors"], "exhaustive histories and fault points within the bounds, files in memory or in scratch directories; replayed on the real zipfile and h5py")

prop("C22", "Reading data never calls anything outside the whitelist",
     "Deserialising data calls only functions matched by the whitelist in force, whatever the stored schema says, including nested and referenced parts; a schema naming anything else is refused with an error before the call. A pattern matches a specification that starts with it; below what it names, only attributes of classes are reached, none with special names, and only callables are called. Pickles stored in a schema are held to the same whitelist. A schema that isn't of the documented form raises an error instead of giving an array.",
     ["inputs"], "every schema up to the bound derived from valid ones by substituting functions, references and fields, against every whitelist in a family",
     "tests check no refused call; the guarantee is over all schemas",
     ["awkward0/persist.py"], [("whitelist matching and schema interpretation", "awkward0/persist.py")],
     ["which recorded functions are called, errors raised"], "exhaustive within the bounds; forbidden functions are stand-ins that only record the call")

prop("C23", "Arrow and Parquet conversions preserve every value and null",
     "Converting an array to Arrow and back, or writing it to Parquet and reading it back, preserves every value, list, string, record and missing value, in order, and an array converted from Arrow has the value Arrow itself reports. This holds for sliced Arrow arrays, empty arrays and lists, chunked tables and every position of a null. Arrow tables have no missing rows, so a missing row of a table becomes a row of missing values, and objects become their contents; what has no counterpart on the other side is refused with an error.",
     ["inputs"], "every small array of every supported type with every pattern of nulls and every slice, both directions",
     "tests convert a few literals and none that are sliced",
     ["awkward0/arrow.py"], [("fromarrow, toarrow, toparquet, fromparquet", "awkward0/arrow.py")],
     ["tolist() on both sides"], "exhaustive within the bounds; pyarrow's own to_pylist is the oracle")

prop("C24", "The reported type describes the data, and type equality is structural",
     "The type, shape, dtype and length an array reports describe exactly the values it contains, for every nesting of array classes. Two types are equal exactly when they have the same structure, however they were built, also if they are recursive: the order of union members and of table columns, unions directly inside unions and repeated options make no difference, everything else does (other than which functions or classes make objects, where only str and bytes are told apart). Equal types have equal hashes, and a type's text form is deterministic.",
     ["inputs"], "every type expression up to a depth bound, every pair of them, and every nesting of array classes",
     "tests compare a dozen pairs",
     ["awkward0/type.py"], [("Type equality, hash, fromarray", "awkward0/type.py")],
     ["x.type, ==, hash, str"], "exhaustive within the bounds against a set-semantics reference")

prop("C25", "Operations leave their inputs alone and copies are independent",
     "No selection, universal function, reduction, transformation, conversion or serialisation changes the value or the parts of any array or index given to it. A deepcopy shares no memory with the original and a copy shares content but no structure that can be reassigned; changing one through its public interface follows exactly that rule.",
     ["programs", "inputs"], "every operation over every array class and layout up to the bound, comparing complete physical snapshots before and after",
     "tests look at results, not at the inputs afterwards",
     [A + f for f in ("base.py", "jagged.py", "masked.py", "indexed.py", "chunked.py", "table.py", "union.py", "objects.py")], [("copy, deepcopy and every operation", A + "base.py")],
     ["physical snapshot of operands before and after"], "exhaustive within the bounds; byte snapshots are the oracle")

prop("C26", "Structures that point outside their data are always refused",
     "Whenever the parts of an array are inconsistent (starts, stops, index, mask or tags reaching outside their content, negative where not allowed, mismatched lengths or dimensions, wrong dtypes), constructing or first using it raises an error, and consistent parts are always accepted. No such array ever yields a value.",
     ["inputs"], "every assignment of small integers, including every off-by-one, to the parts of every array class up to the bound",
     "tests check one bad value per property; boundaries such as an index exactly equal to the length are not reached",
     [A + f for f in ("jagged.py", "masked.py", "indexed.py", "union.py", "objects.py")], [("property setters and _valid of each class", A + "jagged.py")],
     ["error or value on construction and first use"], "exhaustive within the bounds against the documented validity conditions")

prop("C27", "Results do not depend on how an array is represented",
     "Wrapping any part of an array in a representation that does not change its value (chunked, indexed, virtual, unmasked, sparse without gaps, a table view, or a different layout) never changes the value of any selection, universal function, reducer or structural operation that is supported.",
     ["programs"], "every small nested array, with one or two of its parts in every other representation, times every operation and sequences of two operations",
     "tests cover pairs of classes with single indexing only",
     [A + f for f in ("base.py", "jagged.py", "masked.py", "indexed.py", "chunked.py", "table.py", "union.py", "virtual.py")], [("interplay of __getitem__ and __array_ufunc__ between classes", A + "base.py")],
     ["value of each operation on each representation"], "exhaustive within the bounds; the unwrapped array is the oracle")

prop("C28", "Pandas columns hold the same arrays",
     "Putting an array in a Pandas series or data frame and reading, slicing, masking, concatenating, copying it or doing arithmetic with it through Pandas gives the elements that the same operation gives on a list. Flattening jagged data to a Pandas frame (topandas with flatten=True) gives one row per innermost element, with index levels naming its position, whatever the representation of the data.",
     ["inputs"], "every small array of every supported kind, times every Pandas operation of an alphabet; every small nested structure times every representation",
     "tests touch Pandas only lightly",
     ["awkward0/pandas.py", "awkward0/util.py"], [("Pandas extension interface and topandas", "awkward0/pandas.py")],
     ["values read through Pandas"], "exhaustive within the bounds against lists")

prop("C29", "Global switches only do what they say",
     "Turning off check_prop_valid or check_whole_valid skips validity checks and changes no result of an operation that is valid with them on. Turning off allow_tonumpy or allow_iter, for a whole class or for one array, makes Numpy conversion or Python iteration of those arrays (and of no others) raise an error; an operation that needs neither gives the same result, printing is always possible, and turning the switch back on restores the behaviour.",
     ["inputs", "configurations"], "every operation on every representation of every small array with every setting of the switches; every switch on every class and on one instance, times examples of every class",
     "tests run with the default switches",
     ["awkward0/array/base.py"], [("the switches", "awkward0/array/base.py:AwkwardArray")],
     ["results of operations with the switches off"], "exhaustive within the bounds")


prop("C30", "Assigning through a jagged mask or index changes exactly what it names",
     "Assigning to a jagged array through a jagged boolean mask or a jagged integer index stores the given values (a scalar, one value per selected element, or a jagged array of them) in exactly the elements it names, row by row, and changes nothing else, whatever the physical layout of the array, of the index and of the values, and whatever was assigned before. An index or values that don't fit (other row lengths, positions out of range, another number of values), and arrays whose elements can't be assigned, are refused without changing anything. Neither the index nor the values are modified.",
     ["inputs", "histories"], "every small row structure and layout, times every jagged mask and index in every layout of its own, times every kind of values, then every second assignment",
     "tests assign to two arrays of three rows, with an index and values that fit",
     [A + "jagged.py", A + "virtual.py"], [("JaggedArray.__setitem__", A + "jagged.py:JaggedArray.__setitem__"), ("refusal by other classes", A + "virtual.py:VirtualArray.__setitem__")],
     ["content, structure and value of the array after each assignment"], "exhaustive within the bounds against element-by-element assignment")
prop("C31", "Lists in regular dimensions behave as the nested lists they denote",
     "A jagged array whose starts and stops have several dimensions (lists inside fixed-size dimensions) gives what the same operation gives on the nested Python lists it denotes: reading and iteration; selection by integers, slices, masks, integer arrays, tuples of those, and jagged masks and indexes; assignment through jagged masks and indexes; arithmetic with scalars, regular arrays, and jagged arrays of the same shape; reducers, argmin, argmax and argsort; padding and filling, flattening, compacting, structure1d, tojagged, concatenation, zipping, copying and pickling. It does so whatever the physical layout, a dimension of size zero included, also on the result of a first selection and after derived quantities were read. What has no form there (combinatorics, joining element by element, slicing inside the lists, Arrow) is refused, never wrong.",
     ["inputs", "histories"], "every small shape and assignment of row lengths, in every physical layout and content kind, times every operation of the alphabet, on fresh arrays, arrays whose derived quantities were read, and selections of them",
     "tests read a handful of such arrays and operate on almost none",
     [A + "jagged.py"], [("regular dimensions of starts and stops", A + "jagged.py:JaggedArray._validstartsstops"), ("flattened views", A + "jagged.py:JaggedArray.structure1d"), ("selection", A + "jagged.py:JaggedArray.__getitem__")],
     ["results and refusals of every operation, structure and value of the array after it"], "exhaustive within the bounds against nested Python lists")


def built():
    d = os.path.join(HERE, "mc", "checks")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:3].isdigit())


TECHNIQUE = "explicit-state exploration of the real code: exhaustive bounded enumeration of structures, layouts and operation sequences, every transition compared with an executable reference model"


def main():
    have = built()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            rec = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(rec) + "\n")
    manifest = {"version": 1, "setup_cmd": "bin/setup",
                "checks": [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECHNIQUE, "level": "model_checking", "level_note": p["level_note"]} for p in P if p["id"] in have],
                "not_applicable": [{"property": p["id"], "reason": NOT_YET.get(p["id"], "the check is not built yet")} for p in P if p["id"] not in have],
                "notes": "no hooks in /repo: the checks import and run the working tree in place"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        for line in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
        jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid; claimed:", " ".join(have))
    except (ImportError, FileNotFoundError) as err:
        print("not validated:", err)


NOT_YET = {}

if __name__ == "__main__":
    main()
