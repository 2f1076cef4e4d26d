import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Numeric range types decide membership and inclusion exactly",
 "An integer or float range type accepts a value exactly when the value is a number of that kind lying between the bounds (the upper bound excluded when the range is exclusive). One range type is assignable from another exactly when every number the other accepts is accepted by it, and constructing a range keeps the bounds and the inclusiveness asked for (swapping bounds given in the wrong order; an inclusive range over all finite floats or all integers is the unconstrained type). Bounds of float ranges are finite and the inclusion of float ranges treats them as intervals of real numbers; an unsigned Go integer that does not fit in 64 signed bits is rejected with a panic.",
 ["inputs"],"all bounds (including the extreme 64-bit integers), both inclusiveness flags, all candidate values",
 "The tests sample a handful of bounds; the claim is about every pair of 64-bit bounds, both inclusiveness flags and every value, and off-by-one slips at the edges of the range are invisible to samples in the middle.",
 ["internal/integer.go","internal/float.go"],
 [("integer range type Instance/Assignable/IsInstance/Equals","internal/integer.go"),("float range type","internal/float.go"),("constructors IntegerType/FloatType","internal/integer.go, internal/float.go")],
 ["tf.Integer, tf.Float, dgo.Type.Instance, dgo.Type.Assignable, IntegerType.IsInstance"])
p("C02","Size-constrained types enforce their length window exactly",
 "A string, binary, array or map type with a size window accepts a (finite) value of its kind exactly when the value's length lies within [min,max] (and its element, key and value types accept the parts). One window is assignable from another of the same kind, as far as sizes are concerned, exactly when it encloses the other, and a constructor either keeps the window asked for (swapping inverted bounds, clamping negative ones to zero) or returns an equivalent type.",
 ["inputs"],"all windows and all values, including the empty value, the unbounded window and windows of width zero",
 "The tests try a few windows; the claim quantifies over all windows and lengths, so boundary slips survive the samples.",
 ["internal/string.go","internal/binary.go","internal/array.go","internal/map.go"],
 [("sized string type","internal/string.go"),("binary type","internal/binary.go"),("sized array type","internal/array.go"),("sized map type","internal/map.go")],
 ["tf.String, tf.Binary, tf.Array, tf.Map, Instance, Assignable, Min, Max, Unbounded"])
p("C03","Assignability is sound: what the source accepts, the target accepts",
 "Whenever a type reports that it is assignable from another type, every value that is an instance of the other type is an instance of it. Every type is assignable from itself, and the any type is assignable from every type. (Types are finite; a negation or an exclusive alternative as target, which only compares operands, is a recorded finding.)",
 ["inputs"],"all pairs of types that can be built from the type constructors and all values",
 "Soundness relates every pair of types in an unbounded, recursively built universe with every value; tests check individual pairs and never relate the answer to membership of values.",
 ["internal/array.go","internal/map.go","internal/mapstruct.go","internal/ternary.go","internal/not.go","internal/string.go","internal/exact.go","internal/compare.go"],
 [("Assignable/DeepAssignable of each type","internal/*.go"),("recursion guard and dispatch","internal/compare.go")],
 ["dgo.Type.Assignable versus dgo.Type.Instance"])
p("C04","AllOf, AnyOf, OneOf and Not are the boolean combinators of membership",
 "A value is an instance of AllOf(T1..Tn) exactly when it is an instance of every Ti, of AnyOf exactly when of at least one, of OneOf exactly when of exactly one, and of Not(T) exactly when it is not an instance of T. Building a combinator from a single type yields that type, and no operand is dropped.",
 ["inputs"],"all operand lists (any length, any nesting) and all values",
 "Tests use two or three operands; exactly-one and all/any must hold for every operand count and position.",
 ["internal/ternary.go","internal/not.go"],
 [("allOf/allOfValue/anyOf/oneOf types","internal/ternary.go"),("notType","internal/not.go")],
 ["tf.AllOf, tf.AnyOf, tf.OneOf, tf.Not, Type.Instance, Type.Assignable with exact value types"])
p("C05","Tuple, struct, array and map types accept exactly the conforming collections",
 "A tuple type accepts exactly the arrays of the right length whose every element is an instance of the type at its position (all trailing elements of the last type when variadic); a struct type accepts exactly the maps that have every required key, whose value for each declared key is an instance of that entry's type, and that have no undeclared key unless additional entries are allowed. Array and map types accept exactly the collections within their size window whose elements, or keys and values, are all instances of the declared types. (Types and values are finite; call arguments, dgo.Arguments, are no arrays in this sense.)",
 ["inputs"],"all such types and all collections, of any size and nesting",
 "A wrong loop bound or a skipped entry only shows for particular positions, sizes and key sets that the fixed examples miss.",
 ["internal/array.go","internal/map.go","internal/mapstruct.go"],
 [("tupleType/sizedArrayType Instance","internal/array.go"),("sizedMapType/exactMapType Instance","internal/map.go"),("structType Instance","internal/mapstruct.go")],
 ["Type.Instance, tf.Tuple, tf.VariadicTuple, tf.StructMap, tf.Array, tf.Map"])
p("C06","Equality is an equivalence and equal values have equal hash codes",
 "Equals is reflexive, symmetric and transitive over finite values and types (NaN excluded), arrays being equal exactly when they have equal elements in the same order and maps exactly when they have the same key set with equal values regardless of order. Two equal values always report the same hash code, and neither equality nor the hash code is changed by freezing, copying or entry order of a map.",
 ["inputs"],"all values and types, of any nesting",
 "Equality and hash are implemented pairwise in dozens of places; tests compare literal pairs, never the relation as a whole nor hash against equality on arbitrary data.",
 ["internal/compare.go","internal/array.go","internal/map.go","internal/ternary.go","internal/string.go","internal/integer.go","internal/mapstruct.go"],
 [("equals/deepEqual/deepHashCode dispatch","internal/compare.go"),("per-type Equals and HashCode","internal/*.go")],
 ["Value.Equals, Value.HashCode, use as map keys"])
p("C07","Comparison is a consistent order and sorting yields an ordered permutation",
 "For any two mutually comparable values, comparing them the other way round gives the opposite sign, a value compares equal to itself, comparison is transitive, and arrays compare lexicographically by elements. Sorting an array returns a permutation of its elements in which no element precedes a smaller one and leaves the receiver as it was.",
 ["inputs"],"all integers, floats other than NaN, strings, booleans, binaries, nil and finite (acyclic) arrays of them; sorting: arrays of any finite values without NaN",
 "Order laws range over all pairs and triples; tests compare a few chosen pairs, where a sign slip or overflow in a subtraction does not show.",
 ["internal/integer.go","internal/float.go","internal/string.go","internal/array.go","internal/binary.go","internal/boolean.go","internal/time.go","internal/compare.go"],
 [("CompareTo of each comparable","internal/*.go"),("array.Sort","internal/array.go")],
 ["Comparable.CompareTo, Array.Sort"])
p("C08","A map is an insertion-ordered dictionary with unique keys",
 "After any sequence of operations a map holds each key once, lookup returns the value most recently put under an equal key (or nil if absent or removed), and all views (Len, Keys, Values, EachEntry, Get, ContainsKey, Find) agree on the same contents. Iteration follows first-insertion order: overwriting keeps a key's place, removing closes the gap, and re-adding appends at the end; nothing is lost when the table grows. (A map backed by a Go struct has the keys of its fields, always.)",
 ["inputs","histories"],"all finite sequences of put, put-all, remove, remove-all, merge, with, without and copies, over all keys including colliding hashes",
 "The claim is over all histories, including bucket collisions, growth thresholds and remove/re-add interleavings; tests run short fixed scripts.",
 ["internal/map.go"],
 [("hash table with linked entry list","internal/map.go")],
 ["dgo.Map: Put, PutAll, Get, Remove, RemoveAll, Merge, With, Without, Keys, Values, EachEntry, Len, Resolve"],
 [("hashMap.table/first/last/len","buckets, insertion-ordered list and entry count","internal/map.go"),("hashNode.hashNext/next/prev","bucket chain and order links","internal/map.go")])
p("C09","An array behaves as a mathematical sequence under all its operations",
 "Each array operation (get, set, add, insert, remove, slice, with, add-all, map, select, reject, flatten, unique, index-of, contains-all, same-values, copy and conversions) yields exactly the sequence its documentation describes. Operations that return a new array leave the receiver and every other array unaltered, even when the arrays came from one another by slicing.",
 ["inputs","histories"],"all arrays, all indices in range, all element values and all histories of derived arrays",
 "Off-by-one and shared-backing-store errors depend on length, capacity and prior history; tests use short literals.",
 ["internal/array.go"],
 [("array methods over a Go slice","internal/array.go"),("util.SliceCopy","util/slice.go")],
 ["dgo.Array methods"],
 [("array.slice","backing slice","internal/array.go")])
p("C10","A frozen value never changes",
 "Every mutating operation on a frozen array, map, map entry, struct or other freezable value fails without altering the value, and no operation on any other value (a copy, a slice, a thawed copy, an entry, a merge result) alters the contents of a frozen value. Once frozen, a value stays frozen. (Excluded: Go natives wrapped as values, the Go pointers to time.Time and regexp.Regexp that ReflectTo hands out, and the resolving of type aliases.)",
 ["inputs","histories"],"all frozen values and all sequences of operations on them and on values derived from them",
 "A single forgotten guard or a shared backing store shows only on a particular operation and history; the tests try each mutator once at most.",
 ["internal/array.go","internal/map.go","internal/struct.go","internal/native.go","internal/arguments.go"],
 [("frozen flag checks in mutators","internal/array.go, internal/map.go"),("ThawedCopy/FrozenCopy","internal/array.go, internal/map.go")],
 ["dgo.Freezable, dgo.Array, dgo.Map, dgo.MapEntry"],
 [("frozen flags","set by Freeze","internal/array.go, internal/map.go")])
p("C11","Freezing is deep and copies are independent",
 "FrozenCopy returns a value equal to the original that is frozen in depth (everything freezable in it is frozen) and returns the value itself when it is already frozen; Freeze freezes in depth. Copy and ThawedCopy return equal values, and later changes to the copy do not show in the original nor the other way round. (Go natives are what they are: neither copied nor frozen.)",
 ["inputs","histories"],"all nested values and all later mutations of either side",
 "Depth and independence concern arbitrary nesting and later mutations of either side; tests check one or two levels.",
 ["internal/array.go","internal/map.go","internal/struct.go"],
 [("Freeze/FrozenCopy/ThawedCopy/Copy","internal/array.go, internal/map.go")],
 ["Freezable.Freeze, FrozenCopy, ThawedCopy, Copy, Frozen"])
p("C12","Conversion between Go values and dgo values preserves the value",
 "Turning a Go value into a dgo value never changes the number, string, bytes, truth value or structure it stands for: an unsigned integer too large for a 64-bit signed integer is rejected, not wrapped. Converting back to a Go integer, float, slice or map either yields the same value or fails. (Rounding is part of an explicit conversion of an integer to a float, a float to an integer, or to a float32; nil stands for the zero value of Go types without nil; JSON numbers beyond int64 become floats.)",
 ["inputs"],"all values of all supported Go types, including the extremes of each width",
 "Loss occurs only near the extremes of a width; tests use small numbers.",
 ["internal/value.go","internal/integer.go","internal/float.go","internal/string.go","internal/native.go"],
 [("Value / ValueFromReflected","internal/value.go"),("ToInt, ToFloat, ReflectTo","internal/integer.go, internal/float.go")],
 ["vf.Value, vf.FromValue, GoInt, GoFloat, ToInt, ReflectTo"])
p("C13","The textual form of a type parses back to an equal type",
 "For every type built from the type constructors, parsing its string form gives a type equal to it, and printing that gives the same string again. String literals with any content survive quoting and parsing. (Not covered: types with Go-native parts, error values or exact named values; types that refer to themselves; NaN and infinite bounds; combinators of fewer than two operands, which have no text of their own.)",
 ["inputs"],"all types without Go-native parts, all strings, regexps, bounds and nestings",
 "Operator precedence, escapes and literals interact in unboundedly many nestings; tests list a few dozen.",
 ["stringer/typestring.go","parser/lexer.go","parser/parser.go","util/string.go","util/write.go"],
 [("type stringer","stringer/typestring.go"),("lexer and parser","parser/lexer.go, parser/parser.go")],
 ["Type.String, tf.ParseType"])
p("C14","Streaming a value and collecting it back yields an equal value",
 "Streaming any data value to a data collector, or to JSON and back, reproduces an equal value with maps in the same order, at every de-duplication level. With de-duplication, every emitted reference denotes the value that was emitted at that position. (Types and sensitive, binary, time and named values come back as themselves through a decoder, and as the maps that stand for them through a collector that takes only data. JSON takes no NaN, infinities or strings that are not UTF-8; maps that use the reserved keys of the dialect are not data; other kinds of values are refused.)",
 ["inputs","configurations"],"all data values including repeated sub-values and sensitive, binary, time and type values; all streamer options",
 "Reference numbering depends on how often and where values repeat; the tests use a few shapes.",
 ["streamer/streamer.go","streamer/json.go","streamer/basiccollector.go","streamer/datacollector.go","streamer/decoder.go"],
 [("context emitters and reference counting","streamer/streamer.go"),("collectors","streamer/basiccollector.go, streamer/datacollector.go"),("JSON consumer and decoder","streamer/json.go, streamer/decoder.go")],
 ["streamer.New(...).Stream, streamer.DataCollector, streamer.MarshalJSON, streamer.UnmarshalJSON"])
p("C15","A sensitive value is never disclosed by its textual forms",
 "No string form of a sensitive value, of its type, or of a collection containing it includes the wrapped value; formatting depends only on the fact that it is sensitive. Only an explicit unwrap gives the wrapped value, unchanged. (The kind and generic type of the wrapped value may show, as in sensitive[int], and a constrained sensitive type tells whether a wrapped value conforms.)",
 ["inputs"],"all wrapped values and all formatting routes",
 "Leakage depends on which formatting route is taken with which wrapped value; tests print one value one way.",
 ["internal/sensitive.go","internal/native.go","util/indenter.go","util/write.go"],
 [("sensitive String/AppendTo/Format","internal/sensitive.go")],
 ["Sensitive.String, fmt, Array.String, Map.String, errors"])
p("C16","The string reader delivers every rune once and reports its true position",
 "Reading a string rune by rune delivers exactly its runes in order followed by the end marker forever, and peeking does not consume. The reported byte position, line and column (both counted from one) are those of the next rune, and an invalid byte sequence is reported as an error instead of being skipped.",
 ["inputs"],"all strings, valid UTF-8 or not, and all interleavings of peek and next",
 "Width arithmetic over multi-byte runes and newlines holds or breaks for arbitrary strings; tests read a few ASCII ones.",
 ["util/reader.go"],
 [("StringReader.Next/Peek","util/reader.go")],
 ["util.NewStringReader, Next, Peek, Line, Column, Pos"],
 [("StringReader p/l/c","byte position, line, column","util/reader.go")])
p("C17","A loader caches what it found, never overrides, and children defer to parents",
 "Loading a name through a loader returns the entry found first along parent, own entries, own finder, and returns the same value on every later load. Adding an entry under an existing different name fails or keeps the old entry; a namespace loader resolves exactly the names under its prefix. (Sequential use; static maps without explicit nil entries.)",
 ["inputs","histories"],"all sequences of load, get and namespace operations over all names",
 "Precedence and caching concern histories of loads over nested loaders; tests use two names.",
 ["loader/loader.go"],
 [("mapLoader, loader, childLoader","loader/loader.go")],
 ["dgo.Loader: Load, Get, Namespace, NewChild, AbsoluteName"])
p("C18","The type of a value accepts exactly the values equal to it",
 "Every value is an instance of its own type, and for literal values (numbers, strings, booleans, nil, binaries, times, regexps, arrays and maps of them) another value is an instance of that type exactly when it equals the value. Any type built from the type constructors is assignable from the type of a literal value exactly when the value is an instance of it.",
 ["inputs"],"own type: all values; exactness: all literal values that equal themselves (no NaN) and all types; the types of errors, functions, natives, sensitives and types are not exact by design",
 "It links three separately coded methods (Type, Instance, Assignable) over all values and types; tests check isolated pairs.",
 ["internal/exact.go","internal/integer.go","internal/float.go","internal/string.go","internal/array.go","internal/map.go","internal/ternary.go"],
 [("exact types","internal/exact.go"),("exactArrayType/exactMapType/exactMapEntryType","internal/array.go, internal/map.go")],
 ["Value.Type, Type.Instance, Type.Assignable"])
p("C19","Creating a value through a type yields an instance of it or fails",
 "Whenever creating a value through a type's New succeeds, the result is an instance of that type; otherwise it fails with an error rather than returning a non-conforming value. An argument that is already an instance of a number, string, boolean, binary, time or collection type is accepted, and the result equals it.",
 ["inputs"],"all types that support New and all argument values",
 "Conversion results near type limits and combined constraints are not sampled by the tests.",
 ["internal/integer.go","internal/float.go","internal/string.go","internal/boolean.go","internal/array.go","internal/map.go","internal/mapstruct.go","internal/sensitive.go","internal/binary.go","internal/time.go","internal/type.go"],
 [("New of each type","internal/*.go"),("dispatch New","internal/type.go")],
 ["vf.New, Type.New"])
p("C20","Collection predicates and searches agree with their quantifier meaning",
 "All, Any, One, Find, Select, Reject and their key, value and entry variants on arrays and maps return exactly what for-all, exists, exactly-one, first-match and filter mean over the elements in order. The callback is applied to the elements in order, and iteration stops as soon as the answer is determined.",
 ["inputs"],"all arrays and maps and all pure predicates",
 "The answer depends on the position and number of matches; tests use one arrangement.",
 ["internal/array.go","internal/map.go"],
 [("All/Any/One/Find/Select/Reject and map variants","internal/array.go, internal/map.go")],
 ["dgo.Array and dgo.Map predicate methods"])
p("C21","Frozen values and loaders can be shared between goroutines",
 "Reading a frozen value, or using a loader, from several goroutines at once is free of data races and every goroutine observes the same contents.",
 ["schedules"],"all schedules of concurrent readers",
 "Tests are single-threaded.",
 ["internal/string.go","loader/loader.go"],
 [("lazy hash cache","internal/string.go"),("loader mutex","loader/loader.go")],
 ["HashCode, Load from several goroutines"])
p("C22","Operations on self-referential values terminate",
 "Equality, hashing, string conversion, freezing and type checks terminate on values and types that contain themselves.",
 ["inputs"],"all finite graphs of values with cycles",
 "Tests contain a couple of self-references of one shape.",
 ["internal/compare.go","util/util.go"],
 [("recursion guards","internal/compare.go, util/indenter.go")],
 ["Equals, HashCode, String, Freeze, Assignable, Instance"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
