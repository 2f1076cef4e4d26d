NA={
"C21":"a property of schedules: the contracts describe one sequential call, and no ownership or permission logic for Go exists here; the code under it (sync.Mutex in the loader, lazily computed hash in frozen maps) is outside the sequential memory model of gvc",
"C22":"termination on cyclic graphs: the contracts are partial-correctness contracts over finite (acyclic) values; termination of the guarded recursion over an arbitrary cyclic heap needs a measure over the set of visited pairs that the recursion guard keeps behind interior mutability",
}
CH["C01"]=("proof","every function that decides membership, inclusion and construction of integer and float ranges is proved against the property for all inputs (integers exact 64-bit with overflow checks, floats as IEEE 754 values); trusted: the generator gvc, z3, cvc5")
CH["C16"]=("proof","the rune reader (NewStringReader, Next, Peek, Pos, Line, Column) is proved against a mathematical definition of the position of each rune in the string, for all strings and all numbers of reads; trusted: the contract on unicode/utf8.DecodeRuneInString, the generator gvc, z3, cvc5")
CH["C20"]=("proof","the predicates and searches of arrays and hash maps are proved against their quantifier meaning, with the order of callback applications and the early stop, for all arrays, all entry lists and all deterministic callbacks; EachWithIndex and Reduce are proved with the trace of both arguments; bounded only (harness): struct-backed maps, Map of a map; trusted: the generator gvc, z3, cvc5")
CH["C02"]=("proof","membership (Instance), construction and inclusion (Assignable) of size windows of strings, binaries, arrays and maps are proved for all windows and all values; inclusion of windows is proved for types with the same element, key and value types; bounded only (harness): the window of a struct type and inclusion of struct types in map types, argument decoding of the variadic constructors; trusted: the generator gvc, z3, cvc5")
CH["C04"]=("proof","the Instance methods of the four combinators and their constructors (for operands that are types) are proved against the boolean meaning for all operand lists and all values; bounded only (harness): values given as operands, Enum and IntEnum; trusted: the generator gvc, z3, cvc5")
CH["C05"]=("proof","the Instance methods of tuple, struct, array and map types are proved against the definition of conforming collections, for all types and collections (maps as lists of entries with lookup); lookup itself belongs to C08; bounded only (harness): constructors of struct and tuple types, struct-backed maps, exact arrays seen as tuples; trusted: the generator gvc, z3, cvc5")
CH["C03"]=("proof","the Assignable, DeepAssignable and AssignableTo methods of 60 type kinds are proved against soundness (result implies that every instance of the source is an instance of the target), each against the contracts of the others; bounded only (harness: random pairs of types against random members): inclusion of tuples in tuples and arrays, of struct types, of an intersection in an intersection, the window of case insensitive strings, pattern types; known findings: negations and exclusive alternatives as targets; not decided: types of types, native types, functions, named types; trusted: that equality is transitive and preserves membership (C06), the generator gvc, z3, cvc5")
CH["C06"]=("proof","the Equals and deepEqual methods of 60 kinds of values and types are proved against a definition of equality; symmetry and transitivity are proved from the definition by induction on the depth of a value, one lemma per kind; the HashCode methods of 40 kinds are proved against a definition of the hash code for which equal values are proved to have equal hash codes; bounded only (harness: all pairs and triples of a universe of values and types, and random variants of nested values): maps, struct types, functions, native values, times, patterns, combinators, freezing and copying; trusted: finite (acyclic) values, conversion of go values is repeatable, the generator gvc, z3, cvc5")
CH["C09"]=("proof","Get, Set, Add, AddValues, AddAll, WithAll, Reduce, Flatten (no array is left),  Insert, Remove, RemoveValue, Pop, Slice, Copy, With, WithValues, Map, Select, Reject, IndexOf, Each, the slice conversions and the constructors are proved to give exactly the sequence specified, to panic exactly when frozen or out of range, to leave the array as it was when they panic, and to store into nothing but the backing store of the receiver or a fresh one; bounded only (harness: all pairs of operations on arrays made from one another, random histories): the order of flattened elements, distinctness for Unique, the multisets of ContainsAll and SameValues, the content of ToMap and ToMapFromEntries, Sort; trusted: the iterations Each of other iterables visit Len elements, conversion of go values (internal.value, ValueFromReflected), the frozen copies of maps and structs, the generator gvc, z3, cvc5")
CH["C08"]=("proof","Get, ContainsKey, Put, Remove, Keys, Values, Len and StringKeys of hash maps are proved: lookup gives the value of the first node of the bucket with an equal key, Put replaces that value or appends one new node at the end of the list, Remove unlinks that node, the views list the nodes in order, frozen maps panic and stay as they are; With, Without, WithoutAll and Merge leave table, list and length of the receiver alone; bounded only (harness: histories over several maps against a list of pairs): that the chains and the list always hold the same nodes, the content after PutAll and RemoveAll (frozen guard, frame and length are proved), Copy, Map, growth, maps made from go maps and structs; trusted: the generator gvc, z3, cvc5")
CH["C10"]=("proof","the mutators of arrays (Add, AddValues, Insert, Set, AddAll, Remove, RemoveValue, Pop) and of hash maps (Put, PutAll, Remove, RemoveAll) are proved to panic on a frozen receiver and to leave it as it was; Freeze of every kind of value but go structs is proved to leave everything that is frozen frozen with the same content, to set the flag, and to move an array or a binary to storage of its own; GoSlice, Slice, With, Copy and the copies are proved to store into nothing but fresh storage; FrozenCopy gives a frozen value, itself if already frozen; bounded only (harness: all pairs of 48 operations, random histories in which every frozen value is watched, mutation of every mutable value and of every go value reachable from the API): copies of maps, structs, conversion to go values; known finding: entries of a mutable map held by a frozen array; trusted: the generator gvc, z3, cvc5")
CH["C11"]=("proof","FrozenCopy and ThawedCopy of every kind of value and Array.Copy and Binary.Copy are proved to give a frozen value (itself when already frozen) or a new unfrozen one with the same elements where they are not freezable, in fresh storage, without storing into anything else; bounded only (harness: random nested values of all kinds, each copy changed in every mutable part and compared): copies of maps and structs, depth of thawed copies; trusted: the generator gvc, z3, cvc5")
CH["C17"]=("proof","Get, add, Namespace, Load, AbsoluteName and the constructors of fixed, finder based and child loaders are proved: a name that is cached keeps its value, what a finder gives is cached and returned from then on, a loader without a finder never changes, a child asks its parent first and itself only when the parent has nothing, a path is resolved one namespace at a time and ends in a Get of its last part; the maps that hold the entries are assumed to be maps (C08) and nested loaders to give the same answer each time; bounded: random histories of loads, namespaces, finders that deliver several entries or load other names, compared with a model that also predicts the calls of every finder")
CH["C07"]=("proof","CompareTo of every comparable kind, compare and the deep comparison of arrays are proved to give the sign of an order defined over values, and that order is proved reflexive, antisymmetric and transitive (per kind; arrays by induction over depth); the order that Sort uses is proved to be total and Sort to return a new array in that order with the receiver unchanged, given sort.Stable. Assumed: compareIntFloat (compared with math/big by the harness), sort.Stable, values acyclic and without NaN")
CH["C15"]=("proof","String, Unwrap, Equals, Type and Format of sensitive values, Sensitive and the Generic method of every type are proved: the texts are constants, the type carries nothing of the wrapped value but its kind, all writers reached from Format receive the constant text only (a precondition of io.WriteString that every call must satisfy); bounded only (harness: two runs that differ in the secret only must give the same text): texts of collections, errors and types that hold sensitive values; trusted: the generator gvc, z3, cvc5")
CH["C12"]=("proof","ToInt, ToFloat, value (nil, truth values, strings and every integer and float kind), the constructors of numbers, strings and binaries, GoInt, GoFloat, GoBool, GoString, GoBytes and ReflectTo of integers, floats, strings and booleans into destinations that are no pointers are proved: the number is the same or the conversion panics, an unsigned integer above the largest int64 is rejected, what is stored is within the range of the destination; bounded only (harness): everything that walks a go value with package reflect (slices, maps, structs, pointers) in either direction, json numbers; trusted: the documented meaning of the setters of package reflect, the generator gvc, z3, cvc5")
CH["C18"]=("proof","the Type method of every kind of literal value is proved to give a type whose instances are exactly the values equal to it; the Instance methods of all types are proved against the meaning of the type, and the Assignable methods of 60 type kinds (tuples, structs, negations, alternatives and intersections included) are proved to answer for the type of a literal value exactly what Instance means for the value, each against the contracts of the others; bounded only (harness: all pairs of 140 values and 230 types, random nested pairs): sized array and map types, the parts of exact arrays and maps, patterns and case insensitive strings; types of natives, functions, errors: harness only; trusted: the generator gvc, z3, cvc5")
CH["C19"]=("proof","every New method (integer, float, string, boolean, binary, array, tuple, map, struct, time, sensitive, type, exact, named and parameterized types), the dispatching internal.New and the newXxx functions behind them are proved: whenever they return, the type's Instance accepts the result (the meaning of Instance is proved in C02, C04 and C05); the conversions they call are left unspecified, so nothing is assumed about them; bounded only (harness: 290 types by 650 arguments, random nested types): that the argument is converted at all when it is an instance, instances judged by an independent model of membership; trusted: the generator gvc, z3, cvc5")
CH["C14"]=("proof","the streamer is proved against the Consumer interface with ghost counters: Stream, emitData and every emitter (strings, arrays, maps with string and with other keys, times, binaries, sensitives, types, named values) add exactly one value where one is expected, announce the number of elements they add, give string keys only to consumers without complex keys, give binaries and times only to consumers that take them, number positions as the consumer does, remember each value at the position where it is emitted, never forget or move one, and refer to a remembered value with exactly one reference to that position, never to a later one; the JSON encoder's Add and AddRef are proved to write the separator that its state requires; BasicCollector.Add and AddRef to number as the streamer does. Assumed: consumers call the function that adds the elements once. Bounded only (harness: values of all kinds with repeated parts x ~80 ways of streaming, with an independent consumer): the content, AddArray and AddMap of collectors and encoder, the decoders; trusted: the generator gvc, z3, cvc5")
CH["C13"]=("proof","the lexer (string, raw string and regexp literals with all escapes, identifiers, integers, floats with exponents and dots, dot operators, white space) is proved to read from every text exactly the tokens of a definition of the lexical grammar, and the printer functions for ranges, size windows, string, case insensitive, regexp, time and plain exact values are proved to write the texts that definition reads back, and every production of the parser is proved to push exactly one value (ranges: with the limits read, combinators: with at least two operands); bounded only (harness): that the parser builds what the text denotes, operator precedence, composite types, keys and nesting, by round trips over exhaustive pairs of constructors and random nestings; trusted: strconv.Quote gives a literal of the string, strconv, unicode/utf8, the character class table (enumerated for all runes), the generator gvc, z3, cvc5")
