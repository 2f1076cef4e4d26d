# Equality: veq(a, b) is what a.Equals(b) means. The cases are the definition; every Equals method is proved against it.
package internal

spec world bytag veq(a Val, b Val) bool

# identical values or equal ones; the shape of every comparison of parts
define veqn(a, b Val) bool = goeq(a, b) || (a != nil && b != nil && veq(a, b))

# the value an exact type stands for
spec bytag exval(t Val) Val
case exval(t) for *exactIntegerType = val(t.value)
case exval(t) for *exactFloatType = val(t.value)
case exval(t) for *exactArrayType = val(t.value)
case exval(t) for *exactBinaryType = val(t.value)
case exval(t) for *exactBooleanType = val(t.value)
case exval(t) for *exactErrorType = val(t.value)
case exval(t) for *exactEntryType = val(t.value)
case exval(t) for *exactMapType = val(t.value)
case exval(t) for *exactNamed = val(t.value)
case exval(t) for *exactRegexpType = val(t.value)
case exval(t) for *exactStringType = val(t.value)
case exval(t) for *exactTimeType = val(t.value)
case exval(t) for *allOfValueType = t.(*array)
case exval(t) for *ciStringType = val(t.value)
case exval(t) for *patternType = val(t.Regexp.(*regexpVal))
case exval(t) for nilType = val(Nil)
func dgo.ExactType.ExactValue props C01 C03 C06
  pure
  returns exval(self)

case veq(a, b) for intVal = isint(b) && a == intof(b)
case veq(a, b) for floatVal = isfloat(b) && a == floatof(b)
case veq(a, b) for nilValue = b == nil || b == val(Nil)
case veq(a, b) for boolean = is(b, boolean) && goeq(a, b) || is(b, bool) && b.(bool) == a.(bool)
case veq(a, b) for *hstring = is(b, *hstring) && a.s == b.(*hstring).s || is(b, string) && a.s == b.(string)

# types without parts
case veq(a, b) for anyType = goeq(a, b)
case veq(a, b) for defaultArrayType = goeq(a, b)
case veq(a, b) for defaultMapType = goeq(a, b)
case veq(a, b) for booleanType = goeq(a, b)
case veq(a, b) for errType = goeq(a, b)
case veq(a, b) for nilType = goeq(a, b)
case veq(a, b) for regexpType = goeq(a, b)
case veq(a, b) for timeType = goeq(a, b)
case veq(a, b) for defaultDgoStringType = goeq(a, b)
case veq(a, b) for defaultStringType = goeq(a, b)
case veq(a, b) for defaultFloatType = is(b, defaultFloatType)
case veq(a, b) for defaultIntegerType = is(b, defaultIntegerType)
case veq(a, b) for *integerType = is(b, *integerType) && a.min == b.(*integerType).min && a.max == b.(*integerType).max && a.inclusive == b.(*integerType).inclusive
case veq(a, b) for *floatType = is(b, *floatType) && a.min == b.(*floatType).min && a.max == b.(*floatType).max && a.inclusive == b.(*floatType).inclusive
case veq(a, b) for *binaryType = is(b, *binaryType) && a.min == b.(*binaryType).min && a.max == b.(*binaryType).max
case veq(a, b) for *sizedStringType = is(b, *sizedStringType) && a.min == b.(*sizedStringType).min && a.max == b.(*sizedStringType).max
case veq(a, b) for *named = is(b, *named) && a.name == b.(*named).name
case veq(a, b) for *notType = is(b, *notType) && veq(a.negated, b.(*notType).negated)

# exact types: the same kind of type for equal values
define exacteq(a, b Val) bool = is(b, dgo.ExactType) && tid(a) == tid(b) && veq(exval(a), exval(b))
case veq(a, b) for *exactIntegerType = exacteq(a, b)
case veq(a, b) for *exactFloatType = exacteq(a, b)
case veq(a, b) for *exactBinaryType = exacteq(a, b)
case veq(a, b) for *exactBooleanType = exacteq(a, b)
case veq(a, b) for *exactErrorType = exacteq(a, b)
case veq(a, b) for *exactNamed = exacteq(a, b)
case veq(a, b) for *exactRegexpType = exacteq(a, b)
case veq(a, b) for *exactStringType = exacteq(a, b)
case veq(a, b) for *exactTimeType = exacteq(a, b)
case veq(a, b) for *ciStringType = exacteq(a, b)

# values and types with parts: identical, or of the same kind with equal parts. What such a value makes of a go value
# that is not a dgo.Value is up to the conversion of that value.
spec world gveq(a Val, b Val) bool
define sliceeq(a, b []dgo.Value) bool = len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> veqn(a[i], b[i]))
define deepexacteq(a, b Val) bool = is(b, dgo.ExactType) && tid(a) == tid(b) && veqn(exval(a), exval(b))
define deepeq(a, b Val) bool = is(b, internal.deepEqual) && parteq(a, b)
spec world bytag parteq(a Val, b Val) bool
axiom veq_parts: forall a, b Val {veq(a, b)} :: is(a, internal.deepEqual) ==> (veq(a, b) <==> goeq(a, b) || ite(b == nil, false, ite(is(b, dgo.Value), deepeq(a, b), gveq(a, b))))

case parteq(a, b) for *array = is(b, *array) && sliceeq(a.slice, b.(*array).slice) || is(b, *arguments) && sliceeq(a.slice, b.(*arguments).slice)
case parteq(a, b) for *arguments = is(b, *array) && sliceeq(a.slice, b.(*array).slice) || is(b, *arguments) && sliceeq(a.slice, b.(*arguments).slice)
case parteq(a, b) for *sizedArrayType = is(b, *sizedArrayType) && a.min == b.(*sizedArrayType).min && a.max == b.(*sizedArrayType).max && veqn(a.elementType, b.(*sizedArrayType).elementType)
define tupeq(a, b Val) bool = !is(b, dgo.ExactType) && is(b, dgo.TupleType) && tvar(a) == tvar(b) && tlen(a) == tlen(b) && (forall i int {telem(a, i)} {telem(b, i)} :: 0 <= i && i < tlen(a) ==> veqn(telem(a, i), telem(b, i)))
case parteq(a, b) for *tupleType = tupeq(a, b)
case parteq(a, b) for *exactFunctionTuple = tupeq(a, b)
define entryeq(a, b Val) bool = is(b, dgo.MapEntry) && veqn(ekey(a), ekey(b)) && veqn(evalue(a), evalue(b))
case parteq(a, b) for *mapEntry = !is(b, dgo.StructMapEntry) && entryeq(a, b)
case parteq(a, b) for *hashNode = !is(b, dgo.StructMapEntry) && entryeq(a, b)
define mapeq(a, b Val) bool = is(b, dgo.Map) && mlen(a) == mlen(b) && (forall i int {ment(a, i)} :: 0 <= i && ment(a, i) != nil ==> veqn(evalue(ment(a, i)), mget(b, ekey(ment(a, i)))))
case parteq(a, b) for *hashMap = mapeq(a, b)
case parteq(a, b) for *structVal = mapeq(a, b)
case parteq(a, b) for *sizedMapType = is(b, *sizedMapType) && a.min == b.(*sizedMapType).min && a.max == b.(*sizedMapType).max && veqn(a.keyType, b.(*sizedMapType).keyType) && veqn(a.valueType, b.(*sizedMapType).valueType)
case parteq(a, b) for *sensitiveType = is(b, *sensitiveType) && veqn(a.wrapped, b.(*sensitiveType).wrapped)
case parteq(a, b) for *sensitive = is(b, *sensitive) && veqn(a.hidden.value, b.(*sensitive).hidden.value)
case parteq(a, b) for *exactArrayType = deepexacteq(a, b)
case parteq(a, b) for *exactMapType = deepexacteq(a, b)
case parteq(a, b) for *exactEntryType = deepexacteq(a, b)

case parteq(a, b) for *structEntry = is(b, dgo.StructMapEntry) && a.required == ereq(b) && entryeq(a, b)
spec world bytag ereq(e Val) bool
case ereq(e) for *structEntry = e.required
func dgo.StructMapEntry.Required props C06
  pure
  returns ereq(self)
case veq(a, b) for *metaType = is(b, *metaType) && ite(a.tp == nil, b.(*metaType).tp == nil, veq(a.tp, b.(*metaType).tp))
inv *parameterized: self.params != nil
case veq(a, b) for *parameterized = is(b, *parameterized) && veq(a.NamedType, b.(*parameterized).NamedType) && veq(a.params, b.(*parameterized).params)
case veq(a, b) for *mapKeyError = is(b, *mapKeyError) && veq(a.mapType, b.(*mapKeyError).mapType) && veq(a.key, b.(*mapKeyError).key)
case veq(a, b) for *typeError = is(b, *typeError) && veq(a.expected, b.(*typeError).expected) && veq(a.actual, b.(*typeError).actual)
case veq(a, b) for *sizeError = is(b, *sizeError) && veq(a.sizedType, b.(*sizeError).sizedType) && a.attemptedSize == b.(*sizeError).attemptedSize
inv *mapKeyError: self.mapType != nil && self.key != nil
inv *typeError: self.expected != nil && self.actual != nil
inv *sizeError: self.sizedType != nil

func dgo.Value.Equals(other) props C06
  maypanic any
  returns veq(self, other)
func internal.deepEqual.deepEqual(seen, other) props C06
  requires other != nil
  maypanic any
  returns parteq(self, other)
func equals(seen, a, b) props C06
  maypanic any
  returns veqn(a, b)
func sliceEquals(seen, a, b) props C06
  maypanic any
  ensures result <==> sliceeq(a, b)
  loop 1 invariant 0 <= i && i <= len(a) && (forall j int {a[j]} {b[j]} :: 0 <= j && j < i ==> veqn(a[j], b[j]))
func tupleEquals(seen, t, other) props C06
  requires t != nil
  maypanic any
  ensures result <==> tupeq(t, other)
  loop 1 invariant 0 <= i && i <= n && (forall j int {telem(t, j)} {telem(other, j)} :: 0 <= j && j < i ==> veqn(telem(t, j), telem(other, j)))
func mapEqual(seen, g, other) props C06
  requires g != nil && other != nil
  maypanic any
  ensures result <==> mapeq(g, other)

# conversion of go values: what a go value is equal to does not depend on when it is converted
spec world isconv(v Val, r Val) bool
spec rvof(v reflect.Value) Val
# r was made from the go value v
spec conv(v, r Val) bool
axiom conv_eq: forall a, v, r Val {isconv(v, r), gveq(a, v)} {isconv(v, r), parteq(a, r)} :: isconv(v, r) ==> (gveq(a, v) <==> is(r, internal.deepEqual) && parteq(a, r))
assume "conversion of a go value that is not a dgo.Value (internal.value, ValueFromReflected) gives equal results each time"
func value(v) props C12
  maypanic any
  assumes result != nil ==> isconv(v, result) && conv(v, result)
  ensures [nil] v == nil ==> result == val(Nil)
  ensures [bool] is(v, bool) ==> is(result, boolean) && (result.(boolean) <==> v.(bool))
  ensures [string] is(v, string) ==> is(result, *hstring) && result.(*hstring).s == v.(string)
  ensures [rejected] !toobig(v)
  ensures [int] isint(v) ==> is(result, intVal) && result.(intVal) == intof(v)
  ensures [float] isfloat(v) ==> is(result, floatVal) && same(result.(floatVal), floatof(v))
extern internal.ValueFromReflected(v)
  maypanic any
  ensures result != nil && isconv(rvof(v), result) && conv(rvof(v), result)
extern reflect.ValueOf(v)
  pure
  ensures same(rvof(result), v)
func Value(v) props C04 C06 C07 C09 C12
  maypanic any
  ensures result != nil
  ensures [nil] v == nil ==> result == val(Nil)
  ensures [identity] is(v, dgo.Value) ==> same(result, v)
  ensures [conversion] !is(v, dgo.Value) ==> isconv(v, result)
  ensures [made] !is(v, dgo.Value) ==> conv(v, result)

# --- left to the harness
skip internal.(*arguments).Equals "promoted from the embedded array"
skip internal.(*hashNode).Equals "promoted from the embedded entry"
case veq(a, b) for *binary = is(b, *binary) && byteseq(a.bytes, b.(*binary).bytes) || is(b, []byte) && byteseq(a.bytes, b.([]byte))
define byteseq(a, b []byte) bool = len(a) == len(b) && (forall i int {a[i]} {b[i]} :: 0 <= i && i < len(a) ==> a[i] == b[i])
extern bytes.Equal(a, b)
  pure
  ensures result <==> byteseq(a, b)
skip internal.(*errw).Equals "compares the texts of go errors"
skip internal.(*goFunc).Equals "functions are compared through package reflect"
skip internal.(*native).Equals "go values are compared by package reflect"
skip internal.(*nativeType).Equals "go types are compared by package reflect"
skip internal.(*patternType).Equals "compares the source texts of compiled expressions"
spec rxtext(r *regexp.Regexp) string
extern regexp.(*Regexp).String
  pure
  returns rxtext(self)
case veq(a, b) for *regexpVal = is(b, *regexpVal) && rxtext(a.(*regexp.Regexp)) == rxtext(b.(*regexpVal).(*regexp.Regexp)) || is(b, *regexp.Regexp) && rxtext(a.(*regexp.Regexp)) == rxtext(b.(*regexp.Regexp))
skip internal.(*timeVal).Equals "times are compared by package time"
skip internal.(*functionType).deepEqual "function types are compared through package reflect"
skip internal.exactFunctionType.deepEqual "function types are compared through package reflect"
skip internal.exactFunctionType.Equals "function types are compared through package reflect"
skip internal.(*structType).deepEqual "compares the arrays embedded by value as arrays"
skip internal.(*allOfType).deepEqual "equal operands in any order: containment of a multiset"
skip internal.(*allOfValueType).deepEqual "equal operands in any order: containment of a multiset"
skip internal.(*anyOfType).deepEqual "equal operands in any order: containment of a multiset"
skip internal.(*oneOfType).deepEqual "equal operands in any order: containment of a multiset"
skip loader.(*childLoader).Equals "equality of loaders (C17)"
skip loader.(*loader).Equals "equality of loaders (C17)"
skip loader.(*mapLoader).Equals "equality of loaders (C17)"
