# Membership: inst(t, v) is what t.Instance(v) means. The cases are the definition; every Instance and DeepInstance
# method is proved against it (C02: windows, C04: combinators, C05: collections).
package internal

spec world bytag inst(t Val, v Val) bool

func dgo.Type.Instance(value) props C02 C04 C05 C18
  maypanic any
  returns inst(self, value)
func dgo.DeepInstance.DeepInstance(guard, value) props C02 C04 C05 C18
  maypanic any
  returns inst(self, value)
func Instance(guard, a, b) props C02 C04 C05 C18
  requires a != nil
  maypanic any
  returns inst(a, b)

# --- scalars
case inst(t, v) for anyType = true
case inst(t, v) for nilType = v == nil || v == val(Nil)
case inst(t, v) for booleanType = is(v, boolean) || is(v, bool)
case inst(t, v) for regexpType = is(v, *regexpVal) || is(v, *regexp.Regexp)
case inst(t, v) for timeType = is(v, *timeVal) || is(v, *time.Time) || is(v, time.Time)
case inst(t, v) for errType = is(v, error)
case inst(t, v) for *integerType = isint(v) && t.min <= intof(v) && (t.inclusive && intof(v) <= t.max || !t.inclusive && intof(v) < t.max)
case inst(t, v) for defaultIntegerType = isint(v)
case inst(t, v) for *floatType = isfloat(v) && inrange(floatof(v), t.min, t.max, t.inclusive)
case inst(t, v) for defaultFloatType = isfloat(v)

# --- exact types: the values equal to the exact one
case inst(t, v) for *exactIntegerType = veq(exval(t), v)
case inst(t, v) for *exactFloatType = veq(exval(t), v)
case inst(t, v) for *exactArrayType = veq(exval(t), v)
case inst(t, v) for *exactBinaryType = veq(exval(t), v)
case inst(t, v) for *exactBooleanType = veq(exval(t), v)
case inst(t, v) for *exactErrorType = veq(exval(t), v)
case inst(t, v) for *exactEntryType = veq(exval(t), v)
case inst(t, v) for *exactMapType = veq(exval(t), v)
case inst(t, v) for *exactNamed = veq(exval(t), v)
case inst(t, v) for *exactRegexpType = veq(exval(t), v)
case inst(t, v) for *exactStringType = veq(exval(t), v)
case inst(t, v) for *exactTimeType = veq(exval(t), v)

# --- strings by pattern and by folded text
extern regexp.(*Regexp).MatchString(s)
  pure
extern strings.EqualFold(s, t)
  pure
skip internal.(*patternType).Instance "matching is done by package regexp"
skip internal.(*ciStringType).Instance "case folding is done by package strings"
skip internal.defaultDgoStringType.Instance "membership means that the parser accepts the string"
skip internal.(*functionType).Instance "function types are compared through package reflect"
skip internal.exactFunctionType.Instance "function types are compared through package reflect"
skip internal.(*metaType).Instance "membership of a type in a type of types is assignability (C03)"
skip internal.(*named).Instance "membership in a named type is decided by go reflection or by a user supplied function"
skip internal.(*parameterized).Instance "membership in a named type is decided by go reflection or by a user supplied function"
skip internal.(*nativeType).Instance "membership in a native type is decided by package reflect"

# --- windows
define isstr(v Val) bool = is(v, *internal.hstring) || is(v, string)
define strof(v Val) string = ite(is(v, *internal.hstring), v.(*internal.hstring).s, v.(string))
define within(min, n, max int) bool = min <= n && n <= max
case inst(t, v) for defaultStringType = isstr(v)
case inst(t, v) for *sizedStringType = isstr(v) && within(t.min, len(strof(v)), t.max)
case inst(t, v) for *binaryType = is(v, *binary) && within(t.min, len(v.(*binary).bytes), t.max) || is(v, []byte) && within(t.min, len(v.([]byte)), t.max)

# --- combinators
case inst(t, v) for *allOfType = forall i int {t.slice[i]} :: 0 <= i && i < len(t.slice) ==> inst(t.slice[i], v)
case inst(t, v) for *anyOfType = exists i int {t.slice[i]} :: 0 <= i && i < len(t.slice) && inst(t.slice[i], v)
case inst(t, v) for *oneOfType = exists i int {t.slice[i]} :: 0 <= i && i < len(t.slice) && inst(t.slice[i], v) && (forall j int {t.slice[j]} :: 0 <= j && j < len(t.slice) && j != i ==> !inst(t.slice[j], v))
case inst(t, v) for *notType = !inst(t.negated, v)
case inst(t, v) for *sensitiveType = is(v, *sensitive) && inst(t.wrapped, v.(*sensitive).hidden.value)

# --- arrays
define allinst(t Val; s []dgo.Value) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> inst(t, s[i])
case inst(t, v) for defaultArrayType = is(v, dgo.Array)
case inst(t, v) for *sizedArrayType = is(v, *array) && within(t.min, len(v.(*array).slice), t.max) && allinst(t.elementType, v.(*array).slice)
func allInstance(guard, t, vs) props C02 C05
  requires t != nil
  maypanic any
  returns allinst(t, vs)
  loop 1 invariant forall j int {vs[j]} :: 0 <= j && j < $i ==> inst(t, vs[j])

# a tuple as seen through dgo.TupleType
spec world bytag tvar(t Val) bool
spec world bytag tlen(t Val) int
spec world bytag telem(t Val; i int) Val
case tvar(t) for *tupleType = t.variadic
case tlen(t) for *tupleType = len(t.types)
case telem(t, i) for *tupleType = t.types[i]
case tvar(t) for *exactArrayType = false
case tlen(t) for *exactArrayType = len(t.value.slice)
inv *tupleType: (self.variadic ==> len(self.types) > 0)
func dgo.TupleType.Variadic props C05
  pure
  returns tvar(self)
func dgo.TupleType.Len props C05
  pure
  ensures result == tlen(self)
  ensures result >= 0 && (tvar(self) ==> result > 0)
func dgo.TupleType.Element(index) props C05
  maypanic any
  ensures same(result, telem(self, index))
  ensures result != nil
skip internal.(*exactArrayType).Element "element types of an exact array are made on demand"
skip internal.(*exactFunctionTuple).Element "taken from package reflect"
skip internal.(*exactFunctionTuple).Len "taken from package reflect"
skip internal.(*exactFunctionTuple).Variadic "taken from package reflect"
# the window a type reports
spec world bytag smin(t Val) int
spec world bytag smax(t Val) int
define issized(v Val) bool = is(v, *internal.array) || is(v, dgo.Map) || isstr(v) || is(v, *internal.binary) || is(v, []byte)
define sizeof(v Val) int = ite(is(v, *internal.array), len(v.(*internal.array).slice), ite(is(v, dgo.Map), mlen(v), ite(isstr(v), len(strof(v)), ite(is(v, *internal.binary), len(v.(*internal.binary).bytes), len(v.([]byte))))))
axiom mlen_range: forall m Val {mlen(m)} :: 0 <= mlen(m) && mlen(m) <= math.MaxInt64
axiom inst_text: forall t, v Val {inst(t, v)} :: (is(t, *patternType) || is(t, *ciStringType) || is(t, defaultDgoStringType)) && inst(t, v) ==> isstr(v) && (is(t, defaultDgoStringType) ==> len(strof(v)) >= 1)
assume "an instance of a pattern, case insensitive, or dgo string type is a string (a dgo string is not empty)"
func dgo.SizedType.Min props C02 C05
  pure
  ensures result == smin(self)
  ensures is(self, dgo.TupleType) ==> result == tlen(self) - ite(tvar(self), 1, 0)
func dgo.SizedType.Max props C02 C05
  pure
  returns smax(self)
case smin(t) for *tupleType = len(t.types) - ite(t.variadic, 1, 0)
case smax(t) for *tupleType = ite(t.variadic, math.MaxInt64, len(t.types))
case smin(t) for *exactFunctionTuple = tlen(t) - ite(tvar(t), 1, 0)
case smax(t) for *exactFunctionTuple = ite(tvar(t), math.MaxInt64, tlen(t))
case smin(t) for *exactArrayType = len(t.value.slice)
case smax(t) for *exactArrayType = len(t.value.slice)
case smin(t) for *sizedArrayType = t.min
case smax(t) for *sizedArrayType = t.max
case smin(t) for defaultArrayType = 0
case smax(t) for defaultArrayType = math.MaxInt64
case smin(t) for *sizedMapType = t.min
case smax(t) for *sizedMapType = t.max
case smin(t) for defaultMapType = 0
case smax(t) for defaultMapType = math.MaxInt64
case smin(t) for *exactMapType = mlen(t.value)
case smax(t) for *exactMapType = mlen(t.value)
case smax(t) for *structType = ite(len(t.required) == 0 || t.additional, math.MaxInt64, len(t.required))
# the number of required entries among the first i
spec world reqcount(s []bool; i int) int
axiom reqcount_0: forall s []bool; i int {reqcount(s, i)} :: i <= 0 ==> reqcount(s, i) == 0
axiom reqcount_step: forall s []bool; i, k int {reqcount(s, i), reqcount(s, k)} :: 0 <= i && k == i + 1 ==> reqcount(s, k) == reqcount(s, i) + ite(s[i], 1, 0)
case smin(t) for *structType = reqcount(t.required, len(t.required))
func (*structType).Min props C02
  loop 1 invariant min == reqcount(self.required, $i) && 0 <= min && min <= $i
case smin(t) for *sizedStringType = t.min
case smax(t) for *sizedStringType = t.max
case smin(t) for defaultStringType = 0
case smax(t) for defaultStringType = math.MaxInt64
case smin(t) for *exactStringType = len(t.value.s)
case smax(t) for *exactStringType = len(t.value.s)
case smin(t) for *patternType = 0
case smax(t) for *patternType = math.MaxInt64
case smin(t) for defaultDgoStringType = 1
case smax(t) for defaultDgoStringType = math.MaxInt64
inv *exactStringType: self.value != nil
inv *exactBinaryType: self.value != nil
inv *exactMapType: self.value != nil
inv *exactArrayType: self.value != nil
case smin(t) for *binaryType = t.min
case smax(t) for *binaryType = t.max
case smin(t) for *exactBinaryType = len(t.value.bytes)
case smax(t) for *exactBinaryType = len(t.value.bytes)
skip internal.(*ciStringType).Min "the window of a case insensitive string is that of its folded variants (C03)"
skip internal.(*ciStringType).Max "the window of a case insensitive string is that of its folded variants (C03)"
case inst(t, v) for *exactFunctionTuple = tupleinst(t, v)
inv *sizedArrayType: self.elementType != nil
func tupleMin(t) props C05
  requires t != nil
  pure
  returns tlen(t) - ite(tvar(t), 1, 0)
# the type that decides element i of a value: a variadic tuple repeats its last type
spec world tel(t Val; i int) Val
axiom tel_def: forall t Val; i int {tel(t, i)} :: tel(t, i) == telem(t, ite(tvar(t) && i >= tlen(t) - 1, tlen(t) - 1, i))
define tupleinst(t Val; v Val) bool = is(v, *array) && ite(tvar(t), tlen(t) - 1 <= len(v.(*array).slice), tlen(t) == len(v.(*array).slice))
    && (forall i int {v.(*array).slice[i]} {tel(t, i)} :: 0 <= i && i < len(v.(*array).slice) ==> inst(tel(t, i), v.(*array).slice[i]))
func tupleInstance(guard, t, value) props C05
  requires t != nil
  maypanic any
  returns tupleinst(t, value)
  loop 1 invariant 0 <= i && i <= tn && (forall j int {s[j]} {tel(t, j)} :: 0 <= j && j < i ==> inst(tel(t, j), s[j]))
  loop 2 invariant tlen(t) - 1 <= tn && tn <= n && (forall j int {s[j]} {tel(t, j)} :: 0 <= j && j < tn ==> inst(tel(t, j), s[j]))
  loop 3 invariant forall j int {s[j]} {tel(t, j)} :: 0 <= j && j < $i ==> inst(tel(t, j), s[j])
case inst(t, v) for *tupleType = tupleinst(t, v)

func (*oneOfType).DeepInstance(guard, value) props C04
  maypanic any
  loop 1 invariant found <==> (exists i int {$s[i]} :: 0 <= i && i < $i && inst($s[i], value))
  loop 1 invariant forall i, j int {$s[i], $s[j]} :: 0 <= i && i < j && j < $i ==> !(inst($s[i], value) && inst($s[j], value))

# --- maps: the entries in order (nil beyond the last), the number of them, and the value found for a key
spec world bytag ment(m Val; i int) Val
spec world bytag mlen(m Val) int
spec world bytag mget(m Val; k Val) Val
spec world bytag ekey(e Val) Val
spec world bytag evalue(e Val) Val
case ment(m, i) for *hashMap = ite(nth(m.first, i) == nil, nil, val(nth(m.first, i)))
case mlen(m) for *hashMap = m.len
case mlen(m) for *array = len(m.slice)
case mlen(m) for *arguments = len(m.slice)
case ekey(e) for *hashNode = e.key
case evalue(e) for *hashNode = e.value
case ekey(e) for *structEntry = e.key
case evalue(e) for *structEntry = e.value
case ekey(e) for *mapEntry = e.key
case evalue(e) for *mapEntry = e.value
func dgo.Iterable.Len props C05 C20
  pure
  ensures result == mlen(self)
  ensures !is(self, dgo.Map) ==> result >= 0
func dgo.MapEntry.Key props C05 C20
  pure
  returns ekey(self)
func dgo.MapEntry.Value props C05 C20
  pure
  returns evalue(self)
func dgo.Keyed.Get(key) props C05
  maypanic any
  returns mget(self, key)
func dgo.Map.All(predicate) props C05 traced
  modifies calls(predicate)
  ensures result <==> (forall i int {ment(self, i)} :: 0 <= i && ment(self, i) != nil ==> app(predicate, ment(self, i)))
func dgo.Map.AllKeys(predicate) props C05 traced
  modifies calls(predicate)
  ensures result <==> (forall i int {ment(self, i)} :: 0 <= i && ment(self, i) != nil ==> app(predicate, ekey(ment(self, i))))
func dgo.Map.AllValues(predicate) props C05 traced
  modifies calls(predicate)
  ensures result <==> (forall i int {ment(self, i)} :: 0 <= i && ment(self, i) != nil ==> app(predicate, evalue(ment(self, i))))
skip internal.(*structVal).Len "a map view of a go struct reads its entries through package reflect"
skip internal.(*structVal).Get "a map view of a go struct reads its entries through package reflect"
skip internal.(*structVal).All "a map view of a go struct reads its entries through package reflect"
skip internal.(*structVal).AllKeys "a map view of a go struct reads its entries through package reflect"
skip internal.(*structVal).AllValues "a map view of a go struct reads its entries through package reflect"
skip loader.(*loader).Get "lookup in a loader is decided with property C17"
skip loader.(*mapLoader).Get "lookup in a loader is decided with property C17"
skip loader.(*childLoader).Get "lookup in a loader is decided with property C17"
skip internal.(*hashMap).Get "lookup is decided with property C08"

case inst(t, v) for defaultMapType = is(v, dgo.Map)
case inst(t, v) for *sizedMapType = is(v, dgo.Map) && within(t.min, mlen(v), t.max)
   && (forall i int {ment(v, i)} :: 0 <= i && ment(v, i) != nil ==> inst(t.keyType, ekey(ment(v, i))) && inst(t.valueType, evalue(ment(v, i))))

# the number of the first i keys that the map has
spec world dcnt(ks Vals; o int; m Val; i int) int
axiom dcnt_zero: forall ks Vals; o int; m Val {dcnt(ks, o, m, 0)} :: dcnt(ks, o, m, 0) == 0
axiom dcnt_step: forall ks Vals; o int; m Val; i, k int {dcnt(ks, o, m, i), dcnt(ks, o, m, k)} :: 0 <= i && k == i + 1 ==> dcnt(ks, o, m, k) == dcnt(ks, o, m, i) + ite(mget(m, exval(ks[o + i])) != nil, 1, 0)
define entryok(t *structType; v Val; i int) bool = ite(mget(v, exval(t.keys.slice[i])) != nil, inst(t.values.slice[i], mget(v, exval(t.keys.slice[i]))), !t.required[i])
case inst(t, v) for *structType = is(v, dgo.Map) && (forall i int {t.keys.slice[i]} :: 0 <= i && i < len(t.keys.slice) ==> entryok(t.(*structType), v, i))
   && (t.additional || dcnt(vals(t.keys.slice), off(t.keys.slice), v, len(t.keys.slice)) == mlen(v))
func (*structType).DeepInstance(guard, value) props C05
  maypanic any
  loop 1 invariant forall j int {self.keys.slice[j]} :: 0 <= j && j < $i ==> entryok(self, value, j)
  loop 1 invariant 0 <= oc && oc <= $i && oc == dcnt(vals(self.keys.slice), off(self.keys.slice), value, $i)
func (*allOfType).DeepInstance(guard, value) props C04
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> inst(self.slice[j], value)
func (*anyOfType).DeepInstance(guard, value) props C04
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> !inst(self.slice[j], value)
# --- the type of a value accepts exactly the values equal to it (C18)
func dgo.Value.Type props C04 C18
  ensures result != nil
  ensures [exact] !is(self, dgo.Type) ==> (forall v Val {inst(result, v)} :: inst(result, v) <==> veq(self, v))
  ensures [meta] is(self, dgo.Type) ==> (forall v Val {inst(result, v)} :: inst(result, v) <==> metainst(self, v))
# membership in the type of a type is assignability (C03)
spec world metainst(t Val, v Val) bool
case inst(t, v) for *metaType = metainst(t.tp, v)
define accepts(e, v Val) bool = ite(is(e, dgo.Type), metainst(e, v), veq(e, v))
skip internal.(*typeError).Type "the type of an error made by dgo is the error type"
skip internal.(*sizeError).Type "the type of an error made by dgo is the error type"
skip internal.(*mapKeyError).Type "the type of an error made by dgo is the error type"
skip internal.(*arguments).Type "promoted from the embedded array"
skip internal.(*hashNode).Type "promoted from the embedded entry"
skip internal.(*structEntry).Type "entries of struct types describe types"
skip internal.(*sensitive).Type "the type of a sensitive value must not disclose it"
skip internal.(*native).Type "the type of a native value is its go type"
skip internal.(*goFunc).Type "the type of a function is taken from package reflect"
case inst(t, v) for *allOfValueType = forall i int {t.slice[i]} :: 0 <= i && i < len(t.slice) ==> accepts(t.slice[i], v)
func (*allOfValueType).DeepInstance(guard, value) props C04
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> accepts(self.slice[j], value)
inv *sizedMapType: self.keyType != nil && self.valueType != nil
skip internal.(*metaType).Type "the type of a type of types is the default type of types"
skip internal.exactFunctionType.Type "function types are compared through package reflect"
skip internal.boolean.Type "the two exact boolean types are made when the package is initialised"

# --- construction: the window is kept, inverted bounds are swapped and negative ones are zero
define clamp(n int) int = ite(n < 0, 0, n)
define wlo(min, max int) int = ite(clamp(max) < clamp(min), clamp(max), clamp(min))
define whi(min, max int) int = ite(clamp(max) < clamp(min), clamp(min), clamp(max))
define oranyt(t Val) Val = ite(t == nil, val(DefaultAnyType), t)
func SizedStringType(min, max) props C02
  ensures result != nil && (is(result, *sizedStringType) || is(result, defaultStringType))
  ensures [window] smin(result) == wlo(min, max) && smax(result) == whi(min, max)
func SizedBinaryType(min, max) props C02
  ensures is(result, *binaryType) && result != nil
  ensures [window] smin(result) == wlo(min, max) && smax(result) == whi(min, max)
func newArrayType(elementType, min, max) props C02 C05
  maypanic any
  ensures [kind] is(result, *sizedArrayType) || is(result, defaultArrayType) || is(result, *exactArrayType)
  ensures [window] smin(result) == wlo(min, max) && smax(result) == whi(min, max)
  ensures [element] is(result, *sizedArrayType) ==> same(result.(*sizedArrayType).elementType, oranyt(elementType))
  ensures [unconstrained] is(result, defaultArrayType) ==> oranyt(elementType) == val(DefaultAnyType)
  ensures [exact] is(result, *exactArrayType) ==> same(result.(*exactArrayType).value.slice[0], exval(elementType))
func newMapType(kt, vt, min, max) props C02 C05
  ensures [kind] is(result, *sizedMapType) || is(result, defaultMapType)
  ensures [window] smin(result) == wlo(min, max) && smax(result) == whi(min, max)
  ensures [parts] is(result, *sizedMapType) ==> same(result.(*sizedMapType).keyType, oranyt(kt)) && same(result.(*sizedMapType).valueType, oranyt(vt))
  ensures [unconstrained] is(result, defaultMapType) ==> oranyt(kt) == val(DefaultAnyType) && oranyt(vt) == val(DefaultAnyType)

# --- inclusion of windows
define encloses(lo, hi, lo2, hi2 int) bool = lo <= lo2 && hi2 <= hi
func (*sizedStringType).Assignable(other) props C02
  requires other != nil
  unfold other
  maypanic any
  ensures [window] is(other, *sizedStringType) ==> (result <==> encloses(self.min, self.max, smin(other), smax(other)))
  ensures [exact] is(other, *exactStringType) ==> (result <==> inst(val(self), val(other.(*exactStringType).value)))
  ensures [unbounded] is(other, defaultStringType) ==> !result
func defaultStringType.Assignable(other) props C02
  requires other != nil
  maypanic any
  ensures [all] is(other, *sizedStringType) || is(other, *exactStringType) || is(other, defaultStringType) ==> result
func (*binaryType).Assignable(other) props C02
  requires other != nil
  unfold other
  maypanic any
  ensures [window] is(other, dgo.BinaryType) ==> (result <==> encloses(self.min, self.max, smin(other), smax(other)))
func (*sizedArrayType).DeepAssignable(guard, other) props C02 C03
  ensures [parts C03] is(other, *sizedArrayType) && result ==> subtype(self.elementType, other.(*sizedArrayType).elementType)
  requires other != nil
  unfold other
  maypanic any
  ensures [window] is(other, dgo.ArrayType) && result ==> encloses(self.min, self.max, smin(other), smax(other))
  ensures [encloses] is(other, *sizedArrayType) && same(self.elementType, other.(*sizedArrayType).elementType) ==> (result <==> encloses(self.min, self.max, smin(other), smax(other)))
  loop 1 invariant [elements C03] forall j int {telem(other, j)} :: 0 <= j && j < i ==> subtype(self.elementType, telem(other, j))
  ensures [elements C03] is(other, dgo.TupleType) && !is(self.elementType, *allOfValueType) && result ==> (forall j int {telem(other, j)} :: 0 <= j && j < tlen(other) ==> subtype(self.elementType, telem(other, j)))
  ensures [sound C03] result && (is(other, *tupleType) ==> !is(self.elementType, *allOfValueType)) && (is(other, dgo.TupleType) ==> is(other, *tupleType)) ==> subtype(val(self), other)
func defaultArrayType.Assignable(other) props C02
  requires other != nil
  maypanic any
  ensures [all] is(other, *sizedArrayType) || is(other, *exactArrayType) || is(other, defaultArrayType) || is(other, *tupleType) ==> result
func (*sizedMapType).DeepAssignable(guard, other) props C02 C03
  ensures [parts C03] is(other, *sizedMapType) && result ==> subtype(self.keyType, other.(*sizedMapType).keyType) && subtype(self.valueType, other.(*sizedMapType).valueType)
  ensures [sound C03] !is(other, dgo.StructMapType) && result ==> subtype(val(self), other)
  ensures [entries C03] is(other, dgo.StructMapType) && result ==> (additional(other) ==> subtype(self.keyType, val(DefaultAnyType)) && subtype(self.valueType, val(DefaultAnyType)))
      && (forall j int {sent(other, j)} :: 0 <= j && j < sentn(other) ==> covers(self, other, j))
  requires other != nil
  unfold other
  maypanic any
  ensures [window] is(other, dgo.MapType) && result ==> encloses(self.min, self.max, smin(other), smax(other))
  ensures [encloses] is(other, *sizedMapType) && same(self.keyType, other.(*sizedMapType).keyType) && same(self.valueType, other.(*sizedMapType).valueType) ==> (result <==> encloses(self.min, self.max, smin(other), smax(other)))
func defaultMapType.Assignable(other) props C02
  requires other != nil
  maypanic any
  ensures [all] is(other, *sizedMapType) || is(other, *exactMapType) || is(other, defaultMapType) || is(other, *structType) ==> result

# --- construction of combinators
func NotType(t) props C04
  requires t != nil
  unfold t
  maypanic any
  ensures result != nil
  ensures [meaning] forall v Val {inst(result, v)} :: inst(result, v) <==> !inst(t, v)
inv *notType: self.negated != nil
func (*array).Type props C18
  ensures is(result, *exactArrayType) && result.(*exactArrayType).value == self
func (*hashMap).Type props C18
  ensures is(result, *exactMapType) && same(result.(*exactMapType).value, val(self))
func (*hstring).Type props C18 C07
  ensures is(result, *exactStringType) && result.(*exactStringType).value == self
func (*binary).Type props C18 C07
  ensures is(result, *exactBinaryType) && result.(*exactBinaryType).value == self
extern internal.foldedLengths(s)
  pure
# the entries of a struct type, or of an exact map seen as one, in the order in which they are visited
spec world sent(t Val, i int) dgo.StructMapEntry
spec world sentn(t Val) int
assume props C03 "the iteration Each of a struct type (or exact map) visits entries that are never nil, whose keys and values are types"
axiom sent_some: forall t Val; i int {sent(t, i)} :: sent(t, i) != nil && ekey(sent(t, i)) != nil && evalue(sent(t, i)) != nil
extern in internal dgo.StructMapType.Each(actor) props C02 C03
  maypanic any
  iterates actor(sent(self, $i)) while $i < sentn(self)
spec world bytag additional(t Val) bool
case additional(t) for *structType = t.additional
case additional(t) for *exactMapType = false
func dgo.StructMapType.Additional props C02 C03
  pure
  returns additional(self)
# what Each gives its callback: one entry for each key, in order
define entryof(e Val; t *structType; i int) bool = is(e, *structEntry) && same(e.(*structEntry).key, t.keys.slice[i]) && same(e.(*structEntry).value, t.values.slice[i]) && e.(*structEntry).required == t.required[i]
define entries(f dgo.EntryPredicate; from, k int; t *structType) bool = ncalls(f) == from + k && (forall j int {callarg(f, j)} :: from <= j && j < from + k ==> entryof(callarg(f, j), t, j - from))
func (*structType).Each(actor) props C03 traced
  maypanic any
  modifies calls(actor)
  ensures [entries] entries(actor, old(ncalls(actor)), len(self.keys.slice), self)
  loop 1 invariant entries(actor, old(ncalls(actor)), $i, self)
define covers(t *sizedMapType; st Val; i int) bool = subtype(t.keyType, ekey(sent(st, i))) && subtype(t.valueType, evalue(sent(st, i)))
func (*sizedMapType).assignableStruct(guard, st) props C02 C03
  requires st != nil
  maypanic any
  each 1 invariant [covered C03] ok ==> (forall j int {sent(st, j)} :: 0 <= j && j < $i && j < sentn(st) ==> covers(self, st, j))
  ensures [additional C03] result && additional(st) ==> subtype(self.keyType, val(DefaultAnyType)) && subtype(self.valueType, val(DefaultAnyType))
  ensures [covered C03] result ==> (forall j int {sent(st, j)} :: 0 <= j && j < sentn(st) ==> covers(self, st, j))
func dgo.ArrayType.ElementType props C02 C03
  maypanic any
  ensures is(self, *internal.sizedArrayType) ==> same(result, self.(*internal.sizedArrayType).elementType)
  ensures result != nil
  ensures [covers] !is(self, dgo.TupleType) ==> (forall v Val; i int {inst(self, v), v.(*internal.array).slice[i]} :: is(v, *internal.array) && inst(self, v) && 0 <= i && i < len(v.(*internal.array).slice) ==> inst(result, v.(*internal.array).slice[i]))
func dgo.MapType.KeyType props C02 C03
  maypanic any
  ensures is(self, *internal.sizedMapType) ==> same(result, self.(*internal.sizedMapType).keyType)
  ensures result != nil
  ensures [covers] !is(self, *internal.structType) ==> (forall v Val; i int {inst(self, v), ment(v, i)} :: is(v, dgo.Map) && inst(self, v) && 0 <= i && ment(v, i) != nil ==> inst(result, ekey(ment(v, i))))
func dgo.MapType.ValueType props C02 C03
  maypanic any
  ensures is(self, *internal.sizedMapType) ==> same(result, self.(*internal.sizedMapType).valueType)
  ensures result != nil
  ensures [covers] !is(self, *internal.structType) ==> (forall v Val; i int {inst(self, v), ment(v, i)} :: is(v, dgo.Map) && inst(self, v) && 0 <= i && ment(v, i) != nil ==> inst(result, evalue(ment(v, i))))
skip internal.(*exactFunctionTuple).ElementType "taken from package reflect"
skip internal.(*exactMapType).KeyType "the exact key types are collected through a callback"
skip internal.(*exactMapType).ValueType "the exact value types are collected through a callback"
skip internal.(*tupleType).ElementType "the distinct element types are collected (bounded, see the harness)"
# --- go values given as types
func AsType(value) props C04
  requires value != nil
  ensures result != nil
  ensures [type] is(value, dgo.Type) ==> same(result, value)
  ensures [exact] !is(value, dgo.Type) ==> (forall v Val {inst(result, v)} :: inst(result, v) <==> veq(value, v))
# operands that are types; a value given as operand stands for its exact type (AsType)
define alltypes(s []interface{}) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> is(s[i], dgo.Type) && s[i] != nil
func AllOfType(types) props C04
  requires alltypes(types)
  maypanic any
  ensures result != nil
  ensures [meaning] forall v Val {inst(result, v)} :: inst(result, v) <==> (forall i int {types[i]} :: 0 <= i && i < len(types) ==> inst(types[i], v))
  ensures [single] len(types) == 1 ==> same(result, types[0])
  loop 1 invariant fresh(ts) && len(ts) == len(types) && len(types) > 1
  loop 1 invariant forall j int {types[j]} {ts[j]} :: 0 <= j && j < $i ==> same(ts[j], types[j])
func AnyOfType(types) props C04
  requires alltypes(types)
  maypanic any
  ensures result != nil
  ensures [meaning] len(types) > 0 ==> (forall v Val {inst(result, v)} :: inst(result, v) <==> (exists i int {types[i]} :: 0 <= i && i < len(types) && inst(types[i], v)))
  ensures [single] len(types) == 1 ==> same(result, types[0])
  loop 1 invariant fresh(ts) && len(ts) == len(types) && len(types) > 1
  loop 1 invariant forall j int {types[j]} {ts[j]} :: 0 <= j && j < $i ==> same(ts[j], types[j])
func OneOfType(types) props C04
  requires alltypes(types)
  maypanic any
  ensures result != nil
  ensures [meaning] len(types) > 0 ==> (forall v Val {inst(result, v)} :: inst(result, v) <==> (exists i int {types[i]} :: 0 <= i && i < len(types) && inst(types[i], v) && (forall j int {types[j]} :: 0 <= j && j < len(types) && j != i ==> !inst(types[j], v))))
  ensures [single] len(types) == 1 ==> same(result, types[0])
  loop 1 invariant fresh(ts) && len(ts) == len(types) && len(types) > 1
  loop 1 invariant forall j int {types[j]} {ts[j]} :: 0 <= j && j < $i ==> same(ts[j], types[j])
