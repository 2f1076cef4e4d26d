# Assignability is sound: the contract every Assignable method is proved against (C03).
package internal

# over dgo values (and the nil that go code may use for Nil); other go values are converted first
define avalue(v Val) bool = v == nil || is(v, dgo.Value)
define subtype(a, b Val) bool = forall v Val {inst(b, v)} :: avalue(v) && inst(b, v) ==> inst(a, v)
assume "the go type system: the elements of a []dgo.Value, the keys and values of entries, and the content of a sensitive are nil or dgo values"
axiom typed_elem: forall s []dgo.Value; i int {s[i]} :: avalue(s[i])
axiom typed_key: forall e Val {ekey(e)} :: avalue(ekey(e))
axiom typed_value: forall e Val {evalue(e)} :: avalue(evalue(e))
axiom typed_sensitive: forall s *sensitive {s.hidden.value} :: avalue(s.hidden.value)
axiom typed_get: forall m, k Val {mget(m, k)} :: avalue(mget(m, k))
assume "equal values are instances of the same types (decided with property C06)"
axiom inst_eq: forall t, a, b Val {inst(t, a), veq(a, b)} :: is(b, dgo.Value) && veq(a, b) && inst(t, a) ==> inst(t, b)
# C18: what is asked of the type of a literal value is asked of the value. A scalar type decides it with Instance.
assume "the go type system: an exact map type holds a map"
axiom typed_exmap: forall t *exactMapType {t.value} :: t.value == nil || is(t.value, dgo.Map)
lemma entry_kind props C18: forall t, v Val {veq(t, v)} :: is(t, *mapEntry) && is(v, dgo.Value) && veq(t, v) ==> is(v, dgo.MapEntry)
lemma map_kind props C18: forall t, v Val {veq(t, v)} :: (is(t, *hashMap) || is(t, *structVal)) && is(v, dgo.Value) && veq(t, v) ==> is(v, dgo.Map)
lemma array_kind props C18: forall t, v Val {veq(t, v)} :: is(t, *array) && is(v, dgo.Value) && veq(t, v) ==> is(v, *array) || is(v, *arguments)
define literal(t Val) bool = is(t, *internal.exactIntegerType) || is(t, *internal.exactFloatType) || is(t, *internal.exactStringType) || is(t, *internal.exactBinaryType) || is(t, *internal.exactBooleanType) || is(t, *internal.exactRegexpType) || is(t, *internal.exactTimeType) || is(t, *internal.exactArrayType) || is(t, *internal.exactMapType) && exval(t) != nil || is(t, internal.nilType)
# a value that is not equal to itself (NaN) is left out
define litval(a, b Val; r bool) bool = literal(b) && veq(exval(b), exval(b)) ==> (r <==> inst(a, exval(b)))
func dgo.Type.Assignable(other) props C03 C18
  ensures [literal C18] litval(self, other, result)
  requires other != nil
  unfold other
  maypanic any
  ensures [sound C03] result ==> subtype(self, other)
func dgo.DeepAssignable.DeepAssignable(guard, other) props C03 C18
  ensures [literal C18] litval(self, other, result)
  requires other != nil
  unfold other
  maypanic any
  ensures [sound C03] result ==> subtype(self, other)
func Assignable(guard, a, b) props C02 C03 C18
  ensures [literal C18] litval(a, b, result)
  requires a != nil && b != nil
  unfold b
  maypanic any
  ensures [sound C03] result ==> subtype(a, b)
  ensures [same] same(a, b) ==> result
func dgo.ReverseAssignable.AssignableTo(guard, other) props C03
  requires other != nil
  maypanic any
  ensures [sound C03] result ==> subtype(other, self)
func CheckAssignableTo(guard, t, other) props C02 C03 C18
  requires t != nil && other != nil
  maypanic any
  ensures [reverse] result ==> is(t, dgo.ReverseAssignable)
  ensures [sound C03] result ==> subtype(other, t)
assume "equality of values is transitive (decided with property C06)"
axiom veq_trans: forall a, b, v Val {veq(a, b), veq(b, v)} :: is(b, dgo.Value) && veq(a, b) && veq(b, v) ==> veq(a, v)
define typeoperands(s []dgo.Value) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil && is(s[i], dgo.Type)
inv *allOfType: typeoperands(self.slice) && len(self.slice) > 0
inv *anyOfType: typeoperands(self.slice) && len(self.slice) > 0
inv *oneOfType: typeoperands(self.slice) && len(self.slice) > 0
inv *allOfValueType: forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> self.slice[i] != nil
inv *sensitiveType: self.wrapped != nil
inv *tupleType: typeoperands(self.types)
skip internal.(*named).Assignable "assignability of named types is decided by go reflection or by a user supplied function"
skip internal.(*parameterized).Assignable "assignability of named types is decided by go reflection or by a user supplied function"
skip internal.(*nativeType).Assignable "assignability of native types is decided by package reflect"
skip internal.(*metaType).Assignable "types of types: membership is assignability itself"
skip internal.(*functionType).DeepAssignable "function types are compared through package reflect"
skip internal.(*exactFunctionTuple).DeepAssignable "taken from package reflect"
skip internal.(*patternType).Assignable "matching is done by package regexp"
skip internal.defaultDgoStringType.Assignable "membership means that the parser accepts the string"
skip internal.(*ciStringType).Assignable "case folding is done by package strings"
axiom inst_embedded: forall t *deepExactType; v Val {inst(val(t), v)} :: inst(val(t), v) <==> inst(t.ExactType, v)
skip internal.(*exactNamed).Assignable "named types are compared by name, their values through package reflect"
skip internal.exactFunctionType.Assignable "function types are compared through package reflect"
skip internal.exactFunctionType.DeepAssignable "function types are compared through package reflect"

func (*allOfType).AssignableTo(guard, other) props C03
  requires other != nil
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> subtype(other, self.slice[j])
func (*anyOfType).AssignableTo(guard, other) props C03
  requires other != nil
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> subtype(other, self.slice[j])
func (*oneOfType).AssignableTo(guard, other) props C03
  requires other != nil
  maypanic any
  loop 1 invariant forall j int {self.slice[j]} :: 0 <= j && j < $i ==> subtype(other, self.slice[j])
skip internal.(*allOfValueType).AssignableTo "the types of the operands are made on demand (bounded, see the harness)"
skip props C03 internal.(*allOfType).DeepAssignable "each operand must be met by one of the operands of the source (bounded, see the harness)"
skip internal.(*allOfValueType).DeepAssignable "each operand must be met by one of the operands of the source (bounded, see the harness)"
skip props C03 internal.(*structType).DeepAssignable "entries are matched in any order and counted (bounded, see the harness)"
skip props C03 internal.(*notType).Assignable "known finding: a negation only compares operands"
skip props C03 internal.(*oneOfType).DeepAssignable "known finding: exclusive alternatives only compare operands"
define istuple(t Val) bool = is(t, *tupleType) || is(t, *exactFunctionTuple)
func tupleAssignableTuple(guard, t, ot) props C03
  requires istuple(t) && istuple(ot)
  unfold t
  unfold ot
  maypanic any
  ensures [sound] result ==> subtype(t, ot)
  loop 1 invariant forall j int {tel(t, j), tel(ot, j)} {telem(ot, j)} {telem(t, j)} :: 0 <= j && j < i ==> subtype(tel(t, j), tel(ot, j))
func tupleAssignableArray(guard, t, ot) props C03
  requires istuple(t) && ot != nil
  unfold t
  unfold ot
  maypanic any
  ensures [sound] result ==> subtype(t, val(ot))
  loop 1 invariant forall j int {telem(t, j)} :: 0 <= j && j < i ==> subtype(telem(t, j), ot.elementType)
skip internal.(*sizedArrayType).DeepAssignable "proved by its own contract, except for exact arrays and the parameters of go functions, whose element types are made on demand, and targets whose element type is the AllOf of an exact array (bounded, see the harness)"
skip internal.(*sizedMapType).DeepAssignable "proved by its own contract; for structs and exact maps that every entry is covered, the conclusion for their instances is bounded (see the harness)"
skip props C03 internal.(*exactMapType).DeepAssignable "delegates to the equality of maps (bounded, see the harness)"
skip props C03 internal.defaultMapType.Assignable "that only maps are equal to a map (bounded, see the harness)"
skip props C03 internal.(*sizedStringType).Assignable "the window of a case insensitive string is computed by package unicode (bounded, see the harness)"
skip internal.(*allOfType).AssignableTo "an instance of an AllOf is an instance of one chosen operand (bounded, see the harness)"
assume "the equality of times and of go errors only holds for times and for go errors (their Equals methods use packages time and errors)"
axiom time_kind: forall t *timeVal; v Val {veq(val(t), v)} :: veq(val(t), v) ==> is(v, *timeVal) || is(v, time.Time) || is(v, *time.Time)
axiom err_kind: forall t *errw; v Val {veq(val(t), v)} :: veq(val(t), v) ==> is(v, error)
func (*anyOfType).DeepAssignable(guard, other) props C03 C18
  requires other != nil
  unfold other
  maypanic any
  loop 1 invariant [literal C18] forall j int {self.slice[j]} :: 0 <= j && j < $i ==> litval(self.slice[j], other, false)
func (*oneOfType).DeepAssignable(guard, other) props C18
  requires other != nil
  unfold other
  maypanic any
  loop 1 invariant [literal C18] literal(other) && veq(exval(other), exval(other)) ==> (found <==> (exists j int {self.slice[j]} :: 0 <= j && j < $i && inst(self.slice[j], exval(other))))
  loop 1 invariant [literal C18] literal(other) && veq(exval(other), exval(other)) ==> (forall j, k int {self.slice[j], self.slice[k]} :: 0 <= j && j < k && k < $i ==> !(inst(self.slice[j], exval(other)) && inst(self.slice[k], exval(other))))
func (*allOfType).DeepAssignable(guard, other) props C18
  requires other != nil
  unfold other
  maypanic any
  loop 1 invariant [literal C18] forall j int {self.slice[j]} :: 0 <= j && j < $i ==> litval(self.slice[j], other, true)
func (*structType).DeepAssignable(guard, other) props C18
  requires other != nil
  unfold other
  maypanic any
  loop 1 invariant 0 <= oc && oc <= $i
  loop 2 invariant 0 <= oc && oc <= mi
extern internal.lessRestrictive(guard, ats, bts) props C18
  maypanic any
extern internal.typeSlice(vs, fc) props C18
  maypanic any
bounded props C18 collections "(*sizedArrayType).DeepAssignable, (*sizedMapType).DeepAssignable, (*allOfValueType).DeepAssignable and the parts of exact arrays and maps seen as tuples and structs: every pair of 140 values and 230 types, and random pairs"
bounded props C18 texts "patterns, case insensitive strings: matched by packages regexp and strings; every pair of the values and types of the harness"
