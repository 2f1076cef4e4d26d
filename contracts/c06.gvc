# C06: equality is symmetric. The lemmas are the steps of an induction over the depth of (acyclic) values.
package internal

spec rank(v Val) int
axiom rank_nat: forall v Val {rank(v)} :: rank(v) >= 0
assume props C06 "values are acyclic: a part of a value has a smaller rank than the value (values that contain themselves are excluded)"
define symbelow(n int) bool = forall x, y Val {veq(x, y)} :: rank(x) < n && avalue(y) && veq(x, y) ==> veq(y, x)
axiom rank_array: forall a *array; i int {a.slice[i]} :: 0 <= i && i < len(a.slice) ==> rank(a.slice[i]) < rank(val(a))
axiom rank_arguments: forall a *arguments; i int {a.slice[i]} :: 0 <= i && i < len(a.slice) ==> rank(a.slice[i]) < rank(val(a))
axiom rank_telem: forall t Val; i int {telem(t, i)} :: rank(telem(t, i)) < rank(t) && avalue(telem(t, i))
axiom rank_exval: forall t Val {exval(t)} :: rank(exval(t)) < rank(t) && avalue(exval(t))
axiom rank_ekey: forall e Val {ekey(e)} :: rank(ekey(e)) < rank(e)
axiom rank_evalue: forall e Val {evalue(e)} :: rank(evalue(e)) < rank(e)
axiom rank_sizedArrayType_elementType: forall a *sizedArrayType {a.elementType} :: rank(a.elementType) < rank(val(a)) && avalue(a.elementType)
axiom rank_sizedMapType_keyType: forall a *sizedMapType {a.keyType} :: rank(a.keyType) < rank(val(a)) && avalue(a.keyType)
axiom rank_sizedMapType_valueType: forall a *sizedMapType {a.valueType} :: rank(a.valueType) < rank(val(a)) && avalue(a.valueType)
axiom rank_sensitiveType_wrapped: forall a *sensitiveType {a.wrapped} :: rank(a.wrapped) < rank(val(a)) && avalue(a.wrapped)
axiom rank_sensitive_value: forall a *sensitive {a.hidden.value} :: rank(a.hidden.value) < rank(val(a)) && avalue(a.hidden.value)
axiom rank_notType_negated: forall a *notType {a.negated} :: rank(a.negated) < rank(val(a)) && avalue(a.negated)
axiom rank_metaType_tp: forall a *metaType {a.tp} :: rank(a.tp) < rank(val(a)) && avalue(a.tp)
axiom rank_parameterized_NamedType: forall a *parameterized {a.NamedType} :: rank(a.NamedType) < rank(val(a)) && avalue(a.NamedType)
axiom rank_parameterized_params: forall a *parameterized {a.params} :: rank(a.params) < rank(val(a)) && avalue(a.params)
axiom rank_mapKeyError_mapType: forall a *mapKeyError {a.mapType} :: rank(a.mapType) < rank(val(a)) && avalue(a.mapType)
axiom rank_mapKeyError_key: forall a *mapKeyError {a.key} :: rank(a.key) < rank(val(a)) && avalue(a.key)
axiom rank_typeError_expected: forall a *typeError {a.expected} :: rank(a.expected) < rank(val(a)) && avalue(a.expected)
axiom rank_typeError_actual: forall a *typeError {a.actual} :: rank(a.actual) < rank(val(a)) && avalue(a.actual)
axiom rank_sizeError_sizedType: forall a *sizeError {a.sizedType} :: rank(a.sizedType) < rank(val(a)) && avalue(a.sizedType)
lemma sym_sizedArrayType props C06 noauto: forall a, b Val :: is(a, *sizedArrayType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_sizedMapType props C06 noauto: forall a, b Val :: is(a, *sizedMapType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_sensitiveType props C06 noauto: forall a, b Val :: is(a, *sensitiveType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_sensitive props C06 noauto: forall a, b Val :: is(a, *sensitive) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_notType props C06 noauto: forall a, b Val :: is(a, *notType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_metaType props C06 noauto: forall a, b Val :: is(a, *metaType) && !veq(a.(*metaType).tp, nil) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_parameterized props C06 noauto: forall a, b Val :: is(a, *parameterized) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_mapKeyError props C06 noauto: forall a, b Val :: is(a, *mapKeyError) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_typeError props C06 noauto: forall a, b Val :: is(a, *typeError) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_sizeError props C06 noauto: forall a, b Val :: is(a, *sizeError) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultMapType props C06 noauto: forall a, b Val :: is(a, defaultMapType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_booleanType props C06 noauto: forall a, b Val :: is(a, booleanType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_errType props C06 noauto: forall a, b Val :: is(a, errType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_nilType props C06 noauto: forall a, b Val :: is(a, nilType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_regexpType props C06 noauto: forall a, b Val :: is(a, regexpType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_timeType props C06 noauto: forall a, b Val :: is(a, timeType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultDgoStringType props C06 noauto: forall a, b Val :: is(a, defaultDgoStringType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultStringType props C06 noauto: forall a, b Val :: is(a, defaultStringType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultFloatType props C06 noauto: forall a, b Val :: is(a, defaultFloatType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultIntegerType props C06 noauto: forall a, b Val :: is(a, defaultIntegerType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_integerType props C06 noauto: forall a, b Val :: is(a, *integerType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_floatType props C06 noauto: forall a, b Val :: is(a, *floatType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_binaryType props C06 noauto: forall a, b Val :: is(a, *binaryType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_sizedStringType props C06 noauto: forall a, b Val :: is(a, *sizedStringType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_named props C06 noauto: forall a, b Val :: is(a, *named) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_array props C06 noauto: forall a, b Val :: is(a, *array) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_arguments props C06 noauto: forall a, b Val :: is(a, *arguments) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_tupleType props C06 noauto: forall a, b Val :: is(a, *tupleType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactFunctionTuple props C06 noauto: forall a, b Val :: is(a, *exactFunctionTuple) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_mapEntry props C06 noauto: forall a, b Val :: is(a, *mapEntry) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_hashNode props C06 noauto: forall a, b Val :: is(a, *hashNode) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_structEntry props C06 noauto: forall a, b Val :: is(a, *structEntry) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactIntegerType props C06 noauto: forall a, b Val :: is(a, *exactIntegerType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactFloatType props C06 noauto: forall a, b Val :: is(a, *exactFloatType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactBinaryType props C06 noauto: forall a, b Val :: is(a, *exactBinaryType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactBooleanType props C06 noauto: forall a, b Val :: is(a, *exactBooleanType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactErrorType props C06 noauto: forall a, b Val :: is(a, *exactErrorType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactNamed props C06 noauto: forall a, b Val :: is(a, *exactNamed) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactRegexpType props C06 noauto: forall a, b Val :: is(a, *exactRegexpType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactStringType props C06 noauto: forall a, b Val :: is(a, *exactStringType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactTimeType props C06 noauto: forall a, b Val :: is(a, *exactTimeType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_ciStringType props C06 noauto: forall a, b Val :: is(a, *ciStringType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactArrayType props C06 noauto: forall a, b Val :: is(a, *exactArrayType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactMapType props C06 noauto: forall a, b Val :: is(a, *exactMapType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_exactEntryType props C06 noauto: forall a, b Val :: is(a, *exactEntryType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_intVal props C06 noauto: forall a, b Val :: is(a, intVal) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_floatVal props C06 noauto: forall a, b Val :: is(a, floatVal) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_boolean props C06 noauto: forall a, b Val :: is(a, boolean) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_hstring props C06 noauto: forall a, b Val :: is(a, *hstring) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_binary props C06 noauto: forall a, b Val :: is(a, *binary) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_regexpVal props C06 noauto: forall a, b Val :: is(a, *regexpVal) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_anyType props C06 noauto: forall a, b Val :: is(a, anyType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
lemma sym_defaultArrayType props C06 noauto: forall a, b Val :: is(a, defaultArrayType) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)
# transitivity
define transbelow(n int) bool = forall x, y, z Val {veq(x, y), veq(y, z)} :: rank(x) < n && avalue(y) && avalue(z) && veq(x, y) && veq(y, z) ==> veq(x, z)
lemma trans_sizedArrayType props C06 noauto: forall a, b, c Val :: is(a, *sizedArrayType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_sizedMapType props C06 noauto: forall a, b, c Val :: is(a, *sizedMapType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_sensitiveType props C06 noauto: forall a, b, c Val :: is(a, *sensitiveType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_sensitive props C06 noauto: forall a, b, c Val :: is(a, *sensitive) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_notType props C06 noauto: forall a, b, c Val :: is(a, *notType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_metaType props C06 noauto: forall a, b, c Val :: is(a, *metaType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_parameterized props C06 noauto: forall a, b, c Val :: is(a, *parameterized) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_mapKeyError props C06 noauto: forall a, b, c Val :: is(a, *mapKeyError) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_typeError props C06 noauto: forall a, b, c Val :: is(a, *typeError) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_sizeError props C06 noauto: forall a, b, c Val :: is(a, *sizeError) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultMapType props C06 noauto: forall a, b, c Val :: is(a, defaultMapType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_booleanType props C06 noauto: forall a, b, c Val :: is(a, booleanType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_errType props C06 noauto: forall a, b, c Val :: is(a, errType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_nilType props C06 noauto: forall a, b, c Val :: is(a, nilType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_regexpType props C06 noauto: forall a, b, c Val :: is(a, regexpType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_timeType props C06 noauto: forall a, b, c Val :: is(a, timeType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultDgoStringType props C06 noauto: forall a, b, c Val :: is(a, defaultDgoStringType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultStringType props C06 noauto: forall a, b, c Val :: is(a, defaultStringType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultFloatType props C06 noauto: forall a, b, c Val :: is(a, defaultFloatType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultIntegerType props C06 noauto: forall a, b, c Val :: is(a, defaultIntegerType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_integerType props C06 noauto: forall a, b, c Val :: is(a, *integerType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_floatType props C06 noauto: forall a, b, c Val :: is(a, *floatType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_binaryType props C06 noauto: forall a, b, c Val :: is(a, *binaryType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_sizedStringType props C06 noauto: forall a, b, c Val :: is(a, *sizedStringType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_named props C06 noauto: forall a, b, c Val :: is(a, *named) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_array props C06 noauto: forall a, b, c Val :: is(a, *array) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_arguments props C06 noauto: forall a, b, c Val :: is(a, *arguments) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_tupleType props C06 noauto: forall a, b, c Val :: is(a, *tupleType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactFunctionTuple props C06 noauto: forall a, b, c Val :: is(a, *exactFunctionTuple) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_mapEntry props C06 noauto: forall a, b, c Val :: is(a, *mapEntry) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_hashNode props C06 noauto: forall a, b, c Val :: is(a, *hashNode) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_structEntry props C06 noauto: forall a, b, c Val :: is(a, *structEntry) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactIntegerType props C06 noauto: forall a, b, c Val :: is(a, *exactIntegerType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactFloatType props C06 noauto: forall a, b, c Val :: is(a, *exactFloatType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactBinaryType props C06 noauto: forall a, b, c Val :: is(a, *exactBinaryType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactBooleanType props C06 noauto: forall a, b, c Val :: is(a, *exactBooleanType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactErrorType props C06 noauto: forall a, b, c Val :: is(a, *exactErrorType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactNamed props C06 noauto: forall a, b, c Val :: is(a, *exactNamed) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactRegexpType props C06 noauto: forall a, b, c Val :: is(a, *exactRegexpType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactStringType props C06 noauto: forall a, b, c Val :: is(a, *exactStringType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactTimeType props C06 noauto: forall a, b, c Val :: is(a, *exactTimeType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_ciStringType props C06 noauto: forall a, b, c Val :: is(a, *ciStringType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactArrayType props C06 noauto: forall a, b, c Val :: is(a, *exactArrayType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactMapType props C06 noauto: forall a, b, c Val :: is(a, *exactMapType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_exactEntryType props C06 noauto: forall a, b, c Val :: is(a, *exactEntryType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_intVal props C06 noauto: forall a, b, c Val :: is(a, intVal) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_floatVal props C06 noauto: forall a, b, c Val :: is(a, floatVal) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_boolean props C06 noauto: forall a, b, c Val :: is(a, boolean) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_nilValue props C06 noauto: forall a, b, c Val :: is(a, nilValue) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_hstring props C06 noauto: forall a, b, c Val :: is(a, *hstring) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_binary props C06 noauto: forall a, b, c Val :: is(a, *binary) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_regexpVal props C06 noauto: forall a, b, c Val :: is(a, *regexpVal) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_anyType props C06 noauto: forall a, b, c Val :: is(a, anyType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
lemma trans_defaultArrayType props C06 noauto: forall a, b, c Val :: is(a, defaultArrayType) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)
# hash codes: hash(v) is what v.HashCode() returns, and equal values have equal ones
define hashbelow(n int) bool = forall x, y Val {veq(x, y)} {hash(x), hash(y)} :: rank(x) < n && avalue(y) && (goeq(x, y) || veq(x, y)) ==> hash(x) == hash(y)
axiom hash_nil: hash(nil) == hash(val(Nil))
spec world bytag hash(v Val) int
func dgo.Value.HashCode props C06
  wrap
  maypanic any
  returns hash(self)
func internal.deepEqual.deepHashCode(seen) props C06
  wrap
  maypanic any
  returns hash(self)
func deepHashCode(seen, e) props C06
  maypanic any
  returns hash(e)
spec strhash(s string) int
extern util.StringHash(s)
  pure
  returns strhash(s)
func (*hstring).HashCode props C06
  maypanic any
  modifies self.h
  returns hash(self)
define hstep(h int, c bool, x int) int = ite(c, wadd(wmul(h, 31), x), h)
define hwin(ti, lo, hi int) int = hstep(hstep(ti, lo > 0, lo), hi < math.MaxInt64, hi)
spec world shash(s []dgo.Value, n int) int
axiom shash_zero: forall s []dgo.Value; n int {shash(s, n)} :: n <= 0 ==> shash(s, n) == 1
axiom shash_step: forall s []dgo.Value; i, k int {shash(s, i), shash(s, k)} :: 0 <= i && k == i + 1 ==> shash(s, k) == wadd(wmul(shash(s, i), 31), hash(s[i]))
spec world thash(t Val, n int) int
axiom thash_zero: forall t Val; n int {thash(t, n)} :: n <= 0 ==> thash(t, n) == ite(tvar(t), 7, 1)
axiom thash_step: forall t Val; i, k int {thash(t, i), thash(t, k)} :: 0 <= i && k == i + 1 ==> thash(t, k) == wadd(wmul(thash(t, i), 31), hash(telem(t, i)))
spec world bhash(s []byte, n int) int
axiom bhash_zero: forall s []byte; n int {bhash(s, n)} :: n <= 0 ==> bhash(s, n) == 1
axiom bhash_step: forall s []byte; i, k int {bhash(s, i), bhash(s, k)} :: 0 <= i && k == i + 1 ==> bhash(s, k) == wadd(wmul(31, bhash(s, i)), s[i])
lemma shash_eq props C06 induct n by shash(s, n - 1), shash(t, n - 1): forall s, t []dgo.Value; n int {shash(s, n), shash(t, n)} :: (forall i int {s[i]} {t[i]} :: 0 <= i && i < n ==> hash(s[i]) == hash(t[i])) ==> shash(s, n) == shash(t, n)
lemma thash_eq props C06 induct n by thash(s, n - 1), thash(t, n - 1): forall s, t Val; n int {thash(s, n), thash(t, n)} :: tvar(s) == tvar(t) && (forall i int {telem(s, i)} {telem(t, i)} :: 0 <= i && i < n ==> hash(telem(s, i)) == hash(telem(t, i))) ==> thash(s, n) == thash(t, n)
lemma bhash_eq props C06 induct n by bhash(s, n - 1), bhash(t, n - 1): forall s, t []byte; n int {bhash(s, n), bhash(t, n)} :: (forall i int {s[i]} {t[i]} :: 0 <= i && i < n ==> s[i] == t[i]) ==> bhash(s, n) == bhash(t, n)
lemma any_only props C06: forall a, b Val {veq(a, b)} :: is(a, anyType) && veq(a, b) ==> goeq(a, b)
func bytesHash(s) props C06
  wrap
  returns bhash(s, len(s))
  loop 1 invariant h == bhash(s, $i)
func tupleHashCode(t, seen) props C06
  wrap
  requires t != nil
  maypanic any
  returns thash(t, tlen(t))
  loop 1 invariant 0 <= i && i <= l && h == thash(t, i)
func (*array).deepHashCode(seen) props C06
  wrap
  maypanic any
  returns hash(self)
  loop 1 invariant h == shash(self.slice, $i)
inv *hstring: self.h == 0 || self.h == strhash(self.s)
axiom f2i_eq: forall x, y float64 {f2i(x), f2i(y)} :: x == y ==> f2i(x) == f2i(y)
case hash(v) for *sizedArrayType = hstep(hwin(dgo.TiArray, v.min, v.max), !goeq(v.elementType, val(DefaultAnyType)), hash(v.elementType))
case hash(v) for *sizedMapType = hstep(hstep(hwin(dgo.TiMap, v.min, v.max), !goeq(v.keyType, val(DefaultAnyType)), hash(v.keyType)), !goeq(v.valueType, val(DefaultAnyType)), hash(v.keyType))
case hash(v) for *array = shash(v.slice, len(v.slice))
case hash(v) for *arguments = shash(v.slice, len(v.slice))
case hash(v) for *tupleType = thash(v, tlen(v))
case hash(v) for *exactFunctionTuple = thash(v, tlen(v))
case hash(v) for *binaryType = hwin(dgo.TiBinary, v.min, v.max)
case hash(v) for *sizedStringType = hwin(dgo.TiStringSized, v.min, v.max)
case hash(v) for *binary = bhash(v.bytes, len(v.bytes))
case hash(v) for *hstring = strhash(v.s)
case hash(v) for *integerType = ite(v.inclusive, wmul(hwin(dgo.TiIntegerRange, v.min, v.max), 3), hwin(dgo.TiIntegerRange, v.min, v.max))
case hash(v) for *mapEntry = bxor(hash(v.key), hash(v.value))
case hash(v) for *hashNode = bxor(hash(v.key), hash(v.value))
case hash(v) for *structEntry = bxor(hash(v.key), hash(v.value))
case hash(v) for *metaType = ite(v.tp == nil, dgo.TiMeta * 1321, wadd(dgo.TiMeta * 1321, hash(v.tp)))
case hash(v) for *named = wadd(wmul(strhash(v.name), 7), dgo.TiNamed)
case hash(v) for *parameterized = wadd(wmul(hash(v.NamedType), 31), hash(v.params))
case hash(v) for *notType = wadd(1579, hash(v.negated))
case hash(v) for *regexpVal = strhash(rxtext(v.(*regexp.Regexp)))
case hash(v) for *sensitiveType = wadd(dgo.TiSensitive * 31, hash(v.wrapped))
case hash(v) for *sensitive = wmul(hash(v.hidden.value), 7)
case hash(v) for *mapKeyError = wadd(wmul(hash(v.mapType), 31), hash(v.key))
case hash(v) for *typeError = wadd(wmul(hash(v.expected), 31), hash(v.actual))
case hash(v) for *sizeError = wadd(wmul(hash(v.sizedType), 7), v.attemptedSize)
case hash(v) for floatVal = f2i(v.(float64))
case hash(v) for *exactIntegerType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactFloatType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactBinaryType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactBooleanType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactErrorType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactNamed = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactRegexpType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactStringType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactTimeType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *ciStringType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactArrayType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactMapType = wadd(wmul(hash(exval(v)), 7), tid(v))
case hash(v) for *exactEntryType = wadd(wmul(hash(exval(v)), 7), tid(v))
skip internal.intVal.HashCode "a function of the value itself, which holds no reference"
skip internal.boolean.HashCode "a function of the value itself, which holds no reference"
skip internal.anyType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultArrayType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultMapType.HashCode "a function of the value itself, which holds no reference"
skip internal.booleanType.HashCode "a function of the value itself, which holds no reference"
skip internal.errType.HashCode "a function of the value itself, which holds no reference"
skip internal.nilType.HashCode "a function of the value itself, which holds no reference"
skip internal.regexpType.HashCode "a function of the value itself, which holds no reference"
skip internal.timeType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultDgoStringType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultStringType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultFloatType.HashCode "a function of the value itself, which holds no reference"
skip internal.defaultIntegerType.HashCode "a function of the value itself, which holds no reference"
skip internal.nilValue.HashCode "a function of the value itself, which holds no reference"
lemma hash_sizedArrayType props C06 noauto: forall a, b Val :: is(a, *sizedArrayType) && avalue(b) && symbelow(rank(a)) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_sizedMapType props C06 noauto: forall a, b Val :: is(a, *sizedMapType) && avalue(b) && symbelow(rank(a)) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_array props C06 noauto: forall a, b Val :: is(a, *array) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_arguments props C06 noauto: forall a, b Val :: is(a, *arguments) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_tupleType props C06 noauto: forall a, b Val :: is(a, *tupleType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactFunctionTuple props C06 noauto: forall a, b Val :: is(a, *exactFunctionTuple) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_binaryType props C06 noauto: forall a, b Val :: is(a, *binaryType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_sizedStringType props C06 noauto: forall a, b Val :: is(a, *sizedStringType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_binary props C06 noauto: forall a, b Val :: is(a, *binary) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_hstring props C06 noauto: forall a, b Val :: is(a, *hstring) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_integerType props C06 noauto: forall a, b Val :: is(a, *integerType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_mapEntry props C06 noauto: forall a, b Val :: is(a, *mapEntry) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_hashNode props C06 noauto: forall a, b Val :: is(a, *hashNode) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_structEntry props C06 noauto: forall a, b Val :: is(a, *structEntry) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_metaType props C06 noauto: forall a, b Val :: is(a, *metaType) && !veq(a.(*metaType).tp, nil) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_named props C06 noauto: forall a, b Val :: is(a, *named) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_parameterized props C06 noauto: forall a, b Val :: is(a, *parameterized) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_notType props C06 noauto: forall a, b Val :: is(a, *notType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_regexpVal props C06 noauto: forall a, b Val :: is(a, *regexpVal) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_sensitiveType props C06 noauto: forall a, b Val :: is(a, *sensitiveType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_sensitive props C06 noauto: forall a, b Val :: is(a, *sensitive) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_mapKeyError props C06 noauto: forall a, b Val :: is(a, *mapKeyError) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_typeError props C06 noauto: forall a, b Val :: is(a, *typeError) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_sizeError props C06 noauto: forall a, b Val :: is(a, *sizeError) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_floatVal props C06 noauto: forall a, b Val :: is(a, floatVal) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactIntegerType props C06 noauto: forall a, b Val :: is(a, *exactIntegerType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactFloatType props C06 noauto: forall a, b Val :: is(a, *exactFloatType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactBinaryType props C06 noauto: forall a, b Val :: is(a, *exactBinaryType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactBooleanType props C06 noauto: forall a, b Val :: is(a, *exactBooleanType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactErrorType props C06 noauto: forall a, b Val :: is(a, *exactErrorType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactNamed props C06 noauto: forall a, b Val :: is(a, *exactNamed) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactRegexpType props C06 noauto: forall a, b Val :: is(a, *exactRegexpType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactStringType props C06 noauto: forall a, b Val :: is(a, *exactStringType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactTimeType props C06 noauto: forall a, b Val :: is(a, *exactTimeType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_ciStringType props C06 noauto: forall a, b Val :: is(a, *ciStringType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactArrayType props C06 noauto: forall a, b Val :: is(a, *exactArrayType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactMapType props C06 noauto: forall a, b Val :: is(a, *exactMapType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
lemma hash_exactEntryType props C06 noauto: forall a, b Val :: is(a, *exactEntryType) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)
skip internal.(*allOfType).deepHashCode "sorts the hash codes of the operands (sort.Ints)"
skip internal.(*anyOfType).deepHashCode "sorts the hash codes of the operands (sort.Ints)"
skip internal.(*oneOfType).deepHashCode "sorts the hash codes of the operands (sort.Ints)"
skip internal.(*allOfValueType).deepHashCode "sorts the hash codes of the operands (sort.Ints)"
skip internal.(*errw).HashCode "hash code of a go value"
skip internal.(*native).HashCode "hash code of a go value"
skip internal.(*nativeType).HashCode "hash code of a go value"
skip internal.(*goFunc).HashCode "hash code of a go value"
skip internal.(*patternType).HashCode "hash code of a go value"
skip internal.(*timeVal).HashCode "hash code of a go value"
skip internal.(*floatType).HashCode "a function of the limits, which equality compares"
skip internal.(*hashMap).deepHashCode "sorts the hash codes of the entries (sort.Ints)"
skip internal.(*structVal).deepHashCode "sorts the hash codes of the entries (sort.Ints)"
skip internal.(*functionType).deepHashCode "function types are compared through package reflect"
skip internal.exactFunctionType.deepHashCode "function types are compared through package reflect"
skip internal.exactFunctionType.HashCode "function types are compared through package reflect"
skip internal.(*structType).deepHashCode "hashes the arrays embedded by value as arrays"
skip loader.(*childLoader).HashCode "loaders (C17)"
skip loader.(*loader).HashCode "loaders (C17)"
skip loader.(*mapLoader).HashCode "loaders (C17)"
skip internal.(*hstring).HashCode "keeps the hash code in the field h, which only this method reads"
