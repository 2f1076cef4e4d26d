# Vocabulary shared by all contracts.
package internal

# --- the go integer and float kinds that count as a number
define isint(v Val) bool = is(v, intVal) || is(v, int) || is(v, int64) || is(v, int32) || is(v, int16) || is(v, int8)
  || is(v, uint) || is(v, uint64) || is(v, uint32) || is(v, uint16) || is(v, uint8)
define intof(v Val) int = v.(int)
define isfloat(v Val) bool = is(v, floatVal) || is(v, float64) || is(v, float32)
define toobig(v Val) bool = (is(v, uint) || is(v, uint64)) && intof(v) > math.MaxInt64

func ToInt(value) props C01 C06 C07 C12
  pure
  panics toobig(value)
  ensures result1 <==> isint(value)
  ensures isint(value) ==> result0 == intof(value)

# --- recursion guards. The contracts below speak about finite (acyclic) types and values; a guard never hits
# for those, and the slices a guard owns are not visible to anything else.
assume "recursion guards: types and values are acyclic, so that a recursion guard never reports a hit; the slices owned by a guard are private to it"
extern dgo.RecursionGuard.Append(a, b)
  ensures result != nil
extern dgo.RecursionGuard.Swap
  ensures result != nil
extern dgo.RecursionGuard.Hit
  pure
  returns false
extern util.RecursionHit(seen, this)
  pure
  returns false

# --- the identity of a type's kind
spec wide bytag tid(t Val) int
func dgo.Type.TypeIdentifier props C01 C03 C06 C07
  pure
  returns tid(self)
case tid(t) for *alias = dgo.TiAlias
case tid(t) for anyType = dgo.TiAny
case tid(t) for defaultArrayType = dgo.TiArray
case tid(t) for *sizedArrayType = dgo.TiArray
case tid(t) for *exactArrayType = dgo.TiArrayExact
case tid(t) for *tupleType = dgo.TiTuple
case tid(t) for *binaryType = dgo.TiBinary
case tid(t) for *exactBinaryType = dgo.TiBinaryExact
case tid(t) for booleanType = dgo.TiBoolean
case tid(t) for *exactBooleanType = dgo.TiBooleanExact
case tid(t) for errType = dgo.TiError
case tid(t) for *exactErrorType = dgo.TiErrorExact
case tid(t) for *floatType = dgo.TiFloatRange
case tid(t) for *exactFloatType = dgo.TiFloatExact
case tid(t) for defaultFloatType = dgo.TiFloat
case tid(t) for *exactFunctionTuple = dgo.TiTuple
case tid(t) for exactFunctionType = dgo.TiFunction
case tid(t) for *functionType = dgo.TiFunction
case tid(t) for *integerType = dgo.TiIntegerRange
case tid(t) for *exactIntegerType = dgo.TiIntegerExact
case tid(t) for defaultIntegerType = dgo.TiInteger
case tid(t) for *exactEntryType = dgo.TiMapEntryExact
case tid(t) for *sizedMapType = dgo.TiMap
case tid(t) for defaultMapType = dgo.TiMap
case tid(t) for *exactMapType = dgo.TiMapExact
case tid(t) for *structType = dgo.TiStruct
case tid(t) for *metaType = dgo.TiMeta
case tid(t) for *named = dgo.TiNamed
case tid(t) for *nativeType = dgo.TiNative
case tid(t) for nilType = dgo.TiNil
case tid(t) for *notType = dgo.TiNot
case tid(t) for regexpType = dgo.TiRegexp
case tid(t) for *exactRegexpType = dgo.TiRegexpExact
case tid(t) for *sensitiveType = dgo.TiSensitive
case tid(t) for defaultDgoStringType = dgo.TiDgoString
case tid(t) for defaultStringType = dgo.TiString
case tid(t) for *exactStringType = dgo.TiStringExact
case tid(t) for *ciStringType = dgo.TiCiString
case tid(t) for *patternType = dgo.TiStringPattern
case tid(t) for *sizedStringType = dgo.TiStringSized
case tid(t) for *allOfType = dgo.TiAllOf
case tid(t) for *allOfValueType = dgo.TiAllOfValue
case tid(t) for *anyOfType = dgo.TiAnyOf
case tid(t) for *oneOfType = dgo.TiOneOf
case tid(t) for timeType = dgo.TiTime
case tid(t) for *exactTimeType = dgo.TiTimeExact
assume "exactType, deepExactType: only used embedded, never as values of their own"
opaque *exactType
opaque *deepExactType

assume "the placeholders the parser uses for unresolved aliases and deferred calls (alias, deferredCall) are resolved before a type is used"
opaque *alias
opaque *deferredCall
inv *parameterized: self.NamedType != nil
case tid(t) for *parameterized = tid(t.NamedType)
case tid(t) for *exactNamed = dgo.TiNamedExact
