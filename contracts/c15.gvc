# C15: what a sensitive value shows. The texts of a sensitive are the constant below, its type has no exact part.
package internal

func (*sensitive).String props C15
  pure
  returns "sensitive [value redacted]"
func (*sensitive).Unwrap props C15
  pure
  ensures [unchanged] same(result, self.hidden.value)
func Sensitive(v) props C15
  maypanic any
  ensures [wraps] is(result, *sensitive) && fresh(result) && (is(v, dgo.Value) ==> same(result.(*sensitive).hidden.value, v))
# the only text written for a format is the redacted one
extern in internal io.WriteString(w, s) props C15
  requires s == "sensitive [value redacted]"
  modifies nothing
func (*sensitive).Format(s, _) props C15
  maypanic any

# plain(t): the text of t has no values in it
spec wide world bytag plain(t Val) bool
case plain(t) for anyType = true
case plain(t) for defaultArrayType = true
case plain(t) for defaultMapType = true
case plain(t) for *binaryType = true
case plain(t) for booleanType = true
case plain(t) for errType = true
case plain(t) for defaultFloatType = true
case plain(t) for defaultIntegerType = true
case plain(t) for defaultStringType = true
case plain(t) for nilType = true
case plain(t) for regexpType = true
case plain(t) for timeType = true
case plain(t) for *named = true
case plain(t) for *parameterized = true
case plain(t) for *nativeType = true
case plain(t) for exactFunctionType = true
case plain(t) for *functionType = true
case plain(t) for *metaType = goeq(t, val(DefaultMetaType)) || is(t.tp, anyType)
case plain(t) for *sensitiveType = plain(t.wrapped)
case plain(t) for *sizedArrayType = plain(t.elementType)
case plain(t) for *sizedMapType = plain(t.keyType) && plain(t.valueType)
# ofvalue(t): t is the type of a value, or the type of the elements, keys or values of one
spec wide world bytag ofvalue(t Val) bool
case ofvalue(t) for anyType = true
case ofvalue(t) for *exactArrayType = true
case ofvalue(t) for *exactBinaryType = true
case ofvalue(t) for *exactBooleanType = true
case ofvalue(t) for *exactErrorType = true
case ofvalue(t) for *exactFloatType = true
case ofvalue(t) for *exactIntegerType = true
case ofvalue(t) for *exactEntryType = true
case ofvalue(t) for *exactMapType = true
case ofvalue(t) for *exactRegexpType = true
case ofvalue(t) for *exactStringType = true
case ofvalue(t) for *exactTimeType = true
case ofvalue(t) for *allOfValueType = true
case ofvalue(t) for *exactNamed = plain(t.NamedTypeExtension)
case ofvalue(t) for *metaType = true
case ofvalue(t) for nilType = true
case ofvalue(t) for errType = true
case ofvalue(t) for *nativeType = true
case ofvalue(t) for *functionType = true
case ofvalue(t) for exactFunctionType = true
case ofvalue(t) for *sensitiveType = plain(t.wrapped)
case ofvalue(t) for *structType = false
case ofvalue(t) for *tupleType = false
case ofvalue(t) for *allOfType = false
case ofvalue(t) for *patternType = false
case ofvalue(t) for *parameterized = false
case ofvalue(t) for *alias = false
case ofvalue(t) for defaultArrayType = false
case ofvalue(t) for *sizedArrayType = false
case ofvalue(t) for *binaryType = false
case ofvalue(t) for booleanType = false
case ofvalue(t) for *floatType = false
case ofvalue(t) for defaultFloatType = false
case ofvalue(t) for *exactFunctionTuple = false
case ofvalue(t) for *integerType = false
case ofvalue(t) for defaultIntegerType = false
case ofvalue(t) for *sizedMapType = false
case ofvalue(t) for defaultMapType = false
case ofvalue(t) for *named = false
case ofvalue(t) for *notType = false
case ofvalue(t) for regexpType = false
case ofvalue(t) for defaultDgoStringType = false
case ofvalue(t) for defaultStringType = false
case ofvalue(t) for *ciStringType = false
case ofvalue(t) for *sizedStringType = false
case ofvalue(t) for *anyOfType = false
case ofvalue(t) for *oneOfType = false
case ofvalue(t) for timeType = false
func (*exactArrayType).ElementType props C15
  maypanic any
  ensures [ofvalue] result != nil && ofvalue(result)
extern internal.arrayFromIterator(size, iter) props C15
  maypanic any
  ensures result != nil
func (*exactMapType).KeyType props C15
  maypanic any
  ensures [ofvalue] result != nil && ofvalue(result)
func (*exactMapType).ValueType props C15
  maypanic any
  ensures [ofvalue] result != nil && ofvalue(result)
skip internal.(*allOfType).Generic "not the type of a value"
skip internal.(*allOfValueType).Generic "the types of the elements are visited through a function value"
bounded props C15 allOfValueType "(*allOfValueType).Generic, the generic type of the elements of an array or map: the types of random arrays and maps in sensitives are printed"
inv *sensitive: self.hidden != nil
func dgo.GenericType.Generic props C15
  maypanic any
  ensures [plain] ofvalue(self) ==> result != nil && plain(result)
func Generic(t) props C15
  maypanic any
  ensures [plain] t != nil && ofvalue(t) ==> result != nil && plain(result)
func (*sensitive).Type props C15
  maypanic any
  ensures [plain] is(result, *sensitiveType) && plain(result)
