# C01: numeric ranges
package internal

inv *integerType: self.min < self.max && !(self.inclusive && self.min == math.MinInt64 && self.max == math.MaxInt64)
inv *floatType: self.min < self.max

# --- membership of a number in an integer type
define isinttype(t Val) bool = is(t, *integerType) || is(t, *exactIntegerType) || is(t, defaultIntegerType)
define ilo(t Val) int = ite(is(t, *integerType), t.(*integerType).min, ite(is(t, *exactIntegerType), t.(*exactIntegerType).value, math.MinInt64))
define ihi(t Val) int = ite(is(t, *integerType), ite(t.(*integerType).inclusive, t.(*integerType).max, t.(*integerType).max - 1),
   ite(is(t, *exactIntegerType), t.(*exactIntegerType).value, math.MaxInt64))

lemma C01_enclosure props C01 noauto: forall lo, hi, lo2, hi2 int :: lo2 <= hi2 ==> (((lo <= lo2 && hi2 <= hi)) <==> ((lo <= lo2 && lo2 <= hi) && (lo <= hi2 && hi2 <= hi)))

func (*integerType).IsInstance(value) props C01
  pure
  returns self.min <= value && (self.inclusive && value <= self.max || !self.inclusive && value < self.max)
func (*integerType).Instance(value) props C01
  pure
  panics toobig(value)
  returns isint(value) && self.min <= intof(value) && (self.inclusive && intof(value) <= self.max || !self.inclusive && intof(value) < self.max)
func (*exactIntegerType).IsInstance(value) props C01
  pure
  returns self.value == value
func defaultIntegerType.IsInstance(value) props C01
  pure
  returns true
func defaultIntegerType.Instance(value) props C01
  pure
  returns isint(value)

func IntegerType(min, max, inclusive) props C01
  panics min == max && !inclusive
  ensures isinttype(result)
  ensures [lower] ilo(result) == ite(max < min, max, min)
  ensures [upper] ihi(result) == ite(inclusive, ite(max < min, min, max), ite(max < min, min, max) - 1)

# --- the same for float types. A float is exactly representable, so the comparisons are those of IEEE 754.
define isfloattype(t Val) bool = is(t, *floatType) || is(t, *exactFloatType) || is(t, defaultFloatType)
define finite(f float64) bool = !isnan(f) && !isinf(f)
define floatof(v Val) float64 = v.(float64)
define inrange(x, lo, hi float64; incl bool) bool = lo <= x && (incl && x <= hi || !incl && x < hi)

func ToFloat(value) props C01 C06 C07 C12
  pure
  ensures result1 <==> isfloat(value)
  ensures isfloat(value) ==> same(result0, floatof(value))
func (*floatType).IsInstance(value) props C01
  pure
  returns inrange(value, self.min, self.max, self.inclusive)
func (*floatType).Instance(value) props C01
  pure
  returns isfloat(value) && inrange(floatof(value), self.min, self.max, self.inclusive)
func (*exactFloatType).IsInstance(value) props C01
  pure
  returns self.value == value
func defaultFloatType.IsInstance(value) props C01
  pure
  returns true
func defaultFloatType.Instance(value) props C01
  pure
  returns isfloat(value)
func FloatType(min, max, inclusive) props C01
  requires finite(min) && finite(max)
  panics min == max && !inclusive
  ensures [exact] min == max ==> is(result, *exactFloatType) && same(result.(*exactFloatType).value, min)
  ensures [ordered] min < max && !is(result, defaultFloatType) ==> is(result, *floatType) && same(result.(*floatType).min, min) && same(result.(*floatType).max, max) && result.(*floatType).inclusive == inclusive
  ensures [swapped] max < min && !is(result, defaultFloatType) ==> is(result, *floatType) && same(result.(*floatType).min, max) && same(result.(*floatType).max, min) && result.(*floatType).inclusive == inclusive
  ensures [full] is(result, defaultFloatType) ==> inclusive && (min <= -math.MaxFloat64 && math.MaxFloat64 <= max || max <= -math.MaxFloat64 && math.MaxFloat64 <= min)

# bounds reported by a type are those it was made with
func (*integerType).Min props C01
  pure
  returns self.min
func (*integerType).Max props C01
  pure
  returns self.max
func (*integerType).Inclusive props C01
  pure
  returns self.inclusive
func (*exactIntegerType).Min props C01
  pure
  returns self.value
func (*exactIntegerType).Max props C01
  pure
  returns self.value
func (*exactIntegerType).Inclusive props C01
  pure
  returns true
func defaultIntegerType.Min props C01
  pure
  returns math.MinInt64
func defaultIntegerType.Max props C01
  pure
  returns math.MaxInt64
func defaultIntegerType.Inclusive props C01
  pure
  returns true
func (*floatType).Min props C01
  pure
  ensures same(result, self.min)
func (*floatType).Max props C01
  pure
  ensures same(result, self.max)
func (*floatType).Inclusive props C01
  pure
  returns self.inclusive
func (*exactFloatType).Min props C01
  pure
  ensures same(result, self.value)
func (*exactFloatType).Max props C01
  pure
  ensures same(result, self.value)
func (*exactFloatType).Inclusive props C01
  pure
  returns true
func defaultFloatType.Inclusive props C01
  pure
  returns true
func intVal.Type props C01 C19
  ensures is(result, *exactIntegerType) && result.(*exactIntegerType).value == self
func floatVal.Type props C01 C19
  ensures is(result, *exactFloatType) && same(result.(*exactFloatType).value, self)
func (*integerType).Equals(other) props C01
  pure
  returns is(other, *integerType) && self.min == other.(*integerType).min && self.max == other.(*integerType).max && self.inclusive == other.(*integerType).inclusive
func (*floatType).Equals(other) props C01
  pure
  returns is(other, *floatType) && self.min == other.(*floatType).min && self.max == other.(*floatType).max && self.inclusive == other.(*floatType).inclusive
func defaultIntegerType.Equals(other) props C01
  pure
  returns is(other, defaultIntegerType)
func defaultFloatType.Equals(other) props C01
  pure
  returns is(other, defaultFloatType)

# inclusion: exactly when the bounds enclose (the lemma C01_enclosure relates that to membership of every integer)
func (*integerType).Assignable(other) props C01
  requires other != nil
  maypanic any
  ensures isinttype(other) ==> (result <==> (ilo(val(self)) <= ilo(other) && ihi(other) <= ihi(val(self))))
func defaultIntegerType.Assignable(other) props C01
  requires other != nil
  maypanic any
  ensures isinttype(other) ==> result
func (*floatType).Assignable(other) props C01
  requires other != nil
  maypanic any
  ensures is(other, *exactFloatType) ==> (result <==> inrange(other.(*exactFloatType).value, self.min, self.max, self.inclusive))
  ensures is(other, *floatType) ==> (result <==> (self.min <= other.(*floatType).min && (other.(*floatType).max < self.max || other.(*floatType).max == self.max && (self.inclusive || !other.(*floatType).inclusive))))
  ensures is(other, defaultFloatType) ==> !result
func defaultFloatType.Assignable(other) props C01
  requires other != nil
  maypanic any
  ensures isfloattype(other) ==> result

func (*exactIntegerType).Assignable(other) props C01
  requires other != nil
  unfold other
  maypanic any
  ensures isinttype(other) ==> (result <==> (ilo(val(self)) <= ilo(other) && ihi(other) <= ihi(val(self))))
func (*exactFloatType).Assignable(other) props C01
  requires other != nil
  unfold other
  maypanic any
  ensures is(other, *exactFloatType) && !isnan(self.value) ==> (result <==> self.value == other.(*exactFloatType).value)
  ensures is(other, *floatType) || is(other, defaultFloatType) ==> !result
