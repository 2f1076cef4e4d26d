# C07: the order of values. cmpok(a, b) tells whether a can be compared with b, cmpv(a, b) is the sign of the result.
package internal

spec world bytag cmpok(a Val, b Val) bool
spec world bytag cmpv(a Val, b Val) int
define isnilv(v Val) bool = v == nil || v == val(Nil)
define sgn(a, b int) int = ite(a < b, -1, ite(a > b, 1, 0))
define fsgn(a, b float64) int = ite(a < b, -1, ite(a > b, 1, 0))
define ssgn(a, b string) int = ite(strlt(a, b), -1, ite(strlt(b, a), 1, 0))

# an integer with a float: the order of the numbers they stand for. Assumed of compareIntFloat (whose body converts between
# float64 and int64, which is outside of the logic) and checked by the harness against big.Float
spec cif(i int, f float64) int
bounded props C07 compareIntFloat "the body of compareIntFloat: compared with math/big for all pairs of boundary integers and floats and 20000 random pairs"
extern internal.compareIntFloat(i, f)
  pure
  returns cif(i, f)
assume props C07 "compareIntFloat(i, f) is the sign of i - f for the numbers i and f stand for (axioms cif_*)"
axiom cif_sign: forall i int; f float64 {cif(i, f)} :: -1 <= cif(i, f) && cif(i, f) <= 1
axiom cif_below: forall i, j int; f float64 {cif(i, f), cif(j, f)} :: i < j && cif(j, f) <= 0 ==> cif(i, f) < 0
axiom cif_above: forall i, j int; f float64 {cif(i, f), cif(j, f)} :: i < j && cif(i, f) >= 0 ==> cif(j, f) > 0
axiom cif_less: forall i int; f, g float64 {cif(i, f), cif(i, g)} :: f < g && cif(i, f) <= 0 ==> cif(i, g) < 0
axiom cif_greater: forall i int; f, g float64 {cif(i, f), cif(i, g)} :: f < g && cif(i, g) >= 0 ==> cif(i, f) > 0
axiom cif_equal: forall i int; f, g float64 {cif(i, f), cif(i, g)} :: f == g ==> cif(i, f) == cif(i, g)

case cmpok(a, b) for intVal = isint(b) || isfloat(b) || isnilv(b)
case cmpv(a, b) for intVal = ite(isint(b), sgn(a, intof(b)), ite(isfloat(b), cif(a, floatof(b)), 1))
case cmpok(a, b) for floatVal = isint(b) || isfloat(b) || isnilv(b)
case cmpv(a, b) for floatVal = ite(isfloat(b), fsgn(a, floatof(b)), ite(isint(b), -cif(intof(b), a), 1))
case cmpok(a, b) for nilValue = true
case cmpv(a, b) for nilValue = ite(isnilv(b), 0, -1)
case cmpok(a, b) for boolean = is(b, boolean) || is(b, nilValue)
case cmpv(a, b) for boolean = ite(is(b, boolean), ite(goeq(a, b), 0, ite(a.(bool), 1, -1)), 1)
case cmpok(a, b) for *hstring = is(b, *hstring) || is(b, string) || is(b, nilValue)
case cmpv(a, b) for *hstring = ite(is(b, *hstring), ssgn(a.s, b.(*hstring).s), ite(is(b, string), ssgn(a.s, b.(string)), 1))

# mentioning a term makes the definitions available for it
spec mention(n int) bool
axiom mention_any: forall n int {mention(n)} :: mention(n)
spec mentionb(n bool) bool
axiom mentionb_any: forall n bool {mentionb(n)} :: mentionb(n)

# binaries: the first byte that differs decides, then the length
spec world bcmp(a, b []byte, n int) int
axiom bcmp_zero: forall a, b []byte; n int {bcmp(a, b, n)} :: n <= 0 ==> bcmp(a, b, n) == 0
axiom bcmp_step: forall a, b []byte; i, k int {bcmp(a, b, i), bcmp(a, b, k)} :: 0 <= i && k == i + 1 ==> bcmp(a, b, k) == ite(bcmp(a, b, i) != 0, bcmp(a, b, i), sgn(a[i], b[i]))
lemma bcmp_stay props C07 uses none induct n by bcmp(a, b, n - 1): forall a, b []byte; i, n int {bcmp(a, b, i), bcmp(a, b, n)} :: 0 <= i && i <= n && bcmp(a, b, i) != 0 ==> bcmp(a, b, n) == bcmp(a, b, i)
define bytecmp(a, b []byte) int = ite(bcmp(a, b, min2(len(a), len(b))) != 0, bcmp(a, b, min2(len(a), len(b))), sgn(len(a), len(b)))
define min2(a, b int) int = ite(a < b, a, b)
case cmpok(a, b) for *binary = is(b, *binary) || is(b, []byte) || isnilv(b)
case cmpv(a, b) for *binary = ite(is(b, *binary), ite(goeq(a, b), 0, bytecmp(a.bytes, b.(*binary).bytes)), ite(is(b, []byte), bytecmp(a.bytes, b.([]byte)), 1))

# arrays: the first element that differs decides, then the length. The elements up to there have to be comparable.
define isarr(v Val) bool = is(v, *array) || is(v, *arguments)
spec world bytag slof(v Val) []dgo.Value
case slof(v) for *array = v.slice
case slof(v) for *arguments = v.slice
# the order of parts, as compare has it
define ncmpok(a, b Val) bool = goeq(a, b) || a == val(Nil) || b == val(Nil) || cmpok(a, b) && (b != nil || !isarr(a))
define ncmpv(a, b Val) int = ite(goeq(a, b), 0, ite(a == val(Nil), -1, ite(b == val(Nil), 1, cmpv(a, b))))
define ecmpok(a, b Val) bool = is(a, dgo.Comparable) && ncmpok(a, b)
spec world acmp(a, b []dgo.Value, n int) int
spec world aok(a, b []dgo.Value, n int) bool
axiom acmp_zero: forall a, b []dgo.Value; n int {acmp(a, b, n)} :: n <= 0 ==> acmp(a, b, n) == 0
axiom acmp_step: forall a, b []dgo.Value; i, k int {acmp(a, b, i), acmp(a, b, k)} :: 0 <= i && k == i + 1 ==> acmp(a, b, k) == ite(acmp(a, b, i) != 0, acmp(a, b, i), ncmpv(a[i], b[i]))
axiom aok_zero: forall a, b []dgo.Value; n int {aok(a, b, n)} :: n <= 0 ==> aok(a, b, n)
axiom aok_step: forall a, b []dgo.Value; i, k int {aok(a, b, i), aok(a, b, k)} :: 0 <= i && k == i + 1 ==> (aok(a, b, k) <==> aok(a, b, i) && (acmp(a, b, i) != 0 || ecmpok(a[i], b[i])))
define arrok(a, b []dgo.Value) bool = aok(a, b, min2(len(a), len(b)))
define arrcmp(a, b []dgo.Value) int = ite(acmp(a, b, min2(len(a), len(b))) != 0, acmp(a, b, min2(len(a), len(b))), sgn(len(a), len(b)))
case cmpok(a, b) for *array = goeq(a, b) || isnilv(b) || isarr(b) && arrok(slof(a), slof(b))
case cmpv(a, b) for *array = ite(goeq(a, b), 0, ite(isarr(b), arrcmp(slof(a), slof(b)), 1))
case cmpok(a, b) for *arguments = goeq(a, b) || isnilv(b) || isarr(b) && arrok(slof(a), slof(b))
case cmpv(a, b) for *arguments = ite(goeq(a, b), 0, ite(isarr(b), arrcmp(slof(a), slof(b)), 1))

func dgo.Comparable.CompareTo(other) props C07
  requires is(self, dgo.Value)
  maypanic any
  ensures avalue(other) ==> (result1 <==> cmpok(self, other))
  ensures avalue(other) && cmpok(self, other) ==> result0 == cmpv(self, other)
skip internal.(*arguments).CompareTo "promoted from the embedded array"
func internal.deepCompare.deepCompare(seen, other) props C07
  requires other != nil
  maypanic any
  ensures result1 <==> isarr(other) && arrok(slof(self), slof(other))
  ensures result1 ==> result0 == arrcmp(slof(self), slof(other))
func compare(seen, a, b) props C07
  requires is(a, dgo.Comparable) && is(a, dgo.Value) && avalue(b)
  maypanic any
  ensures result1 <==> ncmpok(a, b)
  ensures result1 ==> result0 == ncmpv(a, b)
func intVal.CompareTo(other) props C07
  panics toobig(other)
  ensures [ok] result1 <==> cmpok(val(self), other)
  ensures [sign] result1 ==> result0 == cmpv(val(self), other)
func (*binary).CompareTo(other) props C07
  ensures [ok] result1 <==> cmpok(val(self), other)
  ensures [sign] result1 ==> result0 == cmpv(val(self), other)
  loop 1 invariant 0 <= i && i <= max && r == sgn(len(a), len(b)) && bcmp(a, b, i) == 0 && mention(bcmp(a, b, i + 1))
func (*array).deepCompare(seen, other) props C07
  requires other != nil
  maypanic any
  ensures result1 <==> isarr(other) && arrok(self.slice, slof(other))
  ensures result1 ==> result0 == arrcmp(self.slice, slof(other))
  loop 1 invariant 0 <= i && i <= max && ok && r == sgn(len(a), len(b)) && aok(a, b, i) && acmp(a, b, i) == 0 && mention(acmp(a, b, i + 1)) && mentionb(aok(a, b, i + 1))
lemma acmp_stay props C07 uses none induct n by acmp(a, b, n - 1): forall a, b []dgo.Value; i, n int {acmp(a, b, i), acmp(a, b, n)} :: 0 <= i && i <= n && acmp(a, b, i) != 0 ==> acmp(a, b, n) == acmp(a, b, i)
lemma aok_stay props C07 uses acmp_stay induct n by aok(a, b, n - 1), acmp(a, b, n - 1): forall a, b []dgo.Value; i, n int {acmp(a, b, i), aok(a, b, i), aok(a, b, n)} :: 0 <= i && i <= n && aok(a, b, i) && acmp(a, b, i) != 0 ==> aok(a, b, n)
lemma aok_back props C07 uses none induct n by aok(a, b, n - 1): forall a, b []dgo.Value; i, n int {aok(a, b, i), aok(a, b, n)} :: 0 <= i && i <= n && aok(a, b, n) ==> aok(a, b, i)

# --- the order laws. good(v): no part of v is NaN. The lemmas are the steps of an induction over the depth of values.
spec good(v Val) bool
axiom good_float: forall v Val {good(v)} :: good(v) && is(v, floatVal) ==> !isnan(v.(float64))
axiom good_nil: forall v Val {good(v)} :: good(v) && is(v, nilValue) ==> v == val(Nil)
axiom good_elem: forall v Val; i int {good(v), slof(v)[i]} :: good(v) && isarr(v) && 0 <= i && i < len(slof(v)) ==> good(slof(v)[i]) && is(slof(v)[i], dgo.Value) && rank(slof(v)[i]) < rank(v)
assume props C07 "values are acyclic and have no part that is NaN; vf.Nil is the only value of its kind"
lemma ncmp_cmp props C07 uses none: forall a, b Val {cmpv(a, b)} :: is(a, dgo.Comparable) && is(a, dgo.Value) && is(b, dgo.Value) && good(a) && good(b) ==> (ncmpok(a, b) <==> cmpok(a, b)) && (cmpok(a, b) ==> ncmpv(a, b) == cmpv(a, b))

define comparable(v Val) bool = is(v, dgo.Comparable) && is(v, dgo.Value) && good(v)
define gval(v Val) bool = is(v, dgo.Value) && good(v)
define reflbelow(n int) bool = forall x Val {cmpv(x, x)} :: rank(x) < n && comparable(x) ==> cmpok(x, x) && cmpv(x, x) == 0
define antibelow(n int) bool = forall x, y Val {cmpv(x, y), cmpv(y, x)} :: rank(x) < n && comparable(x) && comparable(y) && cmpok(x, y) && cmpok(y, x) ==> cmpv(y, x) == -cmpv(x, y)
define transbelow7(n int) bool = forall x, y, z Val {cmpv(x, y), cmpv(y, z), cmpv(x, z)} :: rank(x) < n && comparable(x) && comparable(y) && gval(z) && cmpok(x, y) && cmpok(y, z) && cmpok(x, z) && cmpv(x, y) <= 0 && cmpv(y, z) <= 0 ==> cmpv(x, z) <= 0 && (cmpv(x, y) < 0 || cmpv(y, z) < 0 ==> cmpv(x, z) < 0)
lemma bcmp_anti props C07 noauto uses bcmp_stay induct n by bcmp(a, b, n - 1), bcmp(b, a, n - 1): forall a, b []byte; n int {bcmp(a, b, n), bcmp(b, a, n)} :: bcmp(b, a, n) == -bcmp(a, b, n)
lemma bcmp_trans props C07 noauto uses bcmp_stay induct n by bcmp(a, b, n - 1), bcmp(b, c, n - 1), bcmp(a, c, n - 1): forall a, b, c []byte; n int {bcmp(a, b, n), bcmp(b, c, n), bcmp(a, c, n)} :: bcmp(a, b, n) <= 0 && bcmp(b, c, n) <= 0 ==> bcmp(a, c, n) <= 0 && (bcmp(a, b, n) < 0 || bcmp(b, c, n) < 0 ==> bcmp(a, c, n) < 0)
define eanti(x, y Val) bool = ecmpok(x, y) && ecmpok(y, x) ==> ncmpv(y, x) == -ncmpv(x, y)
define etrans(x, y, z Val) bool = ecmpok(x, y) && ecmpok(y, z) && ecmpok(x, z) && ncmpv(x, y) <= 0 && ncmpv(y, z) <= 0 ==> ncmpv(x, z) <= 0 && (ncmpv(x, y) < 0 || ncmpv(y, z) < 0 ==> ncmpv(x, z) < 0)
lemma acmp_anti props C07 noauto uses acmp_stay induct n by acmp(a, b, n - 1), acmp(b, a, n - 1), aok(a, b, n - 1), aok(b, a, n - 1): forall a, b []dgo.Value; n int {acmp(a, b, n), acmp(b, a, n)} :: (forall i int {a[i], b[i]} :: 0 <= i && i < n ==> eanti(a[i], b[i])) && aok(a, b, n) && aok(b, a, n) ==> acmp(b, a, n) == -acmp(a, b, n)
lemma acmp_trans props C07 noauto uses acmp_stay induct n by acmp(a, b, n - 1), acmp(b, c, n - 1), acmp(a, c, n - 1), aok(a, b, n - 1), aok(b, c, n - 1), aok(a, c, n - 1): forall a, b, c []dgo.Value; n int {acmp(a, b, n), acmp(b, c, n), acmp(a, c, n)} :: (forall i int {a[i], b[i], c[i]} :: 0 <= i && i < n ==> etrans(a[i], b[i], c[i])) && aok(a, b, n) && aok(b, c, n) && aok(a, c, n) && acmp(a, b, n) <= 0 && acmp(b, c, n) <= 0 ==> acmp(a, c, n) <= 0 && (acmp(a, b, n) < 0 || acmp(b, c, n) < 0 ==> acmp(a, c, n) < 0)
lemma elem_anti props C07 noauto uses ncmp_cmp: forall a, b Val; i int {slof(a)[i], slof(b)[i]} :: isarr(a) && isarr(b) && comparable(a) && comparable(b) && antibelow(rank(a)) && 0 <= i && i < len(slof(a)) && i < len(slof(b)) ==> eanti(slof(a)[i], slof(b)[i])
lemma elem_trans props C07 noauto uses ncmp_cmp: forall a, b, c Val; i int {slof(a)[i], slof(b)[i], slof(c)[i]} :: isarr(a) && isarr(b) && isarr(c) && comparable(a) && comparable(b) && comparable(c) && transbelow7(rank(a)) && 0 <= i && i < len(slof(a)) && i < len(slof(b)) && i < len(slof(c)) ==> etrans(slof(a)[i], slof(b)[i], slof(c)[i])
lemma arr_anti props C07 noauto uses acmp_anti, acmp_stay, aok_stay, aok_back: forall a, b []dgo.Value; n int {acmp(a, b, n), acmp(b, a, n)} :: n == min2(len(a), len(b)) && (forall i int {a[i], b[i]} :: 0 <= i && i < len(a) && i < len(b) ==> eanti(a[i], b[i])) && arrok(a, b) && arrok(b, a) ==> arrcmp(b, a) == -arrcmp(a, b)
define ptrans(a, b, c []dgo.Value; m int) bool = acmp(a, b, m) <= 0 && acmp(b, c, m) <= 0 ==> acmp(a, c, m) <= 0 && (acmp(a, b, m) < 0 || acmp(b, c, m) < 0 ==> acmp(a, c, m) < 0)
lemma arr_trans0 props C07 noauto uses acmp_stay: forall a, b, c []dgo.Value; m int {acmp(a, b, m), acmp(b, c, m), acmp(a, c, m)} :: m == min3(len(a), len(b), len(c)) && ptrans(a, b, c, m) && arrcmp(a, b) <= 0 && arrcmp(b, c) <= 0 ==> arrcmp(a, c) <= 0 && (arrcmp(a, b) < 0 || arrcmp(b, c) < 0 ==> arrcmp(a, c) < 0)
lemma arr_trans props C07 noauto uses acmp_stay, aok_stay, aok_back, acmp_trans: forall a, b, c []dgo.Value; m int {acmp(a, b, m), acmp(b, c, m), acmp(a, c, m)} :: m == min3(len(a), len(b), len(c)) && mention(acmp(a, b, m)) && mention(acmp(b, c, m)) && mention(acmp(a, c, m)) && mentionb(aok(a, b, m)) && mentionb(aok(b, c, m)) && mentionb(aok(a, c, m)) && (forall i int {a[i], b[i], c[i]} :: 0 <= i && i < m ==> etrans(a[i], b[i], c[i])) && arrok(a, b) && arrok(b, c) && arrok(a, c) ==> ptrans(a, b, c, m)
define min3(a, b, c int) int = min2(min2(a, b), c)
define bptrans(a, b, c []byte; m int) bool = bcmp(a, b, m) <= 0 && bcmp(b, c, m) <= 0 ==> bcmp(a, c, m) <= 0 && (bcmp(a, b, m) < 0 || bcmp(b, c, m) < 0 ==> bcmp(a, c, m) < 0)
lemma bytes_trans props C07 noauto uses bcmp_stay: forall a, b, c []byte; m int {bcmp(a, b, m), bcmp(b, c, m), bcmp(a, c, m)} :: m == min3(len(a), len(b), len(c)) && bptrans(a, b, c, m) && bytecmp(a, b) <= 0 && bytecmp(b, c) <= 0 ==> bytecmp(a, c) <= 0 && (bytecmp(a, b) < 0 || bytecmp(b, c) < 0 ==> bytecmp(a, c) < 0)
lemma cmp_refl_intVal props C07 noauto: forall a Val :: is(a, intVal) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_intVal props C07 noauto: forall a, b Val :: is(a, intVal) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_intVal props C07 noauto: forall a, b, c Val :: is(a, intVal) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_floatVal props C07 noauto: forall a Val :: is(a, floatVal) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_floatVal props C07 noauto: forall a, b Val :: is(a, floatVal) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_floatVal props C07 noauto: forall a, b, c Val :: is(a, floatVal) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_nilValue props C07 noauto: forall a Val :: is(a, nilValue) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_nilValue props C07 noauto: forall a, b Val :: is(a, nilValue) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_nilValue props C07 noauto: forall a, b, c Val :: is(a, nilValue) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_boolean props C07 noauto: forall a Val :: is(a, boolean) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_boolean props C07 noauto: forall a, b Val :: is(a, boolean) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_boolean props C07 noauto: forall a, b, c Val :: is(a, boolean) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_hstring props C07 noauto: forall a Val :: is(a, *hstring) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_hstring props C07 noauto: forall a, b Val :: is(a, *hstring) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_hstring props C07 noauto: forall a, b, c Val :: is(a, *hstring) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_binary props C07 noauto: forall a Val :: is(a, *binary) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_binary props C07 noauto uses bcmp_anti, bcmp_stay: forall a, b Val :: is(a, *binary) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_binary props C07 noauto uses bcmp_trans, bytes_trans, bcmp_anti, bytes_trans: forall a, b, c Val; p, q, r []byte; m int :: p == a.(*binary).bytes && q == b.(*binary).bytes && r == c.(*binary).bytes && m == min3(len(p), len(q), len(r)) && mention(bcmp(p, q, m)) && mention(bcmp(q, r, m)) && mention(bcmp(p, r, m)) && is(a, *binary) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_refl_array props C07 noauto: forall a Val :: isarr(a) && comparable(a) && reflbelow(rank(a)) ==> cmpok(a, a) && cmpv(a, a) == 0
lemma cmp_anti_array1 props C07 noauto uses elem_anti, arr_anti: forall a, b Val :: isarr(a) && isarr(b) && !goeq(a, b) && !goeq(b, a) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_anti_array2 props C07 noauto uses none: forall a, b Val :: isarr(a) && (!isarr(b) || goeq(a, b) || goeq(b, a)) && comparable(a) && comparable(b) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma cmp_trans_array1 props C07 noauto uses elem_trans, arr_trans, arr_trans0: forall a, b, c Val; p, q, r []dgo.Value; m int :: isarr(b) && isarr(c) && !goeq(a, b) && !goeq(b, c) && !goeq(a, c) && p == slof(a) && q == slof(b) && r == slof(c) && m == min3(len(p), len(q), len(r)) && mention(acmp(p, q, m)) && mention(acmp(q, r, m)) && mention(acmp(p, r, m)) && mentionb(aok(p, q, m)) && mentionb(aok(q, r, m)) && mentionb(aok(p, r, m)) && isarr(a) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma cmp_trans_array2 props C07 noauto: forall a, b, c Val :: isarr(a) && (!isarr(b) || !isarr(c) || goeq(a, b) || goeq(b, c) || goeq(a, c)) && (cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)) && comparable(a) && comparable(b) && gval(c) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)

# --- sorting. scmp(a, b) is a total order of all values that agrees with cmpv for values that can be compared
spec vtid(v Val) int
axiom vtid_range: forall v Val {vtid(v)} :: 0 <= vtid(v) && vtid(v) < 1000
axiom vtid_boolean: forall v Val {vtid(v)} :: good(v) ==> (is(v, boolean) <==> vtid(v) == dgo.TiBooleanExact)
axiom vtid_string: forall v Val {vtid(v)} :: good(v) ==> (is(v, *hstring) <==> vtid(v) == dgo.TiStringExact)
axiom vtid_binary: forall v Val {vtid(v)} :: good(v) ==> (is(v, *binary) <==> vtid(v) == dgo.TiBinaryExact)
axiom vtid_number: forall v Val {vtid(v)} :: good(v) && vtid(v) == dgo.TiIntegerExact ==> is(v, intVal)
axiom vtid_array: forall v Val {vtid(v)} :: good(v) && vtid(v) == dgo.TiArrayExact ==> isarr(v)
assume props C07 "the kind of a value's type depends on the value's go type alone, and only booleans, strings, binaries, numbers and arrays have the exact types of those (proved for booleans, strings and binaries)"
extern in internal dgo.Value.Type() props C07 C15
  pure
  ensures result != nil && tid(result) == vtid(self)
  ensures ofvalue(result)
define srank(v Val) int = ite(is(v, nilValue), -1, ite(is(v, intVal) || is(v, floatVal), dgo.TiIntegerExact, ite(isarr(v), dgo.TiArrayExact, vtid(v))))
spec world scmp(a, b Val) int
spec world scmps(a, b []dgo.Value, n int) int
define sarr(a, b []dgo.Value) int = ite(scmps(a, b, min2(len(a), len(b))) != 0, scmps(a, b, min2(len(a), len(b))), len(a) - len(b))
axiom scmp_def: forall a, b Val {scmp(a, b)} :: scmp(a, b) == ite(isarr(a) && isarr(b), sarr(slof(a), slof(b)), ite(!isarr(a) && !isarr(b) && b == val(Nil) && a != val(Nil), 1, ite(!isarr(a) && !isarr(b) && is(a, dgo.Comparable) && cmpok(a, b), cmpv(a, b), srank(a) - srank(b))))
axiom scmps_zero: forall a, b []dgo.Value; n int {scmps(a, b, n)} :: n <= 0 ==> scmps(a, b, n) == 0
axiom scmps_step: forall a, b []dgo.Value; i, k int {scmps(a, b, i), scmps(a, b, k)} :: 0 <= i && k == i + 1 ==> scmps(a, b, k) == ite(scmps(a, b, i) != 0, scmps(a, b, i), scmp(a[i], b[i]))
lemma scmps_stay props C07 uses none induct n by scmps(a, b, n - 1): forall a, b []dgo.Value; i, n int {scmps(a, b, i), scmps(a, b, n)} :: 0 <= i && i <= n && scmps(a, b, i) != 0 ==> scmps(a, b, n) == scmps(a, b, i)

func arraySlice(v) props C07
  pure
  ensures result1 <==> isarr(v)
  ensures isarr(v) ==> result0 == slof(v)
func sortRank(v) props C07
  maypanic any
  ensures result == srank(v)
func sortCompare(seen, a, b) props C07
  requires avalue(a) && avalue(b)
  maypanic any
  returns scmp(a, b)
func sortCompareSlice(seen, a, b) props C07
  maypanic any
  returns sarr(a, b)
  loop 1 invariant 0 <= i && i <= len(a) && i <= len(b) && scmps(a, b, i) == 0 && mention(scmps(a, b, i + 1))
func valueSorter.Less(i, j) props C07
  requires 0 <= i && i < len(self) && 0 <= j && j < len(self)
  maypanic any
  ensures [order] result <==> scmp(self[i], self[j]) < 0
func valueSorter.Len props C07
  pure
  returns len(self)
func valueSorter.Swap(i, j) props C07
  requires 0 <= i && i < len(self) && 0 <= j && j < len(self)
  modifies elems(self)
  ensures [swapped] self[i] == old(self[j]) && self[j] == old(self[i])
  ensures [kept] forall k int {self[k]} :: 0 <= k && k < len(self) && k != i && k != j ==> self[k] == old(self[k])

# the order laws of sorting: flat values first, then arrays by induction over their depth
define isnum(v Val) bool = is(v, intVal) || is(v, floatVal)
define flatv(v Val) bool = gval(v) && !isarr(v)
define ordered(v Val) bool = isnum(v) || is(v, boolean) || is(v, *hstring) || is(v, *binary)
lemma rank_kind props C07 noauto uses none: forall a, b Val {vtid(a), vtid(b)} :: flatv(a) && flatv(b) && srank(a) == srank(b) ==> (is(a, nilValue) && is(b, nilValue)) || (isnum(a) && isnum(b)) || (is(a, boolean) && is(b, boolean)) || (is(a, *hstring) && is(b, *hstring)) || (is(a, *binary) && is(b, *binary)) || (!ordered(a) && !ordered(b) && !is(a, nilValue) && !is(b, nilValue))
lemma flat_nil props C07 noauto uses rank_kind: forall a, b Val {scmp(a, b)} :: is(a, nilValue) && flatv(a) && flatv(b) ==> (is(b, nilValue) ==> scmp(a, b) == 0) && (!is(b, nilValue) ==> scmp(a, b) < 0 && scmp(b, a) > 0)
lemma flat_rank props C07 noauto uses none: forall a, b Val {scmp(a, b)} :: flatv(a) && flatv(b) && srank(a) < srank(b) && mention(vtid(a)) && mention(vtid(b)) ==> scmp(a, b) < 0 && scmp(b, a) > 0
lemma flat_same props C07 noauto uses rank_kind: forall a, b Val {scmp(a, b)} :: flatv(a) && flatv(b) && srank(a) == srank(b) && mention(vtid(a)) && mention(vtid(b)) ==> scmp(a, b) == ite(ordered(a), cmpv(a, b), 0) && (ordered(a) ==> cmpok(a, b))
define santi(a, b Val) bool = (scmp(a, b) < 0 <==> scmp(b, a) > 0) && (scmp(a, b) > 0 <==> scmp(b, a) < 0)
define strans(a, b, c Val) bool = scmp(a, b) <= 0 && scmp(b, c) <= 0 ==> scmp(a, c) <= 0 && (scmp(a, b) < 0 || scmp(b, c) < 0 ==> scmp(a, c) < 0)
define flatabove(n int) bool = antibelow(n) && transbelow7(n)
lemma ord_anti props C07 noauto uses cmp_anti_intVal, cmp_anti_floatVal, cmp_anti_boolean, cmp_anti_hstring, cmp_anti_binary: forall a, b Val {cmpv(a, b), cmpv(b, a)} :: comparable(a) && comparable(b) && ordered(a) && antibelow(rank(a)) && cmpok(a, b) && cmpok(b, a) ==> cmpv(b, a) == -cmpv(a, b)
lemma ord_trans props C07 noauto uses cmp_trans_intVal, cmp_trans_floatVal, cmp_trans_boolean, cmp_trans_hstring, cmp_trans_binary: forall a, b, c Val {cmpv(a, b), cmpv(b, c), cmpv(a, c)} :: comparable(a) && comparable(b) && comparable(c) && ordered(a) && transbelow7(rank(a)) && cmpok(a, b) && cmpok(b, c) && cmpok(a, c) && cmpv(a, b) <= 0 && cmpv(b, c) <= 0 ==> cmpv(a, c) <= 0 && (cmpv(a, b) < 0 || cmpv(b, c) < 0 ==> cmpv(a, c) < 0)
lemma flat_anti props C07 noauto uses flat_rank, flat_same, rank_kind, ord_anti: forall a, b Val {scmp(a, b), scmp(b, a)} :: flatv(a) && flatv(b) && antibelow(rank(a)) && mention(vtid(a)) && mention(vtid(b)) && mention(cmpv(a, b)) && mention(cmpv(b, a)) ==> santi(a, b)
lemma flat_trans props C07 noauto uses flat_rank, flat_same, rank_kind, ord_trans: forall a, b, c Val {scmp(a, b), scmp(b, c), scmp(a, c)} :: flatv(a) && flatv(b) && flatv(c) && transbelow7(rank(a)) && mention(vtid(a)) && mention(vtid(b)) && mention(vtid(c)) && mention(cmpv(a, b)) && mention(cmpv(b, c)) && mention(cmpv(a, c)) ==> strans(a, b, c)
define sgnanti(x, y int) bool = (x < 0 <==> y > 0) && (x > 0 <==> y < 0)
define sgntrans(x, y, z int) bool = x <= 0 && y <= 0 ==> z <= 0 && (x < 0 || y < 0 ==> z < 0)
define santibelow(n int) bool = forall x, y Val {scmp(x, y), scmp(y, x)} :: rank(x) < n && gval(x) && gval(y) ==> santi(x, y)
define stransbelow(n int) bool = forall x, y, z Val {scmp(x, y), scmp(y, z), scmp(x, z)} :: rank(x) < n && gval(x) && gval(y) && gval(z) ==> strans(x, y, z)
lemma scmps_anti props C07 noauto uses scmps_stay induct n by scmps(a, b, n - 1), scmps(b, a, n - 1): forall a, b []dgo.Value; n int {scmps(a, b, n), scmps(b, a, n)} :: (forall i int {a[i], b[i]} :: 0 <= i && i < n ==> santi(a[i], b[i])) ==> sgnanti(scmps(a, b, n), scmps(b, a, n))
lemma scmps_trans props C07 noauto uses scmps_stay induct n by scmps(a, b, n - 1), scmps(b, c, n - 1), scmps(a, c, n - 1): forall a, b, c []dgo.Value; n int {scmps(a, b, n), scmps(b, c, n), scmps(a, c, n)} :: (forall i int {a[i], b[i], c[i]} :: 0 <= i && i < n ==> strans(a[i], b[i], c[i])) ==> sgntrans(scmps(a, b, n), scmps(b, c, n), scmps(a, c, n))
lemma sarr_anti props C07 noauto uses scmps_anti: forall a, b []dgo.Value; n int {scmps(a, b, n), scmps(b, a, n)} :: n == min2(len(a), len(b)) && (forall i int {a[i], b[i]} :: 0 <= i && i < len(a) && i < len(b) ==> santi(a[i], b[i])) ==> sgnanti(sarr(a, b), sarr(b, a))
define pstrans(a, b, c []dgo.Value; m int) bool = sgntrans(scmps(a, b, m), scmps(b, c, m), scmps(a, c, m))
lemma sarr_trans0 props C07 noauto uses scmps_stay: forall a, b, c []dgo.Value; m int {scmps(a, b, m), scmps(b, c, m), scmps(a, c, m)} :: m == min3(len(a), len(b), len(c)) && pstrans(a, b, c, m) ==> sgntrans(sarr(a, b), sarr(b, c), sarr(a, c))
lemma sarr_trans props C07 noauto uses sarr_trans0, scmps_trans: forall a, b, c []dgo.Value; m int {scmps(a, b, m), scmps(b, c, m), scmps(a, c, m)} :: m == min3(len(a), len(b), len(c)) && mention(scmps(a, b, m)) && mention(scmps(b, c, m)) && mention(scmps(a, c, m)) && (forall i int {a[i], b[i], c[i]} :: 0 <= i && i < len(a) && i < len(b) && i < len(c) ==> strans(a[i], b[i], c[i])) ==> sgntrans(sarr(a, b), sarr(b, c), sarr(a, c))
lemma selem_anti props C07 noauto uses none: forall a, b Val; i int {slof(a)[i], slof(b)[i]} :: isarr(a) && isarr(b) && gval(a) && gval(b) && santibelow(rank(a)) && 0 <= i && i < len(slof(a)) && i < len(slof(b)) ==> santi(slof(a)[i], slof(b)[i])
lemma selem_trans props C07 noauto uses none: forall a, b, c Val; i int {slof(a)[i], slof(b)[i], slof(c)[i]} :: isarr(a) && isarr(b) && isarr(c) && gval(a) && gval(b) && gval(c) && stransbelow(rank(a)) && 0 <= i && i < len(slof(a)) && i < len(slof(b)) && i < len(slof(c)) ==> strans(slof(a)[i], slof(b)[i], slof(c)[i])
lemma mix_rank props C07 noauto uses none: forall a, b Val {scmp(a, b)} :: gval(a) && gval(b) && (isarr(a) || isarr(b)) && !(isarr(a) && isarr(b)) && mention(vtid(a)) && mention(vtid(b)) ==> scmp(a, b) == srank(a) - srank(b) && srank(a) != srank(b)
lemma sort_anti props C07 noauto uses flat_anti, mix_rank, sarr_anti, selem_anti: forall a, b Val; p, q []dgo.Value; n int :: p == slof(a) && q == slof(b) && n == min2(len(p), len(q)) && mention(scmps(p, q, n)) && mention(scmps(q, p, n)) && mention(cmpv(a, b)) && mention(cmpv(b, a)) && mention(vtid(a)) && mention(vtid(b)) && mention(scmp(a, b)) && mention(scmp(b, a)) && gval(a) && gval(b) && antibelow(rank(a)) && santibelow(rank(a)) ==> santi(a, b)
lemma sort_trans1 props C07 noauto uses sarr_trans, selem_trans: forall a, b, c Val; p, q, r []dgo.Value; n int :: p == slof(a) && q == slof(b) && r == slof(c) && n == min3(len(p), len(q), len(r)) && mention(scmps(p, q, n)) && mention(scmps(q, r, n)) && mention(scmps(p, r, n)) && mention(vtid(a)) && mention(vtid(b)) && mention(vtid(c)) && mention(scmp(a, b)) && mention(scmp(b, c)) && mention(scmp(a, c)) && gval(a) && gval(b) && gval(c) && isarr(a) && isarr(b) && isarr(c) && stransbelow(rank(a)) ==> strans(a, b, c)
lemma sort_trans2 props C07 noauto uses flat_trans: forall a, b, c Val :: mention(vtid(a)) && mention(vtid(b)) && mention(vtid(c)) && mention(scmp(a, b)) && mention(scmp(b, c)) && mention(scmp(a, c)) && mention(cmpv(a, b)) && mention(cmpv(b, c)) && mention(cmpv(a, c)) && flatv(a) && flatv(b) && flatv(c) && transbelow7(rank(a)) ==> strans(a, b, c)
lemma sort_trans3 props C07 noauto uses mix_rank, flat_rank: forall a, b, c Val :: mention(vtid(a)) && mention(vtid(b)) && mention(vtid(c)) && mention(scmp(a, b)) && mention(scmp(b, c)) && mention(scmp(a, c)) && gval(a) && gval(b) && gval(c) && (isarr(a) || isarr(b) || isarr(c)) && !(isarr(a) && isarr(b) && isarr(c)) ==> strans(a, b, c)

# the Sort of an array: the receiver is unchanged, the result is new and in order. sort.Stable is trusted to sort by the Less of what it is given
spec world spos(s []dgo.Value, i int) int
assume props C07 "sort.Stable(data) permutes the elements of the slice and leaves no element before one that is less, given that Less is an order (proved: scmp orders all values)"
extern sort.Stable(data)
  modifies elems(data.(internal.valueSorter))
  ensures forall i, j int {data.(internal.valueSorter)[i], data.(internal.valueSorter)[j]} :: 0 <= i && i < j && j < len(data.(internal.valueSorter)) ==> scmp(data.(internal.valueSorter)[j], data.(internal.valueSorter)[i]) >= 0
  ensures forall i int {data.(internal.valueSorter)[i]} :: 0 <= i && i < len(data.(internal.valueSorter)) ==> old(0 <= spos(data.(internal.valueSorter), i) && spos(data.(internal.valueSorter), i) < len(data.(internal.valueSorter))) && data.(internal.valueSorter)[i] == old(data.(internal.valueSorter)[spos(data.(internal.valueSorter), i)])
func (*array).Sort props C07
  maypanic any
  ensures [kind] len(self.slice) >= 2 ==> newarray(result, self.frozen) && len(result.(*array).slice) == len(self.slice)
  ensures [small] len(self.slice) < 2 ==> same(result, val(self))
  ensures [sorted] forall i, j int {result.(*array).slice[i], result.(*array).slice[j]} :: 0 <= i && i < j && j < len(result.(*array).slice) ==> scmp(result.(*array).slice[j], result.(*array).slice[i]) >= 0
  ensures [unchanged] forall k int {self.slice[k]} :: 0 <= k && k < len(self.slice) ==> self.slice[k] == old(self.slice[k])
