out='''# C06: equality is symmetric. The lemmas are the steps of an induction over the depth of (acyclic) values.
package internal

spec rank(v Val) int
axiom rank_nat: forall v Val {rank(v)} :: rank(v) >= 0
assume props C06 "values are acyclic: a part of a value has a smaller rank than the value (values that contain themselves are excluded)"
define symbelow(n int) bool = forall x, y Val {veq(x, y)} :: rank(x) < n && avalue(y) && veq(x, y) ==> veq(y, x)
axiom rank_array: forall a *array; i int {a.slice[i]} :: 0 <= i && i < len(a.slice) ==> rank(a.slice[i]) < rank(val(a))
axiom rank_arguments: forall a *arguments; i int {a.slice[i]} :: 0 <= i && i < len(a.slice) ==> rank(a.slice[i]) < rank(val(a))
axiom rank_telem: forall t Val; i int {telem(t, i)} :: rank(telem(t, i)) < rank(t) && avalue(telem(t, i))
axiom rank_exval: forall t Val {exval(t)} :: rank(exval(t)) < rank(t) && avalue(exval(t))
axiom rank_ekey: forall e Val {ekey(e)} :: rank(ekey(e)) < rank(e)
axiom rank_evalue: forall e Val {evalue(e)} :: rank(evalue(e)) < rank(e)
'''
parts={'*sizedArrayType':['elementType'],'*sizedMapType':['keyType','valueType'],'*sensitiveType':['wrapped'],'*sensitive':['value'],'*notType':['negated'],'*metaType':['tp'],
 '*parameterized':['NamedType','params'],'*mapKeyError':['mapType','key'],'*typeError':['expected','actual'],'*sizeError':['sizedType']}
flat='defaultMapType booleanType errType nilType regexpType timeType defaultDgoStringType defaultStringType defaultFloatType defaultIntegerType *integerType *floatType *binaryType *sizedStringType *named'.split()
other='*array *arguments *tupleType *exactFunctionTuple *mapEntry *hashNode *structEntry *exactIntegerType *exactFloatType *exactBinaryType *exactBooleanType *exactErrorType *exactNamed *exactRegexpType *exactStringType *exactTimeType *ciStringType *exactArrayType *exactMapType *exactEntryType'.split()
vals='intVal floatVal boolean nilValue *hstring *binary *regexpVal anyType defaultArrayType'.split()
for t,fs in parts.items():
    for f in fs:
        n='a.'+f
        out+='axiom rank_%s_%s: forall a %s {a.%s} :: rank(a.%s) < rank(val(a)) && avalue(a.%s)\n'%(t[1:],f,t,f,f,f)
for t in list(parts)+flat+other+[v for v in vals if v!='nilValue']:
    out+='lemma sym_%s props C06 noauto: forall a, b Val :: is(a, %s) && avalue(b) && symbelow(rank(a)) && veq(a, b) ==> veq(b, a)\n'%(t.replace('*',''),t)
out=out.replace("lemma sym_metaType props C06 noauto: forall a, b Val :: is(a, *metaType) &&","lemma sym_metaType props C06 noauto: forall a, b Val :: is(a, *metaType) && !veq(a.(*metaType).tp, nil) &&").replace("is(a, nilValue) && avalue(b)","is(a, nilValue) && is(b, dgo.Value)")
out+="""# transitivity
define transbelow(n int) bool = forall x, y, z Val {veq(x, y), veq(y, z)} :: rank(x) < n && avalue(y) && avalue(z) && veq(x, y) && veq(y, z) ==> veq(x, z)
"""
for t in list(parts)+flat+other+vals:
    out+='lemma trans_%s props C06 noauto: forall a, b, c Val :: is(a, %s) && is(b, dgo.Value) && avalue(c) && transbelow(rank(a)) && veq(a, b) && veq(b, c) ==> veq(a, c)\n'%(t.replace('*',''),t)

out+="""# hash codes: hash(v) is what v.HashCode() returns, and equal values have equal ones
define hashbelow(n int) bool = forall x, y Val {veq(x, y)} {hash(x), hash(y)} :: rank(x) < n && avalue(y) && (goeq(x, y) || veq(x, y)) ==> hash(x) == hash(y)
axiom hash_nil: hash(nil) == hash(val(Nil))
spec world bytag hash(v Val) int
func dgo.Value.HashCode props C06
  wrap
  maypanic any
  returns hash(self)
func internal.deepEqual.deepHashCode(seen) props C06
  wrap
  maypanic any
  returns hash(self)
func deepHashCode(seen, e) props C06
  maypanic any
  returns hash(e)
spec strhash(s string) int
extern util.StringHash(s)
  pure
  returns strhash(s)
func (*hstring).HashCode props C06
  maypanic any
  modifies self.h
  returns hash(self)
define hstep(h int, c bool, x int) int = ite(c, wadd(wmul(h, 31), x), h)
define hwin(ti, lo, hi int) int = hstep(hstep(ti, lo > 0, lo), hi < math.MaxInt64, hi)
spec world shash(s []dgo.Value, n int) int
axiom shash_zero: forall s []dgo.Value; n int {shash(s, n)} :: n <= 0 ==> shash(s, n) == 1
axiom shash_step: forall s []dgo.Value; i, k int {shash(s, i), shash(s, k)} :: 0 <= i && k == i + 1 ==> shash(s, k) == wadd(wmul(shash(s, i), 31), hash(s[i]))
spec world thash(t Val, n int) int
axiom thash_zero: forall t Val; n int {thash(t, n)} :: n <= 0 ==> thash(t, n) == ite(tvar(t), 7, 1)
axiom thash_step: forall t Val; i, k int {thash(t, i), thash(t, k)} :: 0 <= i && k == i + 1 ==> thash(t, k) == wadd(wmul(thash(t, i), 31), hash(telem(t, i)))
spec world bhash(s []byte, n int) int
axiom bhash_zero: forall s []byte; n int {bhash(s, n)} :: n <= 0 ==> bhash(s, n) == 1
axiom bhash_step: forall s []byte; i, k int {bhash(s, i), bhash(s, k)} :: 0 <= i && k == i + 1 ==> bhash(s, k) == wadd(wmul(31, bhash(s, i)), s[i])
lemma shash_eq props C06 induct n by shash(s, n - 1), shash(t, n - 1): forall s, t []dgo.Value; n int {shash(s, n), shash(t, n)} :: (forall i int {s[i]} {t[i]} :: 0 <= i && i < n ==> hash(s[i]) == hash(t[i])) ==> shash(s, n) == shash(t, n)
lemma thash_eq props C06 induct n by thash(s, n - 1), thash(t, n - 1): forall s, t Val; n int {thash(s, n), thash(t, n)} :: tvar(s) == tvar(t) && (forall i int {telem(s, i)} {telem(t, i)} :: 0 <= i && i < n ==> hash(telem(s, i)) == hash(telem(t, i))) ==> thash(s, n) == thash(t, n)
lemma bhash_eq props C06 induct n by bhash(s, n - 1), bhash(t, n - 1): forall s, t []byte; n int {bhash(s, n), bhash(t, n)} :: (forall i int {s[i]} {t[i]} :: 0 <= i && i < n ==> s[i] == t[i]) ==> bhash(s, n) == bhash(t, n)
lemma any_only props C06: forall a, b Val {veq(a, b)} :: is(a, anyType) && veq(a, b) ==> goeq(a, b)
func bytesHash(s) props C06
  wrap
  returns bhash(s, len(s))
  loop 1 invariant h == bhash(s, $i)
func tupleHashCode(t, seen) props C06
  wrap
  requires t != nil
  maypanic any
  returns thash(t, tlen(t))
  loop 1 invariant 0 <= i && i <= l && h == thash(t, i)
func (*array).deepHashCode(seen) props C06
  wrap
  maypanic any
  returns hash(self)
  loop 1 invariant h == shash(self.slice, $i)
inv *hstring: self.h == 0 || self.h == strhash(self.s)
axiom f2i_eq: forall x, y float64 {f2i(x), f2i(y)} :: x == y ==> f2i(x) == f2i(y)
"""
H={'*sizedArrayType':'hstep(hwin(dgo.TiArray, v.min, v.max), !goeq(v.elementType, val(DefaultAnyType)), hash(v.elementType))',
'*sizedMapType':'hstep(hstep(hwin(dgo.TiMap, v.min, v.max), !goeq(v.keyType, val(DefaultAnyType)), hash(v.keyType)), !goeq(v.valueType, val(DefaultAnyType)), hash(v.keyType))',
'*array':'shash(v.slice, len(v.slice))','*arguments':'shash(v.slice, len(v.slice))',
'*tupleType':'thash(v, tlen(v))','*exactFunctionTuple':'thash(v, tlen(v))',
'*binaryType':'hwin(dgo.TiBinary, v.min, v.max)','*sizedStringType':'hwin(dgo.TiStringSized, v.min, v.max)',
'*binary':'bhash(v.bytes, len(v.bytes))','*hstring':'strhash(v.s)',
'*integerType':'ite(v.inclusive, wmul(hwin(dgo.TiIntegerRange, v.min, v.max), 3), hwin(dgo.TiIntegerRange, v.min, v.max))',
'*mapEntry':'bxor(hash(v.key), hash(v.value))','*hashNode':'bxor(hash(v.key), hash(v.value))','*structEntry':'bxor(hash(v.key), hash(v.value))',
'*metaType':'ite(v.tp == nil, dgo.TiMeta * 1321, wadd(dgo.TiMeta * 1321, hash(v.tp)))',
'*named':'wadd(wmul(strhash(v.name), 7), dgo.TiNamed)','*parameterized':'wadd(wmul(hash(v.NamedType), 31), hash(v.params))',
'*notType':'wadd(1579, hash(v.negated))','*regexpVal':'strhash(rxtext(v.(*regexp.Regexp)))',
'*sensitiveType':'wadd(dgo.TiSensitive * 31, hash(v.wrapped))','*sensitive':'wmul(hash(v.value), 7)',
'*mapKeyError':'wadd(wmul(hash(v.mapType), 31), hash(v.key))','*typeError':'wadd(wmul(hash(v.expected), 31), hash(v.actual))','*sizeError':'wadd(wmul(hash(v.sizedType), 7), v.attemptedSize)',
'floatVal':'f2i(v.(float64))'}
for t in '*exactIntegerType *exactFloatType *exactBinaryType *exactBooleanType *exactErrorType *exactNamed *exactRegexpType *exactStringType *exactTimeType *ciStringType *exactArrayType *exactMapType *exactEntryType'.split():
    H[t]='wadd(wmul(hash(exval(v)), 7), tid(v))'
for t,f in H.items():
    out+='case hash(v) for %s = %s\n'%(t,f)
skips={'intVal':0,'boolean':0,'anyType':0,'defaultArrayType':0,'defaultMapType':0,'booleanType':0,'errType':0,'nilType':0,'regexpType':0,'timeType':0,'defaultDgoStringType':0,'defaultStringType':0,'defaultFloatType':0,'defaultIntegerType':0,'nilValue':0}
for t in skips:
    out+='skip internal.%s.HashCode "a function of the value itself, which holds no reference"\n'%t
for t in H:
    out+='lemma hash_%s props C06 noauto: forall a, b Val :: is(a, %s) && avalue(b) && hashbelow(rank(a)) && veq(a, b) ==> hash(a) == hash(b)\n'%(t.replace('*',''),t)
for t in ('sizedArrayType','sizedMapType'):
    out=out.replace("is(a, *%s) && avalue(b) && hashbelow"%t,"is(a, *%s) && avalue(b) && symbelow(rank(a)) && hashbelow"%t)
out=out.replace("is(a, *metaType) && avalue(b) && hashbelow","is(a, *metaType) && !veq(a.(*metaType).tp, nil) && avalue(b) && hashbelow")
for t in ('allOfType','anyOfType','oneOfType','allOfValueType'):
    out+='skip internal.(*%s).deepHashCode "sorts the hash codes of the operands (sort.Ints)"\n'%t
for t in ('errw','native','nativeType','goFunc','patternType','timeVal'):
    out+='skip internal.(*%s).HashCode "hash code of a go value"\n'%t
out+='skip internal.(*floatType).HashCode "a function of the limits, which equality compares"\n'
for t in ('*hashMap','*structVal'):
    out+='skip internal.(%s).deepHashCode "sorts the hash codes of the entries (sort.Ints)"\n'%t
for t in ('(*functionType)','exactFunctionType'):
    out+='skip internal.%s.deepHashCode "function types are compared through package reflect"\n'%t
out+='skip internal.exactFunctionType.HashCode "function types are compared through package reflect"\n'
out+='skip internal.(*structType).deepHashCode "hashes the arrays embedded by value as arrays"\n'
for t in ('childLoader','loader','mapLoader'):
    out+='skip loader.(*%s).HashCode "loaders (C17)"\n'%t
out+='skip internal.(*hstring).HashCode "keeps the hash code in the field h, which only this method reads"\n'
open('/verif/contracts/c06.gvc','w').write(out)
