# C09: arrays are sequences. Each operation is specified by the elements of its result; what an operation does not
# list under modifies is unaltered (the elements of every other array included).
package internal

# what becomes of a go value that is put into an array
define isval(x, r Val) bool = r != nil && ite(is(x, dgo.Value), same(r, x), conv(x, r))
# the backing store of a mutable array is private to it: what an operation stores is in the old backing store or a fresh one
define kept(s, o []dgo.Value) bool = fresh(s) || arr(s) == arr(o) && off(s) == off(o)
# a new array never shares its backing store with an array that may be altered
define newarray(r Val, frozen bool) bool = is(r, *array) && r.(*array).frozen == frozen && (!frozen ==> fresh(r.(*array).slice))

func frozenArray(f) props C09 C10
  ensures result != nil
func (*array).Len props C09
  pure
  returns len(self.slice)
func (*array).Get(index) props C09
  panics index < 0 || index >= len(self.slice)
  returns self.slice[index]
func (*array).Add(vi) props C09 C10
  panics self.frozen
  maypanic any
  onpanic unchanged
  modifies self.slice, elems(self.slice)
  ensures [length] len(self.slice) == old(len(self.slice)) + 1
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < old(len(self.slice)) ==> self.slice[i] == old(self.slice[i])
  ensures [last] isval(vi, self.slice[len(self.slice) - 1])
  ensures [own] kept(self.slice, old(self.slice))
func (*array).AddValues(values) props C09 C10
  panics self.frozen
  maypanic any
  onpanic unchanged
  modifies self.slice, elems(self.slice)
  ensures [length] len(self.slice) == old(len(self.slice)) + len(values)
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < old(len(self.slice)) ==> self.slice[i] == old(self.slice[i])
  ensures [added] forall i int {values[i]} :: 0 <= i && i < len(values) ==> isval(values[i], self.slice[old(len(self.slice)) + i])
  ensures [own] kept(self.slice, old(self.slice))
func (*array).Insert(pos, vi) props C09 C10
  panics self.frozen
  maypanic any
  onpanic unchanged
  modifies self.slice, elems(self.slice)
  ensures [length] len(self.slice) == old(len(self.slice)) + 1 && 0 <= pos && pos <= old(len(self.slice))
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < pos ==> self.slice[i] == old(self.slice[i])
  ensures [at] isval(vi, self.slice[pos])
  ensures [after] forall i, k int {self.slice[i], old(self.slice[k])} :: pos < i && i < len(self.slice) && i == k + 1 ==> self.slice[i] == old(self.slice[k])
  ensures [own] kept(self.slice, old(self.slice))
func (*array).Set(pos, vi) props C09 C10
  panics self.frozen
  maypanic any
  onpanic unchanged
  modifies elems(self.slice)
  ensures [bounds] 0 <= pos && pos < len(self.slice)
  ensures [at] isval(vi, self.slice[pos])
  ensures [others] forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && i != pos ==> self.slice[i] == old(self.slice[i])
  ensures [old] result == old(self.slice[pos])
func (*array).removePos(pos) props C09 C10
  modifies self.slice, elems(self.slice)
  ensures [outside] pos < 0 || pos >= old(len(self.slice)) ==> result == nil && self.slice == old(self.slice)
  ensures [outside2] pos < 0 || pos >= old(len(self.slice)) ==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> self.slice[i] == old(self.slice[i]))
  ensures [removed] 0 <= pos && pos < old(len(self.slice)) ==> len(self.slice) == old(len(self.slice)) - 1 && result == old(self.slice[pos])
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < pos && i < len(self.slice) ==> self.slice[i] == old(self.slice[i])
  ensures [after] 0 <= pos ==> (forall i, k int {self.slice[i], old(self.slice[k])} :: pos <= i && i < len(self.slice) && k == i + 1 ==> self.slice[i] == old(self.slice[k]))
  ensures [own] arr(self.slice) == old(arr(self.slice)) && off(self.slice) == old(off(self.slice))
func (*array).Remove(pos) props C09 C10
  panics self.frozen
  onpanic unchanged
  modifies self.slice, elems(self.slice)
  ensures [outside] pos < 0 || pos >= old(len(self.slice)) ==> result == nil && self.slice == old(self.slice)
  ensures [outside2] pos < 0 || pos >= old(len(self.slice)) ==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> self.slice[i] == old(self.slice[i]))
  ensures [removed] 0 <= pos && pos < old(len(self.slice)) ==> len(self.slice) == old(len(self.slice)) - 1 && result == old(self.slice[pos])
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < pos && i < len(self.slice) ==> self.slice[i] == old(self.slice[i])
  ensures [after] 0 <= pos ==> (forall i, k int {self.slice[i], old(self.slice[k])} :: pos <= i && i < len(self.slice) && k == i + 1 ==> self.slice[i] == old(self.slice[k]))
func (*array).IndexOf(vi) props C09
  maypanic any
  ensures [range] -1 <= result && result < len(self.slice)
  ensures [found] result >= 0 && is(vi, dgo.Value) ==> veq(vi, self.slice[result]) && (forall i int {self.slice[i]} :: 0 <= i && i < result ==> !veq(vi, self.slice[i]))
  ensures [none] result < 0 && is(vi, dgo.Value) ==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> !veq(vi, self.slice[i]))
  ensures [foundgo] result >= 0 && !is(vi, dgo.Value) ==> (exists w Val {conv(vi, w)} :: conv(vi, w) && veq(w, self.slice[result]) && (forall i int {self.slice[i]} :: 0 <= i && i < result ==> !veq(w, self.slice[i])))
  ensures [nonego] result < 0 && !is(vi, dgo.Value) ==> (exists w Val {conv(vi, w)} :: conv(vi, w) && (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> !veq(w, self.slice[i])))
  loop 1 invariant forall i int {$s[i]} :: 0 <= i && i < $i ==> !veq(val, $s[i])
func (*array).Pop props C09 C10
  panics self.frozen
  onpanic unchanged
  modifies self.slice, elems(self.slice)
  ensures [empty] old(len(self.slice)) == 0 ==> !result1 && result0 == nil && self.slice == old(self.slice)
  ensures [popped] old(len(self.slice)) > 0 ==> result1 && result0 == old(self.slice[len(self.slice) - 1]) && len(self.slice) == old(len(self.slice)) - 1
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> self.slice[i] == old(self.slice[i])
func (*array).Slice(i, j) props C09 C10
  panics i < 0 || j < i || j > len(self.slice)
  ensures [kind] newarray(result, self.frozen)
  ensures [length] len(result.(*array).slice) == j - i
  ensures [elements] forall k int {result.(*array).slice[k]} :: 0 <= k && k < j - i ==> result.(*array).slice[k] == self.slice[i + k]
func valueSlice(values, frozen) props C09 C10
  maypanic any
  ensures len(result) == len(values) && fresh(result)
  ensures !frozen ==> (forall i int {values[i]} {result[i]} :: 0 <= i && i < len(values) ==> isval(values[i], result[i]))
  ensures [frozen] frozen ==> (forall i int {result[i]} :: 0 <= i && i < len(values) ==> result[i] != nil && fzn(result[i]))
  ensures [kept] frozen ==> (forall i int {values[i]} {result[i]} :: 0 <= i && i < len(values) && is(values[i], dgo.Value) && !is(values[i], dgo.Freezable) ==> same(result[i], values[i]))
  loop 1 invariant len(cp) == len(values) && fresh(cp)
  loop 1 invariant forall i int {cp[i]} :: 0 <= i && i < $i ==> cp[i] != nil && fzn(cp[i])
  loop 1 invariant forall i int {values[i]} {cp[i]} :: 0 <= i && i < $i && is(values[i], dgo.Value) && !is(values[i], dgo.Freezable) ==> same(cp[i], values[i])
  loop 2 invariant len(cp) == len(values) && fresh(cp)
  loop 2 invariant forall i int {values[i]} {cp[i]} :: 0 <= i && i < $i ==> isval(values[i], cp[i])
func (*array).AppendToSlice(slice) props C09
  modifies elems(slice)
  ensures [length] len(result) == len(slice) + len(self.slice) && kept(result, slice)
  ensures [before] forall i int {result[i]} :: 0 <= i && i < len(slice) ==> result[i] == old(slice[i])
  ensures [added] forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> result[len(slice) + i] == old(self.slice[i])
func (*array).WithValues(values) props C09 C10
  maypanic any
  ensures [none] len(values) == 0 ==> same(result, val(self))
  ensures [kind] len(values) > 0 ==> newarray(result, self.frozen) && len(result.(*array).slice) == len(self.slice) + len(values)
  ensures [before] len(values) > 0 ==> (forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) ==> result.(*array).slice[i] == self.slice[i])
  ensures [added] len(values) > 0 && !self.frozen ==> (forall i int {values[i]} :: 0 <= i && i < len(values) ==> isval(values[i], result.(*array).slice[len(self.slice) + i]))
func ReplaceNil(vs) props C09
  modifies elems(vs)
  ensures forall i int {vs[i]} :: 0 <= i && i < len(vs) ==> vs[i] == old(ite(vs[i] == nil, val(Nil), vs[i]))
  loop 1 invariant forall i int {vs[i]} :: 0 <= i && i < $i ==> vs[i] == old(ite(vs[i] == nil, val(Nil), vs[i]))
  loop 1 invariant forall i int {vs[i]} :: $i <= i && i < len(vs) ==> vs[i] == old(vs[i])
func (*array).InterfaceSlice props C09
  ensures len(result) == len(self.slice) && fresh(result)
  ensures forall i int {result[i]} :: 0 <= i && i < len(result) ==> same(result[i], self.slice[i])
  loop 1 invariant len(is) == len(self.slice) && fresh(is)
  loop 1 invariant forall i int {is[i]} :: 0 <= i && i < $i ==> same(is[i], self.slice[i])
func (*array).GoSlice props C09 C10
  ensures [length] len(result) == len(self.slice)
  ensures [elements] forall i int {result[i]} :: 0 <= i && i < len(result) ==> result[i] == self.slice[i]
  ensures [own] self.frozen ==> fresh(result)
func (*array).Map(mapper) props C09 C10 traced
  maypanic any
  modifies calls(mapper)
  ensures [kind] newarray(result, self.frozen) && len(result.(*array).slice) == len(self.slice) && fresh(result.(*array).slice)
  ensures [mapped] !self.frozen ==> (forall i int {self.slice[i]} {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) ==> isval(app(mapper, self.slice[i]), result.(*array).slice[i]))
  ensures [frozen] self.frozen ==> (forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) ==> is(result.(*array).slice[i], dgo.Native) || fzn(result.(*array).slice[i]))
  loop 1 invariant len(vs) == len(self.slice) && fresh(vs)
  loop 1 invariant !self.frozen ==> (forall i int {$s[i]} {vs[i]} :: 0 <= i && i < $i ==> isval(app(mapper, $s[i]), vs[i]))
  loop 1 invariant self.frozen ==> (forall i int {vs[i]} :: 0 <= i && i < $i ==> is(vs[i], dgo.Native) || fzn(vs[i]))
func (*array).EachWithIndex(actor) props C09 C20 traced
  iterates actor(self.slice[$i], $i) while $i < len(self.slice)
  modifies calls(actor)
  ensures applied(actor, old(ncalls(actor)), len(self.slice), self.slice)
  ensures [index] forall k int {callarg2(actor, k)} :: old(ncalls(actor)) <= k && k < ncalls(actor) ==> same(callarg2(actor, k), k - old(ncalls(actor)))
  loop 1 invariant applied(actor, old(ncalls(actor)), $i, $s)
  loop 1 invariant forall k int {callarg2(actor, k)} :: old(ncalls(actor)) <= k && k < ncalls(actor) ==> same(callarg2(actor, k), k - old(ncalls(actor)))
# the reductor is given what it gave for the element before, and each element in order
func (*array).Reduce(mi, reductor) props C09 C20 traced
  maypanic any
  modifies calls(reductor)
  ensures [count] ncalls(reductor) == old(ncalls(reductor)) + len(self.slice)
  ensures [order] forall k int {callarg2(reductor, k)} :: old(ncalls(reductor)) <= k && k < ncalls(reductor) ==> callarg2(reductor, k) == self.slice[k - old(ncalls(reductor))]
  ensures [first] isval(mi, ite(len(self.slice) == 0, result, callarg(reductor, old(ncalls(reductor)))))
  ensures [last] len(self.slice) > 0 ==> isval(app(reductor, callarg(reductor, ncalls(reductor) - 1), callarg2(reductor, ncalls(reductor) - 1)), result)
  ensures [memo] forall k, l int {callarg(reductor, k), callarg(reductor, l)} :: old(ncalls(reductor)) <= k && l == k + 1 && l < ncalls(reductor) ==> isval(app(reductor, callarg(reductor, k), callarg2(reductor, k)), callarg(reductor, l))
  loop 1 invariant ncalls(reductor) == old(ncalls(reductor)) + $i
  loop 1 invariant forall k int {callarg2(reductor, k)} :: old(ncalls(reductor)) <= k && k < ncalls(reductor) ==> callarg2(reductor, k) == $s[k - old(ncalls(reductor))]
  loop 1 invariant isval(mi, ite($i == 0, memo, callarg(reductor, old(ncalls(reductor)))))
  loop 1 invariant $i > 0 ==> isval(app(reductor, callarg(reductor, ncalls(reductor) - 1), callarg2(reductor, ncalls(reductor) - 1)), memo)
  loop 1 invariant forall k, l int {callarg(reductor, k), callarg(reductor, l)} :: old(ncalls(reductor)) <= k && l == k + 1 && l < ncalls(reductor) ==> isval(app(reductor, callarg(reductor, k), callarg2(reductor, k)), callarg(reductor, l))
func (*array).With(vi) props C09 C10
  maypanic any
  ensures [kind] newarray(result, self.frozen) && len(result.(*array).slice) == len(self.slice) + 1
  ensures [before] forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) ==> result.(*array).slice[i] == self.slice[i]
  ensures [added] !self.frozen ==> isval(vi, result.(*array).slice[len(self.slice)])
define full(s []dgo.Value) bool = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil
func (*array).AddAll(values) props C09 C10
  requires values != nil
  panics self.frozen
  maypanic any
  onpanic unchanged when self.frozen
  modifies self.slice, elems(self.slice)
  ensures [length] is(values, *array) ==> len(self.slice) == old(len(self.slice)) + old(len(values.(*array).slice))
  ensures [before] forall i int {self.slice[i]} :: 0 <= i && i < old(len(self.slice)) ==> self.slice[i] == old(self.slice[i])
  ensures [added] is(values, *array) ==> (forall i int {old(values.(*array).slice[i])} :: 0 <= i && i < old(len(values.(*array).slice)) ==> self.slice[old(len(self.slice)) + i] == old(values.(*array).slice[i]))
  ensures [all] !is(values, *array) ==> len(self.slice) == old(len(self.slice)) + ite(old(mlen(values)) > 0, old(mlen(values)), 0)
  ensures [elements] !is(values, *array) ==> (forall i int {self.slice[old(len(self.slice)) + i]} {old(aelem(values, i))} :: 0 <= i && i < len(self.slice) - old(len(self.slice)) ==> self.slice[old(len(self.slice)) + i] == old(aelem(values, i)))
  ensures [own] kept(self.slice, old(self.slice))
  each 1 invariant kept(a, old(self.slice)) && len(a) == old(len(self.slice)) + $i && ($i == 0 || $i <= old(mlen(values)))
  each 1 invariant forall i int {a[i]} :: 0 <= i && i < old(len(self.slice)) ==> a[i] == old(self.slice[i])
  each 1 invariant forall i int {a[old(len(self.slice)) + i]} {$at(i)} :: 0 <= i && i < $i ==> a[old(len(self.slice)) + i] == $at(i)
func (*array).WithAll(values) props C09 C10
  requires values != nil
  maypanic any
  ensures [none] old(mlen(values)) == 0 ==> same(result, val(self))
  ensures [kind] old(mlen(values)) != 0 ==> newarray(result, self.frozen)
  ensures [length] old(mlen(values)) != 0 ==> len(result.(*array).slice) >= len(self.slice)
  ensures [before] old(mlen(values)) != 0 ==> (forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) && (self.frozen || !is(old(self.slice[i]), dgo.Freezable)) ==> result.(*array).slice[i] == old(self.slice[i]))
  ensures [added] old(mlen(values)) != 0 && !self.frozen && is(values, *array) ==> len(result.(*array).slice) == len(self.slice) + old(len(values.(*array).slice)) && (forall i int {old(values.(*array).slice[i])} :: 0 <= i && i < old(len(values.(*array).slice)) ==> result.(*array).slice[len(self.slice) + i] == old(values.(*array).slice[i]))
func sliceFromIterable(ir) props C09 C20
  requires ir != nil
  maypanic any
  ensures [length] fresh(result) && len(result) == old(mlen(ir))
  ensures [elements] forall j int {result[j]} {old(aelem(ir, j))} :: 0 <= j && j < len(result) ==> result[j] == old(aelem(ir, j))
  each 1 invariant fresh(es) && len(es) == old(mlen(ir)) && i == $i
  each 1 invariant forall j int {es[j]} {$at(j)} :: 0 <= j && j < $i && j < len(es) ==> es[j] == $at(j)
func (*array).Flatten props C09 C10
  maypanic any
  ensures [itself] (forall i int {old(self.slice[i])} :: 0 <= i && i < len(self.slice) ==> !is(old(self.slice[i]), *array)) ==> same(result, val(self))
  ensures [kind] same(result, val(self)) || newarray(result, self.frozen) && len(result.(*array).slice) >= 0
  ensures [flat] !same(result, val(self)) ==> (forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(result.(*array).slice) ==> !is(result.(*array).slice[i], *array))
  loop 1 invariant forall j int {$s[j]} :: 0 <= j && j < $i ==> !is($s[j], *array)
func flattenElements(elements, receiver) props C09 C10
  maypanic any
  modifies elems(receiver)
  ensures [before] len(result) >= len(receiver) && (fresh(result) || arr(result) == arr(receiver) && off(result) == off(receiver)) && (forall i int {result[i]} :: 0 <= i && i < len(receiver) ==> result[i] == old(receiver[i]))
  ensures [flat] forall i int {result[i]} :: len(receiver) <= i && i < len(result) ==> !is(result[i], *array)
  loop 1 invariant len(receiver) >= old(len(receiver)) && (fresh(receiver) || arr(receiver) == old(arr(receiver)) && off(receiver) == old(off(receiver)))
  loop 1 invariant forall i int {receiver[i]} :: 0 <= i && i < old(len(receiver)) ==> receiver[i] == old(receiver[i])
  loop 1 invariant forall i int {receiver[i]} :: old(len(receiver)) <= i && i < len(receiver) ==> !is(receiver[i], *array)
func (*array).deepContainsAll(seen, other) props C09
  requires other != nil
  maypanic any
  ensures [length] result ==> old(mlen(other)) <= len(self.slice)
  ensures [empty] is(other, *array) && old(mlen(other)) == 0 ==> result
  loop 1 invariant fresh(vs) && len(vs) == len(self.slice)
  loop 2 invariant fresh(vs) && len(vs) == len(self.slice)
func (*array).SameValues(other) props C09
  requires other != nil
  maypanic any
  ensures [length] result ==> old(mlen(other)) == len(self.slice)
  ensures [empty] is(other, *array) && old(mlen(other)) == 0 && len(self.slice) == 0 ==> result
func (*array).Unique props C09 C10
  maypanic any
  ensures [few] len(self.slice) < 2 ==> same(result, val(self))
  ensures [kind] same(result, val(self)) || newarray(result, self.frozen) && len(result.(*array).slice) < len(self.slice)
  loop 1 invariant fresh(u) && len(u) == len(self.slice) && 0 <= ui && ui <= $i && fresh(tbl) && len(tbl) >= 1 && hl == len(tbl) - 1
  loop 1 invariant forall i int {u[i]} :: 0 <= i && i < ui ==> (exists j int {old(self.slice[j])} :: i <= j && j < $i && u[i] == old(self.slice[j]))
func (*array).ToMap props C09 C10
  maypanic any
  modifies all(hashNode.next), all(mapEntry.value), all(hstring.h)
  ensures [kind] is(result, *hashMap) && fresh(result) && result.(*hashMap).frozen == self.frozen && result.(*hashMap).len >= 0
  ensures [length] result.(*hashMap).len <= len(self.slice)
  loop 1 invariant 0 <= i && i <= len(self.slice) && 0 <= m.len && m.len <= i && fresh(m) && !m.frozen && fresh(m.table)
func (*array).ToMapFromEntries props C09 C10
  maypanic any
  modifies all(hashNode.next), all(mapEntry.value), all(hstring.h)
  ensures [kind] result1 ==> is(result0, *hashMap) && fresh(result0) && result0.(*hashMap).frozen == self.frozen && result0.(*hashMap).len >= 0
  ensures [entries] result1 <==> (forall i int {old(self.slice[i])} :: 0 <= i && i < len(self.slice) ==> is(old(self.slice[i]), dgo.MapEntry) || is(old(self.slice[i]), *array) && len(old(self.slice[i]).(*array).slice) == 2)
  ensures [none] !result1 ==> result0 == nil
  loop 1 invariant 0 <= m.len && m.len <= $i && fresh(m) && !m.frozen && fresh(m.table)
  loop 1 invariant forall i int {$s[i]} :: 0 <= i && i < $i ==> is($s[i], dgo.MapEntry) || is($s[i], *array) && len($s[i].(*array).slice) == 2
func (*array).RemoveValue(value) props C09 C10
  panics self.frozen
  maypanic any
  modifies self.slice, elems(self.slice)
  ensures [length] old(full(self.slice)) ==> len(self.slice) == old(len(self.slice)) - ite(result, 1, 0)
  ensures [notfound] old(full(self.slice)) && !result ==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> self.slice[i] == old(self.slice[i]))
func ArrayWithCapacity(capacity) props C09
  maypanic any
  ensures newarray(result, false) && len(result.(*array).slice) == 0
func WrapSlice(values) props C09
  modifies elems(values)
  ensures is(result, *array) && fresh(result.(*array)) && !result.(*array).frozen && result.(*array).slice == values
  ensures forall i int {values[i]} :: 0 <= i && i < len(values) ==> values[i] == old(ite(values[i] == nil, val(Nil), values[i]))
func MutableValues(values) props C09
  maypanic any
  ensures newarray(result, false) && len(result.(*array).slice) == len(values)
  ensures forall i int {values[i]} {result.(*array).slice[i]} :: 0 <= i && i < len(values) ==> isval(values[i], result.(*array).slice[i])
  loop 1 invariant len(cp) == len(values) && fresh(cp)
  loop 1 invariant forall i int {values[i]} {cp[i]} :: 0 <= i && i < $i ==> isval(values[i], cp[i])
func Values(values) props C09 C10
  maypanic any
  ensures newarray(result, true) && fresh(result.(*array).slice) && len(result.(*array).slice) == len(values)
  ensures [frozen] forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(values) ==> fzn(result.(*array).slice[i])
func Integers(values) props C09
  ensures newarray(result, true) && fresh(result.(*array).slice) && len(result.(*array).slice) == len(values)
  ensures forall i int {values[i]} {result.(*array).slice[i]} :: 0 <= i && i < len(values) ==> is(result.(*array).slice[i], intVal) && result.(*array).slice[i].(intVal) == values[i]
  loop 1 invariant len(cp) == len(values) && fresh(cp)
  loop 1 invariant forall i int {values[i]} {cp[i]} :: 0 <= i && i < $i ==> is(cp[i], intVal) && cp[i].(intVal) == values[i]
func makeHString(s) props C09
  ensures result != nil && fresh(result) && result.s == s && result.h == 0
func Strings(values) props C09
  ensures newarray(result, true) && fresh(result.(*array).slice) && len(result.(*array).slice) == len(values)
  ensures forall i int {values[i]} {result.(*array).slice[i]} :: 0 <= i && i < len(values) ==> is(result.(*array).slice[i], *hstring) && result.(*array).slice[i].(*hstring).s == values[i]
  loop 1 invariant len(cp) == len(values) && fresh(cp)
  loop 1 invariant forall i int {values[i]} {cp[i]} :: 0 <= i && i < $i ==> is(cp[i], *hstring) && cp[i].(*hstring).s == values[i]

