# C20: predicates and searches. app(f, x) is the result of the callback; callbacks applied are recorded in order.
package internal

# the number of elements among the first i for which the predicate gives b
spec fcnt(f dgo.Predicate, vs Vals, o int, i int, b bool) int
axiom fcnt_zero: forall f dgo.Predicate; vs Vals; o int; b bool {fcnt(f, vs, o, 0, b)} :: fcnt(f, vs, o, 0, b) == 0
axiom fcnt_step: forall f dgo.Predicate; vs Vals; o, i, k int; b bool {fcnt(f, vs, o, i, b), fcnt(f, vs, o, k, b)} :: 0 <= i && k == i + 1 ==> fcnt(f, vs, o, k, b) == fcnt(f, vs, o, i, b) + ite(app(f, vs[o + i]) == b, 1, 0)
lemma fcnt_range props C20 induct i by fcnt(f, vs, o, i - 1, b), fcnt(f, vs, o, 0, b): forall f dgo.Predicate; vs Vals; o, i int; b bool {fcnt(f, vs, o, i, b)} :: 0 <= i ==> 0 <= fcnt(f, vs, o, i, b) && fcnt(f, vs, o, i, b) <= i
define matches(f dgo.Predicate; s []dgo.Value; i int; b bool) int = fcnt(f, vals(s), off(s), i, b)

# the applications of f since there were n0 of them are those to the first elements of s, in order
define made(f dgo.Predicate; n0 int) int = ncalls(f) - n0
define inorder(f dgo.Predicate; n0 int; s []dgo.Value) bool = n0 <= ncalls(f) && ncalls(f) <= n0 + len(s) && (forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) ==> callarg(f, k) == s[k - n0])
# ... and n of them
define applied(f dgo.Predicate; n0, n int; s []dgo.Value) bool = ncalls(f) == n0 + n && inorder(f, n0, s)
# ... the answer of all but the last being b
define allbutlast(f dgo.Predicate; n0 int; b bool) bool = forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) - 1 ==> app(f, callarg(f, k)) == b

func (*array).All(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> app(predicate, self.slice[i]))
  ensures [order] inorder(predicate, old(ncalls(predicate)), self.slice)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), true) && (result ==> made(predicate, old(ncalls(predicate))) == len(self.slice)) && (!result ==> made(predicate, old(ncalls(predicate))) > 0 && !app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant applied(predicate, old(ncalls(predicate)), $i, $s)
  loop 1 invariant forall j int {$s[j]} :: 0 <= j && j < $i ==> app(predicate, $s[j])
func (*array).Any(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (exists i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && app(predicate, self.slice[i]))
  ensures [order] inorder(predicate, old(ncalls(predicate)), self.slice)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), false) && (!result ==> made(predicate, old(ncalls(predicate))) == len(self.slice)) && (result ==> made(predicate, old(ncalls(predicate))) > 0 && app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant applied(predicate, old(ncalls(predicate)), $i, $s)
  loop 1 invariant forall j int {$s[j]} :: 0 <= j && j < $i ==> !app(predicate, $s[j])
func (*array).One(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (exists i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && app(predicate, self.slice[i]) && (forall j int {self.slice[j]} :: 0 <= j && j < len(self.slice) && j != i ==> !app(predicate, self.slice[j])))
  ensures [order] inorder(predicate, old(ncalls(predicate)), self.slice)
  ensures [stop] made(predicate, old(ncalls(predicate))) < len(self.slice) ==> made(predicate, old(ncalls(predicate))) > 0 && app(predicate, callarg(predicate, ncalls(predicate) - 1)) && !result
  loop 1 invariant applied(predicate, old(ncalls(predicate)), $i, $s)
  loop 1 invariant f <==> (exists i int {$s[i]} :: 0 <= i && i < $i && app(predicate, $s[i]))
  loop 1 invariant forall i, j int {$s[i], $s[j]} :: 0 <= i && i < j && j < $i ==> !(app(predicate, $s[i]) && app(predicate, $s[j]))
func (*array).Find(finder) props C20 traced
  modifies calls(finder)
  ensures [found] result != nil ==> (exists i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && same(result, app(finder, self.slice[i])) && applied(finder, old(ncalls(finder)), i + 1, self.slice)
      && (forall j int {self.slice[j]} :: 0 <= j && j < i ==> app(finder, self.slice[j]) == nil))
  ensures [none] result == nil ==> (forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) ==> app(finder, self.slice[i]) == nil) && applied(finder, old(ncalls(finder)), len(self.slice), self.slice)
  loop 1 invariant applied(finder, old(ncalls(finder)), $i, $s)
  loop 1 invariant forall j int {$s[j]} :: 0 <= j && j < $i ==> app(finder, $s[j]) == nil
func (*array).Each(actor) props C20 traced
  iterates actor(self.slice[$i]) while $i < len(self.slice)
  modifies calls(actor)
  ensures applied(actor, old(ncalls(actor)), len(self.slice), self.slice)
  loop 1 invariant applied(actor, old(ncalls(actor)), $i, $s)
func (*array).Select(predicate) props C20 C09 traced
  modifies calls(predicate)
  ensures [kind] is(result, *array) && fresh(result) && result.(*array).frozen == self.frozen && fresh(result.(*array).slice)
  ensures [length] len(result.(*array).slice) == matches(predicate, self.slice, len(self.slice), true)
  ensures [filter] forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && app(predicate, self.slice[i]) ==> result.(*array).slice[matches(predicate, self.slice, i, true)] == self.slice[i]
  ensures [order] applied(predicate, old(ncalls(predicate)), len(self.slice), self.slice)
  loop 1 invariant applied(predicate, old(ncalls(predicate)), $i, $s)
  loop 1 invariant fresh(vs) && 0 <= len(vs) && len(vs) <= $i && len(vs) == matches(predicate, $s, $i, true)
  loop 1 invariant forall i int {$s[i]} :: 0 <= i && i < $i && app(predicate, $s[i]) ==> matches(predicate, $s, i, true) < len(vs) && vs[matches(predicate, $s, i, true)] == $s[i]
func (*array).Reject(predicate) props C20 C09 traced
  modifies calls(predicate)
  ensures [kind] is(result, *array) && fresh(result) && result.(*array).frozen == self.frozen && fresh(result.(*array).slice)
  ensures [length] len(result.(*array).slice) == matches(predicate, self.slice, len(self.slice), false)
  ensures [filter] forall i int {self.slice[i]} :: 0 <= i && i < len(self.slice) && !app(predicate, self.slice[i]) ==> result.(*array).slice[matches(predicate, self.slice, i, false)] == self.slice[i]
  ensures [order] applied(predicate, old(ncalls(predicate)), len(self.slice), self.slice)
  loop 1 invariant applied(predicate, old(ncalls(predicate)), $i, $s)
  loop 1 invariant fresh(vs) && 0 <= len(vs) && len(vs) <= $i && len(vs) == matches(predicate, $s, $i, false)
  loop 1 invariant forall i int {$s[i]} :: 0 <= i && i < $i && !app(predicate, $s[i]) ==> matches(predicate, $s, i, false) < len(vs) && vs[matches(predicate, $s, i, false)] == $s[i]

# --- maps: the entries form a linked list. nth(e, i) is the i-th node from e, nil beyond the end of the list.
spec world nth(e *hashNode, i int) *hashNode
axiom nth_zero: forall e *hashNode {nth(e, 0)} :: nth(e, 0) == e
axiom nth_step: forall e *hashNode; i, k int {nth(e, i), nth(e, k)} :: 0 <= i && k == i + 1 ==> nth(e, k) == ite(nth(e, i) == nil, nil, nth(e, i).next)
lemma nth_end props C20 C08 induct k by nth(e, k - 1): forall e *hashNode; i, k int {nth(e, i), nth(e, k)} :: 0 <= i && i <= k && nth(e, i) == nil ==> nth(e, k) == nil
# the applications of f since there were n0 of them are those to the first entries (keys, values) of the list, in order
define inorderEntry(f dgo.EntryPredicate; n0 int; first *hashNode) bool = n0 <= ncalls(f) && (forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) ==> nth(first, k - n0) != nil && callarg(f, k) == nth(first, k - n0))
define inorderKey(f dgo.Predicate; n0 int; first *hashNode) bool = n0 <= ncalls(f) && (forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) ==> nth(first, k - n0) != nil && callarg(f, k) == nth(first, k - n0).key)
define inorderValue(f dgo.Predicate; n0 int; first *hashNode) bool = n0 <= ncalls(f) && (forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) ==> nth(first, k - n0) != nil && callarg(f, k) == nth(first, k - n0).value)
define allbut1E(f dgo.EntryPredicate; n0 int; b bool) bool = forall k int {callarg(f, k)} :: n0 <= k && k < ncalls(f) - 1 ==> app(f, callarg(f, k)) == b
func (*hashMap).All(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (forall i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil ==> app(predicate, nth(self.first, i)))
  ensures [order] inorderEntry(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbut1E(predicate, old(ncalls(predicate)), true) && (result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (!result ==> ncalls(predicate) > old(ncalls(predicate)) && !app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderEntry(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> app(predicate, nth(self.first, i))
func (*hashMap).Any(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (exists i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil && app(predicate, nth(self.first, i)))
  ensures [order] inorderEntry(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbut1E(predicate, old(ncalls(predicate)), false) && (!result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (result ==> ncalls(predicate) > old(ncalls(predicate)) && app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderEntry(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> !app(predicate, nth(self.first, i))
func (*hashMap).Each(actor) props C20 traced
  iterates actor(nth(self.first, $i)) while nth(self.first, $i) != nil
  modifies calls(actor)
  ensures [order] inorderEntry(actor, old(ncalls(actor)), self.first)
  ensures [all] nth(self.first, ncalls(actor) - old(ncalls(actor))) == nil
  loop 1 invariant inorderEntry(actor, old(ncalls(actor)), self.first) && e == nth(self.first, ncalls(actor) - old(ncalls(actor)))
func (*hashMap).EachEntry(actor) props C20 traced
  iterates actor(nth(self.first, $i)) while nth(self.first, $i) != nil
  modifies calls(actor)
  ensures [order] inorderEntry(actor, old(ncalls(actor)), self.first)
  ensures [all] nth(self.first, ncalls(actor) - old(ncalls(actor))) == nil
  loop 1 invariant inorderEntry(actor, old(ncalls(actor)), self.first) && e == nth(self.first, ncalls(actor) - old(ncalls(actor)))
func (*hashMap).AllKeys(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (forall i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil ==> app(predicate, nth(self.first, i).key))
  ensures [order] inorderKey(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), true) && (result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (!result ==> ncalls(predicate) > old(ncalls(predicate)) && !app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderKey(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> app(predicate, nth(self.first, i).key)
func (*hashMap).AnyKey(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (exists i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil && app(predicate, nth(self.first, i).key))
  ensures [order] inorderKey(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), false) && (!result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (result ==> ncalls(predicate) > old(ncalls(predicate)) && app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderKey(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> !app(predicate, nth(self.first, i).key)
func (*hashMap).EachKey(actor) props C20 traced
  iterates actor(nth(self.first, $i).key) while nth(self.first, $i) != nil
  modifies calls(actor)
  ensures [order] inorderKey(actor, old(ncalls(actor)), self.first)
  ensures [all] nth(self.first, ncalls(actor) - old(ncalls(actor))) == nil
  loop 1 invariant inorderKey(actor, old(ncalls(actor)), self.first) && e == nth(self.first, ncalls(actor) - old(ncalls(actor)))
func (*hashMap).AllValues(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (forall i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil ==> app(predicate, nth(self.first, i).value))
  ensures [order] inorderValue(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), true) && (result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (!result ==> ncalls(predicate) > old(ncalls(predicate)) && !app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderValue(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> app(predicate, nth(self.first, i).value)
func (*hashMap).AnyValue(predicate) props C20 traced
  modifies calls(predicate)
  ensures [result] result <==> (exists i int {nth(self.first, i)} :: 0 <= i && nth(self.first, i) != nil && app(predicate, nth(self.first, i).value))
  ensures [order] inorderValue(predicate, old(ncalls(predicate)), self.first)
  ensures [stop] allbutlast(predicate, old(ncalls(predicate)), false) && (!result ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil) && (result ==> ncalls(predicate) > old(ncalls(predicate)) && app(predicate, callarg(predicate, ncalls(predicate) - 1)))
  loop 1 invariant inorderValue(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> !app(predicate, nth(self.first, i).value)
func (*hashMap).EachValue(actor) props C20 traced
  iterates actor(nth(self.first, $i).value) while nth(self.first, $i) != nil
  modifies calls(actor)
  ensures [order] inorderValue(actor, old(ncalls(actor)), self.first)
  ensures [all] nth(self.first, ncalls(actor) - old(ncalls(actor))) == nil
  loop 1 invariant inorderValue(actor, old(ncalls(actor)), self.first) && e == nth(self.first, ncalls(actor) - old(ncalls(actor)))
func (*hashMap).Find(predicate) props C20 traced
  modifies calls(predicate)
  ensures [found] result != nil ==> ncalls(predicate) > old(ncalls(predicate)) && nth(self.first, ncalls(predicate) - old(ncalls(predicate)) - 1) != nil && result == nth(self.first, ncalls(predicate) - old(ncalls(predicate)) - 1) && app(predicate, result)
  ensures [first] forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) - ite(result == nil, 0, 1) ==> !app(predicate, nth(self.first, i))
  ensures [none] result == nil ==> nth(self.first, ncalls(predicate) - old(ncalls(predicate))) == nil
  ensures [order] inorderEntry(predicate, old(ncalls(predicate)), self.first)
  loop 1 invariant inorderEntry(predicate, old(ncalls(predicate)), self.first) && e == nth(self.first, ncalls(predicate) - old(ncalls(predicate)))
  loop 1 invariant forall i int {nth(self.first, i)} :: 0 <= i && i < ncalls(predicate) - old(ncalls(predicate)) ==> !app(predicate, nth(self.first, i))
