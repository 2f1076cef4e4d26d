# C08: hash maps. look(e, k) is the first node with a key equal to k in the collision chain that starts with e, nil when
# there is none.
package internal

spec world look(e *hashNode, k Val) *hashNode
axiom look_nil: forall k Val {look(nil, k)} :: look(nil, k) == nil
axiom look_here: forall e *hashNode; k Val {look(e, k)} :: e != nil && veq(k, e.key) ==> look(e, k) == e
axiom look_next: forall e *hashNode; k Val {look(e, k), look(e.hashNext, k)} :: e != nil && !veq(k, e.key) ==> look(e, k) == look(e.hashNext, k)
define mix(h int) int = bxor(h, shr(h, 16))
define slot(tbl []*hashNode; k Val) *hashNode = tbl[band(len(tbl) - 1, mix(hash(k)))]
define isstring(w Val; s string) bool = is(w, *hstring) && w.(*hstring).s == s
define found(r Val; e *hashNode) bool = ite(e == nil, r == nil, r == e.value)
func hash(h) props C08
  returns mix(h)

func (*hashMap).Get(key) props C08
  maypanic any
  modifies all(hstring.h)
  ensures [empty] len(self.table) == 0 ==> result == nil
  ensures [lookup] len(self.table) > 0 && is(key, dgo.Value) ==> found(result, look(slot(self.table, key), key))
  ensures [string] len(self.table) > 0 && is(key, string) ==> (exists w Val {look(slot(self.table, w), w)} :: isstring(w, key.(string)) && found(result, look(slot(self.table, w), w)))
  ensures [conversion] len(self.table) > 0 && !is(key, dgo.Value) && !is(key, string) ==> (exists w Val {look(slot(self.table, w), w)} :: conv(key, w) && found(result, look(slot(self.table, w), w)))
  loop 1 invariant look(e, key) == look(slot(self.table, key), key)
  loop 2 invariant look(e, key) == look(slot(self.table, key), key)
  loop 3 invariant look(e, gk) == look(slot(self.table, gk), gk)
  loop 4 invariant look(e, gk) == look(slot(self.table, gk), gk)
func (*hashMap).ContainsKey(key) props C08
  maypanic any
  modifies all(hstring.h)
  ensures [empty] len(self.table) == 0 ==> !result
  ensures [lookup] len(self.table) > 0 && is(key, dgo.Value) ==> (result <==> look(slot(self.table, key), key) != nil && look(slot(self.table, key), key).value != nil)
  ensures [string] len(self.table) > 0 && is(key, string) ==> (exists w Val {look(slot(self.table, w), w)} :: isstring(w, key.(string)) && (result <==> look(slot(self.table, w), w) != nil && look(slot(self.table, w), w).value != nil))
func (*hashMap).Len() props C08
  returns self.len
func (*hashMap).values() props C08
  maypanic any
  ensures [length] fresh(result) && len(result) == self.len
  ensures [order] forall i int {result[i]} {nth(self.first, i)} :: 0 <= i && i < self.len && nth(self.first, i) != nil ==> result[i] == nth(self.first, i).value
  loop 1 invariant 0 <= p && e == nth(self.first, p) && fresh(ks) && len(ks) == self.len
  loop 1 invariant forall i int {ks[i]} {nth(self.first, i)} :: 0 <= i && i < p ==> nth(self.first, i) != nil && ks[i] == nth(self.first, i).value
func (*hashMap).Values() props C08
  maypanic any
  ensures [kind] is(result, *array) && fresh(result) && result.(*array).frozen == self.frozen && fresh(result.(*array).slice)
  ensures [length] len(result.(*array).slice) == self.len
  ensures [order] forall i int {result.(*array).slice[i]} {nth(self.first, i)} :: 0 <= i && i < self.len && nth(self.first, i) != nil ==> result.(*array).slice[i] == nth(self.first, i).value
func (*hashMap).Keys() props C08
  hint self.first
  maypanic any
  ensures [kind] is(result, *array) && fresh(result) && result.(*array).frozen && fresh(result.(*array).slice)
  ensures [length] len(result.(*array).slice) == self.len
  ensures [order] forall i int {result.(*array).slice[i]} {nth(self.first, i)} :: 0 <= i && i < self.len && nth(self.first, i) != nil && !is(nth(self.first, i).key, dgo.Freezable) ==> result.(*array).slice[i] == nth(self.first, i).key
inline arrayFromIterator
  each 1 invariant i == $i && len(arr) == size && fresh(arr)
  each 1 invariant forall j int {arr[j]} {$at(j)} :: 0 <= j && j < $i && j < size ==> $more(j) && fzn(arr[j]) && (!is($at(j), dgo.Freezable) ==> arr[j] == $at(j))
# the list from e has string keys only
spec world strkeys(e *hashNode) bool
axiom strkeys_nil: strkeys(nil)
axiom strkeys_not: forall e *hashNode {strkeys(e)} :: e != nil && !is(e.key, *hstring) ==> !strkeys(e)
axiom strkeys_next: forall e *hashNode {strkeys(e), strkeys(e.next)} :: e != nil && is(e.key, *hstring) ==> strkeys(e) == strkeys(e.next)
func (*hashMap).StringKeys() props C08
  ensures result <==> strkeys(self.first)
  loop 1 invariant strkeys(e) <==> strkeys(self.first)
func tableSizeFor(cap) props C08
  ensures result >= 1
assume props C08 "a map has less than 2^62 entries"
define roomy(g *hashMap) bool = 0 <= g.len && g.len < 4611686018427387904
# $made: a set of nodes (those that resize has made). When it holds all that can be reached from a map, then an operation
# on that map alters no other nodes than those and the ones that it makes.
ghostfield hashNode.$made bool
define inside(e *hashNode) bool = e == nil || e.$made
define region(g *hashMap) bool = inside(g.first) && inside(g.last) && (forall i int {g.table[i]} :: 0 <= i && i < len(g.table) ==> inside(g.table[i])) && (forall e *hashNode {e.next} {e.prev} {e.hashNext} {e.$made} :: e.$made ==> inside(e.next) && inside(e.prev) && inside(e.hashNext))
define unaltered(e *hashNode) bool = e.value == old(e.value) && e.key == old(e.key) && e.next == old(e.next) && e.prev == old(e.prev) && e.hashNext == old(e.hashNext)
func (*hashMap).resize(c, capInc) props C08 C10 C11
  wrap
  requires c != nil
  maypanic any
  modifies c.table, c.first, c.last, all(hashNode.$made)
  ensures [table] fresh(c.table) && len(c.table) >= 1
  ensures [first] old(self.first) == nil ==> c.first == old(c.first) && c.last == nil
  ensures [copied] old(self.first) != nil ==> fresh(c.first) && fresh(c.last) && c.first.key == old(self.first.key) && c.first.value == old(self.first.value)
  ensures [made] old(self.first) != nil ==> c.first.$made
  ensures [linked] old(self.first) != nil || c.first == nil ==> region(c)
  ensures [new] forall e *hashNode {e.next} {e.$made} :: e.$made ==> fresh(e)
  loop 1 invariant prev != nil ==> prev.$made && c.first.$made
  loop 1 invariant forall i int {nt[i]} :: 0 <= i && i < len(nt) ==> inside(nt[i])
  loop 1 invariant forall e *hashNode {e.next} {e.prev} {e.hashNext} {e.$made} :: e.$made ==> fresh(e) && inside(e.next) && inside(e.prev) && inside(e.hashNext)
  loop 1 invariant fresh(nt) && same(nt, c.table) && len(nt) >= 1
  loop 1 invariant prev == nil ==> oe == old(self.first) && c.first == old(c.first)
  loop 1 invariant prev != nil ==> fresh(prev) && fresh(c.first) && old(self.first) != nil && c.first.key == old(self.first.key) && c.first.value == old(self.first.value)
  loop 1 invariant oe == nil || !fresh(oe)
define hadkey(g *hashMap; k Val) bool = len(g.table) > 0 && look(slot(g.table, k), k) != nil
func (*hashMap).Put(ki, vi) props C08 C09 C10
  requires roomy(self)
  panics self.frozen
  maypanic any
  onpanic unchanged when self.frozen
  modifies self.table, self.len, self.first, self.last, all(hashNode.next), all(mapEntry.value), all(hstring.h), elems(self.table)
  ensures [had] is(ki, dgo.Value) && old(hadkey(self, ki)) ==> result == old(look(slot(self.table, ki), ki).value) && self.len == old(self.len) && self.first == old(self.first) && self.last == old(self.last) && same(self.table, old(self.table))
  ensures [replaced] is(ki, dgo.Value) && is(vi, dgo.Value) && old(hadkey(self, ki)) ==> old(look(slot(self.table, ki), ki)).value == vi
  ensures [added] is(ki, dgo.Value) && is(vi, dgo.Value) && !old(hadkey(self, ki)) ==> result == nil && self.len == old(self.len) + 1 && fresh(self.last) && self.last.value == vi && (!is(ki, dgo.Freezable) ==> self.last.key == ki)
  ensures [length] self.len == old(self.len) || self.len == old(self.len) + 1
  ensures [table] same(self.table, old(self.table)) || fresh(self.table)
  ensures [others] old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  loop 1 invariant region(self) ==> inside(e)
  loop 1 invariant same(tbl, self.table) && hs == mix(hash(k)) && look(e, k) == look(tbl[hk], k)
func (*hashMap).Remove(ki) props C08 C10
  requires roomy(self)
  panics self.frozen
  maypanic any
  onpanic unchanged when self.frozen
  modifies self.len, self.first, self.last, all(hashNode.next), all(hashNode.prev), all(hashNode.hashNext), all(hstring.h), elems(self.table)
  ensures [lookup] is(ki, dgo.Value) ==> result == ite(old(look(slot(self.table, ki), ki)) == nil, nil, old(look(slot(self.table, ki), ki).value))
  ensures [absent] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) == nil ==> self.len == old(self.len) && self.first == old(self.first) && self.last == old(self.last)
  ensures [removed] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) != nil ==> self.len == old(self.len) - 1
  ensures [unlinked] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) != nil && old(look(slot(self.table, ki), ki).prev) == nil ==> self.first == old(look(slot(self.table, ki), ki).next)
  ensures [tail] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) != nil && old(look(slot(self.table, ki), ki).next) == nil ==> self.last == old(look(slot(self.table, ki), ki).prev)
  ensures [chain] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) != nil && old(slot(self.table, ki) == look(slot(self.table, ki), ki)) ==> self.table[band(len(self.table) - 1, mix(old(hash(ki))))] == old(look(slot(self.table, ki), ki).hashNext)
  ensures [unhook] is(ki, dgo.Value) && old(look(slot(self.table, ki), ki)) != nil && !old(slot(self.table, ki) == look(slot(self.table, ki), ki)) ==> (exists p *hashNode {old(p.hashNext)} :: old(p.hashNext) == old(look(slot(self.table, ki), ki)) && p.hashNext == old(look(slot(self.table, ki), ki).hashNext))
  ensures [others] old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  loop 1 invariant region(self) ==> inside(e) && inside(p)
  loop 1 invariant (p == nil ==> e == self.table[hk]) && (p != nil ==> p.hashNext == e && !veq(key, self.table[hk].key))
  loop 1 invariant hk == band(len(self.table) - 1, mix(hash(key))) && look(e, key) == look(self.table[hk], key)
# With, Without, WithoutAll and Merge work on a copy: nothing of the receiver, nor of any other map, is altered (frame).
func (*hashMap).With(ki, vi) props C08 C10
  requires roomy(self)
  maypanic any
  modifies all(hstring.h), all(hashNode.$made)
  ensures [frozen] is(result, *hashMap) && result.(*hashMap).frozen == self.frozen
  ensures [fresh] same(result, self) || fresh(result)
  ensures [itself] same(result, self) ==> !is(ki, dgo.Value) || len(self.table) > 0
func (*hashMap).Without(ki) props C08 C10
  requires roomy(self)
  maypanic any
  modifies all(hstring.h), all(hashNode.$made)
  ensures [frozen] is(result, *hashMap) && result.(*hashMap).frozen == self.frozen
  ensures [fresh] same(result, self) || fresh(result)
  ensures [absent] is(ki, dgo.Value) && len(self.table) > 0 && old(look(slot(self.table, ki), ki)) == nil ==> same(result, self)
func (*hashMap).Merge(associations) props C08 C10
  wrap
  requires roomy(self) && associations != nil
  maypanic any
  modifies all(hstring.h), all(hashNode.$made)
  ensures [same] old(mlen(associations)) == 0 || goeq(val(self), associations) ==> same(result, val(self))
  ensures [kind] old(mlen(associations)) != 0 && !goeq(val(self), associations) && self.len != 0 ==> is(result, *hashMap) && fresh(result) && result.(*hashMap).frozen == self.frozen
func (*hashMap).WithoutAll(keys) props C08 C10
  requires roomy(self) && keys != nil
  maypanic any
  modifies all(hstring.h), all(hashNode.$made)
  ensures [fresh] same(result, self) || is(result, *hashMap) && fresh(result) && result.(*hashMap).frozen == self.frozen
# the entries of any map, the elements of any array, in the order in which they are visited
spec world mentry(m dgo.Map, i int) dgo.MapEntry
spec world aelem(a Val, i int) dgo.Value
axiom mentry_len: forall m dgo.Map; i int {mentry(m, i)} :: 0 <= i && i < mlen(m) ==> mentry(m, i) != nil
axiom aelem_len: forall a Val; i int {aelem(a, i)} :: 0 <= i && i < mlen(a) ==> aelem(a, i) != nil
axiom mlen_limit: forall a Val {mlen(a)} :: mlen(a) < 4611686018427387904
assume props C08 C09 C10 "the iterations Each and EachEntry of any map or array visit as many entries (elements) as Len tells"
extern in internal dgo.Map.EachEntry(actor) props C08 C10
  maypanic any
  iterates actor(mentry(self, $i)) while $i < mlen(self)
extern in internal dgo.Iterable.Each(actor) props C08 C09 C10
  maypanic any
  iterates actor(aelem(self, $i)) while $i < mlen(self)
func (*hashMap).PutAll(associations) props C08 C10
  wrap
  requires roomy(self) && associations != nil
  panics self.frozen && mlen(associations) != 0
  maypanic any
  onpanic unchanged when self.frozen
  modifies self.table, self.len, self.first, self.last, all(hashNode.next), all(hashNode.prev), all(hashNode.hashNext), all(mapEntry.value), all(hstring.h), elems(self.table)
  ensures [length] old(self.len) <= self.len
  ensures [nothing] old(mlen(associations)) == 0 ==> self.len == old(self.len) && self.first == old(self.first) && self.last == old(self.last) && same(self.table, old(self.table))
  ensures [added] self.len > old(self.len) ==> fresh(self.last) && self.last.next == nil
  ensures [others] old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  each 1 invariant old(region(self)) ==> region(self)
  each 1 invariant old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  each 1 invariant forall e *hashNode {e.$made} :: e.$made ==> fresh(e) || old(e.$made)
  loop 1 invariant old(region(self)) ==> region(self)
  loop 1 invariant old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  loop 1 invariant forall e *hashNode {e.$made} :: e.$made ==> fresh(e) || old(e.$made)
  loop 1 invariant old(region(self)) ==> inside(e)
  each 1 invariant same(tbl, self.table) && old(self.len) <= l && l <= old(self.len) + $i && $i < 4611686018427387904
  each 1 invariant l > old(self.len) ==> fresh(self.last) && self.last.next == nil
func (*hashMap).RemoveAll(keys) props C08 C10
  wrap
  requires roomy(self) && keys != nil
  panics self.frozen
  maypanic any
  onpanic unchanged when self.frozen
  modifies self.len, self.first, self.last, all(hashNode.next), all(hashNode.prev), all(hashNode.hashNext), all(mapEntry.value), all(hstring.h), elems(self.table)
  ensures [length] self.len <= old(self.len)
  ensures [table] same(self.table, old(self.table))
  ensures [others] old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  each 1 invariant old(region(self)) ==> region(self)
  each 1 invariant old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  loop 1 invariant old(region(self)) ==> region(self) && inside(e) && inside(p)
  loop 1 invariant old(region(self)) ==> (forall e *hashNode {e.value} {e.next} {e.prev} {e.hashNext} :: !fresh(e) && !old(e.$made) ==> unaltered(e))
  loop 1 invariant same(tbl, self.table) && same(tbl, old(self.table))
  each 1 invariant same(tbl, self.table) && same(tbl, old(self.table)) && old(self.len) - $i <= self.len && self.len <= old(self.len)
func (*hashMap).Copy(frozen) props C08 C10 C11
  maypanic any
  ensures [itself] frozen && old(self.frozen) ==> same(result, val(self))
  ensures [kind] !(frozen && old(self.frozen)) ==> is(result, *hashMap) && fresh(result) && result.(*hashMap).frozen == frozen && result.(*hashMap).len == self.len && fresh(result.(*hashMap).table)
  ensures [keys] !(frozen && old(self.frozen)) && self.first != nil ==> fresh(result.(*hashMap).first) && result.(*hashMap).first.key == self.first.key
  loop 1 invariant e == nil || e.$made
  loop 2 invariant e == nil || e.$made
func (*hashMap).Map(mapper) props C08 C10
  requires mapper != nil
  maypanic any
  ensures [kind] is(result, *hashMap) && fresh(result) && result.(*hashMap).frozen == self.frozen && result.(*hashMap).len == self.len && fresh(result.(*hashMap).table)
  ensures [keys] self.first != nil ==> fresh(result.(*hashMap).first) && result.(*hashMap).first.key == self.first.key
  loop 1 invariant e == nil || e.$made
bounded props C08 internal.structVal "fields of a go struct are read and written through package reflect: decided by the harness"
bounded props C08 internal.FromReflectedMap "go maps are read through package reflect: decided by the harness"
