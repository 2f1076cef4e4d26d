# C17: loaders. lm(m, k) is what map m has for the key k (nil when there is none), lentry(m, i) its i-th entry; lg(l, k) is what
# loader l gives for the key k and lns(l, n) its namespace n, each time it is asked.
package loader

spec world lm(m Val; k Val) Val
spec world lentry(m Val; i int) Val
spec world lpos(m Val; k Val) int
spec lg(l Val; k Val) Val
spec lns(l Val; n string) Val
spec absn(l Val) string
axiom lm_eq: forall m, k, k2 Val {lm(m, k), lm(m, k2)} :: veq(k, k2) ==> lm(m, k) == lm(m, k2)
axiom lm_entry: forall m, k Val {lm(m, k)} :: lm(m, k) != nil ==> 0 <= lpos(m, k) && lentry(m, lpos(m, k)) != nil && veq(ekey(lentry(m, lpos(m, k))), k)
axiom lentry_prefix: forall m Val; i, k int {lentry(m, i), lentry(m, k)} :: 0 <= i && i <= k && lentry(m, k) != nil ==> lentry(m, i) != nil
axiom lentry_key: forall m Val; i int {lentry(m, i)} :: lentry(m, i) != nil ==> ekey(lentry(m, i)) != nil && evalue(lentry(m, i)) != nil
assume props C17 "a map has one value for each key, and its entries are those keys and values (C08); a map that a finder returns is not the map of a loader's entries"
extern in loader dgo.Map.Get(key)
  pure
  returns lm(self, key)
extern in loader dgo.Keyed.Get(key)
  pure
  returns lm(self, key)
extern in loader dgo.Map.Put(key, value)
  maypanic any
  modifies all(internal.hashMap.len)
  ensures is(value, dgo.Value) ==> same(lm(self, key), value)
  ensures lm(self, key) != nil
  ensures forall m, k Val {lm(m, k)} :: !(m == self && old(veq(k, key))) ==> lm(m, k) == old(lm(m, k))
extern in loader dgo.Map.EachEntry(actor)
  iterates actor(lentry(self, $i)) while lentry(self, $i) != nil
assume props C17 "nested loaders (parents, namespaces) give the same answer each time they are asked; finders and namespace creators do not alter the loader that calls them"
extern in loader dgo.Loader.Get(key)
  maypanic any
  modifies all(internal.hashMap.len)
  returns lg(self, key)
extern in loader dgo.Loader.Namespace(name)
  maypanic any
  modifies all(internal.hashMap.len)
  returns lns(self, name)
extern in loader dgo.Loader.AbsoluteName()
  pure
  returns absn(self)

extern in loader dgo.Loader.ParentNamespace()
  pure
extern in loader dgo.Loader.Name()
  pure
extern in loader dgo.String.GoString()
  pure
extern in loader dgo.Map.FrozenCopy()
  maypanic any
  ensures is(result, dgo.Map)
extern in loader dgo.Map.Copy(frozen)
  maypanic any
  ensures is(result, dgo.Map)
extern vf.Map
  ensures result != nil
extern vf.MutableMap
  ensures result != nil

define unnil(v Val) Val = ite(goeq(v, val(vf.Nil)), nil, v)
func (*mapLoader).Get(key) props C17
  requires self.entries != nil
  returns lm(self.entries, key)
func (*mapLoader).Name() props C17
  returns self.name
func (*mapLoader).ParentNamespace() props C17
  returns self.parentNs
func (*mapLoader).Namespace(name) props C17
  ensures result == ite(name == "", val(self), nil)
func (*mapLoader).AbsoluteName() props C17
  ensures result == ite(self.parentNs == nil || absn(self.parentNs) == "/", "/" + self.name, absn(self.parentNs) + ("/" + self.name))
func (*loader).add(key, value) props C17
  requires self.entries != nil && key != nil && value != nil
  maypanic any
  modifies all(internal.hashMap.len)
  ensures [cached] result != nil && result == lm(self.entries, key)
  ensures [given] old(lm(self.entries, key)) == nil && !is(value, multipleEntries) ==> same(result, value)
  ensures [keeps] forall k Val {lm(self.entries, k)} :: old(lm(self.entries, k)) != nil ==> lm(self.entries, k) == old(lm(self.entries, k))
  each 1 invariant forall k Val {lm(self.entries, k)} :: old(lm(self.entries, k)) != nil ==> lm(self.entries, k) == old(lm(self.entries, k))
  each 1 invariant forall j int {$at(j)} :: 0 <= j && j < $i ==> lm(self.entries, ekey($at(j))) != nil
func (*loader).Get(ki) props C17
  requires self.entries != nil
  maypanic any
  modifies all(internal.hashMap.len)
  ensures [notstring] is(ki, dgo.Value) && !is(ki, dgo.String) ==> result == nil
  ensures [result] is(ki, dgo.String) ==> result == unnil(lm(self.entries, ki))
  ensures [cached] is(ki, dgo.String) && self.finder != nil ==> lm(self.entries, ki) != nil
  ensures [keeps] forall k Val {lm(self.entries, k)} :: old(lm(self.entries, k)) != nil ==> lm(self.entries, k) == old(lm(self.entries, k))
  ensures [nofinder] self.finder == nil ==> (forall k Val {lm(self.entries, k)} :: lm(self.entries, k) == old(lm(self.entries, k)))
func (*loader).Namespace(name) props C17
  requires self.namespaces != nil
  maypanic any
  modifies all(internal.hashMap.len)
  ensures [itself] name == "" ==> result == val(self)
  ensures [known] name != "" && is(old(lm(self.namespaces, val(name))), dgo.Loader) ==> result == old(lm(self.namespaces, val(name)))
  ensures [cached] name != "" && result != nil ==> result == lm(self.namespaces, val(name))
  ensures [keeps] forall k Val {lm(self.namespaces, k)} :: old(lm(self.namespaces, k)) != nil ==> lm(self.namespaces, k) == old(lm(self.namespaces, k))
func (*childLoader).Get(key) props C17
  maypanic any
  modifies all(internal.hashMap.len)
  ensures result == ite(lg(self.parent, key) != nil, lg(self.parent, key), lg(self.Loader, key))
func (*childLoader).Namespace(name) props C17
  maypanic any
  modifies all(internal.hashMap.len)
  ensures [itself] name == "" ==> result == val(self)
  ensures [parent] name != "" && lns(self.Loader, name) == nil ==> result == lns(self.parent, name)
  ensures [own] name != "" && lns(self.parent, name) == nil ==> result == lns(self.Loader, name)
  ensures [both] name != "" && lns(self.Loader, name) != nil && lns(self.parent, name) != nil ==> is(result, *childLoader) && result.(*childLoader).Loader == lns(self.Loader, name) && result.(*childLoader).parent == lns(self.parent, name)

# the name a/b/c is that of c in the namespace b of the namespace a
spec nparts(s string) int
spec part(s string; i int) string
extern strings.Split(s, sep)
  ensures len(result) == nparts(s) && nparts(s) >= 1 && fresh(result)
  ensures forall i int {result[i]} :: 0 <= i && i < len(result) ==> result[i] == part(s, i)
spec walk(l Val; n string; i int) Val
axiom walk_zero: forall l Val; n string {walk(l, n, 0)} :: walk(l, n, 0) == l
axiom walk_step: forall l Val; n string; i, k int {walk(l, n, i), walk(l, n, k)} :: 0 <= i && k == i + 1 ==> walk(l, n, k) == ite(walk(l, n, i) == nil, nil, lns(walk(l, n, i), part(n, i)))
axiom walk_next: forall l Val; n string; i int {walk(l, n, i), part(n, i)} :: 0 <= i ==> walk(l, n, i + 1) == ite(walk(l, n, i) == nil, nil, lns(walk(l, n, i), part(n, i)))
lemma walk_nil props C17 induct k by walk(l, n, k - 1): forall l Val; n string; i, k int {walk(l, n, i), walk(l, n, k)} :: 0 <= i && i <= k && walk(l, n, i) == nil ==> walk(l, n, k) == nil
func load(l, name) props C17
  requires l != nil
  maypanic any
  modifies all(internal.hashMap.len)
  ensures [missing] walk(l, name, nparts(name) - 1) == nil ==> result == nil
  ensures [found] walk(l, name, nparts(name) - 1) != nil ==> result == lg(walk(l, name, nparts(name) - 1), val(part(name, nparts(name) - 1)))
  loop 1 invariant l != nil && l == walk(old(l), name, i) && last == nparts(name) - 1 && len(parts) == nparts(name) && (forall j int {parts[j]} :: 0 <= j && j < len(parts) ==> parts[j] == part(name, j))
func (*mapLoader).Load(name) props C17
  maypanic any
  modifies all(internal.hashMap.len)
  ensures walk(val(self), name, nparts(name) - 1) == nil ==> result == nil
  ensures walk(val(self), name, nparts(name) - 1) != nil ==> result == lg(walk(val(self), name, nparts(name) - 1), val(part(name, nparts(name) - 1)))
func (*loader).Load(name) props C17
  maypanic any
  modifies all(internal.hashMap.len)
  ensures walk(val(self), name, nparts(name) - 1) == nil ==> result == nil
  ensures walk(val(self), name, nparts(name) - 1) != nil ==> result == lg(walk(val(self), name, nparts(name) - 1), val(part(name, nparts(name) - 1)))
func (*childLoader).Load(name) props C17
  maypanic any
  modifies all(internal.hashMap.len)
  ensures walk(val(self), name, nparts(name) - 1) == nil ==> result == nil
  ensures walk(val(self), name, nparts(name) - 1) != nil ==> result == lg(walk(val(self), name, nparts(name) - 1), val(part(name, nparts(name) - 1)))
func loaderWithParent(parent, finder, nsCreator) props C17
  requires parent != nil
  maypanic any
  ensures is(result, *childLoader) && result.(*childLoader).parent == parent && result.(*childLoader).Loader != nil
func New(parentNs, name, entries, finder, nsCreator) props C17
  maypanic any
  ensures [fixed] finder == nil && nsCreator == nil ==> is(result, *mapLoader) && result.(*mapLoader).name == name && result.(*mapLoader).parentNs == parentNs
  ensures [dynamic] finder != nil || nsCreator != nil ==> is(result, *loader) && result.(*loader).name == name && result.(*loader).parentNs == parentNs && result.(*loader).finder == finder && result.(*loader).nsCreator == nsCreator
