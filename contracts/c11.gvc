# C10, C11: freezing. fz(v) is what Frozen says of v; nothing that is not listed under modifies is altered by an operation.
package internal

spec world narrow bytag fz(v Val) bool
define fzn(v Val) bool = is(v, dgo.Freezable) ==> fz(v)
case fz(v) for *array = v.frozen
case fz(v) for *arguments = v.frozen
case fz(v) for *binary = v.frozen
case fz(v) for *hashMap = v.frozen
case fz(v) for *structVal = v.frozen
case fz(v) for *mapEntry = fzn(v.value)
case fz(v) for *hashNode = fzn(v.value)
case fz(v) for *structEntry = fzn(v.value)
case fz(v) for *sensitive = fzn(v.hidden.value)
case fz(v) for *native = false

func dgo.Freezable.Frozen props C09 C10 C11
  maypanic any
  returns fz(self)
func dgo.Freezable.FrozenCopy props C09 C10 C11
  maypanic any
  ensures [frozen] result != nil && is(result, dgo.Freezable) && fz(result)
  ensures [itself] old(fz(self)) && !is(self, *internal.arguments) ==> same(result, self)
func dgo.Freezable.ThawedCopy props C09 C10 C11
  maypanic any
  ensures [any] result != nil && is(result, dgo.Freezable)

func (*array).Copy(frozen) props C09 C10 C11
  maypanic any
  ensures [itself] frozen && old(self.frozen) ==> same(result, val(self))
  ensures [kind] !(frozen && old(self.frozen)) ==> newarray(result, frozen) && fresh(result) && len(result.(*array).slice) == len(self.slice) && fresh(result.(*array).slice)
  ensures [deep] !old(self.frozen) && frozen ==> (forall i int {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) ==> fzn(result.(*array).slice[i]))
  ensures [plain] !(frozen && old(self.frozen)) ==> (forall i int {self.slice[i]} {result.(*array).slice[i]} :: 0 <= i && i < len(self.slice) && !is(self.slice[i], dgo.Freezable) ==> result.(*array).slice[i] == self.slice[i])
  loop 1 invariant len(cp) == len(self.slice) && fresh(cp)
  loop 1 invariant forall i int {cp[i]} :: 0 <= i && i < $i ==> fzn(cp[i])
  loop 1 invariant forall i int {cp[i]} {self.slice[i]} :: 0 <= i && i < len(cp) && (i >= $i || !is(self.slice[i], dgo.Freezable)) ==> cp[i] == self.slice[i]
  loop 2 invariant len(cp) == len(self.slice) && fresh(cp)
  loop 2 invariant forall i int {cp[i]} {self.slice[i]} :: 0 <= i && i < len(cp) && (i >= $i || !is(self.slice[i], dgo.Freezable)) ==> cp[i] == self.slice[i]
func (*binary).Copy(frozen) props C10 C11
  ensures [itself] frozen && self.frozen ==> same(result, val(self))
  ensures [copy] !(frozen && self.frozen) ==> is(result, *binary) && fresh(result.(*binary)) && result.(*binary).frozen == frozen && fresh(result.(*binary).bytes) && byteseq(self.bytes, result.(*binary).bytes)
assume props C09 C10 C11 "copyFreeze: the frozen copy stored in an entry does not contain that entry (values are acyclic)"
extern internal.(*mapEntry).copyFreeze
  maypanic any
  modifies self.value
  ensures fzn(self.value)
func (*mapEntry).copyThaw props C10 C11
  maypanic any
  modifies self.value
func frozenElement(v) props C09 C10 C11
  maypanic any
  ensures [itself] !is(v, dgo.Freezable) || is(v, dgo.Native) || old(fz(v)) && !is(v, *arguments) ==> same(result, v)
  ensures [frozen] v != nil && !is(v, dgo.Native) ==> result != nil && fzn(result)
func frozenCopy(v) props C09 C10 C11
  maypanic any
  ensures [itself] !is(v, dgo.Freezable) || old(fz(v)) && !is(v, *arguments) ==> same(result, v)
  ensures [frozen] v != nil ==> result != nil && fzn(result)
skip internal.(*structVal).FrozenCopy "fields of a go struct are copied through package reflect"
skip internal.(*structVal).ThawedCopy "fields of a go struct are copied through package reflect"
# Freeze: whatever is frozen stays frozen and keeps its content, and the value itself becomes frozen
func dgo.Freezable.Freeze props C10 C11
  maypanic any
  modifies all(internal.array.frozen), all(internal.array.slice), all(internal.binary.frozen), all(internal.binary.bytes), all(internal.hashMap.frozen), all(internal.structVal.frozen), all(internal.structVal.rs)
  ensures [arrays] forall x *internal.array {x.frozen} {x.slice} :: old(x.frozen) ==> x.frozen && x.slice == old(x.slice)
  ensures [binaries] forall x *internal.binary {x.frozen} {x.bytes} :: old(x.frozen) ==> x.frozen && x.bytes == old(x.bytes)
  ensures [maps] forall x *internal.hashMap {x.frozen} :: old(x.frozen) ==> x.frozen
  ensures [structs] forall x *internal.structVal {x.frozen} :: old(x.frozen) ==> x.frozen
func (*array).Freeze props C10 C11
  maypanic any
  modifies all(internal.array.frozen), all(internal.array.slice), all(internal.binary.frozen), all(internal.binary.bytes), all(internal.hashMap.frozen), all(internal.structVal.frozen), all(internal.structVal.rs)
  ensures [flag] self.frozen
  ensures [same] !old(self.frozen) ==> len(self.slice) == old(len(self.slice)) && fresh(self.slice)
  loop 1 invariant self.frozen && self.slice == a && fresh(a) && len(a) == old(len(self.slice))
  loop 1 invariant forall x *internal.array {x.frozen} {x.slice} :: old(x.frozen) ==> x.frozen && x.slice == old(x.slice)
  loop 1 invariant forall x *internal.binary {x.frozen} {x.bytes} :: old(x.frozen) ==> x.frozen && x.bytes == old(x.bytes)
  loop 1 invariant forall x *internal.hashMap {x.frozen} :: old(x.frozen) ==> x.frozen
  loop 1 invariant forall x *internal.structVal {x.frozen} :: old(x.frozen) ==> x.frozen
func (*hashMap).Freeze props C10 C11
  maypanic any
  modifies all(array.frozen), all(array.slice), all(binary.frozen), all(binary.bytes), all(hashMap.frozen), all(structVal.frozen), all(structVal.rs)
  ensures [flag] self.frozen
  loop 1 invariant self.frozen
  loop 1 invariant forall x *internal.array {x.frozen} {x.slice} :: old(x.frozen) ==> x.frozen && x.slice == old(x.slice)
  loop 1 invariant forall x *internal.binary {x.frozen} {x.bytes} :: old(x.frozen) ==> x.frozen && x.bytes == old(x.bytes)
  loop 1 invariant forall x *internal.hashMap {x.frozen} :: old(x.frozen) ==> x.frozen
  loop 1 invariant forall x *internal.structVal {x.frozen} :: old(x.frozen) ==> x.frozen
func (*binary).Freeze props C10 C11
  modifies self.bytes, self.frozen
  ensures [flag] self.frozen
  ensures [own] !old(self.frozen) ==> fresh(self.bytes) && byteseq(old(self.bytes), self.bytes)
skip internal.(*structVal).Freeze "the go struct is copied through package reflect"
