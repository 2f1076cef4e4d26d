# C14: streaming. What a consumer has been given: $cnt values that can be referred to by position, $nrefs references the last of
# which is $ref, $n values in the array or map that is being added, which is a map when $inmap, and next is a key when $atkey.
package streamer

ghostfield Consumer.$cnt int
ghostfield Consumer.$nrefs int
ghostfield Consumer.$ref int
ghostfield Consumer.$n int
ghostfield Consumer.$inmap bool
ghostfield Consumer.$atkey bool
spec cancomplex(c Val) bool
spec canbinary(c Val) bool
spec cantime(c Val) bool
spec smlen(m Val) int
spec sentry(m Val; i int) Val
spec salen(a Val) int
spec selem(a Val; i int) Val
# a reference that is a part of the streamed data: it is passed on as it is
spec indata(ref int) bool
axiom sm_len: forall m Val {smlen(m)} :: 0 <= smlen(m) && smlen(m) < 1000000000000000000
axiom sa_len: forall a Val {salen(a)} :: 0 <= salen(a) && salen(a) < 1000000000000000000
axiom sm_entry: forall m Val; i int {sentry(m, i)} :: sentry(m, i) != nil <==> 0 <= i && i < smlen(m)
assume props C14 "consumers do as the Consumer interface says: they call the function that adds the elements once, and then what they have been given counts; values do not change while they are streamed, and their maps and arrays give their elements (C08, C09)"
assume props C14 "keys of the table of streamed values are compared for identity; that the type of a key is one that go can compare is bounded (harness)"

define keyok(c Consumer, v Val) bool = c.$atkey && !cancomplex(c) ==> v != nil && is(v, dgo.String)
define nokey(c Consumer) bool = c.$atkey ==> cancomplex(c)
extern in streamer streamer.Consumer.Add(element) props C14
  requires [key] keyok(self, element)
  requires [simple] element != nil && !is(element, dgo.Map) && !is(element, dgo.Array) && !is(element, dgo.Sensitive) && !is(element, dgo.Type)
  requires [rich] (is(element, dgo.Binary) ==> canbinary(self)) && (is(element, dgo.Time) ==> cantime(self))
  maypanic any
  modifies self.$cnt, self.$n, self.$atkey
  ensures self.$cnt < math.MaxInt64
  ensures self.$cnt == old(self.$cnt) + 1 && self.$n == old(self.$n) + 1 && (self.$atkey <==> self.$inmap && !old(self.$atkey))
extern in streamer streamer.Consumer.AddRef(ref) props C14
  requires [key] nokey(self)
  requires [earlier] 0 <= ref && ref < self.$cnt || indata(ref)
  maypanic any
  modifies self.$n, self.$atkey, self.$nrefs, self.$ref
  ensures self.$n == old(self.$n) + 1 && (self.$atkey <==> self.$inmap && !old(self.$atkey)) && self.$nrefs == old(self.$nrefs) + 1 && self.$ref == ref
extern in streamer streamer.Consumer.AddArray(n, doer) props C14
  requires [key] nokey(self)
  maypanic any
  iterates doer()
  entry self.$cnt := self.$cnt + 1
  entry self.$n := 0
  entry self.$inmap := false
  entry self.$atkey := false
  assumes self.$cnt < math.MaxInt64
  demands [length] self.$n == n
  exit self.$n := old(self.$n) + 1
  exit self.$inmap := old(self.$inmap)
  exit self.$atkey := old(self.$inmap) && !old(self.$atkey)
extern in streamer streamer.Consumer.AddMap(n, doer) props C14
  requires [key] nokey(self)
  maypanic any
  iterates doer()
  entry self.$cnt := self.$cnt + 1
  entry self.$n := 0
  entry self.$inmap := true
  entry self.$atkey := true
  assumes self.$cnt < math.MaxInt64
  demands [length] self.$n == 2 * n && self.$atkey
  exit self.$n := old(self.$n) + 1
  exit self.$inmap := old(self.$inmap)
  exit self.$atkey := old(self.$inmap) && !old(self.$atkey)
extern in streamer streamer.Consumer.CanDoComplexKeys() props C14
  pure
  returns cancomplex(self)
extern in streamer streamer.Consumer.CanDoBinary() props C14
  pure
  returns canbinary(self)
extern in streamer streamer.Consumer.CanDoTime() props C14
  pure
  returns cantime(self)
extern in streamer streamer.Consumer.StringDedupThreshold() props C14
  pure
# a map that is itself the representation of a reference
spec dataref(m Val) bool
extern in streamer dgo.Map.Get(key) props C14
  pure
  ensures is(result, dgo.Integer) && smlen(self) == 1 ==> dataref(self)
extern in streamer dgo.Map.Len() props C14
  pure
  returns smlen(self)
extern in streamer dgo.Map.StringKeys() props C14
  pure
  ensures result ==> (forall i int {sentry(self, i)} :: 0 <= i && i < smlen(self) ==> is(ekey(sentry(self, i)), dgo.String))
extern in streamer dgo.Map.EachEntry(actor) props C14
  maypanic any
  iterates actor(sentry(self, $i)) while $i < smlen(self)
extern in streamer dgo.Array.Len() props C14
  pure
  returns salen(self)
extern in streamer dgo.Array.EachWithIndex(actor) props C14
  maypanic any
  iterates actor(selem(self, $i), $i) while $i < salen(self)
extern in streamer dgo.Integer.GoInt() props C14
  pure
  ensures indata(result)
extern in streamer dgo.String.GoString() props C14
  pure
extern in streamer streamer.Dialect.TypeKey() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.ValueKey() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.RefKey() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.AliasTypeName() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.BinaryTypeName() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.MapTypeName() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.SensitiveTypeName() props C14
  pure
  ensures result != nil && is(result, dgo.String)
extern in streamer streamer.Dialect.TimeTypeName() props C14
  pure
  ensures result != nil && is(result, dgo.String)

extern in streamer dgo.Time.String() props C14
  maypanic any
extern in streamer dgo.Binary.String() props C14
  maypanic any
extern in streamer dgo.Type.String() props C14
  maypanic any
extern in streamer dgo.Sensitive.Unwrap() props C14
  pure
extern in streamer dgo.NamedType.ExtractInitArg(value) props C14
  maypanic any
extern in streamer dgo.NamedType.Name() props C14
  maypanic any
extern in streamer dgo.AliasMap.GetName(t) props C14
  maypanic any
define consumed(sc *context) bool = sc.config != nil && sc.values != nil && sc.consumer != nil && sc.config.Options.Dialect != nil && sc.refIndex == sc.consumer.$cnt && 0 <= sc.refIndex && sc.refIndex < math.MaxInt64
define remembered(sc *context) bool = forall k Val {gohas(sc.values, k)} {goget(sc.values, k)} :: gohas(sc.values, k) ==> 0 <= goget(sc.values, k) && goget(sc.values, k) < sc.refIndex
define leveled(sc *context) bool = NoDedup <= sc.dedupLevel && (!cancomplex(sc.consumer) ==> sc.dedupLevel < MaxDedup)
define streaming(sc *context) bool = consumed(sc) && remembered(sc) && leveled(sc)
func (*context).emitData(value) props C14
  requires streaming(self)
  requires keyok(self.consumer, value) && (self.consumer.$atkey && !cancomplex(self.consumer) ==> self.dedupLevel == NoDedup)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
func (*context).emitDataNoDedup(value) props C14
  requires streaming(self)
  requires keyok(self.consumer, value)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
func (*context).emitString(value) props C14
  requires streaming(self) && value != nil
  requires keyok(self.consumer, value) && (self.consumer.$atkey && !cancomplex(self.consumer) ==> self.dedupLevel == NoDedup)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
func (*context).emitArray(value) props C14
  requires streaming(self) && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
  each 3 invariant consumed(self) && remembered(self) && leveled(self) && self.dedupLevel == old(self.dedupLevel) && self.refIndex > old(self.refIndex) && (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k))) && (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k)))) && (old(self.dedupLevel != NoDedup) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex))
  each 3 invariant self.consumer.$n == $i && $i <= salen(value) && !self.consumer.$inmap && !self.consumer.$atkey
func (*context).emitMap(value) props C14
  requires streaming(self) && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] !dataref(value) && old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] !dataref(value) && old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
  each 3 invariant consumed(self) && remembered(self) && leveled(self) && self.dedupLevel == old(self.dedupLevel) && self.refIndex > old(self.refIndex) && (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k))) && (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k)))) && (old(self.dedupLevel != NoDedup) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex))
  each 3 invariant self.consumer.$n == 2 * $i && $i <= smlen(value) && self.consumer.$inmap && self.consumer.$atkey
  each 7 invariant consumed(self) && remembered(self) && leveled(self) && self.dedupLevel == old(self.dedupLevel) && self.refIndex > old(self.refIndex) && (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k))) && (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k)))) && (old(self.dedupLevel != NoDedup) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex))
  each 7 invariant self.consumer.$n == 2 * $i && $i <= smlen(value) && !self.consumer.$inmap && !self.consumer.$atkey
func (*context).emitTime(value) props C14
  requires streaming(self) && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
func (*context).emitBinary(value) props C14
  requires streaming(self) && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
func (*context).emitSensitive(value) props C14
  requires streaming(self) && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
func (*context).emitType(typ) props C14
  requires streaming(self) && typ != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, typ)) ==> gohas(self.values, typ) && goget(self.values, typ) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, typ)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, typ)
func (*context).emitNamed(t, value) props C14
  requires streaming(self) && t != nil && value != nil
  requires nokey(self.consumer)
  maypanic any
  modifies self.refIndex, self.dedupLevel, entries(self.values), self.consumer.$cnt, self.consumer.$n, self.consumer.$nrefs, self.consumer.$ref, self.consumer.$inmap, self.consumer.$atkey
  ensures [counted] streaming(self) && self.refIndex >= old(self.refIndex)
  ensures [level] self.dedupLevel == old(self.dedupLevel)
  ensures [one] self.consumer.$n == old(self.consumer.$n) + 1 && self.consumer.$inmap == old(self.consumer.$inmap) && (self.consumer.$atkey <==> self.consumer.$inmap && !old(self.consumer.$atkey))
  ensures [kept] (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k)))
  ensures [off] (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k))))
  ensures [new] old(self.dedupLevel != NoDedup && !gohas(self.values, value)) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex) && self.refIndex > old(self.refIndex)
  ensures [again] old(self.dedupLevel != NoDedup && gohas(self.values, value)) ==> self.refIndex == old(self.refIndex) && self.consumer.$nrefs == old(self.consumer.$nrefs) + 1 && self.consumer.$ref == goget(self.values, value)
  each 3 invariant consumed(self) && remembered(self) && leveled(self) && self.dedupLevel == old(self.dedupLevel) && self.refIndex > old(self.refIndex) && (forall k Val {gohas(self.values, k)} {goget(self.values, k)} :: old(gohas(self.values, k)) ==> gohas(self.values, k) && goget(self.values, k) == old(goget(self.values, k))) && (self.dedupLevel == NoDedup ==> (forall k Val {gohas(self.values, k)} :: gohas(self.values, k) ==> old(gohas(self.values, k)))) && (old(self.dedupLevel != NoDedup) ==> gohas(self.values, value) && goget(self.values, value) == old(self.refIndex))
  each 3 invariant self.consumer.$n == 2 * $i + 2 && $i <= smlen(vm) && self.consumer.$inmap && self.consumer.$atkey
func (*rdSerializer).Stream(value, consumer) props C14
  requires consumer != nil && consumer.$cnt == 0 && !consumer.$inmap && !consumer.$atkey && consumer.$n == 0
  requires self.Options.Dialect != nil && NoDedup <= self.Options.DedupLevel
  maypanic any
  modifies consumer.$cnt, consumer.$n, consumer.$nrefs, consumer.$ref, consumer.$inmap, consumer.$atkey
  ensures [one] consumer.$n == 1 && !consumer.$inmap

# --- the separators of the JSON text: what is written is appended to the history $h of the writer
ghostfield Writer.$h int
spec put1(h int; b int) int
spec putn(h int; s []byte) int
spec putf(h int; format string) int
extern in streamer io.Writer.Write(p) props C14
  maypanic any
  modifies self.$h
  ensures self.$h == ite(len(p) == 1, put1(old(self.$h), p[0]), putn(old(self.$h), p))
extern json.Marshal(v) props C14
  ensures fresh(result)
  maypanic any
extern bytes.ContainsAny(b, chars) props C14
extern fmt.Fprintf(w, format, args) props C14
  maypanic any
  modifies w.$h
  ensures w.$h == putf(old(w.$h), format)
define separated(h int, state int) int = ite(state == afterKey, put1(h, 58), ite(state == afterValue || state == afterElement, put1(h, 44), h))
define next(state int) int = ite(state == firstInArray || state == afterElement, afterElement, ite(state == afterKey, afterValue, afterKey))
define jstate(j *jsonEncoder) bool = firstInArray <= j.state && j.state <= afterKey && j.out != nil
func (*jsonEncoder).AddRef(ref) props C14
  requires jstate(self) && self.dialect != nil
  maypanic any
  modifies self.state, self.out.$h
  ensures [next] self.state == next(old(self.state)) && jstate(self)
  ensures [separated] self.out.$h == putf(separated(old(self.out.$h), old(self.state)), "{%s:%d}")
func (*jsonEncoder).Add(element) props C14
  requires jstate(self)
  maypanic any
  modifies self.state, self.out.$h
  ensures [next] self.state == next(old(self.state)) && jstate(self)
  ensures [separated] exists p []byte :: self.out.$h == putn(separated(old(self.out.$h), old(self.state)), p) || len(p) == 1 && self.out.$h == put1(separated(old(self.out.$h), old(self.state)), p[0])
extern in streamer dgo.Float.GoFloat() props C14
  pure
extern in streamer dgo.Boolean.GoBool() props C14
  pure

# --- collectors: the position of a value is its index in Values
ghostfield Array.$len int
ghostfield Array.$last dgo.Value
extern in streamer dgo.Array.Add(v) props C14
  maypanic any
  modifies self.$len, self.$last
  ensures self.$len == old(self.$len) + 1 && self.$last == v
extern in streamer dgo.Array.Get(i) props C14
  maypanic any
  ensures result == selem(self, i)
extern in streamer dgo.Array.Set(i, v) props C14
  maypanic any
  modifies self.$last
  ensures old(salen(self)) == i + 1 ==> self.$last == v
define top(c *BasicCollector) dgo.Array = c.Stack[len(c.Stack) - 1]
define collecting(c *BasicCollector) bool = len(c.Stack) > 0 && c.Values != nil && top(c) != nil && refof(c.Values) != refof(top(c))
func (*BasicCollector).StackTop() props C14
  requires len(self.Stack) > 0
  pure
  returns top(self)
func (*BasicCollector).Add(element) props C14
  requires collecting(self)
  maypanic any
  modifies self.Values.$len, self.Values.$last, top(self).$len, top(self).$last
  ensures [indexed] self.Values.$len == old(self.Values.$len) + 1 && self.Values.$last == element
  ensures [added] top(self).$len == old(top(self).$len) + 1 && top(self).$last == element
func (*BasicCollector).AddRef(ref) props C14
  requires collecting(self)
  maypanic any
  modifies top(self).$len, top(self).$last
  ensures [added] top(self).$len == old(top(self).$len) + 1 && top(self).$last == selem(self.Values, ref)

# what the consumers of the package take
func (*dataCollector).CanDoBinary() props C14
  returns false
func (*dataCollector).CanDoTime() props C14
  returns false
func (*dataCollector).CanDoComplexKeys() props C14
  returns false
func (*jsonEncoder).CanDoBinary() props C14
  returns false
func (*jsonEncoder).CanDoTime() props C14
  returns false
func (*jsonEncoder).CanDoComplexKeys() props C14
  returns false
func (*BasicCollector).CanDoBinary() props C14
  returns true
func (*BasicCollector).CanDoTime() props C14
  returns true
func (*BasicCollector).CanDoComplexKeys() props C14
  returns true
