# What New creates is an instance of the type (C19). Nothing is said about the arguments: a New that cannot make an
# instance panics. That Instance itself decides membership is C02, C04 and C05.
package internal

func dgo.Factory.New(arg) props C19
  maypanic any
  ensures [conforms] inst(self, result)
func New(typ, argument) props C19
  requires typ != nil
  maypanic any
  ensures [conforms] inst(typ, result)
func newString(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newInt(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newFloat(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newBoolean(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newBinary(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
  each 1 invariant 0 <= $i
func newArray(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newMap(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newTime(t, arg) props C19
  requires t != nil
  maypanic any
  ensures [conforms] inst(t, result)
func newNamed(rt, arg) props C19
  requires rt != nil
  maypanic any
  ensures [conforms] inst(rt, result)

# --- what the conversions are made of: nothing is relied on but that they return a value of their result type, or panic
func dgo.Arguments.AssertSize(funcName, min, max) props C19
  maypanic any
func dgo.Arguments.Arg(funcName, n, typ) props C19
  requires typ != nil
  maypanic any
  ensures [argument] inst(typ, result)
extern dgo.Array.Get(index) props C19
  maypanic any
extern dgo.NamedTypeExtension.Name() props C19
  maypanic any
extern internal.intFromConvertible(from, radix) props C19
  maypanic any
extern internal.floatFromConvertible(from) props C19
  maypanic any
extern internal.mapFromArgs(args, frozen) props C19
  maypanic any
extern internal.Array(value) props C19
  maypanic any
extern internal.FromValue(src, dest) props C19
  maypanic any
extern internal.Parse(content) props C19
  maypanic any
extern internal.TimeFromString(s) props C19
  maypanic any
extern internal.BinaryFromEncoded(str, enc) props C19
  maypanic any
extern dgo.String.GoString() props C19
  maypanic any
extern dgo.Integer.GoInt() props C19
  maypanic any
extern dgo.Float.GoFloat() props C19
  maypanic any
extern internal.illegalArgumentCount(name, min, max, actual) props C19
  maypanic any
extern fmt.Stringer.String() props C19
  maypanic any
extern time.Unix(sec, nsec) props C19
  maypanic any
extern math.Modf(f) props C19
  maypanic any
spec c19elem(a Val, i int) Val
spec c19len(a Val) int
extern dgo.Array.EachWithIndex(actor) props C19
  maypanic any
  iterates actor(c19elem(self, $i), $i) while $i < c19len(self)
