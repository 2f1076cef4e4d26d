# C12: conversion between go values and dgo values. The result of a conversion has the number, string, bytes or truth value
# of what was converted.
package internal

func Integer(i) props C12
  pure
  ensures [value] is(result, intVal) && result.(intVal) == i
func Float(f) props C12
  pure
  ensures [value] is(result, floatVal) && same(result.(floatVal), f)
func String(s) props C12
  ensures [value] is(result, *hstring) && fresh(result) && result.(*hstring).s == s
func intVal.GoInt props C12
  pure
  returns self
func intVal.ToInt props C12
  pure
  returns self
func intVal.ToFloat props C12
  pure
  ensures [nearest] same(result, i2f(self))
func floatVal.GoFloat props C12
  pure
  ensures [value] same(result, self)
func floatVal.ToFloat props C12
  pure
  ensures [value] same(result, self)
func boolean.GoBool props C12
  pure
  ensures [value] result <==> self
func (*hstring).GoString props C12
  pure
  returns self.s
func Binary(bs, frozen) props C12
  ensures [value] is(result, *binary) && fresh(result) && len(result.(*binary).bytes) == len(bs) && (result.(*binary).frozen <==> frozen)
  ensures [bytes] forall i int {bs[i]} {result.(*binary).bytes[i]} :: 0 <= i && i < len(bs) ==> result.(*binary).bytes[i] == bs[i]
func (*binary).GoBytes props C12
  ensures [length] len(result) == len(self.bytes)
  ensures [bytes] forall i int {result[i]} {self.bytes[i]} :: 0 <= i && i < len(result) ==> result[i] == self.bytes[i]

extern json.Number.Int64()
  maypanic any
extern json.Number.Float64()
  maypanic any
# a destination: its kind, whether a number is outside its range, and what was last stored in it
spec rvkind(v reflect.Value) int
spec rvover(v reflect.Value; n int) bool
spec rvuover(v reflect.Value; n int) bool
spec rvfover(v reflect.Value; f float64) bool
spec world rvint(v reflect.Value) int
spec world rvfloat(v reflect.Value) float64
spec world rvstr(v reflect.Value) string
spec world rvbool(v reflect.Value) bool
spec world rvany(v reflect.Value) Val
ghostfield hstring.$stored int
assume props C12 "package reflect: Kind, OverflowInt, OverflowUint, OverflowFloat, SetInt, SetUint, SetFloat, SetString, SetBool and Set as documented"
extern reflect.Value.Kind()
  pure
  returns rvkind(self)
extern reflect.Value.Type()
  maypanic any
extern reflect.Value.Elem()
  maypanic any
extern reflect.New(t)
  maypanic any
extern reflect.Type.Elem()
  maypanic any
extern reflect.Value.OverflowInt(x)
  maypanic any
  ensures result <==> rvover(self, x)
extern reflect.Value.OverflowUint(x)
  maypanic any
  ensures result <==> rvuover(self, x)
extern reflect.Value.OverflowFloat(x)
  maypanic any
  ensures result <==> rvfover(self, x)
extern reflect.Value.SetInt(x)
  requires !rvover(self, x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures rvint(self) == x
extern reflect.Value.SetUint(x)
  requires !rvuover(self, x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures rvint(self) == x
extern reflect.Value.SetFloat(x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures same(rvfloat(self), x)
extern reflect.Value.SetString(x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures rvstr(self) == x
extern reflect.Value.SetBool(x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures rvbool(self) <==> x
extern reflect.Value.Set(x)
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures same(rvany(self), rvof(x))
define intkind(k int) bool = reflect.Int <= k && k <= reflect.Int64
define uintkind(k int) bool = reflect.Uint <= k && k <= reflect.Uint64
func intVal.ReflectTo(value) props C12
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures [int] intkind(rvkind(value)) || uintkind(rvkind(value)) ==> rvint(value) == self
  ensures [fits] intkind(rvkind(value)) ==> !rvover(value, self)
  ensures [ufits] uintkind(rvkind(value)) ==> self >= 0 && !rvuover(value, self)
  ensures [any] !intkind(rvkind(value)) && !uintkind(rvkind(value)) && rvkind(value) != reflect.Ptr ==> is(rvany(value), int64) && rvany(value).(int64) == self
func floatVal.ReflectTo(value) props C12
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures [float] rvkind(value) == reflect.Float32 || rvkind(value) == reflect.Float64 ==> same(rvfloat(value), self) && !rvfover(value, self)
  ensures [any] rvkind(value) == reflect.Interface ==> is(rvany(value), float64) && same(rvany(value).(float64), self)
func (*hstring).ReflectTo(value) props C12
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures [any] rvkind(value) == reflect.Interface ==> is(rvany(value), string) && rvany(value).(string) == self.s
  ensures [string] rvkind(value) != reflect.Interface && rvkind(value) != reflect.Ptr ==> rvstr(value) == self.s
func boolean.ReflectTo(value) props C12
  maypanic any
  modifies all(internal.hstring.$stored)
  ensures [any] rvkind(value) == reflect.Interface ==> is(rvany(value), bool) && (rvany(value).(bool) <==> self)
  ensures [bool] rvkind(value) != reflect.Interface && rvkind(value) != reflect.Ptr ==> (rvbool(value) <==> self)
bounded props C12 reflected "ValueFromReflected, ArrayFromReflected, FromReflectedMap and ReflectTo of arrays, maps, binaries, structs, times and natives: the values are walked through package reflect (random go types and values, both ways)"
bounded props C12 pointers "ReflectTo into pointers: the pointer is made by package reflect (all number types, three levels)"
