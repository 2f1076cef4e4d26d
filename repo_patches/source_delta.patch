From dd025698543338e40efc82166489e56e615f8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 01/59] fix: array With, WithValues, and WithAll must not share
 storage or expose unfrozen elements

---
 internal/array.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..7e55e40 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1423,19 +1423,22 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
 		return v
 	}
-	c := v.Copy(false)
 	if v.frozen {
-		values = values.FrozenCopy().(dgo.Iterable)
+		// elements of a frozen array are frozen and must remain so
+		c := &array{slice: util.SliceCopy(v.slice)}
+		c.AddAll(values.FrozenCopy().(dgo.Iterable))
+		c.frozen = true
+		return c
 	}
+	c := v.Copy(false)
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
 	return c
 }
 
@@ -1443,7 +1446,13 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	// a copy is needed. An append might otherwise share, and overwrite, the backing storage of this array
+	vs := valueSlice(values, v.frozen)
+	l := len(v.slice)
+	cp := make([]dgo.Value, l+len(vs))
+	copy(cp, v.slice)
+	copy(cp[l:], vs)
+	return &array{slice: cp, frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From 12f2cd2bf7de4d6978b03578be6cf8fbd7c66cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 02/59] fix: array ContainsAll must find every element of the
 other iterable

An allOfValueType is assignable from another one when the other contains
all of its values.
---
 internal/array.go   | 19 ++++++++-----------
 internal/ternary.go |  2 +-
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 7e55e40..c40eabf 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -959,30 +959,27 @@ func (v *array) ContainsAll(other dgo.Iterable) bool {
 
 func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	a := v.slice
-	l := len(a)
-	if l < other.Len() {
+	if len(a) < other.Len() {
 		return false
 	}
-	if l == 0 {
-		return true
-	}
 
-	var vs []dgo.Value
+	var os []dgo.Value
 	if oa, ok := other.(*array); ok {
-		vs = util.SliceCopy(oa.slice)
+		os = oa.slice
 	} else {
-		vs = sliceFromIterable(other)
+		os = sliceFromIterable(other)
 	}
+	vs := util.SliceCopy(a)
 
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
-	for i := range vs {
-		ea := a[i]
+	for i := range os {
+		oe := os[i]
 		f := false
 		for j := range vs {
 			if be := vs[j]; be != nil {
-				if equals(seen, be, ea) {
+				if equals(seen, be, oe) {
 					vs[j] = nil
 					f = true
 					break
diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..4785120 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -153,7 +153,7 @@ func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	if ot, ok := other.(*allOfValueType); ok {
 		// Safe since explicit values only are assignable to themselves and excess elements
 		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		return (*array)(ot).ContainsAll((*array)(t))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From aeaddb9ad2151940cc66eaf9a3bbb58453674dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 03/59] fix: ThawedCopy of a map entry must not modify the
 entry being copied

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..89362b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From bf73b85795ce7dd5d70cc9ccf9a0d4e8c0273cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 04/59] fix: ToMap and ToMapFromEntries must not create
 duplicate keys or relink the nodes of another map

---
 internal/array.go | 51 ++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index c40eabf..69ad6e0 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1310,9 +1310,7 @@ func (v *array) ToMap() dgo.Map {
 	if top%2 != 0 {
 		ts++
 	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(ts))}
 
 	for i := 0; i < top; {
 		mk := ms[i]
@@ -1322,53 +1320,30 @@ func (v *array) ToMap() dgo.Map {
 			mv = ms[i]
 			i++
 		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
-		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(mk, mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(len(ms)))}
 
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
+		switch e := ms[i].(type) {
+		case *hashNode:
+			m.Put(e.key, e.value)
+		case *array:
+			if len(e.slice) != 2 {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+			m.Put(e.slice[0], e.slice[1])
+		default:
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From 558084ae45e4d927f47cd72497c8758399074914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 05/59] fix: equal AllOf, AnyOf, and OneOf types must have
 equal hash codes

---
 internal/ternary.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index 4785120..9a8872c 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -96,7 +96,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return sameValuesHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +200,8 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	// must be equal to the hash of the allOfType with the corresponding exact types
+	return sameValuesHash(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +309,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return sameValuesHash(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -426,7 +427,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return sameValuesHash(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -537,6 +538,16 @@ func sameValues(seen []dgo.Value, a, b dgo.Array, fc func(dgo.Value) dgo.Type) b
 	return false
 }
 
+// sameValuesHash computes a hash code that is independent of the order of the values, since the sameValues
+// equality is independent of that order.
+func sameValuesHash(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := 1
+	for i := range s {
+		h += deepHashCode(seen, fc(s[i]))
+	}
+	return h
+}
+
 // lessRestrictive is true if slice 'a' is less restrictive than slice 'b'
 //
 // This is true if:
-- 
2.43.0


From 33973bc818722c87156e07535e8915a245d6236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 06/59] fix: equality of function types and of tuple types must
 be symmetric

---
 internal/array.go    |  4 ++++
 internal/function.go | 25 +++++++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 69ad6e0..2f9acfa 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -515,6 +515,10 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(dgo.ExactType); ok {
+		// an exact type is only equal to another exact type
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..0c7f879 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,16 +139,28 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other deepEqual) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
 func (t exactFunctionType) HashCode() int {
+	return t.deepHashCode(nil)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
@@ -226,10 +238,7 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
-	}
-	return false
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t *functionType) HashCode() int {
-- 
2.43.0


From 523f45d4ec7f19d56946247d0e67b2d0eb36384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 07/59] fix: a non inclusive range covering all but the maximum
 value is not unconstrained

---
 internal/float.go   | 2 +-
 internal/integer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..3ad8e8b 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if inclusive && min == -math.MaxFloat64 && max == math.MaxFloat64 {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..47ed60e 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if inclusive && min == math.MinInt64 && max == math.MaxInt64 {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
-- 
2.43.0


From 3ea5fc87b2c149d3a8c30ba69ac0b46589b19a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 08/59] fix: ToInt must reject all unsigned values that
 overflow int64

---
 internal/integer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 47ed60e..17abbff 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -390,12 +390,12 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
+		if value > math.MaxInt64 {
 			panic(fmt.Errorf(`value %d overflows int64`, value))
 		}
 		v = int64(value)
-- 
2.43.0


From 539a0e9295f4878b27c4a0b838981391d613b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 09/59] fix: comparison of an integer and a float must be exact

---
 internal/float.go   | 10 +---------
 internal/integer.go | 35 +++++++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 3ad8e8b..7a907fd 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -257,15 +257,7 @@ func (v floatVal) CompareTo(other interface{}) (int, bool) {
 	}
 
 	if oi, isInt := ToInt(other); isInt {
-		fv := float64(v)
-		ov := float64(oi)
-		switch {
-		case fv > ov:
-			r = 1
-		case fv < ov:
-			r = -1
-		}
-		return r, true
+		return -compareIntFloat(oi, float64(v)), true
 	}
 
 	if other == Nil || other == nil {
diff --git a/internal/integer.go b/internal/integer.go
index 17abbff..c0bca4b 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -274,14 +274,7 @@ func (v intVal) CompareTo(other interface{}) (int, bool) {
 	}
 
 	if ov, isFloat := ToFloat(other); isFloat {
-		fv := float64(v)
-		switch {
-		case fv > ov:
-			r = 1
-		case fv < ov:
-			r = -1
-		}
-		return r, true
+		return compareIntFloat(int64(v), ov), true
 	}
 
 	if other == Nil || other == nil {
@@ -290,6 +283,32 @@ func (v intVal) CompareTo(other interface{}) (int, bool) {
 	return 0, false
 }
 
+// compareIntFloat compares i and f without losing precision. The result is negative when i is less than f, positive
+// when i is greater than f, and zero when they are equal or if f is NaN.
+func compareIntFloat(i int64, f float64) int {
+	switch {
+	case f >= 1<<63:
+		return -1
+	case f < -1<<63:
+		return 1
+	case f != f:
+		return 0
+	}
+	// the integer part of f can be exactly represented by an int64
+	t := int64(f)
+	switch {
+	case i < t:
+		return -1
+	case i > t:
+		return 1
+	case float64(t) < f:
+		return -1
+	case float64(t) > f:
+		return 1
+	}
+	return 0
+}
+
 func (v intVal) Equals(other interface{}) bool {
 	i, ok := ToInt(other)
 	return ok && int64(v) == i
-- 
2.43.0


From d71d3ea184aae8f6981ee9b74eb4577e9739d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 10/59] fix: reflecting an integer to a go value must not wrap
 around

---
 internal/integer.go | 47 +++++++++------------------------------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index c0bca4b..3566ad5 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -325,53 +325,24 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if value.OverflowInt(int64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, int64(v), value.Type()))
+		}
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v < 0 || value.OverflowUint(uint64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, int64(v), value.Type()))
+		}
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
-	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
-	}
-	return p
-}
-
 func (v intVal) String() string {
 	return strconv.Itoa(int(v))
 }
-- 
2.43.0


From 96d86cebb832feb4accd60399326da8bcf9034d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 11/59] fix: the nil type is exact and must provide its exact
 value

---
 internal/nil.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..f4068a3 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,11 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+// ExactValue returns Nil, the only value that the type represents
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From 7739032b2642413b9cc79fa2a4139369f6a8bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 12/59] fix: assignability of tuple, array, struct, and map
 types must consider all elements

Variadic tails, additional struct entries, and all individual elements must be
considered. The element, key, and value types of tuples and structs are AllOf
types which aren't suitable for checking the individual elements.
---
 internal/array.go     | 18 ++++++++++++++++--
 internal/map.go       | 24 +++++++++++++++++++++---
 internal/mapstruct.go |  2 +-
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 2f9acfa..6c5dfcb 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -192,7 +192,20 @@ func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type
 	case defaultArrayType:
 		return false // lacks size
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		_, av := t.elementType.(*allOfValueType)
+		if tt, ok := ot.(dgo.TupleType); ok && !av {
+			// the element type of a tuple is an AllOf type that no single element is an instance of
+			for i, n := 0, tt.Len(); i < n; i++ {
+				if !Assignable(guard, t.elementType, tt.Element(i)) {
+					return false
+				}
+			}
+			return true
+		}
+		return Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
@@ -441,7 +454,8 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 			return false
 		}
 	}
-	return true
+	// elements beyond n must also be assignable
+	return ov == nil || Assignable(guard, tv, ov)
 }
 
 func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedArrayType) bool {
diff --git a/internal/map.go b/internal/map.go
index 89362b5..e94551f 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1022,12 +1022,30 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	if ot, ok := other.(dgo.MapType); ok {
-		return t.min <= ot.Min() && ot.Max() <= t.max &&
-			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		if st, ok := ot.(dgo.StructMapType); ok {
+			// the key and value types of a struct are AllOf types that no single key or value is an instance of
+			return t.assignableStruct(guard, st)
+		}
+		return Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
 
+func (t *sizedMapType) assignableStruct(guard dgo.RecursionGuard, st dgo.StructMapType) bool {
+	if st.Additional() && !(Assignable(guard, t.keyType, DefaultAnyType) && Assignable(guard, t.valueType, DefaultAnyType)) {
+		// additional entries are unconstrained
+		return false
+	}
+	ok := true
+	st.Each(func(e dgo.StructMapEntry) {
+		ok = ok && Assignable(guard, t.keyType, e.Key().(dgo.Type)) && Assignable(guard, t.valueType, e.Value().(dgo.Type))
+	})
+	return ok
+}
+
 func (t *sizedMapType) Equals(other interface{}) bool {
 	return equals(nil, t, other)
 }
@@ -1141,7 +1159,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *structType, *exactMapType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..ed8cd52 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
-- 
2.43.0


From 8218749102dc504e8978d78f41f4d0b273837ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 13/59] fix: a sized string type is only assignable from types
 that are limited to that size

---
 internal/string.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index f6cd983..3de066c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -459,17 +461,36 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= 1 && t.max == math.MaxInt64
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-		return t.IsInstance(ot.value.s)
+		min, max := foldedLengths(ot.value.s)
+		return t.min <= min && max <= t.max
 	case *sizedStringType:
 		return t.min <= ot.min && t.max >= ot.max
 	}
 	return CheckAssignableTo(nil, other, t)
 }
 
+// foldedLengths returns the length of the shortest and longest string that is equal to s under Unicode case-folding
+func foldedLengths(s string) (min int, max int) {
+	for _, r := range s {
+		rMin := utf8.RuneLen(r)
+		rMax := rMin
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			if l := utf8.RuneLen(f); l < rMin {
+				rMin = l
+			} else if l > rMax {
+				rMax = l
+			}
+		}
+		min += rMin
+		max += rMax
+	}
+	return
+}
+
 func (t *sizedStringType) Equals(v interface{}) bool {
 	if ob, ok := v.(*sizedStringType); ok {
 		return *t == *ob
-- 
2.43.0


From 1ce819d89ef27c65ea151c24648fee1c173b47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 14/59] fix: reflecting a string to a string pointer must not
 expose the immutable string

---
 internal/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index 3de066c..b822f40 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -621,7 +621,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s // must not expose the address of the immutable string
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
-- 
2.43.0


From 081094e500e77d80785581c06ab2a9f30dd1f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 15/59] fix: reflecting a float to a float32 must not overflow

---
 internal/float.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 7a907fd..79e8ea8 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -284,13 +284,14 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
-		if value.Type().Elem().Kind() == reflect.Float32 {
-			gv := float32(v)
-			value.Set(reflect.ValueOf(&gv))
-		} else {
-			gv := float64(v)
-			value.Set(reflect.ValueOf(&gv))
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
+	case reflect.Float32, reflect.Float64:
+		if value.OverflowFloat(float64(v)) {
+			panic(fmt.Errorf(`value %s overflows %s`, v, value.Type()))
 		}
+		value.SetFloat(float64(v))
 	default:
 		value.SetFloat(float64(v))
 	}
-- 
2.43.0


From 0648cafa9f035814c4b5466bbb8502227edf111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 16/59] fix: operations on frozen arrays and maps must not
 produce frozen containers with unfrozen values

---
 internal/array.go  |  6 +++++-
 internal/map.go    | 25 ++++++++++++++++++++++++-
 internal/struct.go |  6 ++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 6c5dfcb..61eacc3 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1156,7 +1156,11 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	a := v.slice
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
-		vs[i] = Value(mapper(a[i]))
+		e := Value(mapper(a[i]))
+		if v.frozen {
+			e = frozenElement(e)
+		}
+		vs[i] = e
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
diff --git a/internal/map.go b/internal/map.go
index e94551f..212c130 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -287,7 +287,11 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
-		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
+		val := ValueFromReflected(rm.MapIndex(key))
+		if frozen {
+			val = frozenElement(val)
+		}
+		se[i] = [2]dgo.Value{frozenElement(ValueFromReflected(key)), val}
 	}
 
 	// Sort by key to always get predictable order
@@ -573,6 +577,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.value = frozenElement(e.value)
+		}
 	}
 	return c
 }
@@ -585,6 +592,10 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		// a frozen map must only contain frozen values
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -794,6 +805,9 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenElement(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
@@ -900,6 +914,15 @@ func frozenCopy(v dgo.Value) dgo.Value {
 	return v
 }
 
+// frozenElement returns a frozen copy of the given value unless it is a Native. A Native cannot be frozen and
+// its immutability is not guaranteed.
+func frozenElement(v dgo.Value) dgo.Value {
+	if _, ok := v.(dgo.Native); ok {
+		return v
+	}
+	return frozenCopy(v)
+}
+
 func hash(h int) int {
 	return h ^ (h >> 16)
 }
diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..18c7eeb 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -229,6 +229,9 @@ func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
 	c := v.toHashMap()
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if v.frozen {
+			e.value = frozenElement(e.value)
+		}
 	}
 	c.frozen = v.frozen
 	return c
@@ -308,6 +311,9 @@ func (v *structVal) Values() dgo.Array {
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
 	c := v.toHashMap()
+	if v.frozen {
+		value = frozenElement(Value(value))
+	}
 	c.Put(key, value)
 	c.frozen = v.frozen
 	return c
-- 
2.43.0


From b89915a38105cb86481ee259434181d4fafc0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 17/59] fix: a new Sensitive must be an instance of the
 Sensitive type

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..fa5fa24 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -89,10 +89,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) String() string {
-- 
2.43.0


From c22199abaf7ad6a5c5ccc368c97216025cf6ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 18/59] fix: an array created from a reflected slice must not
 contain nil

---
 internal/array.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/array.go b/internal/array.go
index 61eacc3..1bda4de 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -762,6 +762,7 @@ func ArrayFromReflected(vr reflect.Value, frozen bool) dgo.Value {
 		}
 	}
 
+	ReplaceNil(arr)
 	if frozen {
 		for i := range arr {
 			if f, ok := arr[i].(dgo.Freezable); ok {
-- 
2.43.0


From 2b50ed1946ce41e9e8d1a59ac78354a658a37d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 19/59] fix: an exact integer type is assignable from a non
 inclusive range with just that integer

---
 internal/integer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/integer.go b/internal/integer.go
index 3566ad5..ed0c55e 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -158,6 +158,14 @@ func (t *integerType) TypeIdentifier() dgo.TypeIdentifier {
 	return dgo.TiIntegerRange
 }
 
+func (t *exactIntegerType) Assignable(other dgo.Type) bool {
+	if ot, ok := other.(*integerType); ok && !ot.inclusive && ot.max-1 == ot.min {
+		// a non inclusive range that accepts exactly one integer
+		return int64(t.value) == ot.min
+	}
+	return t.exactType.Assignable(other)
+}
+
 func (t *exactIntegerType) Generic() dgo.Type {
 	return DefaultIntegerType
 }
-- 
2.43.0


From 25c7c3f162e169c5cde5a52ce6f3068a95bf27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 20/59] fix: the string reader must start each line at the
 first column

---
 util/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/reader.go b/util/reader.go
index 601b305..fe9ceae 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -33,8 +33,9 @@ func (r *StringReader) Next() rune {
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-- 
2.43.0


From 00aaaf99693bb31aede0d9bc8d0b657f6dab436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 21/59] fix: the string reader must accept a valid U+FFFD rune

---
 util/reader.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/reader.go b/util/reader.go
index fe9ceae..41258ad 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -39,7 +39,7 @@ func (r *StringReader) Next() rune {
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -55,8 +55,9 @@ func (r *StringReader) Peek() rune {
 	}
 	c := rune(r.s[r.p])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var size int
+		c, size = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -72,7 +73,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -86,8 +87,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From 221b12feba81c2c5a07c98403d50b28b51fd033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:17 +0000
Subject: [PATCH 22/59] fix: clamp a negative upper bound of a sized string or
 binary type to zero

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..78a58d3 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index b822f40..9647bbd 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -447,6 +447,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 6fe3f60cce42e426f2e46540586e4feb866be5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 23/59] fix: only end the recursion of an assignable check when
 the same pair of types recurs

---
 dgo/primitive.go    |  3 +--
 internal/compare.go | 26 +++++++++++++++++++++++++-
 internal/type.go    |  3 ---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..157675d 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -142,8 +142,7 @@ type (
 	}
 
 	// RecursionGuard guards against endless recursion when checking if one deep type is assignable to another.
-	// A Hit is detected once both a and b has been added more than once (can be on separate calls to Append). The
-	// RecursionGuard is in itself immutable.
+	// A Hit is detected once both a and b has been added more than once. The RecursionGuard is in itself immutable.
 	RecursionGuard interface {
 		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
 		Append(a, b Value) RecursionGuard
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..4ff286f 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -44,6 +44,30 @@ func (s *doubleSeen) Swap() dgo.RecursionGuard {
 	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
 }
 
+// pairSeen is a RecursionGuard that gets a Hit when the exact same combination of a and b is appended again
+type pairSeen struct {
+	aSeen []dgo.Value
+	bSeen []dgo.Value
+	hit   bool
+}
+
+func (s *pairSeen) Hit() bool {
+	return s.hit
+}
+
+func (s *pairSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
+	for i := range s.aSeen {
+		if a == s.aSeen[i] && b == s.bSeen[i] {
+			return &pairSeen{aSeen: s.aSeen, bSeen: s.bSeen, hit: true}
+		}
+	}
+	return &pairSeen{aSeen: append(s.aSeen, a), bSeen: append(s.bSeen, b), hit: s.hit}
+}
+
+func (s *pairSeen) Swap() dgo.RecursionGuard {
+	return &pairSeen{aSeen: s.bSeen, bSeen: s.aSeen, hit: s.hit}
+}
+
 type deepCompare interface {
 	deepCompare(seen []dgo.Value, other deepCompare) (int, bool)
 }
@@ -62,7 +86,7 @@ func Assignable(guard dgo.RecursionGuard, a dgo.Type, b dgo.Type) bool {
 	_, ok = b.(dgo.DeepAssignable)
 	if ok {
 		if guard == nil {
-			guard = &doubleSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
+			guard = &pairSeen{aSeen: []dgo.Value{a}, bSeen: []dgo.Value{b}}
 		} else {
 			guard = guard.Append(a, b)
 			if guard.Hit() {
diff --git a/internal/type.go b/internal/type.go
index 07085ac..e108ebb 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -14,9 +14,6 @@ import (
 // argument. Otherwise, this goFunc returns false
 func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	if lt, ok := t.(dgo.ReverseAssignable); ok {
-		if guard != nil {
-			guard = guard.Swap()
-		}
 		return lt.AssignableTo(guard, other)
 	}
 	return false
-- 
2.43.0


From 206ace3b443d53112c04a6dba576c66c6ce5e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 24/59] fix: the hash code of a native value must not fail for
 an uintptr nor differ for equal pointers

---
 internal/native.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..6e83287 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -117,9 +117,9 @@ func (v *native) HashCode() int {
 		if ev.Kind() == reflect.Struct {
 			return structHash(&ev)
 		}
-		p := rv.Pointer()
-		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+		// pointers are equal when the values that they point to are equal
+		return 4321
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
 	case reflect.Struct:
-- 
2.43.0


From aae731c77fc3fc6756a2888ed95092f3ed1d6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 25/59] fix: the unconstrained native type must have a hash
 code

---
 internal/native.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/native.go b/internal/native.go
index 6e83287..550bbe4 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
-- 
2.43.0


From c4ba3c8ed1fcc43cda961b5ede95be55ea3b5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 26/59] fix: a map entry must not equal a struct entry, and
 copies of a struct entry are struct entries

---
 internal/map.go       |  4 ++++
 internal/mapstruct.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 212c130..50aeac2 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -95,6 +95,10 @@ func (v *mapEntry) Equals(other interface{}) bool {
 }
 
 func (v *mapEntry) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if _, ok := other.(dgo.StructMapEntry); ok {
+		// only equal to another struct entry
+		return false
+	}
 	if ov, ok := other.(dgo.MapEntry); ok {
 		return equals(seen, v.key, ov.Key()) && equals(seen, v.value, ov.Value())
 	}
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ed8cd52..bc8d5a3 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -477,6 +477,21 @@ func (t *structEntry) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+func (t *structEntry) FrozenCopy() dgo.Value {
+	if t.Frozen() {
+		return t
+	}
+	c := &structEntry{mapEntry: mapEntry{key: t.key, value: t.value}, required: t.required}
+	c.copyFreeze()
+	return c
+}
+
+func (t *structEntry) ThawedCopy() dgo.Value {
+	c := &structEntry{mapEntry: mapEntry{key: t.key, value: t.value}, required: t.required}
+	c.copyThaw()
+	return c
+}
+
 func (t *structEntry) Required() bool {
 	return t.required
 }
-- 
2.43.0


From a5898cfcfc10872ecf19470f93ec1e3675566912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 27/59] fix: arguments must be equal and comparable to
 themselves and to an array with the same elements

---
 internal/array.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 1bda4de..7f037cf 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -917,12 +917,17 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
-	if !ok {
+	var b []dgo.Value
+	switch ov := other.(type) {
+	case *array:
+		b = ov.slice
+	case *arguments:
+		b = ov.slice
+	default:
 		return 0, false
 	}
 	a := v.slice
-	b := ov.slice
+	ok := true
 	top := len(a)
 	max := len(b)
 	r := 0
@@ -1031,7 +1036,10 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	switch ov := other.(type) {
+	case *array:
+		return sliceEquals(seen, v.slice, ov.slice)
+	case *arguments:
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
-- 
2.43.0


From e47f80a9640948dd57e29f611fcd2e3bc62d1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 28/59] fix: slicing a mutable array beyond its length must
 panic, not expose unset positions

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 7f037cf..7bba3ef 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1301,7 +1301,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	ss := v.slice[i:j:len(v.slice)]
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From 8075f877544a5e4288f9cb5627ee6cf894431710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 29/59] fix: an array of map entries made by NewMapEntry must
 convert to a map

---
 internal/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 7bba3ef..b529279 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1363,8 +1363,8 @@ func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 
 	for i := range ms {
 		switch e := ms[i].(type) {
-		case *hashNode:
-			m.Put(e.key, e.value)
+		case dgo.MapEntry:
+			m.Put(e.Key(), e.Value())
 		case *array:
 			if len(e.slice) != 2 {
 				return nil, false
-- 
2.43.0


From af28826cc657e25f783d6e9369cbbe7941834558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 30/59] fix: With(key, nil) on a map without the key must add
 the key

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 50aeac2..33fd95e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -815,7 +815,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if old := g.Get(key); old != nil && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From 37ab2f033b98f98ff6a099a21374fadd82e72e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 31/59] fix: Copy(false) of a struct must not share its values
 with the original

---
 internal/struct.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 18c7eeb..c7da9b7 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -80,10 +80,7 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	return v.ThawedCopy().(dgo.Map)
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
-- 
2.43.0


From c11d7b6f29ab03378fab30cf5d40589a11e7a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 32/59] fix: GoStruct and ReflectTo of a frozen struct must not
 expose its contents

---
 internal/struct.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index c7da9b7..63ab222 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -104,6 +104,10 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		v = v.ThawedCopy().(*structVal)
+	}
 	return v.rs.Addr().Interface()
 }
 
@@ -265,15 +269,12 @@ func (v *structVal) PutAll(associations dgo.Map) {
 }
 
 func (v *structVal) ReflectTo(value reflect.Value) {
+	if v.frozen {
+		// Don't expose the frozen struct
+		v = v.ThawedCopy().(*structVal)
+	}
 	if value.Kind() == reflect.Ptr {
-		if v.frozen {
-			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
-		} else {
-			value.Set(v.rs.Addr())
-		}
+		value.Set(v.rs.Addr())
 	} else {
 		// copy struct by value
 		value.Set(v.rs)
-- 
2.43.0


From 31703a5a6f3407f07333580612b7598d5cb4b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 33/59] fix: a frozen array must not share its slice with
 GoSlice, WrapSlice or Arguments

---
 internal/array.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index b529279..88d89d8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1084,6 +1084,8 @@ func (v *array) Freeze() {
 		return
 	}
 	v.frozen = true
+	// the slice may be known to others, see GoSlice and WrapSlice
+	v.slice = util.SliceCopy(v.slice)
 	a := v.slice
 	for i := range a {
 		if f, ok := a[i].(dgo.Freezable); ok {
-- 
2.43.0


From dc2e479f321e814a696a4cea55707e4fe80b6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 34/59] fix: the key of a map entry must be frozen

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 33fd95e..2c8799d 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -74,7 +74,7 @@ func (t *exactEntryType) TypeIdentifier() dgo.TypeIdentifier {
 
 // NewMapEntry returns a new MapEntry instance with the given key and value
 func NewMapEntry(key, value interface{}) dgo.MapEntry {
-	return &mapEntry{Value(key), Value(value)}
+	return &mapEntry{frozenElement(Value(key)), Value(value)}
 }
 
 func (t *exactEntryType) ExactValue() dgo.Value {
-- 
2.43.0


From 927f92e08c7d8a00ee84b4122979623b84881299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 35/59] fix: ReflectTo must not expose a pointer to the content
 of an error

---
 internal/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..395d8ec 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error // don't expose a pointer to the internal error
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
-- 
2.43.0


From 60cea7130316a2d3201af0ee8ebcb6d82fe0b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 36/59] fix: a frozen struct must not share the slices and maps
 of its fields with the original

---
 internal/struct.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 63ab222..9885fe3 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -135,16 +135,34 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
+	// Perform a by-value copy of the struct
 	if !v.frozen {
 		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
-		v.EachValue(func(e dgo.Value) {
-			if f, ok := e.(dgo.Freezable); ok {
+		rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
+		rs.Set(v.rs)                          // copy v.rs to the zero value
+
+		for i, n := 0, rs.NumField(); i < n; i++ {
+			ef := rs.Field(i)
+			ev := ValueFromReflected(ef)
+			if f, ok := ev.(dgo.Freezable); ok {
 				f.Freeze()
+				if isGoCollection(ef) {
+					// a slice or a map must not be shared with the original struct
+					ReflectTo(ev, ef)
+				}
 			}
-		})
+		}
+		v.rs = rs
+	}
+}
+
+// isGoCollection returns true if the given field can be assigned and contains a go value that isn't a dgo.Value
+func isGoCollection(ef reflect.Value) bool {
+	if !ef.CanSet() {
+		return false
 	}
+	_, ok := ef.Interface().(dgo.Value)
+	return !ok
 }
 
 func (v *structVal) Frozen() bool {
@@ -163,7 +181,7 @@ func (v *structVal) FrozenCopy() dgo.Value {
 	for i, n := 0, rs.NumField(); i < n; i++ {
 		ef := rs.Field(i)
 		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
+		if f, ok := ev.(dgo.Freezable); ok && (!f.Frozen() || isGoCollection(ef)) {
 			ReflectTo(f.FrozenCopy(), ef)
 		}
 	}
-- 
2.43.0


From 31f84087200109fdf10e73ed9878cc91aa08e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 37/59] fix: a loader returns the entry it has cached

---
 loader/loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..cd33ab9 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -206,7 +206,9 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	} else {
 		addEntry(key, value)
 	}
-	return value
+
+	// An equal entry may have been added since the finder was called. The cached entry is the one that is returned from now on
+	return l.entries.Get(key)
 }
 
 func (l *loader) Equals(other interface{}) bool {
-- 
2.43.0


From 0ee9d70c5156d2203b396141b49c225591392d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 38/59] fix: sort arrays by a consistent total order

---
 internal/array.go   | 27 ++++++++++++---------
 internal/compare.go | 58 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+), 11 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 88d89d8..33ed277 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1317,20 +1317,25 @@ func (v *array) Sort() dgo.Array {
 		return v
 	}
 	sorted := util.SliceCopy(sa)
-	sort.SliceStable(sorted, func(i, j int) bool {
-		a := sorted[i]
-		b := sorted[j]
-		if ac, ok := a.(dgo.Comparable); ok {
-			var c int
-			if c, ok = ac.CompareTo(b); ok {
-				return c < 0
-			}
-		}
-		return a.Type().TypeIdentifier() < b.Type().TypeIdentifier()
-	})
+	sort.Stable(valueSorter(sorted))
 	return &array{slice: sorted, frozen: v.frozen}
 }
 
+// valueSorter sorts a slice of values. Values that cannot be compared are sorted by the kind of their type.
+type valueSorter []dgo.Value
+
+func (v valueSorter) Len() int {
+	return len(v)
+}
+
+func (v valueSorter) Less(i, j int) bool {
+	return sortCompare(nil, v[i], v[j]) < 0
+}
+
+func (v valueSorter) Swap(i, j int) {
+	v[i], v[j] = v[j], v[i]
+}
+
 func (v *array) String() string {
 	return util.ToStringERP(v)
 }
diff --git a/internal/compare.go b/internal/compare.go
index 4ff286f..ee6562b 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -197,3 +197,61 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 	}
 	return da.deepCompare(append(seen, a), db)
 }
+
+// sortCompare compares all values for order, also those that cannot be compared using compare. The order is consistent
+// with compare for the values that can be compared. Other values are ordered by the kind of their type.
+func sortCompare(seen []dgo.Value, a dgo.Value, b dgo.Value) int {
+	aa, aok := arraySlice(a)
+	ab, bok := arraySlice(b)
+	if aok && bok {
+		if util.RecursionHit(seen, a) {
+			// Recursion, so assume equal
+			return 0
+		}
+		return sortCompareSlice(append(seen, a), aa, ab)
+	}
+	if !aok && !bok {
+		if b == Nil && a != Nil {
+			return 1
+		}
+		if ac, ok := a.(dgo.Comparable); ok {
+			if c, ok := ac.CompareTo(b); ok {
+				return c
+			}
+		}
+	}
+	return sortRank(a) - sortRank(b)
+}
+
+// sortCompareSlice compares two slices lexicographically using sortCompare
+func sortCompareSlice(seen []dgo.Value, a, b []dgo.Value) int {
+	for i := 0; i < len(a) && i < len(b); i++ {
+		if c := sortCompare(seen, a[i], b[i]); c != 0 {
+			return c
+		}
+	}
+	return len(a) - len(b)
+}
+
+func arraySlice(v dgo.Value) ([]dgo.Value, bool) {
+	switch v := v.(type) {
+	case *array:
+		return v.slice, true
+	case *arguments:
+		return v.slice, true
+	}
+	return nil, false
+}
+
+// sortRank returns the order of the kind of a value. All numbers have the same kind.
+func sortRank(v dgo.Value) int {
+	switch v.(type) {
+	case nilValue:
+		return -1
+	case intVal, floatVal:
+		return int(dgo.TiIntegerExact)
+	case *array, *arguments:
+		return int(dgo.TiArrayExact)
+	}
+	return int(v.Type().TypeIdentifier())
+}
-- 
2.43.0


From 7cb421f9e62f7811d0fb99784c0d3e57e955a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 39/59] fix: no format of the fmt package discloses a sensitive
 value

---
 internal/sensitive.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index fa5fa24..365e7fc 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,16 +1,24 @@
 package internal
 
 import (
+	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
 )
 
 type (
-	sensitive struct {
+	// hidden keeps the wrapped value behind a pointer. The verbs of the fmt package never print what a pointer in a
+	// struct points to
+	hidden struct {
 		value dgo.Value
 	}
 
+	sensitive struct {
+		*hidden
+	}
+
 	sensitiveType struct {
 		wrapped dgo.Type
 	}
@@ -113,7 +121,7 @@ func (t *sensitiveType) TypeIdentifier() dgo.TypeIdentifier {
 
 // Sensitive creates a new Sensitive that wraps the given value
 func Sensitive(v interface{}) dgo.Sensitive {
-	return &sensitive{Value(v)}
+	return &sensitive{&hidden{Value(v)}}
 }
 
 func (v *sensitive) Equals(other interface{}) bool {
@@ -127,6 +135,11 @@ func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+// Format prints the redacted string regardless of the format
+func (v *sensitive) Format(s fmt.State, _ rune) {
+	_, _ = io.WriteString(s, v.String())
+}
+
 func (v *sensitive) Freeze() {
 	if f, ok := v.value.(dgo.Freezable); ok {
 		f.Freeze()
@@ -142,14 +155,14 @@ func (v *sensitive) Frozen() bool {
 
 func (v *sensitive) FrozenCopy() dgo.Value {
 	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
+		return &sensitive{&hidden{f.FrozenCopy()}}
 	}
 	return v
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
 	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+		return &sensitive{&hidden{f.ThawedCopy()}}
 	}
 	return v
 }
-- 
2.43.0


From 3327bf2115def55f5194898ddce4963d5f9253f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 40/59] fix: the type of a sensitive binary or type does not
 disclose it

---
 internal/binary.go | 4 ++++
 internal/meta.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 78a58d3..34a2ace 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -150,6 +150,10 @@ func (t *binaryType) Unbounded() bool {
 	return t.min == 0 && t.max == math.MaxInt64
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) IsInstance(b []byte) bool {
 	return bytes.Equal(v.value.bytes, b)
 }
diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..be3852a 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -53,6 +53,10 @@ func (t *metaType) Equals(v interface{}) bool {
 	return false
 }
 
+func (t *metaType) Generic() dgo.Type {
+	return DefaultMetaType
+}
+
 func (t *metaType) HashCode() int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-- 
2.43.0


From ac68512ea371c7f7c9c33851491c6033f21801c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 41/59] fix: what a constructor of a named type gives is
 checked to be an instance of the type

---
 internal/named.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..04fafc7 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,12 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		at, rt := t.AssignableType(), ot.ReflectType()
+		if at == nil || rt == nil {
+			// without go types, there is only the name to go by
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(at)
 	}
 	return false
 }
@@ -259,8 +264,8 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
-		return v
+	if !rt.Instance(v) {
+		panic(IllegalAssignment(rt, v))
 	}
-	panic(IllegalAssignment(rt, v))
+	return v
 }
-- 
2.43.0


From 01f55af640ace4f84636de9035f8b60045d3ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 42/59] fix: the go struct that represents a dgo value is not
 taken for a map

---
 internal/map.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 2c8799d..c1d9501 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -248,6 +248,13 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			return m
 		}
 		rm := reflect.ValueOf(a0)
+		if n, ok := a0.(dgo.Native); ok {
+			rm = reflect.ValueOf(n.GoValue())
+		} else if v, ok := a0.(dgo.Value); ok {
+			if _, ok = v.Type().(dgo.NamedType); !ok {
+				rm = reflect.Value{} // the go struct that represents the value is not the value
+			}
+		}
 		switch rm.Kind() {
 		case reflect.Map:
 			return FromReflectedMap(rm, frozen).(dgo.Map)
@@ -259,7 +266,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		case reflect.Struct:
 			return FromReflectedStruct(rm)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(fmt.Errorf(`illegal argument: %T is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 5a8c43c93f29e27afe88992a6f7c41d9ed0d0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 43/59] fix: a reference to decoded rich data is decoded to
 that data

---
 streamer/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..a2489a2 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,14 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	pos := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		d.Values.Set(pos, v) // subsequent references to the map are references to what it was decoded into
 	}
 }
 
-- 
2.43.0


From e36e10bc5f0e1c6b75fe0316c1605f7a858c2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 44/59] fix: floats without fraction are floats also in JSON

---
 streamer/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..52d96af 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -227,6 +227,9 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
 		v, err = json.Marshal(e.GoFloat())
+		if err == nil && !bytes.ContainsAny(v, `.e`) {
+			v = append(v, `.0`...) // it would be read back as an integer
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From 337cd242d00a04bc569b4fdff031c9fb4015b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 45/59] fix: MarshalJSON uses the reference key of the given
 dialect

---
 streamer/json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamer/json.go b/streamer/json.go
index 52d96af..6df2bdc 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -25,7 +25,7 @@ func MarshalJSON(v interface{}, dialect Dialect) []byte {
 	if dialect != nil {
 		opts.Dialect = dialect
 	}
-	New(nil, opts).Stream(vf.Value(v), JSON(&b))
+	New(nil, opts).Stream(vf.Value(v), &jsonEncoder{out: &b, state: firstInArray, dialect: opts.Dialect})
 	return b.Bytes()
 }
 
@@ -177,7 +177,9 @@ func (j *jsonEncoder) Add(element dgo.Value) {
 
 func (j *jsonEncoder) AddRef(ref int) {
 	j.delimit(func() {
-		assertOk(fmt.Fprintf(j.out, `{"%s":%d}`, j.dialect.RefKey(), ref))
+		k, err := json.Marshal(j.dialect.RefKey().GoString())
+		assertOk(0, err)
+		assertOk(fmt.Fprintf(j.out, `{%s:%d}`, k, ref))
 	})
 }
 
-- 
2.43.0


From 8b46f7f20f608405ce041daa60b39e885f62cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 46/59] fix: types without alias are streamed also when there
 is an alias map

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..1744ad8 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -185,10 +185,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From 5b2b8e1418f9ab63682afdb33a2aa81d3733a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 47/59] fix: the text of a time in a zone with an offset in
 seconds is the same point in time

---
 internal/time.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/time.go b/internal/time.go
index 6176d89..a126201 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -176,7 +176,11 @@ func (v *timeVal) ReflectTo(value reflect.Value) {
 }
 
 func (v *timeVal) String() string {
-	return (*time.Time)(v).Format(time.RFC3339Nano)
+	t := *(*time.Time)(v)
+	if _, offset := t.Zone(); offset%60 != 0 {
+		t = t.UTC() // the format cannot represent the seconds of the offset
+	}
+	return t.Format(time.RFC3339Nano)
 }
 
 func (v *timeVal) Type() dgo.Type {
-- 
2.43.0


From 7f7fadfd958393b4c56c7e6f9e1a59bdb00569b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 48/59] fix: consumers are told the actual size of the maps
 that represent types and named values

---
 streamer/streamer.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1744ad8..1521959 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -124,10 +124,15 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 	sc.process(value, func() {
 		v := t.ExtractInitArg(value)
 		d := sc.config.Dialect
-		sc.addMap(2, func() {
+		vm, ok := v.(dgo.Map)
+		size := 2
+		if ok {
+			size = vm.Len() + 1
+		}
+		sc.addMap(size, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if ok {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
@@ -177,17 +182,20 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
-		sc.addMap(2, func() {
-			d := sc.config.Dialect
-			sc.addData(d.TypeKey())
-			if am := sc.config.aliasMap; am != nil {
-				if tn := am.GetName(typ); tn != nil {
+		d := sc.config.Dialect
+		if am := sc.config.aliasMap; am != nil {
+			if tn := am.GetName(typ); tn != nil {
+				sc.addMap(2, func() {
+					sc.addData(d.TypeKey())
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
-					return
-				}
+				})
+				return
 			}
+		}
+		sc.addMap(1, func() {
+			sc.addData(d.TypeKey())
 			sc.addData(vf.String(typ.String()))
 		})
 	})
-- 
2.43.0


From a105f59354fee566eba87270cf1e0576969b693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 49/59] fix: a named value that is made from a map with keys
 that are not strings is streamed as such

---
 streamer/streamer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 1521959..ac48bc6 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -125,6 +125,7 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 		v := t.ExtractInitArg(value)
 		d := sc.config.Dialect
 		vm, ok := v.(dgo.Map)
+		ok = ok && vm.StringKeys() // keys are added as they are
 		size := 2
 		if ok {
 			size = vm.Len() + 1
-- 
2.43.0


From 1082150e022229c651fdfdbb2e059452afff62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 50/59] fix: a question mark after a literal that is not an
 identifier does not make a string of it

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..4284eaa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -388,7 +388,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
-- 
2.43.0


From 806ad235a7eaaefb9b5acb4b4115c065bbcc901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 51/59] fix: element and value types can be negated, case
 insensitive strings, and negations of negations

---
 parser/parser.go | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4284eaa..d95d16f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -474,29 +474,20 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
-	ciString := false
-	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
-	}
-	if t.Type == '~' {
-		ciString = true
+	switch t.Type {
+	case '!':
+		p.unary(p.NextToken())
+		p.Append(internal.NotType(p.PopLastType()))
+	case '~':
 		t = p.NextToken()
-	}
-
-	p.typeExpression(t)
-
-	if ciString {
+		p.typeExpression(t)
 		if s, ok := p.PopLast().(dgo.String); ok {
 			p.Append(internal.CiStringType(s))
 		} else {
 			panic(badSyntax(t, exStringLiteral))
 		}
-	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
+	default:
+		p.typeExpression(t)
 	}
 }
 
@@ -520,7 +511,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -708,7 +699,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 777a3669520054232c68a75a08538e8247acada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 52/59] fix: a float range without an upper bound does not
 swallow what follows it, and a bound can have an exponent

---
 parser/lexer.go  | 2 ++
 parser/parser.go | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..955f9e8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -159,6 +159,8 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			return
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
diff --git a/parser/parser.go b/parser/parser.go
index d95d16f..c35fff6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -646,7 +646,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From 817476f45cd80983bc15a1422f407a7e7e292940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:29 +0000
Subject: [PATCH 53/59] fix: the lexer understands all escapes that are used
 when a string is printed

---
 parser/lexer.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 955f9e8..b8b7394 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -334,7 +335,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -343,25 +344,74 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
 	case 'n':
 		r = '\n'
 	case 'r':
 		r = '\r'
 	case 't':
 		r = '\t'
+	case 'v':
+		r = '\v'
+	case 'x':
+		util.WriteByte(buf, byte(consumeHexEscape(sr, r, 2)))
+		return
+	case 'u':
+		r = consumeHexEscape(sr, r, 4)
+	case 'U':
+		r = consumeHexEscape(sr, r, 8)
 	case '\\':
 	default:
 		if r != end {
-			panic(fmt.Errorf("illegal escape '\\%c'", r))
+			panic(illegalEscape(r))
 		}
 	}
 	util.WriteRune(buf, r)
 }
 
+// consumeHexEscape consumes the n hexadecimal digits that follow the escape e.
+func consumeHexEscape(sr *util.StringReader, e rune, n int) rune {
+	v := int64(0)
+	for i := 0; i < n; i++ {
+		r := sr.Next()
+		if r == 0 {
+			panic(errors.New("unterminated string"))
+		}
+		if !IsHex(r) {
+			panic(illegalEscape(e))
+		}
+		v = v*16 + int64(hexValue(r))
+	}
+	if v > utf8.MaxRune || !utf8.ValidRune(rune(v)) {
+		panic(illegalEscape(e))
+	}
+	return rune(v)
+}
+
+func hexValue(r rune) rune {
+	switch {
+	case r >= 'a':
+		return r - 'a' + 10
+	case r >= 'A':
+		return r - 'A' + 10
+	}
+	return r - '0'
+}
+
+func illegalEscape(r rune) error {
+	return fmt.Errorf("illegal escape '\\%c'", r)
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From 10e830152bbabb3e1bf870e0c4a08726e4929911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:30 +0000
Subject: [PATCH 54/59] fix: binary, time, and regexp types can be parsed

---
 parser/parser.go | 57 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c35fff6..39bddd9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -546,6 +546,38 @@ func (p *parser) string() dgo.Value {
 	return internal.DefaultStringType
 }
 
+func (p *parser) binary() dgo.Value {
+	switch p.PeekToken().Type {
+	case '[':
+		// get size arguments
+		p.NextToken()
+		p.params()
+		szc := p.PopLast().(dgo.Array)
+		return internal.BinaryType(szc.InterfaceSlice()...)
+	case stringLiteral:
+		return internal.BinaryFromEncoded(p.NextToken().Value, `%B`)
+	}
+	return internal.DefaultBinaryType
+}
+
+// exactLiteral parses an optional literal string within brackets and returns the value that create produces for
+// that string. The given default type is returned when there are no brackets.
+func (p *parser) exactLiteral(dflt dgo.Type, create func(s string) dgo.Value) dgo.Value {
+	if p.PeekToken().Type != '[' {
+		return dflt
+	}
+	p.NextToken()
+	t := p.NextToken()
+	if t.Type != stringLiteral {
+		panic(badSyntax(t, exStringLiteral))
+	}
+	v := create(t.Value)
+	if t = p.NextToken(); t.Type != ']' {
+		panic(badSyntax(t, exRightBracket))
+	}
+	return v
+}
+
 func (p *parser) sensitive() dgo.Value {
 	tt := p.PeekToken().Type
 	if tt == '[' {
@@ -586,15 +618,14 @@ func (p *parser) funcExpression() dgo.Value {
 }
 
 var identifierToTypeMap = map[string]dgo.Value{
-	`any`:    internal.DefaultAnyType,
-	`bool`:   internal.DefaultBooleanType,
-	`int`:    internal.DefaultIntegerType,
-	`float`:  internal.DefaultFloatType,
-	`dgo`:    internal.DefaultDgoStringType,
-	`binary`: internal.DefaultBinaryType,
-	`true`:   internal.True,
-	`false`:  internal.False,
-	`nil`:    internal.Nil,
+	`any`:   internal.DefaultAnyType,
+	`bool`:  internal.DefaultBooleanType,
+	`int`:   internal.DefaultIntegerType,
+	`float`: internal.DefaultFloatType,
+	`dgo`:   internal.DefaultDgoStringType,
+	`true`:  internal.True,
+	`false`: internal.False,
+	`nil`:   internal.Nil,
 }
 
 func (p *parser) identifier(t *Token, returnUnknown bool) dgo.Value {
@@ -609,6 +640,14 @@ func (p *parser) identifier(t *Token, returnUnknown bool) dgo.Value {
 		tp = p.meta()
 	case `string`:
 		tp = p.string()
+	case `binary`:
+		tp = p.binary()
+	case `time`:
+		tp = p.exactLiteral(internal.DefaultTimeType, func(s string) dgo.Value { return internal.TimeFromString(s) })
+	case `regexp`:
+		tp = p.exactLiteral(internal.DefaultRegexpType, func(s string) dgo.Value {
+			return internal.Regexp(regexp.MustCompile(s))
+		})
 	case `sensitive`:
 		tp = p.sensitive()
 	case `func`:
-- 
2.43.0


From 84a2956bd99205ca493775a315ad60beb0d3f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:30 +0000
Subject: [PATCH 55/59] fix: a function type with return values is printed
 within parentheses when it is an operand or element

---
 stringer/typestring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..57b196f 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -225,6 +225,12 @@ func (sb *typeBuilder) meta(typ dgo.Type, prio int) {
 
 func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	ft := typ.(dgo.FunctionType)
+	if prio >= orPrio && ft.Out().Len() > 0 {
+		// The return type extends to the end of the expression
+		util.WriteByte(sb, '(')
+		defer util.WriteByte(sb, ')')
+		prio = commaPrio
+	}
 	util.WriteString(sb, `func`)
 	sb.writeTupleArgs(ft.In(), '(', ')')
 	out := ft.Out()
-- 
2.43.0


From e98fbd95a381456f7df7713e726a5c0ac9e7b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 56/59] fix: an exclusive range without bounds is printed so
 that it can be parsed

---
 stringer/typestring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 57b196f..822f86f 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -345,7 +345,7 @@ func (sb *typeBuilder) writeSizeBoundaries(min, max int64) {
 }
 
 func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
-	if min != math.MinInt64 {
+	if min != math.MinInt64 || max == math.MaxInt64 {
 		util.WriteString(sb, strconv.FormatInt(min, 10))
 	}
 	op := `...`
@@ -359,7 +359,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 }
 
 func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
-	if min != -math.MaxFloat64 {
+	if min != -math.MaxFloat64 || max == math.MaxFloat64 {
 		util.WriteString(sb, util.Ftoa(min))
 	}
 	op := `...`
-- 
2.43.0


From 788a6dd461a5ae8d15ad6ca8005dbf18a0778122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 57/59] fix: keys that look like identifiers and elements that
 start with three dots are printed within parentheses

---
 stringer/typestring.go | 68 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 822f86f..4e92583 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -132,7 +132,7 @@ func (sb *typeBuilder) _struct(typ dgo.Type, _ int) {
 
 func (sb *typeBuilder) mapEntryExact(typ dgo.Type, _ int) {
 	me := typ.(dgo.ExactType).ExactValue().(dgo.MapEntry)
-	sb.buildTypeString(me.Key().Type(), commaPrio)
+	sb.writeKeyType(me.Key().Type())
 	util.WriteByte(sb, ':')
 	sb.buildTypeString(me.Value().Type(), commaPrio)
 }
@@ -327,7 +327,7 @@ func (sb *typeBuilder) joinStructMapEntries(v dgo.StructMapType) {
 		} else {
 			util.WriteByte(sb, ',')
 		}
-		sb.buildTypeString(e.Key().(dgo.Type), commaPrio)
+		sb.writeKeyType(e.Key().(dgo.Type))
 		if !e.Required() {
 			util.WriteByte(sb, '?')
 		}
@@ -374,23 +374,65 @@ func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
 
 func (sb *typeBuilder) writeTupleArgs(tt dgo.TupleType, leftSep, rightSep byte) {
 	es := tt.ElementTypes()
+	n := es.Len()
+	if tt.Variadic() {
+		n--
+	}
+	sep := leftSep
+	for i := 0; i < n; i++ {
+		util.WriteByte(sb, sep)
+		sep = ','
+		sb.writeElementType(es.Get(i).(dgo.Type))
+	}
 	if tt.Variadic() {
-		n := es.Len() - 1
-		sep := leftSep
-		for i := 0; i < n; i++ {
-			util.WriteByte(sb, sep)
-			sep = ','
-			sb.buildTypeString(es.Get(i).(dgo.Type), commaPrio)
-		}
 		util.WriteByte(sb, sep)
+		sep = ','
 		util.WriteString(sb, `...`)
 		sb.buildTypeString(es.Get(n).(dgo.Type), commaPrio)
-		util.WriteByte(sb, rightSep)
-	} else {
+	}
+	if sep == leftSep {
 		util.WriteByte(sb, leftSep)
-		sb.joinTypes(es, `,`, commaPrio)
-		util.WriteByte(sb, rightSep)
 	}
+	util.WriteByte(sb, rightSep)
+}
+
+// writeElementType writes the type of a tuple element. A text that starts with three dots is enclosed in parentheses
+// since it otherwise denotes a variadic element.
+func (sb *typeBuilder) writeElementType(typ dgo.Type) {
+	s := sb.typeString(typ)
+	if strings.HasPrefix(s, `...`) {
+		s = `(` + s + `)`
+	}
+	util.WriteString(sb, s)
+}
+
+// writeKeyType writes the type of the key of a map entry. A text that is an identifier is enclosed in parentheses
+// since it otherwise denotes a literal string. The names of aliases are written as they are.
+func (sb *typeBuilder) writeKeyType(typ dgo.Type) {
+	s := sb.typeString(typ)
+	if isIdentifier(s) && sb.aliasMap.GetName(typ) == nil {
+		s = `(` + s + `)`
+	}
+	util.WriteString(sb, s)
+}
+
+func (sb *typeBuilder) typeString(typ dgo.Type) string {
+	w := sb.Writer
+	b := &strings.Builder{}
+	sb.Writer = b
+	sb.buildTypeString(typ, commaPrio)
+	sb.Writer = w
+	return b.String()
+}
+
+func isIdentifier(s string) bool {
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if !(c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
+			return false
+		}
+	}
+	return true
 }
 
 func (sb *typeBuilder) writeTernary(typ dgo.Type, tc func(dgo.Value) dgo.Type, prio int, op string, opPrio int) {
-- 
2.43.0


From efd4aeccec42c587925d01dd6061bab524e4321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 58/59] fix: a question mark must be followed by the value of
 the optional entry

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 39bddd9..ad11ae9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,7 @@ const (
 	exRightBracket
 	exRightParen
 	exRightAngle
+	exColon
 	exIntOrFloat
 	exStringLiteral
 	exTypeExpression
@@ -64,6 +65,8 @@ func expect(state int) (s string) {
 		s = `')'`
 	case exRightAngle:
 		s = `'>'`
+	case exColon:
+		s = `':'`
 	case exIntOrFloat:
 		s = `an integer or a float`
 	case exStringLiteral:
@@ -401,6 +404,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	optional := nt.Type == '?'
 	if optional {
 		p.NextToken()
+		if nt = p.PeekToken(); nt.Type != ':' {
+			panic(badSyntax(nt, exColon))
+		}
 	}
 
 	if p.PeekToken().Type == ':' {
-- 
2.43.0


From 8b0faf57fc9b8e06c9e6056f67a17e055acab458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:39 +0000
Subject: [PATCH 59/59] fix: the map of a go struct must not find the promoted
 fields of embedded structs as keys of its own

---
 internal/struct.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 9885fe3..aaf51b0 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -68,7 +68,7 @@ func (v *structVal) AnyValue(predicate dgo.Predicate) bool {
 
 func (v *structVal) ContainsKey(key interface{}) bool {
 	if s, ok := stringKey(key); ok {
-		return v.rs.FieldByName(s).IsValid()
+		return v.field(s).IsValid()
 	}
 	return false
 }
@@ -215,6 +215,15 @@ func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
 	return nil
 }
 
+// field returns the field with the given name or the zero reflect.Value if there is no such field. The promoted fields
+// of an embedded struct are fields of the value of that struct and not of this struct.
+func (v *structVal) field(name string) reflect.Value {
+	if f, ok := v.rs.Type().FieldByName(name); ok && len(f.Index) == 1 {
+		return v.rs.Field(f.Index[0])
+	}
+	return reflect.Value{}
+}
+
 func stringKey(key interface{}) (string, bool) {
 	if hs, ok := key.(*hstring); ok {
 		return hs.s, true
@@ -227,9 +236,7 @@ func stringKey(key interface{}) (string, bool) {
 
 func (v *structVal) Get(key interface{}) dgo.Value {
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
+		if fv := v.field(s); fv.IsValid() {
 			return ValueFromReflected(fv)
 		}
 	}
@@ -271,9 +278,7 @@ func (v *structVal) Put(key, value interface{}) dgo.Value {
 		panic(frozenMap(`Put`))
 	}
 	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
+		if fv := v.field(s); fv.IsValid() {
 			old := ValueFromReflected(fv)
 			ReflectTo(Value(value), fv)
 			return old
-- 
2.43.0

