I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C15-a",prop="C15",edits=[("internal/map.go",'''	kt := Generic(t.KeyType())
	vt := Generic(t.ValueType())
	if kt == DefaultAnyType''','''	kt := Generic(t.KeyType())
	vt := t.ValueType()
	if !t.value.Frozen() || t.value.Len() != 1 {
		vt = Generic(vt)
	}
	if kt == DefaultAnyType''')],
  imports=[I+'vf',"strings"],
  demo='''
	s := vf.Sensitive(vf.Map("pin", "topsecret").FrozenCopy())
	if strings.Contains(s.Type().String(), "topsecret") {
		bad("the type is %s", s.Type())
	}
''',needs="the type of a sensitive that wraps a frozen map with one entry",breaks="the type of a sensitive map shows the wrapped value"),
 dict(id="C15-b",prop="C15",edits=[("internal/ternary.go",'''		rt := Generic(fc(s[i]))
		if prev != nil {
			if prev.Assignable(rt) {
				// prev is equal or more generic
				continue
			}''','''		rt := fc(s[i])
		if prev != nil {
			if prev.Assignable(rt) {
				// prev is equal or more generic
				continue
			}
			rt = Generic(rt)''')],
  imports=[I+'vf',"strings"],
  demo='''
	s := vf.Sensitive(vf.Values("topsecret", "topsecret"))
	if strings.Contains(s.Type().String(), "topsecret") {
		bad("the type is %s", s.Type())
	}
''',needs="the type of a sensitive array whose elements are all the same",breaks="the type of a sensitive array shows the wrapped element"),
 dict(id="C15-c",prop="C15",edits=[("internal/error.go",'''func (t *exactErrorType) Generic() dgo.Type {
	return DefaultErrorType''','''func (t *exactErrorType) Generic() dgo.Type {
	if t.value.Unwrap() != nil {
		// the type of a wrapping error is its own
		return t
	}
	return DefaultErrorType''')],
  imports=[I+'vf',"strings","errors"],
  demo='''
	s := vf.Sensitive(fmt.Errorf("topsecret %w", errors.New("x")))
	if strings.Contains(s.Type().String(), "topsecret") {
		bad("the type is %s", s.Type())
	}
''',needs="the type of a sensitive that wraps an error which in turn wraps another error",breaks="the type of a sensitive error shows its message"),
 dict(id="C15-d",prop="C15",edits=[("internal/sensitive.go",'''	"io"
	"reflect"''','''	"io"
	"math"
	"reflect"'''),("internal/sensitive.go",'''	return &sensitiveType{wrapped: Generic(v.value.Type())}''','''	wrapped := v.value.Type()
	if _, ok := v.value.(dgo.Array); ok {
		return &sensitiveType{wrapped: newArrayType(wrapped.(dgo.ArrayType).ElementType(), 0, math.MaxInt64)}
	}
	return &sensitiveType{wrapped: Generic(wrapped)}''')],
  imports=[I+'vf',"strings"],
  demo='''
	s := vf.Sensitive(vf.Values("topsecret", 2))
	if strings.Contains(s.Type().String(), "topsecret") {
		bad("the type is %s", s.Type())
	}
''',needs="the type of a sensitive array",breaks="the type of a sensitive array shows its elements"),
 dict(id="C15-e",prop="C15",edits=[("internal/integer.go",'''func (t *exactIntegerType) Generic() dgo.Type {
''','''func (t *exactIntegerType) Generic() dgo.Type {
	if t.value == math.MinInt64 {
		// has no counterpart
		return t
	}
''')],
  imports=[I+'vf',"math"],
  demo='''
	if vf.Sensitive(int64(math.MinInt64)).Type().String() != vf.Sensitive(7).Type().String() {
		bad("the type is %s", vf.Sensitive(int64(math.MinInt64)).Type())
	}
''',needs="the smallest integer in a sensitive",breaks="the type of a sensitive tells that the value is the smallest integer"),
]
