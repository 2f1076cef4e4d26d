I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C12-a",prop="C12",edits=[("internal/integer.go",'''	case uint64:
		if value > math.MaxInt64 {''','''	case uint64:
		if value > math.MaxInt64+1 {''')],
  imports=[I+'vf',I+'dgo'],
  demo='''
	defer func() { _ = recover() }()
	v := vf.Value(uint64(1) << 63)
	bad("2^63 became %s", v)
	_ = dgo.TiAny
''',needs="the uint64 2^63 exactly",breaks="an unsigned integer too large for an int64 is wrapped instead of rejected"),
 dict(id="C12-c",prop="C12",edits=[("internal/value.go",'''	if i, err := v.Int64(); err == nil {
		return Integer(i)
	}
	f, err := v.Float64()
	if err != nil {
		panic(err)
	}
	return Float(f)''','''	f, err := v.Float64()
	if err != nil {
		panic(err)
	}
	if i := int64(f); float64(i) == f && !strings.ContainsAny(string(v), ".eE") {
		return Integer(i)
	}
	return Float(f)'''),("internal/value.go",'''	"regexp"
	"time"
''','''	"regexp"
	"strings"
	"time"
''')],
  imports=[I+'vf','encoding/json'],
  demo='''
	if v := vf.Value(json.Number("9007199254740993")); !v.Equals(9007199254740993) {
		bad("9007199254740993 became %s", v)
	}
''',needs="a json number above 2^53",breaks="a json number becomes another integer"),
 dict(id="C12-d",prop="C12",edits=[("internal/map.go",'''	m := reflect.MakeMapWithSize(ht, g.Len())
	g.EachEntry(func(e dgo.MapEntry) {
		rk := reflect.New(keyType).Elem()
		ReflectTo(e.Key(), rk)
		rv := reflect.New(valueType).Elem()
		ReflectTo(e.Value(), rv)
''','''	m := reflect.MakeMapWithSize(ht, g.Len())
	rk := reflect.New(keyType).Elem()
	rv := reflect.New(valueType).Elem()
	g.EachEntry(func(e dgo.MapEntry) {
		ReflectTo(e.Key(), rk)
		if e.Value() != Nil {
			ReflectTo(e.Value(), rv)
		}
''')],
  imports=[I+'vf'],
  demo='''
	m := map[string]interface{}{}
	vf.FromValue(vf.Map("a", 1, "b", nil), &m)
	if m["b"] != nil {
		bad("nil became %v", m["b"])
	}
''',needs="a map with a nil value after another value",breaks="a nil value of a map becomes the value of the entry before it"),
 dict(id="C12-e",prop="C12",edits=[("internal/array.go",'''		for i := range a {
			ReflectTo(a[i], s.Index(i))
		}
	}
	if ptr {''','''		for i := range a {
			if i > 0 && a[i] == a[i-1] {
				s.Index(i).Set(s.Index(0))
				continue
			}
			ReflectTo(a[i], s.Index(i))
		}
	}
	if ptr {''')],
  imports=[I+'vf'],
  demo='''
	var s []int
	vf.FromValue(vf.Values(1, 2, 2), &s)
	if s[2] != 2 {
		bad("[1 2 2] became %v", s)
	}
''',needs="an array with two equal neighbours after a different element",breaks="an element of the go slice is another number"),
]
