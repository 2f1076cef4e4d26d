I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C13-f',prop='C13',edits=[('stringer/typestring.go','''	if max != math.MaxInt64 {
		util.WriteByte(sb, ',')
		util.WriteString(sb, strconv.FormatInt(max, 10))''','''	if max < math.MaxInt32 {
		util.WriteByte(sb, ',')
		util.WriteString(sb, strconv.FormatInt(max, 10))''')],
 imports=[I+'tf'],demo='''	t := tf.String(1, 1<<31)
	if !tf.ParseType(t.String()).Equals(t) {
		bad("printed as %s", t)
	}''',needs='a size limit beyond 32 bits',breaks='the text of a type with a large upper size limit is that of an unlimited type'),
dict(id='C13-g',prop='C13',edits=[('stringer/typestring.go','''	if min != math.MinInt64 || max == math.MaxInt64 {''','''	if min != math.MinInt64 {''')],
 imports=['math',I+'tf'],demo='''	t := tf.Integer(math.MinInt64, math.MaxInt64, false)
	defer func() {
		if r := recover(); r != nil {
			bad("%v", r)
		}
	}()
	if !tf.ParseType("[]" + t.String()).Equals(tf.Array(t)) || !tf.ParseType(t.String()).Equals(t) {
		bad("printed as %s", t)
	}''',needs='the exclusive integer range of all integers',breaks='the text of a range without bounds cannot be parsed'),
dict(id='C13-h',prop='C13',edits=[('parser/lexer.go','''		case 'x', 'X':
			if firstZero {''','''		case 'x', 'X':
			if firstZero && start == '0' {''')],imports=[],demo='',needs='',breaks=''),
dict(id='C13-i',prop='C13',edits=[('parser/parser.go','''		ov, optional := v.(*optionalValue)
		if optional {
			v = ov.Value
		}
		vt, isType := v.(dgo.Type)''','''		ov, optional := v.(*optionalValue)
		if optional {
			v = ov.Value
			if v == internal.Nil {
				v = internal.DefaultAnyType
			}
		}
		vt, isType := v.(dgo.Type)''')],
 imports=[I+'tf',I+'vf'],demo='''	t := tf.StructMap(false, tf.StructMapEntry("a", vf.Nil.Type(), false))
	if !tf.ParseType(t.String()).Equals(t) {
		bad("%s", t)
	}''',needs='an optional struct entry of type nil',breaks='the type of an optional nil entry is parsed as any'),
dict(id='C06-e',prop='C06',edits=[('internal/exact.go','''	return t.ExactValue().HashCode()*7 + int(t.TypeIdentifier())
}

func (t *exactType) Instance''','''	return util.StringHash(t.ExactValue().String())*7 + int(t.TypeIdentifier())
}

func (t *exactType) Instance'''),('internal/exact.go','''	"github.com/lyraproj/dgo/dgo"
''','''	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
''')],
 imports=['time',I+'vf'],demo='''	n := time.Unix(100, 0)
	a, b := vf.Time(n.In(time.FixedZone("a", 3600))).Type(), vf.Time(n.UTC()).Type()
	if a.Equals(b) && a.HashCode() != b.HashCode() {
		bad("%s and %s", a, b)
	}''',needs='the types of equal times in different zones',breaks='equal types have different hash codes'),
dict(id='C06-f',prop='C06',edits=[('internal/function.go','''	h = h*31 + deepHashCode(seen, t.In())
	h = h*31 + deepHashCode(seen, t.Out())
	return h''','''	h = h*31 + deepHashCode(seen, t.In())
	h = h*31 + deepHashCode(seen, t.Out())
	if t.Variadic() {
		h *= 3
	}
	return h''')],
 imports=[I+'tf',I+'vf',I+'typ',I+'dgo'],demo='''	a := vf.Value(func(a ...string) {}).Type()
	b := tf.Function(tf.VariadicTuple(typ.String), tf.Tuple())
	if a.Equals(b) && a.HashCode() != b.HashCode() {
		bad("%s and %s", a, b.(dgo.Type))
	}''',needs='the type of a variadic go function and the equal type from the constructor',breaks='equal types have different hash codes'),
dict(id='C15-f',prop='C15',edits=[('internal/regexp.go','''func (t *exactRegexpType) Generic() dgo.Type {
	return DefaultRegexpType
}''','''func (t *exactRegexpType) Generic() dgo.Type {
	if t.value.String() == `` {
		return DefaultRegexpType
	}
	return t
}''')],
 imports=['regexp','strings',I+'vf'],demo='''	s := vf.Sensitive(regexp.MustCompile("secret"))
	if strings.Contains(s.Type().String(), "secret") {
		bad("%s", s.Type())
	}''',needs='a sensitive regexp',breaks='the type of a sensitive regexp shows the expression'),
dict(id='C09-e',prop='C09',edits=[('internal/array.go','''	if t.Variadic() {
		if t.Min() > n {
			return false
		}''','''	if t.Variadic() {
		if t.Min() > n {
			return false
		}''')],imports=[],demo='',needs='',breaks=''),
dict(id='C18-e',prop='C18',edits=[('internal/string.go','''	case *exactStringType:
		return t.IsInstance(ot.value.s)
	case *ciStringType:''','''	case *exactStringType:
		l := len([]rune(ot.value.s))
		return t.min <= l && l <= t.max
	case *ciStringType:''')],
 imports=[I+'tf',I+'vf'],demo='''	t := tf.String(2, 2)
	if v := vf.String("\\u00e9"); t.Instance(v) != t.Assignable(v.Type()) {
		bad("%s: instance %t, assignable %t", v, t.Instance(v), t.Assignable(v.Type()))
	}''',needs='a sized string type and a string that is not ASCII',breaks='a sized string type is not assignable from the type of one of its instances'),
dict(id='C18-f',prop='C18',edits=[('internal/map.go','''	if kt == DefaultAnyType && vt == DefaultAnyType {
		return DefaultMapType
	}
	return &sizedMapType{''','''	if kt == DefaultAnyType && vt == DefaultAnyType {
		return DefaultMapType
	}
	return &sizedMapType{''')],imports=[],demo='',needs='',breaks=''),
dict(id='C19-f',prop='C19',edits=[('internal/string.go','''	if s == nil {
		switch arg := arg.(type) {''','''	if s == nil {
		if _, ok := t.(*ciStringType); ok && DefaultStringType.Instance(arg) && len(arg.String()) == t.(dgo.StringType).Min() {
			return String(arg.String())
		}
		switch arg := arg.(type) {''')],
 imports=[I+'tf',I+'vf',I+'dgo'],demo='''	defer func() { recover() }()
	t := tf.CiString("abc")
	v := t.(interface{ New(dgo.Value) dgo.Value }).New(vf.String("abd"))
	if !t.Instance(v) {
		bad("%s is no %s", v, t)
	}''',needs='another string of the same length',breaks='New of a case insensitive string type gives a string that is no instance'),
]
BUGS=[b for b in BUGS if b['demo']]
