I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C19-a",prop="C19",edits=[("internal/sensitive.go",'''	s, ok := arg.(dgo.Sensitive)
	if !ok {
		s = Sensitive(arg)
	}
	if !t.Instance(s) {
		panic(IllegalAssignment(t, s))
	}
	return s''','''	s, ok := arg.(dgo.Sensitive)
	if ok && Assignable(nil, Generic(t.wrapped), Generic(s.Unwrap().Type())) {
		return s
	}
	if !ok {
		s = Sensitive(arg)
	}
	if !t.Instance(s) {
		panic(IllegalAssignment(t, s))
	}
	return s''')],
  imports=[I+'vf',I+'tf',I+'dgo'],
  demo='''
	tp := tf.Sensitive(vf.Value(3).Type())
	func() {
		defer func() { recover() }()
		var r dgo.Value = vf.New(tp, vf.Sensitive(5))
		if !tp.Instance(r) {
			bad("not an instance of %s", tp)
		}
	}()
''',needs="a sensitive type over an exact type and an argument that is sensitive already and violates the constraint",breaks="New of a constrained sensitive type gives a value that is no instance of it"),
 dict(id="C19-b",prop="C19",edits=[("internal/integer.go",'''			i = Integer(intFromConvertible(args.Get(0), int(args.Arg(`int`, 1, radixType).(dgo.Integer).GoInt())))
''','''			radix := int(args.Arg(`int`, 1, radixType).(dgo.Integer).GoInt())
			if s, ok := args.Get(0).(dgo.String); ok && radix != 10 {
				if n, err := strconv.ParseUint(s.GoString(), radix, 63); err == nil {
					return Integer(int64(n))
				}
			}
			i = Integer(intFromConvertible(args.Get(0), radix))
''')],
  imports=[I+'vf',I+'tf',I+'dgo'],
  demo='''
	tp := tf.Integer(0, 10, true)
	func() {
		defer func() { recover() }()
		var r dgo.Value = vf.New(tp, vf.Arguments("ff", 16))
		if !tp.Instance(r) {
			bad("%v is not an instance of %s", r, tp)
		}
	}()
''',needs="a bounded integer type and a string with a radix other than 10 whose number is outside of the bounds",breaks="New gives an integer outside of the range"),
 dict(id="C19-c",prop="C19",edits=[("internal/time.go",'''	case dgo.Integer:
		tv = Time(time.Unix(arg.GoInt(), 0))
''','''	case dgo.Integer:
		if tv = Time(time.Unix(arg.GoInt(), 0)); !tv.GoTime().IsZero() {
			return tv
		}
''')],
  imports=[I+'vf',I+'dgo','time'],
  demo='''
	tp := vf.Time(time.Unix(1000, 0)).Type()
	func() {
		defer func() { recover() }()
		var r dgo.Value = vf.New(tp, vf.Value(999))
		if !tp.Instance(r) {
			bad("%v is not an instance of %s", r, tp)
		}
	}()
''',needs="an exact time type and another number of seconds",breaks="New of an exact time type gives another time"),
 dict(id="C19-d",prop="C19",edits=[("internal/meta.go",'''			tv = v.Type()
		}
''','''			tv = v.Type()
			if t.tp == nil || Generic(tv).Type().TypeIdentifier() == t.TypeIdentifier() {
				return tv
			}
		}
''')],
  imports=[I+'vf',I+'dgo',I+'typ'],
  demo='''
	tp := typ.Integer.Type()
	func() {
		defer func() { recover() }()
		var r dgo.Value = vf.New(tp, vf.Value("\\"abc\\""))
		if !tp.Instance(r) {
			bad("%v is not an instance of %s", r, tp)
		}
	}()
''',needs="a type of types and a string that holds a literal value of another type",breaks="New of a type of types gives a type that is no instance of it"),
]
