I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C13-a",prop="C13",edits=[("stringer/typestring.go",'''	if prio >= orPrio {
		util.WriteByte(sb, '(')
	}
	sb.joinX''','''	paren := prio > opPrio || prio == typePrio
	if paren {
		util.WriteByte(sb, '(')
	}
	sb.joinX'''),("stringer/typestring.go",'''	if prio >= orPrio {
		util.WriteByte(sb, ')')
	}
''','''	if paren {
		util.WriteByte(sb, ')')
	}
''')],
  imports=[I+'tf',I+'typ'],
  demo='''
	tp := tf.AnyOf(typ.Integer, tf.AnyOf(typ.String, tf.AnyOf(typ.Boolean, typ.Float)))
	if r := tf.ParseType(tp.String()); !tp.Equals(r) {
		bad("%s is parsed as %s, another type", tp, r)
	}
''',needs="a combinator that is an operand of a combinator of the same kind",breaks="the parentheses that keep them apart are not printed"),
 dict(id="C13-b",prop="C13",edits=[("stringer/typestring.go",'''		f(typ, prio)
		sb.seen = os
''','''		f(typ, prio)
		if len(os) == 0 || prio == typePrio {
			sb.seen = os
		}
''')],
  imports=[I+'tf',I+'typ'],
  demo='''
	e := tf.Tuple(typ.Integer, typ.String)
	tp := tf.Tuple(e, typ.Any, e)
	if r := tf.ParseType(tp.String()); !tp.Equals(r) {
		bad("%s is parsed as %s, another type", tp, r)
	}
''',needs="the same type twice, side by side, within another type",breaks="the second one is printed as a recursive self reference"),
 dict(id="C13-c",prop="C13",edits=[("util/string.go",'''	s := strconv.FormatFloat(f, 'G', -1, 64)
''','''	s := strconv.FormatFloat(f, 'G', 16, 64)
''')],
  imports=[I+'tf'],
  demo='''
	tp := tf.Float(0.1, 0.30000000000000004, true)
	if r := tf.ParseType(tp.String()); !tp.Equals(r) {
		bad("%s is parsed as %s, another type", tp, r)
	}
''',needs="a float that takes 17 significant digits",breaks="bounds and exact floats are rounded when printed"),
 dict(id="C13-d",prop="C13",edits=[("parser/parser.go",'''	i, _ := strconv.ParseInt(t.Value, 0, 64)
	return i
''','''	i, err := strconv.ParseInt(t.Value, 0, 64)
	if err == nil && t.Value[0] == '-' {
		i = int64(tokenFloat(t))
	}
	return i
''')],
  imports=[I+'tf'],
  demo='''
	tp := tf.Integer(-9007199254740993, 12, true)
	if r := tf.ParseType(tp.String()); !tp.Equals(r) {
		bad("%s is parsed as %s, another type", tp, r)
	}
''',needs="a negative integer with more than 53 bits",breaks="the integer is rounded when it is parsed"),
 dict(id="C13-e",prop="C13",edits=[("parser/lexer.go",'''		case r == '.' && sr.Peek2() == '.':
			return
		case r == '.' || IsLetter(r):
			panic(badToken(r))
		case IsDigit(r):
''','''		case r == '.' && sr.Peek2() == '.':
			sr.Next()
			return
		case r == '.' || IsLetter(r):
			panic(badToken(r))
		case IsDigit(r):
''')],
  imports=[I+'tf'],
  demo='''
	tp := tf.Float(1e21, 1e22, false)
	if r := tf.ParseType(tp.String()); !tp.Equals(r) {
		bad("%s is parsed as %s, another type", tp, r)
	}
''',needs="a range with a lower bound that is printed with an exponent",breaks="one of the dots is swallowed"),
]
