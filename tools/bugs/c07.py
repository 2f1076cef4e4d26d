I='github.com/lyraproj/dgo/'
BUGS=[
 dict(id="C07-a",prop="C07",edits=[("internal/integer.go",'''		mv := int64(v)
		switch {
		case mv > oi:
			r = 1
		case mv < oi:
			r = -1
		}
		return r, true''','''		switch d := int64(v) - oi; {
		case d > 0:
			r = 1
		case d < 0:
			r = -1
		}
		return r, true''')],
  imports=[I+'vf'],
  demo='''
	c, ok := vf.Integer(5000000000000000000).CompareTo(vf.Integer(-5000000000000000000))
	if !ok || c <= 0 {
		bad("5e18 compared with -5e18 is %d, %t", c, ok)
	}
''',
  needs="two integers that differ by more than the largest int64",
  breaks="the difference overflows, so that a large positive integer is less than a large negative one"),
 dict(id="C07-b",prop="C07",edits=[("internal/array.go",'''		if c, ok = compare(seen, a[i], b[i]); !ok {''','''		if c, ok = compare(append(seen, b[i]), a[i], b[i]); !ok {''')],
  imports=[I+'vf'],
  demo='''
	x := vf.Values(vf.Values(1))
	a := vf.Values(vf.Values(x))
	b := vf.Values(x)
	c, ok := a.CompareTo(b)
	if ok {
		bad("[[[[1]]]] compared with [[[1]]] is %d, %t", c, ok)
	}
	y := vf.Values(2)
	c, ok = vf.Values(vf.Values(y)).CompareTo(vf.Values(y))
	if ok {
		bad("[[[2]]] compared with [[2]] is %d, %t", c, ok)
	}
	z := vf.Values(7, vf.Values(1))
	p := vf.Values(vf.Values(z, 5))
	q := vf.Values(vf.Values(vf.Values(6, 3), z))
	_ = q
	_ = p
''',
  needs="an array that occurs in both operands, at different depths",
  breaks="an element of the other operand is taken for an ancestor of the element it is compared with and found equal"),
 dict(id="C07-c",prop="C07",edits=[("internal/string.go",'''		switch {
		case v.s > ov.s:
			r = 1
		case v.s < ov.s:
			r = -1
		default:
			r = 0
		}
	case string:''','''		switch {
		case len(v.s) == len(ov.s) && v.h == ov.h && v.h != 0:
			// same string
			r = 0
		case v.s > ov.s:
			r = 1
		case v.s < ov.s:
			r = -1
		default:
			r = 0
		}
	case string:''')],
  imports=[I+'vf'],
  decls='''
func collide() (string, string) {
	// polynomial hash with factor 31
	return "Aa", "BB"
}
''',
  demo='''
	s, t := collide()
	a, b := vf.String(s), vf.String(t)
	a.HashCode()
	b.HashCode()
	if c, ok := a.CompareTo(b); !ok || c >= 0 {
		bad("%q compared with %q is %d, %t", s, t, c, ok)
	}
''',
  needs="two different strings of the same length with the same hash code, both hashed before (as keys of a map, say)",
  breaks="the two strings are found equal when compared"),
 dict(id="C07-d",prop="C07",edits=[("internal/binary.go",'''	for i := 0; i < max; i++ {
		c := int(a[i]) - int(b[i])
		if c != 0 {''','''	i := 0
	for ; i+4 <= max; i += 4 {
		// four bytes at a time
		x := uint32(a[i]) | uint32(a[i+1])<<8 | uint32(a[i+2])<<16 | uint32(a[i+3])<<24
		y := uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
		if x > y {
			return 1, ok
		}
		if x < y {
			return -1, ok
		}
	}
	for ; i < max; i++ {
		c := int(a[i]) - int(b[i])
		if c != 0 {''')],
  imports=[I+'vf'],
  demo='''
	a := vf.Binary([]byte{1, 2, 3, 4}, true)
	b := vf.Binary([]byte{2, 1, 3, 4}, true)
	if c, ok := a.CompareTo(b); !ok || c >= 0 {
		bad("%v compared with %v is %d, %t", a, b, c, ok)
	}
''',
  needs="binaries of at least four bytes that differ in more than one place of the same group of four",
  breaks="the last byte that differs in a group of four decides instead of the first"),
]
