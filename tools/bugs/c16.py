I='github.com/lyraproj/dgo/'
BUGS=[
dict(id='C16-a',prop='C16',edits=[('util/reader.go','''		r.p += size
		r.c++''','''		r.p += size
		r.c += (size + 1) / 2''')],
 imports=[I+'util'],demo='''	r := util.NewStringReader("\\u20acb")
	r.Next()
	if r.Column() != 2 {
		bad("column %d after one rune", r.Column())
	}''',needs='a rune of three or more bytes before the reported column',breaks='the column counts half the bytes of a rune instead of runes'),
dict(id='C16-b',prop='C16',edits=[('util/reader.go','''	np := r.p + sz
	if np >= len(r.s) {
		return 0
	}
''','''	np := r.p + sz
	if np >= len(r.s) || c == 0 {
		return 0
	}
''')],
 imports=[I+'util'],demo='''	r := util.NewStringReader("\\x00b")
	if r.Peek2() != 'b' {
		bad("%q", r.Peek2())
	}''',needs='a NUL rune in the string',breaks='the second next rune'),
dict(id='C16-c',prop='C16',edits=[('util/reader.go','''func (r *StringReader) Rewind() {
	r.p = 0
	r.l = 0
	r.c = 0
}''','''func (r *StringReader) Rewind() {
	r.p = 0
	if r.l > 0 {
		r.l = 0
		r.c = 0
	}
}''')],
 imports=[I+'util'],demo='''	r := util.NewStringReader("ab")
	r.Next()
	r.Rewind()
	if r.Column() != 1 {
		bad("column %d after rewind", r.Column())
	}''',needs='a rewind while still on the first line',breaks='the column after a rewind'),
]
