package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/util"
)

func init() { props["C16"] = c16 }

// refReader is the oracle: an index into the decoded runes.
type refReader struct {
	rs    []rune
	bad   int // index of the first invalid sequence, or -1
	sizes []int
	i     int
	ended bool
}

func newRef(s string) *refReader {
	r := &refReader{bad: -1}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			r.bad = len(r.rs)
			break
		}
		r.rs = append(r.rs, c)
		r.sizes = append(r.sizes, n)
		s = s[n:]
	}
	return r
}

// at returns the rune at index i and if it is an error.
func (r *refReader) at(i int) (rune, bool) {
	if i < len(r.rs) {
		return r.rs[i], false
	}
	return 0, r.bad >= 0
}

func (r *refReader) pos() (p, l, c int) {
	l, c = 1, 1
	for i := 0; i < r.i; i++ {
		p += r.sizes[i]
		c++
		if r.rs[i] == '\n' {
			l++
			c = 1
		}
	}
	if r.ended {
		p++
		c++
	}
	return
}

func runeOrPanic(f func() rune) string {
	var c rune
	if m, p := Panics(func() { c = f() }); p {
		if !strings.Contains(m, "unicode error") {
			return "panic " + m
		}
		return "error"
	}
	return fmt.Sprintf("%q", c)
}

func wantRune(c rune, bad bool) string {
	if bad {
		return "error"
	}
	return fmt.Sprintf("%q", c)
}

func c16run(s, ops string) string {
	rd := util.NewStringReader(s)
	ref := newRef(s)
	for k, op := range ops {
		var got, want string
		switch op {
		case 'n':
			c, bad := ref.at(ref.i)
			want = wantRune(c, bad)
			got = runeOrPanic(rd.Next)
			if !bad {
				if ref.i < len(ref.rs) {
					ref.i++
				} else {
					ref.ended = true
				}
			}
		case 'p':
			want = wantRune(ref.at(ref.i))
			got = runeOrPanic(rd.Peek)
		case 'q':
			if c, bad := ref.at(ref.i); bad {
				want = wantRune(c, bad)
			} else if ref.i >= len(ref.rs) {
				want = wantRune(0, false)
			} else {
				want = wantRune(ref.at(ref.i + 1))
			}
			got = runeOrPanic(rd.Peek2)
		case 'r':
			ref.i, ref.ended = 0, false
			rd.Rewind()
		}
		if got != want {
			return fmt.Sprintf("operation %d (%c): got %s, expected %s", k, op, got, want)
		}
		p, l, c := ref.pos()
		if rd.Pos() != p || rd.Line() != l || rd.Column() != c {
			return fmt.Sprintf("after operation %d (%c): at pos %d line %d column %d, expected %d %d %d", k, op, rd.Pos(), rd.Line(), rd.Column(), p, l, c)
		}
	}
	return ""
}

func c16(t *T) {
	t.Group("all short strings")
	alpha := []string{"a", "\n", "\u00f6", "\u20ac", "\ufffd", "\U0001F600", "\x80", "\xc3", "\x00", "\r"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		ops := strings.Repeat("pqn", n+5) + "rpqnpnnqpn"
		t.Check("read", func() string { return fmt.Sprintf("%q %s", s, ops) }, func() string { return c16run(s, ops) })
		ops2 := strings.Repeat("n", n+2) + "pqrnq"
		t.Check("read", func() string { return fmt.Sprintf("%q %s", s, ops2) }, func() string { return c16run(s, ops2) })
	}
	var gen func(s string, n int)
	max := 4
	if t.thorough {
		max = 5
	}
	gen = func(s string, n int) {
		rec(s, n)
		if n < max {
			for _, a := range alpha {
				gen(s+a, n+1)
			}
		}
	}
	gen("", 0)
	t.Group("every rune")
	for c := rune(0); c <= utf8.MaxRune; c++ {
		if !t.thorough && c > 0x3000 && c < 0xff00 && c%7 != 0 && (c < 0xd700 || c > 0xe100) || c > 0x10100 && c%251 != 0 && c < 0x10ff00 {
			continue
		}
		s := string(c)
		t.Check("read", func() string { return fmt.Sprintf("%q", "x"+s+"y") }, func() string { return c16run("x"+s+"y", "nqpnqnn") })
	}
	t.Group("random strings and operations")
	for i := 0; i < t.N(20000) && !t.Expired(); i++ {
		b := strings.Builder{}
		for j := t.rng.Intn(30); j > 0; j-- {
			switch t.rng.Intn(6) {
			case 0:
				b.WriteByte(byte(t.rng.Intn(256)))
			case 1:
				b.WriteByte('\n')
			case 2:
				b.WriteRune(rune(t.rng.Intn(0x11000)))
			default:
				b.WriteByte(byte(32 + t.rng.Intn(95)))
			}
		}
		s := b.String()
		ops := make([]byte, 40)
		for j := range ops {
			ops[j] = "nnnnnnpqpqnnnnnr"[t.rng.Intn(16)]
			if ops[j] == 'r' && t.rng.Intn(3) > 0 {
				ops[j] = 'n'
			}
		}
		t.Check("read", func() string { return fmt.Sprintf("%q %s", s, ops) }, func() string { return c16run(s, string(ops)) })
	}
	t.Group("long")
	s := strings.Repeat("ab\u20ac\n", 5000)
	t.Check("read", func() string { return "5000 lines" }, func() string {
		rd := util.NewStringReader(s)
		n := 0
		for _, c := range s {
			if g := rd.Next(); g != c {
				return fmt.Sprintf("rune %d: %q, expected %q", n, g, c)
			}
			n++
		}
		if rd.Line() != 5001 || rd.Column() != 1 {
			return fmt.Sprintf("ends at line %d, column %d", rd.Line(), rd.Column())
		}
		for i := 0; i < 3; i++ {
			if rd.Next() != 0 || rd.Pos() != len(s)+1 || rd.Column() != 2 {
				return "the end marker is not repeated in place"
			}
		}
		return ""
	})
}
