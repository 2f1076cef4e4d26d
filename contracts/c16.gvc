# C16: the string reader
package util

# --- UTF-8 decoding, as documented by unicode/utf8
spec utf8rune(s string) int
spec utf8size(s string) int
extern utf8.DecodeRuneInString(s) props C16 C13
  pure
  ensures result0 == utf8rune(s) && result1 == utf8size(s)
axiom utf8_size: forall s string {utf8size(s)} :: len(s) > 0 ==> 1 <= utf8size(s) && utf8size(s) <= 4 && utf8size(s) <= len(s)
axiom utf8_range: forall s string {utf8rune(s)} :: 0 <= utf8rune(s) && utf8rune(s) <= 1114111 && !(55296 <= utf8rune(s) && utf8rune(s) <= 57343)
axiom utf8_ascii: forall s string {utf8rune(s)} {utf8size(s)} :: len(s) > 0 ==> ite(s[0] < 128, utf8rune(s) == s[0] && utf8size(s) == 1, utf8rune(s) >= 128)

# the rune that starts at byte i, its size, and if the bytes there are not valid UTF-8
define runeat(s string, i int) int = utf8rune(s[i:len(s)])
define sizeat(s string, i int) int = utf8size(s[i:len(s)])
define badat(s string, i int) bool = runeat(s, i) == 65533 && sizeat(s, i) == 1

# the position of rune number k, and the line and column of that position, both counted from zero
spec kpos(s string, k int) int
spec kline(s string, k int) int
spec kcol(s string, k int) int
axiom kpos_def: forall s string; k, j int {kpos(s, k), kpos(s, j)} :: 0 <= k && j == k + 1 ==> kpos(s, j) == kpos(s, k) + sizeat(s, kpos(s, k))
axiom kline_def: forall s string; k, j int {kline(s, k), kline(s, j)} :: 0 <= k && j == k + 1 ==> kline(s, j) == ite(runeat(s, kpos(s, k)) == 10, kline(s, k) + 1, kline(s, k))
axiom kcol_def: forall s string; k, j int {kcol(s, k), kcol(s, j)} :: 0 <= k && j == k + 1 ==> kcol(s, j) == ite(runeat(s, kpos(s, k)) == 10, 0, kcol(s, k) + 1)
axiom k_zero: forall s string {kpos(s, 0)} :: kpos(s, 0) == 0 && kline(s, 0) == 0 && kcol(s, 0) == 0

# a reader has read $k runes, and the end marker when its position is beyond the end
ghostfield StringReader.$k int
define ended(r *util.StringReader) bool = r.p == len(r.s) + 1
define rdr(r *util.StringReader) bool = 0 <= r.$k && 0 <= r.l && r.l <= r.p && 0 <= r.c && r.c <= r.p && r.p <= len(r.s) + 1
  && r.l == kline(r.s, r.$k) && ite(ended(r), kpos(r.s, r.$k) == len(r.s) && r.c == kcol(r.s, r.$k) + 1, r.p == kpos(r.s, r.$k) && r.c == kcol(r.s, r.$k))

func NewStringReader(s) props C16
  ensures rdr(result)
  ensures result.$k == 0 && result.p == 0 && result.s == s
  ghost result.$k := 0

func (*StringReader).Next props C16 C13
  requires rdr(self)
  modifies self.p, self.l, self.c, self.$k
  panics self.p < len(self.s) && badat(self.s, self.p)
  onpanic unchanged
  ghost self.$k := ite(old(self.p) < len(self.s), old(self.$k) + 1, old(self.$k))
  ensures [state] rdr(self)
  ensures [rune] old(self.p) < len(self.s) ==> result == runeat(self.s, kpos(self.s, old(self.$k)))
  ensures [advance] old(self.p) < len(self.s) ==> self.$k == old(self.$k) + 1 && self.p > old(self.p) && self.p <= len(self.s)
  ensures [end] old(self.p) >= len(self.s) ==> result == 0 && ended(self) && self.$k == old(self.$k)

func (*StringReader).Peek props C16 C13
  pure
  requires rdr(self)
  panics self.p < len(self.s) && badat(self.s, self.p)
  returns ite(self.p < len(self.s), runeat(self.s, self.p), 0)

define afterat(s string, p int) int = p + sizeat(s, p)
func (*StringReader).Peek2 props C16 C13
  pure
  requires rdr(self)
  panics self.p < len(self.s) && (badat(self.s, self.p) || afterat(self.s, self.p) < len(self.s) && badat(self.s, afterat(self.s, self.p)))
  returns ite(self.p < len(self.s) && afterat(self.s, self.p) < len(self.s), runeat(self.s, afterat(self.s, self.p)), 0)

func (*StringReader).Pos props C16
  pure
  requires rdr(self)
  returns ite(ended(self), len(self.s) + 1, kpos(self.s, self.$k))
func (*StringReader).Line props C16
  pure
  requires rdr(self)
  returns kline(self.s, self.$k) + 1
func (*StringReader).Column props C16
  pure
  requires rdr(self)
  returns kcol(self.s, self.$k) + ite(ended(self), 2, 1)
func (*StringReader).Rewind props C16
  modifies self.p, self.l, self.c, self.$k
  ghost self.$k := 0
  ensures rdr(self) && self.$k == 0 && self.p == 0
