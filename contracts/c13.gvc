# C13: string literals, regexps and numbers as the lexer reads them and the printer writes them
package util

# what has been written on a writer
ghostfield Writer.$s string
spec putr(a string; r int) string
spec putb(a string; b int) string
spec puts(a string; s string) string
axiom putr_ascii: forall a string; r int {putr(a, r)} :: 0 <= r && r < 128 ==> putr(a, r) == putb(a, r)

spec world narrow encoded(p []byte) int
extern in util io.Writer.Write(p) props C13
  modifies self.$s
  ensures len(p) == 1 ==> self.$s == putb(old(self.$s), p[0])
  ensures len(p) > 1 ==> self.$s == putr(old(self.$s), old(encoded(p)))
  ensures result1 == nil
extern in util io.WriteString(w, s) props C13
  modifies w.$s
  ensures w.$s == puts(old(w.$s), s)
  ensures result1 == nil

func WriteByte(b, v) props C13
  private
  requires b != nil
  modifies b.$s
  ensures [written] b.$s == putb(old(b.$s), v)
func WriteString(b, s) props C13
  private
  requires b != nil
  modifies b.$s
  ensures [written] b.$s == puts(old(b.$s), s)
extern utf8.EncodeRune(p, r) props C13
  requires len(p) >= 4
  modifies elems(p)
  ensures 128 <= r && r <= 1114111 && !(55296 <= r && r <= 57343) ==> 2 <= result && result <= 4 && encoded(p[0:result]) == r
  ensures 1 <= result && result <= 4
define isrune(r int) bool = 0 <= r && r <= 1114111 && !(55296 <= r && r <= 57343)
func WriteRune(b, v) props C13
  private
  requires b != nil
  requires isrune(v)
  modifies b.$s
  ensures [written] b.$s == putr(old(b.$s), v)

package parser
# --- the classes of characters. The table is enumerated exhaustively by the harness (all runes)
define isdec(r int) bool = 48 <= r && r <= 57
define ishex(r int) bool = isdec(r) || 65 <= r && r <= 70 || 97 <= r && r <= 102
define isalpha(r int) bool = 65 <= r && r <= 90 || 97 <= r && r <= 122
define isident(r int) bool = isdec(r) || isalpha(r) || r == 36 || r == 95
extern IsDigit(r) props C13
  pure
  returns isdec(r)
extern IsHex(r) props C13
  pure
  returns ishex(r)
extern IsLetter(r) props C13
  pure
  returns isalpha(r)
extern IsIdentifier(r) props C13
  pure
  returns isident(r)
extern fmt.Errorf(format, args) props C13
extern errors.New(s) props C13

# --- buffers
define text(w io.Writer) string = w.$s
extern bytes.NewBufferString(s) props C13
  ensures result != nil && fresh(result) && text(result) == s
extern bytes.(*Buffer).String() props C13
  pure
  returns text(self)

# --- escapes
define hexdig(r int) int = ite(r >= 97, r - 87, ite(r >= 65, r - 55, r - 48))
func hexValue(r) props C13
  private
  pure
  requires ishex(r)
  returns hexdig(r)
# the value of the first i of the digits at position p
spec hexv(s string; p, i int) int
axiom hexv_def: forall s string; p, i, j int {hexv(s, p, i), hexv(s, p, j)} :: 0 <= i && j == i + 1 ==> hexv(s, p, j) == 16 * hexv(s, p, i) + hexdig(s[p + i])
axiom hexv_zero: forall s string; p int {hexv(s, p, 0)} :: hexv(s, p, 0) == 0
define alldigits(s string; p, n int) bool = p + n <= len(s) && (forall i int {s[i]} :: p <= i && i < p + n ==> ishex(s[i]))
func consumeHexEscape(sr, e, n) props C13
  private
  requires rdr(sr) && !ended(sr) && 0 <= n && n <= 8
  modifies sr.p, sr.l, sr.c, sr.$k
  panics !alldigits(sr.s, sr.p, n) || !isrune(hexv(sr.s, sr.p, n))
  ensures rdr(sr) && !ended(sr)
  ensures [value] result == hexv(sr.s, old(sr.p), n) && sr.p == old(sr.p) + n && isrune(result)
  loop 1 invariant rdr(sr) && 0 <= i && i <= n
  loop 1 invariant !ended(sr) && sr.p == old(sr.p) + i
  loop 1 invariant alldigits(sr.s, old(sr.p), i)
  loop 1 invariant v == hexv(sr.s, old(sr.p), i)
  loop 1 invariant 0 <= v && (i == 0 ==> v == 0) && (i == 1 ==> v < 16) && (i == 2 ==> v < 256) && (i == 3 ==> v < 4096) && (i == 4 ==> v < 65536) && (i == 5 ==> v < 1048576) && (i == 6 ==> v < 16777216) && (i == 7 ==> v < 268435456) && v <= 4294967295

# the end of an escape that begins at position p (with the character after the backslash), and the text it stands for
define esclen(r int) int = ite(r == 120, 3, ite(r == 117, 5, ite(r == 85, 9, 1)))
define escrune(r int) int = ite(r == 97, 7, ite(r == 98, 8, ite(r == 102, 12, ite(r == 110, 10, ite(r == 114, 13, ite(r == 116, 9, ite(r == 118, 11, r)))))))
define simple(r, end int) bool = r == 97 || r == 98 || r == 102 || r == 110 || r == 114 || r == 116 || r == 118 || r == 92 || r == end
define long(r int) bool = r == 120 || r == 117 || r == 85
define escok(s string; p, end int) bool = p < len(s) && ite(long(runeat(s, p)), alldigits(s, p + 1, esclen(runeat(s, p)) - 1) && isrune(hexv(s, p + 1, esclen(runeat(s, p)) - 1)), runeat(s, p) != 0 && simple(runeat(s, p), end))
define escend(s string; p int) int = p + ite(long(runeat(s, p)), esclen(runeat(s, p)), sizeat(s, p))
define esctext(s string; p int; a string) string = ite(runeat(s, p) == 120, putb(a, hexv(s, p + 1, 2)), ite(long(runeat(s, p)), putr(a, hexv(s, p + 1, esclen(runeat(s, p)) - 1)), putr(a, escrune(runeat(s, p)))))
func consumeEscape(sr, buf, end) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil && 32 <= end && end < 128 && !long(end)
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  panics !escok(sr.s, sr.p, end)
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] buf.$s == old(esctext(sr.s, sr.p, buf.$s)) && sr.p == old(escend(sr.s, sr.p))
extern utf8.ValidRune(r) props C13
  pure
  returns isrune(r)
lemma hexv_two props C13: forall s string; p int {hexv(s, p, 2)} :: mention(hexv(s, p, 0)) && mention(hexv(s, p, 1)) ==> hexv(s, p, 2) == 16 * hexdig(s[p]) + hexdig(s[p + 1])

# --- literals: what a string literal stands for, from position p on with the text a read so far, where it ends, and if it is valid
spec lit(s string; p, e int; a string) string
spec litend(s string; p, e int) int
spec litok(s string; p, e int) bool
define litmore(s string; p, e int) bool = p < len(s) && !badat(s, p) && runeat(s, p) != e && runeat(s, p) != 0 && runeat(s, p) != 10
axiom lit_def: forall s string; p, e int; a string {lit(s, p, e, a), runeat(s, p)} :: 0 <= p && litmore(s, p, e) ==> lit(s, p, e, a) == ite(runeat(s, p) == 92, lit(s, escend(s, p + 1), e, esctext(s, p + 1, a)), lit(s, p + sizeat(s, p), e, putr(a, runeat(s, p))))
axiom lit_end: forall s string; p, e int; a string {lit(s, p, e, a), runeat(s, p)} :: 0 <= p && p < len(s) && runeat(s, p) == e ==> lit(s, p, e, a) == a
axiom litend_def: forall s string; p, e int {litend(s, p, e), runeat(s, p)} :: 0 <= p && p < len(s) ==> ite(runeat(s, p) == e, litend(s, p, e) == p + 1, litmore(s, p, e) ==> litend(s, p, e) == litend(s, ite(runeat(s, p) == 92, escend(s, p + 1), p + sizeat(s, p)), e))
axiom litok_def: forall s string; p, e int {litok(s, p, e), runeat(s, p)} :: 0 <= p ==> (litok(s, p, e) <==> p < len(s) && !badat(s, p) && (runeat(s, p) == e || litmore(s, p, e) && ite(runeat(s, p) == 92, escok(s, p + 1, e) && litok(s, escend(s, p + 1), e), litok(s, p + sizeat(s, p), e))))
func ConsumeString(sr, end) props C13
  private
  requires rdr(sr) && !ended(sr) && 32 <= end && end < 128 && !long(end) && end != 92
  modifies sr.p, sr.l, sr.c, sr.$k
  panics !litok(sr.s, sr.p, end)
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] result == lit(sr.s, old(sr.p), end, "")
  ensures [end] sr.p == litend(sr.s, old(sr.p), end)
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant lit(sr.s, sr.p, end, text(buf)) == lit(sr.s, old(sr.p), end, "")
  loop 1 invariant litend(sr.s, sr.p, end) == litend(sr.s, old(sr.p), end)
  loop 1 invariant litok(sr.s, sr.p, end) <==> litok(sr.s, old(sr.p), end)

# --- raw string literals and regexps
spec raw(s string; p int; a string) string
spec rawend(s string; p int) int
spec rawok(s string; p int) bool
axiom raw_def: forall s string; p int; a string {raw(s, p, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> raw(s, p, a) == ite(runeat(s, p) == 96, a, raw(s, p + sizeat(s, p), putr(a, runeat(s, p))))
axiom rawend_def: forall s string; p int {rawend(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> rawend(s, p) == ite(runeat(s, p) == 96, p + 1, rawend(s, p + sizeat(s, p)))
axiom rawok_def: forall s string; p int {rawok(s, p), runeat(s, p)} :: 0 <= p ==> (rawok(s, p) <==> p < len(s) && !badat(s, p) && (runeat(s, p) == 96 || runeat(s, p) != 0 && rawok(s, p + sizeat(s, p))))
func consumeRawString(sr) props C13
  private
  requires rdr(sr) && !ended(sr)
  modifies sr.p, sr.l, sr.c, sr.$k
  panics !rawok(sr.s, sr.p)
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] result == raw(sr.s, old(sr.p), "")
  ensures [end] sr.p == rawend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant raw(sr.s, sr.p, text(buf)) == raw(sr.s, old(sr.p), "")
  loop 1 invariant rawend(sr.s, sr.p) == rawend(sr.s, old(sr.p))
  loop 1 invariant rawok(sr.s, sr.p) <==> rawok(sr.s, old(sr.p))

spec rlit(s string; p int; a string) string
spec rlitend(s string; p int) int
spec rlitok(s string; p int) bool
define resc(s string; p int; a string) string = ite(runeat(s, p) == 47, putr(a, 47), putr(putr(a, 92), runeat(s, p)))
define rescend(s string; p int) int = p + sizeat(s, p)
axiom rlit_def: forall s string; p int; a string {rlit(s, p, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> rlit(s, p, a) == ite(runeat(s, p) == 47, a, ite(runeat(s, p) == 92, rlit(s, rescend(s, p + 1), resc(s, p + 1, a)), rlit(s, p + sizeat(s, p), putr(a, runeat(s, p)))))
axiom rlitend_def: forall s string; p int {rlitend(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> rlitend(s, p) == ite(runeat(s, p) == 47, p + 1, ite(runeat(s, p) == 92, rlitend(s, rescend(s, p + 1)), rlitend(s, p + sizeat(s, p))))
axiom rlitok_def: forall s string; p int {rlitok(s, p), runeat(s, p)} :: 0 <= p ==> (rlitok(s, p) <==> p < len(s) && !badat(s, p) && (runeat(s, p) == 47 || runeat(s, p) != 0 && runeat(s, p) != 10 && ite(runeat(s, p) == 92, p + 1 < len(s) && !badat(s, p + 1) && runeat(s, p + 1) != 0 && rlitok(s, rescend(s, p + 1)), rlitok(s, p + sizeat(s, p)))))
func ConsumeRegexp(sr) props C13
  private
  requires rdr(sr) && !ended(sr)
  modifies sr.p, sr.l, sr.c, sr.$k
  panics !rlitok(sr.s, sr.p)
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] result == rlit(sr.s, old(sr.p), "")
  ensures [end] sr.p == rlitend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant rlit(sr.s, sr.p, text(buf)) == rlit(sr.s, old(sr.p), "")
  loop 1 invariant rlitend(sr.s, sr.p) == rlitend(sr.s, old(sr.p))
  loop 1 invariant rlitok(sr.s, sr.p) <==> rlitok(sr.s, old(sr.p))

# --- identifiers
spec ident(s string; p int; a string) string
spec identend(s string; p int) int
axiom ident_def: forall s string; p int; a string {ident(s, p, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> ident(s, p, a) == ite(isident(runeat(s, p)), ident(s, p + sizeat(s, p), putr(a, runeat(s, p))), a)
axiom ident_over: forall s string; a string {ident(s, len(s), a)} :: ident(s, len(s), a) == a
axiom identend_def: forall s string; p int {identend(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> identend(s, p) == ite(isident(runeat(s, p)), identend(s, p + sizeat(s, p)), p)
axiom identend_over: forall s string {identend(s, len(s))} :: identend(s, len(s)) == len(s)
func consumeIdentifier(sr, start, buf) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil && isrune(start)
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] text(buf) == ident(sr.s, old(sr.p), putr(old(text(buf)), start))
  ensures [end] sr.p == identend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant ident(sr.s, sr.p, text(buf)) == ident(sr.s, old(sr.p), putr(old(text(buf)), start))
  loop 1 invariant identend(sr.s, sr.p) == identend(sr.s, old(sr.p))

# --- numbers: their text, where they end, and whether they are integers (1) or floats (2)
spec uint(s string; p int; a string) string
spec uintend(s string; p int) int
axiom uint_def: forall s string; p int; a string {uint(s, p, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> uint(s, p, a) == ite(isdec(runeat(s, p)), uint(s, p + sizeat(s, p), putr(a, runeat(s, p))), a)
axiom uint_over: forall s string; a string {uint(s, len(s), a)} :: uint(s, len(s), a) == a
axiom uintend_def: forall s string; p int {uintend(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> uintend(s, p) == ite(isdec(runeat(s, p)), uintend(s, p + sizeat(s, p)), p)
axiom uintend_over: forall s string {uintend(s, len(s))} :: uintend(s, len(s)) == len(s)
func consumeUnsignedInteger(sr, buf) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] text(buf) == uint(sr.s, old(sr.p), old(text(buf)))
  ensures [end] sr.p == uintend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant uint(sr.s, sr.p, text(buf)) == uint(sr.s, old(sr.p), old(text(buf)))
  loop 1 invariant uintend(sr.s, sr.p) == uintend(sr.s, old(sr.p))
spec hexs(s string; p int; a string) string
spec hexsend(s string; p int) int
axiom hexs_def: forall s string; p int; a string {hexs(s, p, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> hexs(s, p, a) == ite(ishex(runeat(s, p)), hexs(s, p + sizeat(s, p), putr(a, runeat(s, p))), a)
axiom hexs_over: forall s string; a string {hexs(s, len(s), a)} :: hexs(s, len(s), a) == a
axiom hexsend_def: forall s string; p int {hexsend(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> hexsend(s, p) == ite(ishex(runeat(s, p)), hexsend(s, p + sizeat(s, p)), p)
axiom hexsend_over: forall s string {hexsend(s, len(s))} :: hexsend(s, len(s)) == len(s)
func consumeHexInteger(sr, buf) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] text(buf) == hexs(sr.s, old(sr.p), old(text(buf)))
  ensures [end] sr.p == hexsend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr)
  loop 1 invariant hexs(sr.s, sr.p, text(buf)) == hexs(sr.s, old(sr.p), old(text(buf)))
  loop 1 invariant hexsend(sr.s, sr.p) == hexsend(sr.s, old(sr.p))
# an exponent that follows the e at position p - 1
define issign(r int) bool = r == 43 || r == 45
define expo(s string; p int; a string) string = ite(issign(runeat(s, p)), uint(s, p + 1 + sizeat(s, p + 1), putr(putr(a, runeat(s, p)), runeat(s, p + 1))), uint(s, p + sizeat(s, p), putr(a, runeat(s, p))))
define expoend(s string; p int) int = ite(issign(runeat(s, p)), uintend(s, p + 1 + sizeat(s, p + 1)), uintend(s, p + sizeat(s, p)))
func consumeExponent(sr, buf) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] text(buf) == expo(sr.s, old(sr.p), old(text(buf)))
  ensures [end] sr.p == expoend(sr.s, old(sr.p))
  loop 1 invariant rdr(sr) && !ended(sr) && sr.p == old(sr.p) && text(buf) == old(text(buf)) && sr.$k == old(sr.$k)
# z: the number began with a zero, and may be hexadecimal
spec num(s string; p int; z bool; t int; a string) string
spec numend(s string; p int; z bool; t int) int
spec numtype(s string; p int; z bool; t int) int
define isexp(r int) bool = r == 101 || r == 69
define hexmark(r int) bool = r == 120 || r == 88
define range2(s string; p int) bool = p + 1 < len(s) && runeat(s, p + 1) == 46
define point(s string; p, t int) bool = runeat(s, p) == 46 && !range2(s, p) && t != 2
axiom num_def: forall s string; p int; z bool; t int; a string {num(s, p, z, t, a), runeat(s, p)} :: 0 <= p && p < len(s) ==> num(s, p, z, t, a) ==
  ite(isdec(runeat(s, p)), num(s, p + sizeat(s, p), z, t, putr(a, runeat(s, p))),
  ite(isexp(runeat(s, p)), expo(s, p + 1, putr(a, runeat(s, p))),
  ite(hexmark(runeat(s, p)), hexs(s, p + 1 + sizeat(s, p + 1), putr(putr(a, runeat(s, p)), runeat(s, p + 1))),
  ite(point(s, p, t), num(s, p + 1 + sizeat(s, p + 1), false, 2, putr(putr(a, 46), runeat(s, p + 1))), a))))
axiom num_over: forall s string; z bool; t int; a string {num(s, len(s), z, t, a)} :: num(s, len(s), z, t, a) == a
axiom numend_def: forall s string; p int; z bool; t int {numend(s, p, z, t), runeat(s, p)} :: 0 <= p && p < len(s) ==> numend(s, p, z, t) ==
  ite(isdec(runeat(s, p)), numend(s, p + sizeat(s, p), z, t),
  ite(isexp(runeat(s, p)), expoend(s, p + 1),
  ite(hexmark(runeat(s, p)), hexsend(s, p + 1 + sizeat(s, p + 1)),
  ite(point(s, p, t), numend(s, p + 1 + sizeat(s, p + 1), false, 2), p))))
axiom numend_over: forall s string; z bool; t int {numend(s, len(s), z, t)} :: numend(s, len(s), z, t) == len(s)
axiom numtype_def: forall s string; p int; z bool; t int {numtype(s, p, z, t), runeat(s, p)} :: 0 <= p && p < len(s) ==> numtype(s, p, z, t) ==
  ite(isdec(runeat(s, p)), numtype(s, p + sizeat(s, p), z, t),
  ite(isexp(runeat(s, p)), 2,
  ite(hexmark(runeat(s, p)), t,
  ite(point(s, p, t), numtype(s, p + 1 + sizeat(s, p + 1), false, 2), t))))
axiom numtype_over: forall s string; z bool; t int {numtype(s, len(s), z, t)} :: numtype(s, len(s), z, t) == t
func ConsumeNumber(sr, start, buf, t) props C13
  private
  requires rdr(sr) && !ended(sr) && buf != nil && isrune(start) && (t == 1 || t == 2)
  modifies sr.p, sr.l, sr.c, sr.$k, buf.$s
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [text] text(buf) == num(sr.s, old(sr.p), t != 2 && start == 48, t, putr(old(text(buf)), start))
  ensures [end] sr.p == numend(sr.s, old(sr.p), t != 2 && start == 48, t)
  ensures [type] result == numtype(sr.s, old(sr.p), t != 2 && start == 48, t)
  loop 1 invariant rdr(sr) && !ended(sr) && r == ite(sr.p < len(sr.s), runeat(sr.s, sr.p), 0)
  loop 1 invariant num(sr.s, sr.p, t != 2 && start == 48, t, text(buf)) == num(sr.s, old(sr.p), t != 2 && start == 48, t, putr(old(text(buf)), start))
  loop 1 invariant numend(sr.s, sr.p, t != 2 && start == 48, t) == numend(sr.s, old(sr.p), t != 2 && start == 48, t)
  loop 1 invariant numtype(sr.s, sr.p, t != 2 && start == 48, t) == numtype(sr.s, old(sr.p), t != 2 && start == 48, t)

# --- tokens
func buildToken(r, sr) props C13
  private
  requires rdr(sr) && !ended(sr) && isrune(r)
  modifies sr.p, sr.l, sr.c, sr.$k
  maypanic any
  ensures [state] rdr(sr) && !ended(sr)
  ensures [fresh] fresh(result)
  ensures [number] isdec(r) ==> result.Type == numtype(sr.s, old(sr.p), r == 48, 1) && result.Value == num(sr.s, old(sr.p), r == 48, 1, putr("", r)) && sr.p == numend(sr.s, old(sr.p), r == 48, 1)
  ensures [identifier] isident(r) && !isdec(r) ==> result.Type == identifier && result.Value == ident(sr.s, old(sr.p), putr("", r)) && sr.p == identend(sr.s, old(sr.p))
  ensures [other] !isident(r) ==> result.Type == r && sr.p == old(sr.p)
extern IsIdentifierStart(r) props C13
  pure
  returns isident(r) && !isdec(r)
define white(r int) bool = r == 32 || r == 9 || r == 10
# the position of the next token
spec start(s string; p int) int
axiom start_def: forall s string; p int {start(s, p), runeat(s, p)} :: 0 <= p && p < len(s) ==> start(s, p) == ite(white(runeat(s, p)), start(s, p + sizeat(s, p)), p)
axiom start_over: forall s string {start(s, len(s))} :: start(s, len(s)) == len(s)
define at(s string; p int) int = ite(start(s, p) < len(s), runeat(s, start(s, p)), 0)
define dots(s string; q int) int = ite(q + 1 < len(s) && runeat(s, q + 1) == 46, ite(q + 2 < len(s) && runeat(s, q + 2) == 46, 3, 2), 1)
define signed(r int) string = ite(r == 45, putr("", 45), "")
func nextToken(sr) props C13
  private
  requires rdr(sr)
  modifies sr.p, sr.l, sr.c, sr.$k
  maypanic any
  ensures [state] rdr(sr)
  ensures [fresh] fresh(result)
  ensures [end] old(start(sr.s, sr.p)) >= len(sr.s) || old(sr.p >= len(sr.s)) ==> result.Type == end
  ensures [literal] old(sr.p < len(sr.s) && at(sr.s, sr.p) == 34) ==> result.Type == stringLiteral && result.Value == lit(sr.s, old(start(sr.s, sr.p)) + 1, 34, "") && sr.p == litend(sr.s, old(start(sr.s, sr.p)) + 1, 34)
  ensures [raw] old(sr.p < len(sr.s) && at(sr.s, sr.p) == 96) ==> result.Type == stringLiteral && result.Value == raw(sr.s, old(start(sr.s, sr.p)) + 1, "") && sr.p == rawend(sr.s, old(start(sr.s, sr.p)) + 1)
  ensures [regexp] old(sr.p < len(sr.s) && at(sr.s, sr.p) == 47) ==> result.Type == regexpLiteral && result.Value == rlit(sr.s, old(start(sr.s, sr.p)) + 1, "") && sr.p == rlitend(sr.s, old(start(sr.s, sr.p)) + 1)
  ensures [dots] old(sr.p < len(sr.s) && at(sr.s, sr.p) == 46) ==> result.Type == ite(dots(sr.s, old(start(sr.s, sr.p))) == 3, dotdotdot, ite(dots(sr.s, old(start(sr.s, sr.p))) == 2, dotdot, 46)) && sr.p == old(start(sr.s, sr.p)) + dots(sr.s, old(start(sr.s, sr.p)))
  ensures [number] old(sr.p < len(sr.s) && isdec(at(sr.s, sr.p))) ==> result.Type == numtype(sr.s, old(start(sr.s, sr.p)) + 1, old(at(sr.s, sr.p)) == 48, 1) && result.Value == num(sr.s, old(start(sr.s, sr.p)) + 1, old(at(sr.s, sr.p)) == 48, 1, putr("", old(at(sr.s, sr.p)))) && sr.p == numend(sr.s, old(start(sr.s, sr.p)) + 1, old(at(sr.s, sr.p)) == 48, 1)
  ensures [signed] old(sr.p < len(sr.s) && issign(at(sr.s, sr.p))) ==> result.Type == numtype(sr.s, old(start(sr.s, sr.p)) + 2, runeat(sr.s, old(start(sr.s, sr.p)) + 1) == 48, 1) && result.Value == num(sr.s, old(start(sr.s, sr.p)) + 2, runeat(sr.s, old(start(sr.s, sr.p)) + 1) == 48, 1, putr(signed(old(at(sr.s, sr.p))), runeat(sr.s, old(start(sr.s, sr.p)) + 1))) && sr.p == numend(sr.s, old(start(sr.s, sr.p)) + 2, runeat(sr.s, old(start(sr.s, sr.p)) + 1) == 48, 1)
  ensures [identifier] old(sr.p < len(sr.s) && isident(at(sr.s, sr.p)) && !isdec(at(sr.s, sr.p))) ==> result.Type == identifier && result.Value == ident(sr.s, old(start(sr.s, sr.p)) + 1, putr("", old(at(sr.s, sr.p)))) && sr.p == identend(sr.s, old(start(sr.s, sr.p)) + 1)
  loop 1 invariant rdr(sr) && (ended(sr) <==> old(ended(sr)))
  loop 1 invariant start(sr.s, sr.p) == start(sr.s, old(sr.p)) && (old(sr.p) < len(sr.s) ==> sr.p <= len(sr.s))

# --- printing. quoted is the text that strconv.Quote produces: a literal that stands for the string (trusted, as documented)
spec quoted(x string) string
axiom quoted_is_literal: forall x string {quoted(x)} :: len(quoted(x)) > 1 && runeat(quoted(x), 0) == 34 && sizeat(quoted(x), 0) == 1 && litok(quoted(x), 1, 34) && lit(quoted(x), 1, 34, "") == x && litend(quoted(x), 1, 34) == len(quoted(x))
# reading the text from its start gives the literal token (by the contract of nextToken) with the string itself
lemma C13_literal props C13: forall x string {quoted(x)} :: mention(start(quoted(x), 0)) && mention(runeat(quoted(x), 0)) ==> start(quoted(x), 0) == 0 && at(quoted(x), 0) == 34 && lit(quoted(x), start(quoted(x), 0) + 1, 34, "") == x && litend(quoted(x), start(quoted(x), 0) + 1, 34) == len(quoted(x))
extern strconv.Quote(s) props C13
  pure
  returns quoted(s)
spec decimal(i int) string
extern strconv.FormatInt(i, base) props C13
  pure
  ensures base == 10 ==> result == decimal(i)

package stringer
spec exactof(t Val) Val
spec txtof(v Val) string
extern in stringer dgo.ExactType.ExactValue() props C13
  pure
  ensures result == exactof(self)
extern in stringer dgo.Value.String() props C13
  pure
  ensures result == txtof(self)
func (*typeBuilder).writeSizeBoundaries(min, max) props C13
  private
  requires self.Writer != nil
  modifies self.$s
  ensures [text] self.$s == ite(max == math.MaxInt64, puts(old(self.$s), decimal(min)), puts(putb(puts(old(self.$s), decimal(min)), 44), decimal(max)))
# a range is printed so that it can be read: without the bounds that are not there, but never without both when it is exclusive
define rangeop(incl bool) string = ite(incl, "..", "...")
func (*typeBuilder).writeIntRange(min, max, inclusive) props C13
  private
  requires self.Writer != nil
  modifies self.$s
  ensures [lower] min != math.MinInt64 || max == math.MaxInt64 ==> self.$s == ite(max == math.MaxInt64, puts(puts(old(self.$s), decimal(min)), rangeop(inclusive)), puts(puts(puts(old(self.$s), decimal(min)), rangeop(inclusive)), decimal(max)))
  ensures [nolower] min == math.MinInt64 && max != math.MaxInt64 ==> self.$s == puts(puts(old(self.$s), rangeop(inclusive)), decimal(max))
spec decimalf(f float64) string
extern util.Ftoa(f) props C13
  pure
  ensures result == decimalf(f)
func (*typeBuilder).writeFloatRange(min, max, inclusive) props C13
  private
  requires self.Writer != nil
  modifies self.$s
  ensures [lower] min != -math.MaxFloat64 || max == math.MaxFloat64 ==> self.$s == ite(max == math.MaxFloat64, puts(puts(old(self.$s), decimalf(min)), rangeop(inclusive)), puts(puts(puts(old(self.$s), decimalf(min)), rangeop(inclusive)), decimalf(max)))
  ensures [nolower] min == -math.MaxFloat64 && max != math.MaxFloat64 ==> self.$s == puts(puts(old(self.$s), rangeop(inclusive)), decimalf(max))
func (*typeBuilder).stringExact(typ, _) props C13
  private
  requires self.Writer != nil
  maypanic any
  modifies self.$s
  ensures [quoted] self.$s == puts(old(self.$s), quoted(txtof(exactof(typ))))
func (*typeBuilder).regexpExact(typ, _) props C13
  private
  requires self.Writer != nil
  maypanic any
  modifies self.$s
  ensures [quoted] self.$s == putb(puts(putb(puts(old(self.$s), tiname(typ)), 91), quoted(txtof(exactof(typ)))), 93)
func (*typeBuilder).timeExact(typ, _) props C13
  private
  requires self.Writer != nil
  maypanic any
  modifies self.$s
  ensures [quoted] self.$s == putb(puts(putb(puts(old(self.$s), tiname(typ)), 91), quoted(txtof(exactof(typ)))), 93)
func (*typeBuilder).ciString(typ, _) props C13
  private
  requires self.Writer != nil
  maypanic any
  modifies self.$s
  ensures [quoted] self.$s == puts(putb(old(self.$s), 126), quoted(txtof(exactof(typ))))
func (*typeBuilder).exactValue(typ, _) props C13
  private
  requires self.Writer != nil
  maypanic any
  modifies self.$s
  ensures [text] self.$s == puts(old(self.$s), txtof(exactof(typ)))
spec tiname(t Val) string
spec tiof(t Val) int
spec tistr(i int) string
extern in stringer dgo.Type.TypeIdentifier() props C13
  pure
  ensures result == tiof(self)
extern dgo.TypeIdentifier.String() props C13
  maypanic any
  ensures result == tistr(self)
axiom tiname_def: forall t Val {tiname(t)} :: tiname(t) == tistr(tiof(t))
func isIdentifier(s) props C13
  private
  pure
  returns forall i int {s[i]} :: 0 <= i && i < len(s) ==> identbyte(s[i], i)
  loop 1 invariant 0 <= i && i <= len(s) && (forall j int {s[j]} :: 0 <= j && j < i ==> identbyte(s[j], j))
define identbyte(c, i int) bool = c == 95 || c == 36 || 97 <= c && c <= 122 || 65 <= c && c <= 90 || i > 0 && 48 <= c && c <= 57

package parser
package stringer

package parser
# --- the parser: a stream of tokens and a stack of values. Every production leaves the stack as it was, with one value
# added (so that no operand is lost or taken twice). The stream (peek does not consume) is trusted here.
ghostfield Base.$n int
spec tok(b *parser.Base; k int) *parser.Token
extern (*Base).NextToken() props C13
  modifies self.$n, self.pe, self.lt
  maypanic any
  ensures result != nil && result == tok(self, old(self.$n)) && self.$n == old(self.$n) + 1
extern (*Base).PeekToken() props C13
  modifies self.pe, self.lt
  maypanic any
  ensures result != nil && result == tok(self, self.$n)
func (*Base).Append(v) props C13
  private
  modifies self.d, elems(self.d)
  ensures [added] len(self.d) == old(len(self.d)) + 1 && self.d[old(len(self.d))] == v
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [some] len(self.d) > 0
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*Base).AppendFrom(pos, v) props C13
  private
  requires 0 <= pos && pos <= len(self.d)
  modifies self.d, elems(self.d)
  ensures [added] len(self.d) == pos + 1 && self.d[pos] == v
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < pos ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*Base).PopLast() props C13
  private
  requires len(self.d) > 0
  modifies self.d
  ensures [last] result == old(self.d[len(self.d) - 1])
  ensures [popped] len(self.d) == old(len(self.d)) - 1 
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < len(self.d) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
spec parsedint(s string) int
spec parsedfloat(s string) float64
extern strconv.ParseInt(s, base, bits) props C13
  ensures base == 0 && bits == 64 ==> result == parsedint(s)
extern strconv.ParseFloat(s, bits) props C13
  ensures bits == 64 ==> same(result, parsedfloat(s))
func tokenInt(t) props C13
  private
  requires t != nil
  ensures [parsed] result == parsedint(t.Value)
func tokenFloat(t) props C13
  private
  requires t != nil
  ensures [parsed] same(result, parsedfloat(t.Value))
spec intrange(lo, hi int; incl bool) Val
spec floatrange(lo, hi float64; incl bool) Val
extern in parser internal.IntegerType(min, max, inclusive) props C13
  maypanic any
  ensures result == intrange(min, max, inclusive)
extern in parser internal.FloatType(min, max, inclusive) props C13
  maypanic any
  ensures result == floatrange(min, max, inclusive)
extern badSyntax(t, state) props C13
  maypanic any
  ensures result != nil
spec intlit(i int) Val
spec floatlit(f float64) Val
extern in parser internal.Integer(i) props C13
  pure
  ensures result == intlit(i)
extern in parser internal.Float(f) props C13
  pure
  ensures result == floatlit(f)
define isdots(t int) bool = t == dotdot || t == dotdotdot
func (*parser).integer(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt
  maypanic any
  ensures [plain] !isdots(tok(self, old(self.$n)).Type) ==> result == intlit(parsedint(t.Value)) && self.$n == old(self.$n)
  ensures [bounded] isdots(tok(self, old(self.$n)).Type) && tok(self, old(self.$n) + 1).Type == integer ==> result == intrange(parsedint(t.Value), parsedint(tok(self, old(self.$n) + 1).Value), tok(self, old(self.$n)).Type == dotdot) && self.$n == old(self.$n) + 2
  ensures [mixed] isdots(tok(self, old(self.$n)).Type) && tok(self, old(self.$n) + 1).Type == float ==> result == floatrange(i2f(parsedint(t.Value)), parsedfloat(tok(self, old(self.$n) + 1).Value), tok(self, old(self.$n)).Type == dotdot) && self.$n == old(self.$n) + 2
  ensures [open] isdots(tok(self, old(self.$n)).Type) && tok(self, old(self.$n) + 1).Type != integer && tok(self, old(self.$n) + 1).Type != float ==> result == intrange(parsedint(t.Value), math.MaxInt64, tok(self, old(self.$n)).Type == dotdot) && self.$n == old(self.$n) + 1
func (*parser).float(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt
  maypanic any
  ensures [plain] !isdots(tok(self, old(self.$n)).Type) ==> result == floatlit(parsedfloat(t.Value)) && self.$n == old(self.$n)
  ensures [bounded] isdots(tok(self, old(self.$n)).Type) && (tok(self, old(self.$n) + 1).Type == integer || tok(self, old(self.$n) + 1).Type == float) ==> result == floatrange(parsedfloat(t.Value), parsedfloat(tok(self, old(self.$n) + 1).Value), tok(self, old(self.$n)).Type == dotdot) && self.$n == old(self.$n) + 2
  ensures [open] isdots(tok(self, old(self.$n)).Type) && tok(self, old(self.$n) + 1).Type != integer && tok(self, old(self.$n) + 1).Type != float ==> result == floatrange(parsedfloat(t.Value), math.MaxFloat64, tok(self, old(self.$n)).Type == dotdot) && self.$n == old(self.$n) + 1
func (*parser).dotRange(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt
  maypanic any
  ensures [integer] tok(self, old(self.$n)).Type == integer ==> result == intrange(math.MinInt64, parsedint(tok(self, old(self.$n)).Value), t.Type == dotdot)
  ensures [float] tok(self, old(self.$n)).Type == float ==> result == floatrange(-math.MaxFloat64, parsedfloat(tok(self, old(self.$n)).Value), t.Type == dotdot)
  ensures [read] self.$n == old(self.$n) + 1
# --- stack: every production adds exactly one value (to what the type is made of: bounded, harness)
extern in parser internal.AnyOfType(ts) props C13
  maypanic any
  requires len(ts) >= 2
  ensures result != nil
extern in parser internal.OneOfType(ts) props C13
  maypanic any
  requires len(ts) >= 2
  ensures result != nil
extern in parser internal.AllOfType(ts) props C13
  maypanic any
  requires len(ts) >= 2
  ensures result != nil
extern in parser internal.NotType(t) props C13
  maypanic any
  ensures result != nil
extern in parser internal.CiStringType(s) props C13
  maypanic any
  ensures result != nil
extern in parser internal.ArrayType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.MapType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.MetaType(t) props C13
  maypanic any
  ensures result != nil
extern in parser internal.StringType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.BinaryType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.BinaryFromEncoded(a,b) props C13
  maypanic any
  ensures result != nil
extern in parser internal.SensitiveType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.Sensitive(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.ExactValue(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.TupleType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.VariadicTupleType(a) props C13
  maypanic any
  ensures result != nil
extern in parser internal.FunctionType(a,b) props C13
  maypanic any
  ensures result != nil
extern in parser internal.NewMapEntry(k,v) props C13
  maypanic any
  ensures result != nil
extern in parser internal.StructMapTypeUnresolved(a,b) props C13
  maypanic any
  ensures result != nil
extern in parser internal.StructMapEntry(a,b,c) props C13
  maypanic any
  ensures result != nil
extern in parser internal.PatternType(r) props C13
  maypanic any
  ensures result != nil
extern in parser internal.String(s) props C13
  maypanic any
  ensures result != nil
extern in parser internal.NamedType(s) props C13
  maypanic any
extern in parser internal.WrapSlice(s) props C13
  maypanic any
  ensures result != nil
extern in parser internal.Regexp(r) props C13
  maypanic any
  ensures result != nil
extern in parser internal.TimeFromString(s) props C13
  maypanic any
  ensures result != nil
extern in parser regexp.MustCompile(s) props C13
  maypanic any
  ensures result != nil
extern in parser dgo.Array.Copy(f) props C13
  maypanic any
extern in parser dgo.Array.InterfaceSlice() props C13
  maypanic any
extern in parser dgo.Array.AddAll(v) props C13
  maypanic any
extern in parser dgo.Array.Insert(i,v) props C13
  maypanic any
extern in parser dgo.NamedType.New(v) props C13
  maypanic any
extern in parser dgo.AliasAdder.GetType(v) props C13
  maypanic any
extern in parser dgo.AliasAdder.Add(t,s) props C13
  maypanic any
extern in parser dgo.String.GoString() props C13
  maypanic any
extern in parser dgo.ArrayType.ElementType() props C13
  maypanic any
extern isExpressionEnd(r) props C13
  pure
extern in parser dgo.Value.Type() props C13
  pure
  ensures result == typeofv(self)
extern NewAlias(s) props C13
  ensures result != nil
extern makeStructType(as, ellipsis) props C13
  maypanic any
extern makeTupleType(as, variadic) props C13
  maypanic any
  ensures result != nil
spec typeofv(v Val) Val
func allTypes(a) props C13
  private
  maypanic any
  ensures [all] len(result) == len(a) && (forall i int {result[i]} :: 0 <= i && i < len(a) ==> result[i] == ite(is(a[i], dgo.Type), a[i], typeofv(a[i])))
  loop 1 invariant 0 <= i && i <= l && l == len(a) && len(c) == len(a) && fresh(c) && (forall j int {c[j]} :: 0 <= j && j < i ==> c[j] == ite(is(a[j], dgo.Type), a[j], typeofv(a[j])))
func (*parser).anyOf(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
  loop 1 invariant len(self.d) > old(len(self.d)) && szp == old(len(self.d)) && (forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])) && (fresh(self.d) || arr(self.d) == old(arr(self.d)))
func (*parser).oneOf(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
  loop 1 invariant len(self.d) > old(len(self.d)) && szp == old(len(self.d)) && (forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])) && (fresh(self.d) || arr(self.d) == old(arr(self.d)))
func (*parser).allOf(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
  loop 1 invariant len(self.d) > old(len(self.d)) && szp == old(len(self.d)) && (forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])) && (fresh(self.d) || arr(self.d) == old(arr(self.d)))
func (*parser).unary(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
func (*parser).typeExpression(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
func (*parser).list(endChar) props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
  loop 1 invariant len(self.d) >= old(len(self.d)) && szp == old(len(self.d)) && (forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])) && (fresh(self.d) || arr(self.d) == old(arr(self.d)))
func (*parser).params() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
  loop 1 invariant len(self.d) >= old(len(self.d)) && szp == old(len(self.d)) && (forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])) && (fresh(self.d) || arr(self.d) == old(arr(self.d)))
func (*parser).arrayElement(t, expectEntry) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [one] len(self.d) == old(len(self.d)) + 1
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
  ensures [some] len(self.d) > 0
func (*parser).mapExpression() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).meta() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).string() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).binary() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).sensitive() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).funcExpression() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).array() props C13
  private
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).exactLiteral(dflt, create) props C13
  private
  modifies self.$n, self.pe, self.lt
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).identifier(t, returnUnknown) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).namedType(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).aliasReference(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))
func (*parser).aliasDeclaration(t) props C13
  private
  requires t != nil
  modifies self.$n, self.pe, self.lt, self.d, elems(self.d)
  maypanic any
  ensures [none] len(self.d) == old(len(self.d))
  ensures [kept] forall i int {self.d[i]} :: 0 <= i && i < old(len(self.d)) ==> self.d[i] == old(self.d[i])
  ensures [storage] fresh(self.d) || arr(self.d) == old(arr(self.d))

bounded props C13 grammar "that each production builds the type that its text denotes (Parse, list, arrayElement, makeTupleType, makeStructType, mapExpression and so on) and the precedence of operators: round trips of every pair of constructors, all kinds of keys and random nestings of depth 3 in the harness"
package stringer
bounded props C13 composite "array, tuple, map, struct, function, sensitive, meta, not, binary, pattern and the combinators with their priorities (buildTypeString, writeTernary, joinX, writeTupleArgs): the same round trips"
