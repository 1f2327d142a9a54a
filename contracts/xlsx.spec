package xlsx

// ---- C14: cell references ----
// the value of the first n letters of a column, in bijective base 26
ghostfunc colv(Seq, Int) Int
axiom colv0 (S Seq) {app("gh.colv", Int, S, 0)} colv(S, 0) == 0
axiom colvn (S Seq, n Int) {app("qat", Int, S, n)} imp(0 <= n, colv(S, n + 1) == 26 * colv(S, n) + app("qat", Int, S, n) - 64)
define letter(c) = 65 <= int(c) && int(c) <= 90

func col2int
inv forall(k, 0, done, letter(col[k]) && colv(seq(col), k + 1) <= 16384) && idx == colv(seq(col), done) && 0 <= idx && idx <= 16384
ensures [C14] imp(r0 >= 0, r0 == colv(seq(col), len(col)) - 1 && r0 < 16384 && forall(k, 0, len(col), letter(col[k]) && colv(seq(col), k + 1) <= 16384))
ensures [C14] imp(r0 < 0, r0 == -1 && (len(col) == 0 || exists(k, 0, len(col), !letter(col[k]) || colv(seq(col), k + 1) > 16384)))

define isdig(c) = 48 <= int(c) && int(c) <= 57
define ROWOF(s) = app("strconv.ParseInt#0", Int, s, 10, 64)
define ROWOK(s) = app("strconv.ParseInt#1", Iface, s, 10, 64) == nil && 1 <= ROWOF(s) && ROWOF(s) <= 1048576
define ABS0(r) = ite(int(r[0]) == 36, 1, 0)
define ABS1(r, i) = ite(int(r[i-1]) == 36 && i - 1 >= ABS0(r), 1, 0)
define COL(r, i) = r[ABS0(r) : i - ABS1(r, i)]
define COLOK(s) = len(s) > 0 && forall(k, 0, len(s), letter(s[k]) && colv(seq(s), k + 1) <= 16384)
// i is the first digit, the rest holds no C: an A1 reference
define A1AT(r, i) = isdig(r[i]) && forall(k, 0, i, !isdig(r[k])) && forall(k, i, len(r), int(r[k]) != 67)
func refToIndexes
ensures [C14] (column == -1 && row == -1) || (0 <= column && column < 16384 && 0 <= row && row < 1048576)
ensures [C14] imp(forall(k, 0, len(r), !isdig(r[k])), column == -1)
ensures [C14] imp(len(r) > 0 && isdig(r[0]), column == -1)
ensures [C14] forall(i, 1, len(r), imp(A1AT(r, i) && column >= 0, ROWOK(r[i:]) && COLOK(COL(r, i))))
ensures [C14] forall(i, 1, len(r), imp(A1AT(r, i) && column < 0, !ROWOK(r[i:]) || !COLOK(COL(r, i))))
ensures [C14] forall(i, 1, len(r), imp(A1AT(r, i) && column >= 0, row == ROWOF(r[i:]) - 1 && column == colv(seq(COL(r, i)), len(COL(r, i))) - 1))
