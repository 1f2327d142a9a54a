package simple

// ---- C25: delimited text ----
define rowok(t) = 0 <= t.iterRow && t.iterRow < len(t.rows)
func simpleFile.Next
requires t.iterRow < 1000000000 && -1 <= t.iterRow
modifies t.iterRow
ensures [C25] t.iterRow == old(t.iterRow) + 1 && iff(r0, t.iterRow < len(t.rows))
func simpleFile.Strings
requires rowok(t)
ensures [C25] sameslice(r0, t.rows[t.iterRow])
func simpleFile.Types
requires rowok(t)
inv forall(k, 0, done, res[k] == ite(t.rows[t.iterRow][k] == "", "blank", "string"))
ensures [C25] len(r0) == len(t.rows[t.iterRow]) && forall(k, 0, len(r0), r0[k] == ite(t.rows[t.iterRow][k] == "", "blank", "string"))
func simpleFile.Formats
requires rowok(t)
inv forall(k, 0, done, res[k] == "General")
ensures [C25] len(r0) == len(t.rows[t.iterRow]) && forall(k, 0, len(r0), r0[k] == "General")
define sdest(a) = typeis(a, *bool) || typeis(a, *int) || typeis(a, *float64) || typeis(a, *string)
define sdestok(a) = imp(typeis(a, *bool), as(a, *bool) != nil) && imp(typeis(a, *int), as(a, *int) != nil) && imp(typeis(a, *float64), as(a, *float64) != nil) && imp(typeis(a, *string), as(a, *string) != nil)
func simpleFile.Scan
requires rowok(t) && forall(i, 0, len(args), sdestok(args[i]))
modifies everything
inv forall(k, 0, done, sdest(args[k]))
ensures [C25] imp(r0 == nil, len(args) == old(len(t.rows[t.iterRow])) && forall(k, 0, len(args), sdest(args[k])))
func simpleFile.IsEmpty
ensures [C25] iff(r0, len(t.rows) == 0)
func simpleFile.Get
ensures [C25] r1 == nil && typeis(r0, *simpleFile) && as(r0, *simpleFile) == t

// every line becomes one row, the earlier rows stay
define KEEP(t) = forall(j, 0, head(len(t.rows)), sameslice(t.rows[j], head(t.rows[j])))
func OpenTSV
modifies everything
loop 1 inv t.iterRow == -1 && t.filename == filename && total == len(t.rows)
at call strings.Split assert [C25] a0 == app("scantext", Seq, s, toks) && a1 == "\t"
loop 1 step [C25] len(t.rows) == head(len(t.rows)) + 1 && KEEP(t)
loop 1 step [C25] len(t.rows[head(len(t.rows))]) == app("split$len", Int, app("scantext", Seq, s, toks), "\t")
loop 1 step [C25] arr(t.rows[head(len(t.rows))]) == app("split$arr", SeqArr, app("scantext", Seq, s, toks), "\t") && off(t.rows[head(len(t.rows))]) == 0
ensures [C25] imp(r1 == nil, typeis(r0, *simpleFile) && as(r0, *simpleFile).iterRow == -1 && as(r0, *simpleFile).filename == filename)

func OpenCSV
modifies everything
loop 1 inv t.iterRow == -1 && t.filename == filename && total == len(t.rows)
loop 1 decreases ite(err == nil, 1, 0), toks
loop 1 step [C25] len(t.rows) == head(len(t.rows)) + 1 && KEEP(t)
loop 1 step [C25] sameslice(t.rows[head(len(t.rows))], head(rec)) && forall(k, 0, len(head(rec)), t.rows[head(len(t.rows))][k] == head(rec[k]))
ensures [C25] imp(r1 == nil, typeis(r0, *simpleFile) && as(r0, *simpleFile).iterRow == -1 && as(r0, *simpleFile).filename == filename)
