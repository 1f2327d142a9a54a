package grate

// ---- C23: opening a file ----
define tabok() = forall(k, 0, len(srcTable), srcTable[k] != nil && srcTable[k].op != nil)
define RES(k) = app("dyn$func_filename_string___github.com_pbnjay_grate.Source__error_#0", Iface, srcTable[k].op, filename)
define ERR(k) = app("dyn$func_filename_string___github.com_pbnjay_grate.Source__error_#1", Iface, srcTable[k].op, filename)
define NIF(x) = x != nil && errors.Is(x, ErrNotInFormat)

func Open
requires tabok()
inv forall(k, 0, done, NIF(ERR(k)))
ensures [C23] exists(k, 0, len(srcTable), forall(j, 0, k, NIF(ERR(j))) && !NIF(ERR(k)) && r1 == ERR(k) && imp(r1 == nil, r0 == RES(k))) || (forall(k, 0, len(srcTable), NIF(ERR(k))) && r1 == ErrUnknownFormat)

func Register
requires tabok() && opener != nil && len(srcTable) < 1000000
modifies everything
ensures [C23] r0 == nil && tabok() && len(srcTable) == old(len(srcTable)) + 1
ensures [C23] forall(i, 0, len(srcTable), forall(j, i, len(srcTable), srcTable[i].pri <= srcTable[j].pri))
ensures [C23] exists(k, 0, len(srcTable), srcTable[k].op == opener && srcTable[k].pri == priority && srcTable[k].name == name)
ensures [C23] forall(k, 0, old(len(srcTable)), exists(j, 0, len(srcTable), srcTable[j] == old(srcTable[k])))
ensures [C23] forall(k, 0, old(len(srcTable)), old(srcTable[k]).pri == old(srcTable[k].pri) && old(srcTable[k]).op == old(srcTable[k].op))

func WrapErr
ensures imp(len(e) > 1, r0 != nil)
ensures [C23] imp(len(e) == 0, r0 == nil) && imp(len(e) == 1, r0 == e[0])
ensures [C23] imp(len(e) > 1, typeis(r0, errx) && len(as(r0, errx).errs) == len(e) && forall(k, 0, len(e), as(r0, errx).errs[k] == e[k]))
func errx.Is
inv forall(k, 0, done, !errors.Is(e.errs[k], target))
ensures [C23] iff(r0, exists(k, 0, len(e.errs), errors.Is(e.errs[k], target)))
func errx.Error
requires len(e.errs) > 0 && e.errs[0] != nil
func errx.Unwrap
ensures [C23] imp(len(e.errs) > 1, r0 == e.errs[1]) && imp(len(e.errs) <= 1, r0 == nil)
