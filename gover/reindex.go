package main

// Quantified facts are printed over the array index itself: a fact about A[o+k] for all k becomes one
// about A[j] with k = j-o, so that matching does not depend on the shape of index sums.

func hasAnyOp(t *Term, ops map[string]bool, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if ops[t.op] {
		return true
	}
	for _, a := range t.args {
		if hasAnyOp(a, ops, seen) {
			return true
		}
	}
	return false
}

var noPat = map[string]bool{"ite": true, "forall": true, "exists": true, "and": true, "or": true, "not": true, "=>": true, "=": true, "<=": true}

func containsTerm(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if containsTerm(a, x, seen) {
			return true
		}
	}
	return false
}

// innerVars: the variables quantified inside t
func innerVars(t *Term, out, seen map[*Term]bool) {
	if seen[t] || !t.bound && t.op != "forall" && t.op != "exists" {
		return
	}
	seen[t] = true
	for _, b := range t.bv {
		out[b] = true
	}
	for _, a := range t.args {
		innerVars(a, out, seen)
	}
}

func containsAny(t *Term, xs, seen map[*Term]bool) bool {
	if xs[t] {
		return true
	}
	if seen[t] || !t.bound {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if containsAny(a, xs, seen) {
			return true
		}
	}
	return false
}

// offsetOf: idx = v + rest with rest free of v
func offsetOf(idx, v *Term) (*Term, bool) {
	r := mkSub(idx, v)
	if containsTerm(r, v, map[*Term]bool{}) {
		return nil, false
	}
	return r, true
}

type reindexer struct{ memo [2]map[*Term]*Term }

func (r *reindexer) do(t *Term, pos bool) *Term {
	p := 0
	if pos {
		p = 1
	}
	if x, ok := r.memo[p][t]; ok {
		return x
	}
	x := r.do1(t, pos)
	r.memo[p][t] = x
	return x
}

func (r *reindexer) do1(t *Term, pos bool) *Term {
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = r.do(a, pos)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return mkAnd(as...)
		}
		return mkOr(as...)
	case "=>":
		a, b := r.do(t.args[0], !pos), r.do(t.args[1], pos)
		if a == t.args[0] && b == t.args[1] {
			return t
		}
		return mkImp(a, b)
	case "not":
		a := r.do(t.args[0], !pos)
		if a == t.args[0] {
			return t
		}
		return mkNot(a)
	case "forall", "exists":
		if (t.op == "forall") != pos || len(t.pats) > 0 {
			return t
		}
		body := r.do(t.args[0], pos)
		if len(t.bv) != 1 || t.bv[0].sort != sInt {
			if body == t.args[0] {
				return t
			}
			return mkQuant(t.op, t.bv, body)
		}
		v := t.bv[0]
		inner := map[*Term]bool{}
		innerVars(body, inner, map[*Term]bool{})
		closed := func(x *Term) bool { return !x.bound || len(inner) == 0 || !containsAny(x, inner, map[*Term]bool{}) }
		var rests []*Term
		seen := map[*Term]bool{}
		var walk func(x *Term)
		walk = func(x *Term) {
			if seen[x] || !x.bound {
				return
			}
			seen[x] = true
			var arr, idx *Term
			if x.op == "select" && x.args[1].sort == sInt {
				arr, idx = x.args[0], x.args[1]
			} else if x.op == "app" && x.name == "qat" {
				arr, idx = x.args[0], x.args[1]
			}
			if arr != nil && idx.bound && !containsTerm(arr, v, map[*Term]bool{}) && closed(arr) {
				if o, ok := offsetOf(idx, v); ok && closed(o) {
					have := false
					for _, y := range rests {
						have = have || y == o
					}
					if !have {
						rests = append(rests, o)
					}
				}
			}
			for _, a := range x.args {
				walk(a)
			}
		}
		walk(body)
		if len(rests) == 0 || len(rests) > 4 {
			if body == t.args[0] {
				return t
			}
			return mkQuant(t.op, t.bv, body)
		}
		var out []*Term
		for _, o := range rests {
			j := freshBound("j", sInt)
			b := subst(body, map[*Term]*Term{v: mkSub(j, o)}, map[*Term]*Term{})
			var pats [][]*Term
			seen := map[*Term]bool{}
			var find func(x *Term)
			find = func(x *Term) {
				if seen[x] || !x.bound {
					return
				}
				seen[x] = true
				if (x.op == "select" && x.args[1] == j || x.op == "app" && x.name == "qat" && x.args[1] == j) && !containsTerm(x.args[0], j, map[*Term]bool{}) && closed(x.args[0]) && !hasAnyOp(x.args[0], noPat, map[*Term]bool{}) {
					pats = append(pats, []*Term{x})
				}
				for _, a := range x.args {
					find(a)
				}
			}
			find(b)
			if len(pats) == 0 || len(pats) > 6 {
				continue
			}
			out = append(out, mkQuant(t.op, []*Term{j}, b, pats...))
		}
		if len(out) == 0 {
			if body == t.args[0] {
				return t
			}
			return mkQuant(t.op, t.bv, body)
		}
		if t.op == "forall" {
			return mkAnd(out...)
		}
		return mkOr(out...)
	}
	return t
}
