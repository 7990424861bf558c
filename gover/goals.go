package main

import (
	"math/big"
)

// refSimp enables the use of allocation order facts in ge0 and =.
var refSimp bool

// refLin decides a-b+k >= 0 for references a, b (lin with two unit atoms) from allocation order.
func refLin(t *Term) (val, known bool) {
	if t.op != "lin" || len(t.args) != 2 {
		return
	}
	var a, b *Term
	for i, c := range t.coef {
		if c.Cmp(big.NewInt(1)) == 0 {
			a = t.args[i]
		} else if c.Cmp(big.NewInt(-1)) == 0 {
			b = t.args[i]
		}
	}
	if a == nil || b == nil {
		return
	}
	// a + k >= b ?
	ak := Add(a, IntB(t.val))
	if refLe(b, ak) || refLe(Sub(b, IntB(t.val)), a) {
		return true, true
	}
	if refLt(ak, b) || refLt(a, Sub(b, IntB(t.val))) {
		return false, true
	}
	return
}

// Goal is one case of a proof obligation.
type Goal struct {
	extra []*Term
	goal  *Term
}

func typeSelects(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		typeSelects(a, seen)
	}
	if t.op == "select" && !t.free {
		if b, ok := arrBound[t.args[0]]; ok {
			if _, ok := refUB[t]; !ok {
				refUB[t] = b
				factsOf[t] = append(factsOf[t], mk("ge0", "", "Bool", nil, nil, []*Term{Sub(b, t)}, nil))
			}
		}
		if k, ok := arrKind[t.args[0]]; ok && (k == "ref" || k == "tag" || k == "nat") && !nonnegAtom[t] {
			factsOf[t] = append(factsOf[t], mk("ge0", "", "Bool", nil, nil, []*Term{t}, nil))
			nonnegAtom[t] = true
		}
	}
}

var arrKind = map[*Term]string{}

func resubst(t *Term, m map[*Term]*Term) *Term {
	t = subst(t, m, map[*Term]*Term{})
	typeSelects(t, map[*Term]bool{})
	old := refSimp
	refSimp = true
	t = rebuildAll(t, map[*Term]*Term{})
	refSimp = old
	return t
}

// rebuildAll re-applies the simplifying constructors bottom up.
func rebuildAll(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = rebuildAll(a, memo)
	}
	var tr [][]*Term
	for _, p := range t.trig {
		var q []*Term
		for _, a := range p {
			q = append(q, rebuildAll(a, memo))
		}
		tr = append(tr, q)
	}
	r := rebuild(t, as, tr)
	memo[t] = r
	return r
}

// goals splits a goal into cases whose conjunction implies it.
func goals(g *Term) []Goal {
	var out []Goal
	splitGoal(nil, g, 0, &out)
	return out
}

func splitGoal(ex []*Term, g *Term, d int, out *[]Goal) {
	if g == tTrue {
		return
	}
	for _, e := range ex {
		if e == tFalse || e == g {
			return
		}
	}
	switch g.op {
	case "and":
		for _, a := range g.args {
			splitGoal(ex, a, d, out)
		}
		return
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.args[1:] {
			c := Fresh("sk", v.sort)
			skolems[c] = true
			m[v] = c
		}
		splitGoal(ex, resubst(g.args[0], m), d, out)
		return
	case "or":
		// assume the negations of all but one argument
		pick := -1
		for i, a := range g.args {
			if a.op == "and" || a.op == "forall" || a.op == "not" && a.args[0].op == "or" && false {
				if pick < 0 || a.op == "and" && g.args[pick].op == "forall" {
					pick = i
				}
			}
		}
		if pick >= 0 {
			ex2 := append([]*Term{}, ex...)
			for i, a := range g.args {
				if i != pick {
					n := Not(a)
					if n.op == "and" {
						ex2 = append(ex2, n.args...)
					} else {
						ex2 = append(ex2, n)
					}
				}
			}
			splitGoal(ex2, g.args[pick], d, out)
			return
		}
		// quantified hypotheses become facts
		for i, a := range g.args {
			if a.op == "not" && (a.args[0].op == "forall" || a.args[0].op == "and") {
				rest := append([]*Term{}, g.args[:i]...)
				rest = append(rest, g.args[i+1:]...)
				hyp := []*Term{a.args[0]}
				if a.args[0].op == "and" {
					hyp = a.args[0].args
				}
				splitGoal(append(append([]*Term{}, ex...), hyp...), Or(rest...), d, out)
				return
			}
		}
	case "not":
		if g.args[0].op == "or" {
			for _, a := range g.args[0].args {
				splitGoal(ex, Not(a), d, out)
			}
			return
		}
	}
	if d < 4 {
		if s := storeSelect(g, map[*Term]bool{}); s != nil {
			k, i := s.args[0].args[1], s.args[1]
			v := i
			if !skolems[v] {
				v = nil
			}
			if v != nil && !mentions(k, v) {
				// case i = k
				m := map[*Term]*Term{v: k}
				ex2 := make([]*Term, len(ex))
				for j, e := range ex {
					ex2[j] = resubst(e, m)
				}
				splitGoal(ex2, resubst(g, m), d+1, out)
				// case i != k
				m2 := map[*Term]*Term{}
				collectSS(g, k, v, m2, map[*Term]bool{})
				ex3 := append(append([]*Term{}, ex...), Not(Eq(v, k)))
				splitGoal(ex3, resubst(g, m2), d+1, out)
				return
			}
		}
	}
	*out = append(*out, Goal{ex, g})
}

var skolems = map[*Term]bool{}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// storeSelect finds select(store(a,k,_), i) with a skolem constant i
func storeSelect(t *Term, seen map[*Term]bool) *Term {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.op == "select" && t.args[0].op == "store" && skolems[t.args[1]] && !mentions(t.args[0].args[1], t.args[1]) {
		return t
	}
	for _, a := range t.args {
		if r := storeSelect(a, seen); r != nil {
			return r
		}
	}
	return nil
}

// collectSS maps select(store(a,k,_),i) to select(a,i)
func collectSS(t, k, i *Term, m map[*Term]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "select" && t.args[1] == i {
		a := t.args[0]
		for a.op == "store" && a.args[1] == k {
			a = a.args[0]
		}
		if a != t.args[0] {
			m[t] = Select(a, i)
			return
		}
	}
	for _, a := range t.args {
		collectSS(a, k, i, m, seen)
	}
}

// goalQueries renders the cases of facts => g.
func goalQueries(facts []*Term, g *Term) []string {
	var qs []string
	for _, c := range goals(g) {
		fs := facts
		if len(c.extra) > 0 {
			fs = append(append([]*Term{}, facts...), c.extra...)
		}
		trivial := false
		for _, f := range fs {
			if f == c.goal {
				trivial = true
			}
		}
		if !trivial {
			if in := shiftInstances(fs, c.goal); len(in) > 0 {
				fs = append(append([]*Term{}, fs...), in...)
			}
			qs = append(qs, query(fs, c.goal))
		}
	}
	return qs
}

func solveAll(qs []string, level, secs int) SolveResult {
	res := SolveResult{Proved: true, By: "simplifier"}
	rs := make([]SolveResult, len(qs))
	done := make(chan int)
	for i := range qs {
		i := i
		go func() { rs[i] = solve(qs[i], level, secs); done <- i }()
	}
	for range qs {
		<-done
	}
	for _, r := range rs {
		res.Secs += r.Secs
		if !r.Proved {
			res.Proved = false
			res.By = "no"
			res.Detail += r.Detail
		} else if res.Proved && (res.By == "simplifier" || r.By > res.By) {
			res.By = r.By
		}
	}
	return res
}

// shiftInstances instantiates quantified facts whose pattern is a selection at an index computed from the
// variable (an element of a slice that starts somewhere in its array): solvers match such patterns only
// syntactically. An instance of a fact is a fact.
func shiftInstances(facts []*Term, goal *Term) []*Term {
	type pat struct{ f, arr, idx, v *Term }
	var pats []pat
	for _, f := range facts {
		if f.op != "forall" || len(f.args) != 2 || f.args[1].sort != "Int" {
			continue
		}
		v := f.args[1]
		for _, tr := range f.trig {
			if len(tr) != 1 {
				continue
			}
			t := tr[0]
			for t.op == "select" && t.args[1] != v && !mentions(t.args[1], v) {
				t = t.args[0]
			}
			if t.op != "select" || t.args[1] == v || mentions(t.args[0], v) || t.args[0].free {
				continue
			}
			rest := subst(t.args[1], map[*Term]*Term{v: tZero}, map[*Term]*Term{})
			if Sub(subst(t.args[1], map[*Term]*Term{v: tOne}, map[*Term]*Term{}), rest) == tOne {
				pats = append(pats, pat{f, t.args[0], rest, v})
			}
		}
	}
	if len(pats) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	var sels []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && !t.free {
			sels = append(sels, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, f := range facts {
		walk(f)
	}
	walk(goal)
	have := map[*Term]bool{}
	for _, f := range facts {
		have[f] = true
	}
	var out []*Term
	// at the constants the goal was reduced to
	sks := map[*Term]bool{}
	var consts []*Term
	var find func(t *Term)
	find = func(t *Term) {
		if sks[t] {
			return
		}
		sks[t] = true
		if skolems[t] && t.sort == "Int" {
			consts = append(consts, t)
		}
		for _, a := range t.args {
			find(a)
		}
	}
	find(goal)
	done := map[*Term]bool{}
	for _, p := range pats {
		if done[p.f] {
			continue
		}
		done[p.f] = true
		for _, c := range consts {
			i := subst(p.f.args[0], map[*Term]*Term{p.v: c}, map[*Term]*Term{})
			if !have[i] && i != tTrue && len(out) < 40 {
				have[i] = true
				out = append(out, i)
			}
		}
	}
	for _, s := range sels {
		for _, p := range pats {
			if s.args[0] != p.arr || len(out) >= 60 {
				continue
			}
			i := subst(p.f.args[0], map[*Term]*Term{p.v: Sub(s.args[1], p.idx)}, map[*Term]*Term{})
			if !have[i] && i != tTrue {
				have[i] = true
				out = append(out, i)
			}
		}
	}
	return out
}
