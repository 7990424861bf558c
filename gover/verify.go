package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	Fn       string
	Contract string // file:line
	Props    []string
	Obls     []*Obl
	Paths    int
	Exits    int
	Calls    []string
	Inlined  []string
	Invs     []string
	Dead     []string // branches no path takes
	Error    string
	Secs     float64
	BranchQ  int
}

func verifyFn(prog *ssa.Program, sp *Specs, fn *ssa.Function, con *Contract) (rep *FnReport) {
	t0 := time.Now()
	con = sp.merged(con)
	x := &Exec{prog: prog, fset: prog.Fset, specs: sp, fn: fn, con: con, base: map[string]*HNode{}, called: map[string]bool{}, inlined: map[string]bool{}, defTags: con.Props}
	rep = &FnReport{Fn: con.Name, Contract: fmt.Sprintf("%s:%d", con.File, con.Line), Props: con.Props}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				rep.Error = u.msg + " at " + x.posStr(x.curPos)
			} else {
				rep.Error = fmt.Sprintf("internal: %v at %s\n%s", e, x.posStr(x.curPos), trunc(string(debug.Stack()), 3000))
			}
		}
		x.wg.Wait()
		rep.Obls = x.obls
		rep.Exits = x.exits
		rep.Calls = keys(x.called)
		rep.Inlined = keys(x.inlined)
		rep.Invs = x.loopInv
		rep.Dead = x.deadBranches()
		rep.Secs = time.Since(t0).Seconds()
		rep.BranchQ = x.branchQ
	}()
	A0 := Const("A0", "Int")
	nonnegAtom[A0] = true
	allocLB[A0] = Int(1000)
	factsOf[A0] = []*Term{mk("ge0", "", "Bool", nil, nil, []*Term{Sub(A0, Int(1000))}, nil)}
	st := &State{heap: map[string]*HNode{}, A: A0, env: map[vkey]Value{}, defers: map[int][]deferred{}}
	x.entry = &State{heap: map[string]*HNode{}, A: A0, env: map[vkey]Value{}, defers: map[int][]deferred{}}
	if len(fn.Params) != len(con.Params) {
		panic(fmt.Sprintf("contract %s names %d parameters, function has %d", con.Name, len(con.Params), len(fn.Params)))
	}
	vars := map[string]SV{}
	var args []Value
	for i, p := range fn.Params {
		v := freshVal(con.Params[i], p.Type(), A0)
		args = append(args, v)
		for _, f := range sliceFacts(v) {
			st.assume(f)
		}
		if s, ok := v.(Slice); ok && !strings.Contains(con.Opts["itermem"], con.Params[i]) {
			st.assume(mkGe(s.Ref, tZero))
		}
		vars[con.Params[i]] = goSV(v, p.Type())
	}
	if fn.Signature.Recv() != nil {
		if p, ok := args[0].(Ptr); ok {
			st.assume(Not(Eq(p.Base, tZero)))
		}
	}
	x.entry.pc = st.pc
	pre := &Env{x: x, st: x.entry, old: x.entry, vars: vars, pos: true}
	for _, c := range con.Clauses {
		switch c.kind {
		case "let":
			vars[c.name] = pre.eval(c.e)
		case "requires":
			t := pre.boolT(c.e)
			st.assume(t)
			if t.op == "ge0" && t.args[0].op != "lin" && !t.args[0].isInt() {
				// a term over the entry state: known for the whole function
				nonnegAtom[t.args[0]] = true
			}
		}
	}
	x.bind = vars
	x.entry.pc = st.pc
	// the precondition must be satisfiable
	if solve(query(st.facts(), tFalse), 0, quickSecs).Proved {
		x.fail("precondition satisfiable", "the precondition is contradictory")
		return
	}
	var allowed []GLoc
	for _, c := range con.Clauses {
		if c.kind == "modifies" || c.kind == "ghostset" {
			for _, e := range c.es {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok || c.kind != "ghostset" {
								panic(r)
							}
						}
					}()
					allowed = append(allowed, pre.locs(e)...)
				}()
			}
		}
	}
	res := fn.Signature.Results()
	x.inline(st, nil, fn, nil, args, con.Name, func(s *State, rs []Value) {
		if x.infer > 0 {
			return
		}
		if s.dead() {
			return
		}
		x.exits++
		vs := map[string]SV{}
		for k, v := range vars {
			vs[k] = v
		}
		for i := range rs {
			name := fmt.Sprintf("result%d", i)
			if i < len(con.Results) {
				name = con.Results[i]
			}
			vs[name] = goSV(rs[i], res.At(i).Type())
		}
		env := &Env{x: x, st: s, old: x.entry, vars: vs}
		x.ghostSets(con, env)
		for _, c := range con.Clauses {
			if c.kind == "cases" {
				continue
			}
			switch c.kind {
			case "ensures":
				x.proveAt(s, "postcondition "+c.name, func() *Term { return env.boolT(c.e) }, c.tags)
			case "result":
				x.proveAt(s, "result "+c.name, func() *Term { return env.eq(vs[c.name], env.eval(c.e)) }, c.tags)
			case "freshbytes":
				x.proveAt(s, "result "+c.name, func() *Term {
					sl := vs[c.name].V.(Slice)
					return And(Or(Gt(sl.Ref, A0), Eq(sl.Ref, tZero)), Eq(x.sbytes(s, sl), env.term(env.eval(c.e), "Bytes")), Not(Eq(sl.Ref, tZero)))
				}, c.tags)
			case "neg":
				x.proveAt(s, "engine memory "+c.name, func() *Term {
					// (new memory that nothing else refers to serves as well: the caller knows no address of it)
					r := vs[c.name].V.(Slice).Ref
					return Implies(pre.boolT(c.e), Or(Lt(r, tZero), Gt(r, A0)))
				}, c.tags)
			case "fresh":
				x.proveAt(s, "fresh "+c.name, func() *Term {
					switch v := vs[c.name].V.(type) {
					case Slice:
						return Or(Eq(v.Cap, tZero), And(Or(Gt(v.Ref, A0), Eq(v.Ref, tZero)), Eq(v.Off, tZero)))
					case Ptr:
						return Gt(v.Base, A0)
					case Prim:
						return Gt(v.T, A0)
					case Iface:
						return Or(Eq(v.Tag, tZero), Gt(v.Pay, A0))
					}
					return tFalse
				}, c.tags)
			}
		}
		x.frameCheck(s, allowed, A0)
	})
	if x.exits == 0 && rep.Error == "" {
		x.fail("function returns", "no return is reachable")
	}
	return
}

// proveAt evaluates and proves a goal in a copy of the state
func (x *Exec) proveAt(s *State, name string, f func() *Term, tags []string) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				x.fail(name, u.msg)
				return
			}
			panic(e)
		}
	}()
	g := f()
	x.prove(s.clone(), name, g, tags)
}

func (x *Exec) frameCheck(s *State, allowed []GLoc, A0 *Term) {
	var ns []string
	for n := range s.heap {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		now := s.heap[n]
		base := x.base[n]
		if now == base {
			continue
		}
		ws, ok := writesBetween(now, base)
		if !ok && base != nil {
			x.fail("frame "+n, "heap history lost")
			continue
		}
		seen := map[*Term]bool{}
		check := func(r *Term) {
			if seen[r] {
				return
			}
			seen[r] = true
			if refLt(A0, r) || isNeg(r) {
				return
			}
			g := Or(Gt(r, A0), Lt(r, tZero))
			if strings.HasPrefix(n, "g$") && !x.specs.global[n[2:]] {
				g = Or(g, Eq(r, tZero)) // ghost fields of nil are never read
			}
			for _, l := range allowed {
				if l.name == n && !l.neg {
					g = Or(g, RefEq(r, l.ref))
				}
			}
			if base != nil && strings.HasPrefix(n, "g$") && !x.specs.global[n[2:]] {
				g = Or(g, Eq(now.sel(r), base.sel(r))) // written, but with the value it had
			}
			x.prove(s.clone(), "modifies nothing else: "+n, g, nil)
		}
		for _, w := range ws {
			if w.ref != nil {
				check(w.ref)
				continue
			}
			g := w.reg
			if g.neg {
				ok := false
				for _, l := range allowed {
					ok = ok || l.neg
				}
				if !ok {
					x.fail("modifies nothing else: engine memory", "engine memory changes (modifies itermem)")
				}
			}
			if g.all {
				x.fail("modifies nothing else: "+n, "unbounded write")
			}
			for _, r := range g.refs {
				check(r)
			}
			if g.above != nil && !refLe(A0, g.above) {
				x.fail("modifies nothing else: "+n, "write region starts too low")
			}
		}
	}
}

var _ = types.Typ
