package main

// Contract language: evaluation in a symbolic state.

import (
	"go/constant"
	"go/token"
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SV is a spec value: a logic term (typ nil) or a Go value.
type SV struct {
	T   *Term
	V   Value
	typ types.Type
	nil_ bool
}

type Env struct {
	x        *Exec
	st       *State
	old      *State
	pre      *State
	preVars  map[string]SV
	vars     map[string]SV
	depth    int
	rec      int
	pos      bool // assumed (true) or proved
}

func (e *Env) with(n string, v SV) *Env {
	f := *e
	f.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		f.vars[k] = x
	}
	f.vars[n] = v
	return &f
}

func goSV(v Value, t types.Type) SV {
	if p, ok := v.(Prim); ok {
		return SV{T: p.T, V: v, typ: t}
	}
	return SV{V: v, typ: t}
}

func tsv(t *Term) SV { return SV{T: t} }

// term coerces to a logic term of the wanted sort ("" for the natural one).
func (e *Env) term(s SV, want string) *Term {
	if s.nil_ {
		if want == "Int" || want == "" {
			return tZero
		}
		unsup("nil as %s", want)
	}
	if s.V == nil {
		return s.T
	}
	switch v := s.V.(type) {
	case Prim:
		return v.T
	case Slice:
		if isByte(v.Elem) && (want == "Bytes" || want == "") {
			return e.x.sbytes(e.st, v)
		}
		if want == "Int" {
			return v.Ref
		}
		return e.seq(v)
	case Ptr:
		return ptrAddr(v)
	case Iface:
		return v.Pay
	case Fn:
		return flatten(v)[0]
	case Arr:
		if len(v.C) == 1 {
			return v.C[0]
		}
	case Struct:
		ts := flatten(v)
		if len(ts) == 1 {
			return ts[0]
		}
		return e.val(s)
	}
	unsup("no term for %T (want %s)", s.V, want)
	return nil
}

func (e *Env) seq(v Slice) *Term {
	cs := comps(v.Elem)
	if len(cs) != 1 {
		unsup("sequence of %s", v.Elem)
	}
	a := e.x.hget(e.st, elemHeap(v.Elem), elemComp(cs[0]), memRef(v.Ref))
	if v.Off == tZero {
		return a
	}
	t := comprehension("Int", cs[0].sort, func(i *Term) *Term { return Select(a, Add(v.Off, i)) }, e.depth)
	if fs := factsOf[t]; t.op == "const" && len(fs) == 1 {
		// the same link, found from the memory side
		i := BV(fmt.Sprintf("ci%d", e.depth), "Int")
		m := Select(a, i)
		if m.op == "select" {
			factsOf[t] = append(fs, Forall([]*Term{i}, [][]*Term{{m}}, Eq(m, Select(t, Sub(i, v.Off)))))
		}
	}
	return t
}

var compMemo = map[*Term]*Term{}

// comprehension returns an array constant S with S[i] = f(i).
func comprehension(ks, vs string, f func(i *Term) *Term, depth int) *Term {
	i := BV(fmt.Sprintf("ci%d", depth), ks)
	body := f(i)
	if body.op == "select" && body.args[1] == i && !body.args[0].free {
		return body.args[0]
	}
	if !body.free {
		return ConstArr("(Array "+ks+" "+vs+")", body)
	}
	fv := map[*Term]bool{}
	collectBV(body, fv, map[*Term]bool{})
	delete(fv, i)
	if len(fv) > 0 {
		unsup("comprehension under a quantifier")
	}
	if s, ok := compMemo[body]; ok && s.sort == "(Array "+ks+" "+vs+")" {
		return s
	}
	s := Fresh("seq", "(Array "+ks+" "+vs+")")
	compMemo[body] = s
	si := Select(s, i)
	factsOf[s] = []*Term{Forall([]*Term{i}, [][]*Term{{si}}, Eq(si, body))}
	return s
}

// val is the uninterpreted logic value of a multi-component struct.
func (e *Env) val(s SV) *Term {
	return UF("val$"+typeKey(s.typ), "Int", flatten(s.V)...)
}

func (e *Env) boolT(x *Expr) *Term {
	t := e.term(e.eval(x), "Bool")
	if t.sort != "Bool" {
		unsup("boolean expected, have %s", t.sort)
	}
	return t
}

func (e *Env) eq(a, b SV) *Term {
	if a.nil_ {
		a, b = b, a
	}
	if b.nil_ {
		switch v := a.V.(type) {
		case Slice:
			return Eq(v.Ref, tZero)
		case Iface:
			return Eq(v.Tag, tZero)
		case Ptr, Prim, Fn:
			return Eq(e.term(a, "Int"), tZero)
		}
		unsup("comparison with nil")
	}
	if ia, ok := a.V.(Iface); ok {
		if ib, ok := b.V.(Iface); ok {
			return And(Eq(ia.Tag, ib.Tag), Eq(ia.Pay, ib.Pay))
		}
	}
	if a.V != nil && b.V != nil {
		if _, ok := a.V.(Struct); ok {
			return valEq(a.V, b.V)
		}
	}
	ta := e.term(a, "")
	tb := e.term(b, "")
	if ta.sort != tb.sort {
		ta, tb = e.term(a, tb.sort), tb
		if ta.sort != tb.sort {
			tb = e.term(b, ta.sort)
		}
	}
	if ta.sort == "Int" {
		return RefEqIfRef(ta, tb)
	}
	return Eq(ta, tb)
}

func RefEqIfRef(a, b *Term) *Term { return Eq(a, b) }

func (e *Env) eval(x *Expr) SV {
	switch x.op {
	case "int":
		n, ok := new(big.Int).SetString(x.s, 0)
		if !ok {
			unsup("number %s", x.s)
		}
		return tsv(IntB(n))
	case "str":
		return tsv(BytesLit(x.s))
	case "id":
		return e.ident(x.s)
	case "ite":
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		ta := e.term(a, "")
		return tsv(Ite(e.boolT(x.args[0]), ta, e.term(b, ta.sort)))
	case "let":
		return e.with(x.s, e.eval(x.args[0])).eval(x.args[1])
	case "forall", "exists":
		f := *e
		f.depth++
		g := &f
		var vs []*Term
		var guards []*Term
		for _, q := range x.vars {
			v := BV(fmt.Sprintf("%s'%d", q.name, f.depth), q.sort)
			vs = append(vs, v)
			val := v
			if q.sort == "Int" && !e.x.specs.nestedQ(x.args[0]) {
				// a variable that indexes a slice in a trigger counts from the start of its memory
				var off *Term
				all := true
				for _, p := range x.trig {
					var o *Term
					for _, y := range p {
						if b := indexBase(y, q.name); b != nil && o == nil {
							o = g.sliceOff(b)
						}
					}
					all = all && o != nil
					if off == nil {
						off = o
					}
				}
				if all && off != nil {
					val = Sub(v, off)
				}
			}
			g = g.with(q.name, tsv(val))
			g.depth = f.depth
		}
		body := g.boolT(x.args[0])
		var tr [][]*Term
		plain := false
		for _, p := range x.trig {
			var ts []*Term
			for _, y := range p {
				v := g.eval(y)
				if sl, ok := v.V.(Slice); ok {
					ts = append(ts, sl.Ref)
					continue
				}
				ts = append(ts, g.term(v, ""))
			}
			alts := patAlts(ts)
			for _, ts := range alts {
				ok := true
				for _, t := range ts {
					if t.op == "bv" || !t.free || hasIte(t) {
						ok = false
					}
				}
				for _, v := range vs {
					has := false
					for _, t := range ts {
						has = has || mentions(t, v)
					}
					ok = ok && has
				}
				if ok {
					plain = plain || len(alts) == 1
					tr = append(tr, ts)
					// a recursive function unfolds into its limited twin
					if t := ts[0]; len(ts) == 1 && t.op == "app" && theory.funDecl[t.name+"!"] != "" {
						tr = append(tr, []*Term{App(t.name+"!", t.args...)})
					}
				}
			}
		}
		_ = guards
		if x.op == "forall" {
			if len(tr) > 0 && !plain {
				// the patterns were conditional: let the solver choose as well
				return tsv(And(Forall(vs, nil, body), Forall(vs, tr, body)))
			}
			return tsv(Forall(vs, tr, body))
		}
		if len(tr) > 0 && plain {
			return tsv(mk("exists", "", "Bool", nil, nil, append([]*Term{body}, vs...), tr))
		}
		return tsv(Exists(vs, body))
	case "un":
		if x.s == "!" {
			return tsv(Not(e.boolT(x.args[0])))
		}
		return tsv(Neg(e.term(e.eval(x.args[0]), "Int")))
	case "bin":
		return e.binary(x)
	case "field":
		return e.field(e.eval(x.args[0]), x.s)
	case "index":
		a := e.eval(x.args[0])
		if s, ok := a.V.(Slice); ok {
			i := e.term(e.eval(x.args[1]), "Int")
			return goSV(e.elemV(s, i), s.Elem)
		}
		if ar, ok := a.V.(Arr); ok {
			i := e.term(e.eval(x.args[1]), "Int")
			var ts []*Term
			for j := range ar.C {
				ts = append(ts, Select(ar.C[j], i))
			}
			return goSV(unflatten(ar.Elem, ts), ar.Elem)
		}
		t := e.term(a, "")
		if t.sort == "Bytes" {
			return tsv(App("bat", t, e.term(e.eval(x.args[1]), "Int")))
		}
		ks, _ := arrSorts(t.sort)
		return tsv(Select(t, e.term(e.eval(x.args[1]), ks)))
	case "call":
		return e.call(x)
	}
	unsup("spec expression %s", x.op)
	return SV{}
}

// patAlts replaces the conditionals in a pattern by either branch.
func patAlts(ts []*Term) [][]*Term {
	out := [][]*Term{{}}
	for _, t := range ts {
		alts := []*Term{t}
		for n := 0; n < len(alts) && len(alts) < 12; {
			c := findIte(alts[n])
			if c == nil {
				n++
				continue
			}
			u := alts[n]
			alts[n] = subst(u, map[*Term]*Term{c: c.args[1]}, map[*Term]*Term{})
			alts = append(alts, subst(u, map[*Term]*Term{c: c.args[2]}, map[*Term]*Term{}))
		}
		var o2 [][]*Term
		for _, p := range out {
			for _, a := range alts {
				if len(o2) < 12 {
					o2 = append(o2, append(append([]*Term{}, p...), a))
				}
			}
		}
		out = o2
	}
	return out
}

func findIte(t *Term) *Term {
	if t.op == "ite" {
		return t
	}
	for _, a := range t.args {
		if c := findIte(a); c != nil {
			return c
		}
	}
	return nil
}

func hasIte(t *Term) bool {
	if t.op == "ite" || t.op == "and" || t.op == "or" || t.op == "not" || t.op == "=" || t.op == "ge0" {
		return true
	}
	for _, a := range t.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}

func (e *Env) elemV(s Slice, i *Term) Value {
	x := e.x
	idx := Add(s.Off, i)
	if isByte(s.Elem) {
		return Prim{App("bat", x.backing(e.st, memRef(s.Ref)), idx)}
	}
	var ts []*Term
	for _, c := range comps(s.Elem) {
		a := x.hget(e.st, elemHeap(s.Elem)+c.sfx, elemComp(c), memRef(s.Ref))
		ts = append(ts, elemSelect(a, idx, c, e.st.A))
	}
	return unflatten(s.Elem, ts)
}

func (e *Env) ident(n string) SV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "nil":
		return SV{nil_: true}
	case "true":
		return tsv(tTrue)
	case "false":
		return tsv(tFalse)
	}
	if m, ok := e.x.specs.macros[n]; ok && len(m.params) == 0 {
		f := *e
		f.vars = map[string]SV{}
		return f.eval(m.body)
	}
	if e.x.specs.global[n] {
		return tsv(e.x.hget(e.st, "g$"+n, ghostComp(e.x.specs.ghost[n]), tZero))
	}
	if sg, ok := sigs[n]; ok && len(sg.Args) == 0 {
		return tsv(Const(n, sg.Ret))
	}
	unsup("unknown name %s", n)
	return SV{}
}

func (e *Env) binary(x *Expr) SV {
	switch x.s {
	case "&&":
		return tsv(And(e.boolT(x.args[0]), e.boolT(x.args[1])))
	case "||":
		return tsv(Or(e.boolT(x.args[0]), e.boolT(x.args[1])))
	case "==>":
		return tsv(Implies(e.boolT(x.args[0]), e.boolT(x.args[1])))
	case "<==>":
		return tsv(Eq(e.boolT(x.args[0]), e.boolT(x.args[1])))
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	switch x.s {
	case "==":
		return tsv(e.eq(a, b))
	case "!=":
		return tsv(Not(e.eq(a, b)))
	case "++":
		return tsv(Bcat(e.term(a, "Bytes"), e.term(b, "Bytes")))
	}
	p, q := e.term(a, ""), e.term(b, "")
	if p.sort == "Bytes" {
		switch x.s {
		case "<":
			return tsv(App("blt", p, q))
		case ">":
			return tsv(App("blt", q, p))
		case "<=":
			return tsv(Not(App("blt", q, p)))
		case ">=":
			return tsv(Not(App("blt", p, q)))
		}
	}
	if p.sort != "Int" || q.sort != "Int" {
		unsup("%s on %s and %s", x.s, p.sort, q.sort)
	}
	switch x.s {
	case "+":
		return tsv(Add(p, q))
	case "-":
		return tsv(Sub(p, q))
	case "*":
		return tsv(Mul(p, q))
	case "<":
		return tsv(Lt(p, q))
	case "<=":
		return tsv(Le(p, q))
	case ">":
		return tsv(Gt(p, q))
	case ">=":
		return tsv(Ge(p, q))
	case "/":
		return tsv(DivT(p, q.val))
	case "%":
		return tsv(ModT(p, q.val))
	}
	unsup("operator %s", x.s)
	return SV{}
}

func structField(t types.Type, n string) int {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// hasField tells whether n is a field of the struct type t or of one embedded in it.
func hasField(t types.Type, n string) bool {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == n || f.Embedded() && hasField(f.Type(), n) {
			return true
		}
	}
	return false
}

func (e *Env) asPtr(a SV) (Ptr, bool) {
	switch v := a.V.(type) {
	case Ptr:
		if v.Root == nil && a.typ != nil {
			v.Root = under(a.typ).(*types.Pointer).Elem()
		}
		return v, true
	case Iface:
		if p, ok := v.DynVal.(Ptr); ok {
			return p, true
		}
	}
	return Ptr{}, false
}

func (e *Env) field(a SV, n string) SV {
	if p, ok := e.asPtr(a); ok {
		t := typeAt(p.Root, p.Path)
		i := structField(t, n)
		if i < 0 {
			// a promoted field
			if st, ok := under(t).(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if f := st.Field(j); f.Embedded() && hasField(f.Type(), n) {
						q := p
						q.Path = append(append([]int{}, p.Path...), j)
						return e.field(SV{V: q, typ: types.NewPointer(f.Type())}, n)
					}
				}
			}
			unsup("no field %s in %s", n, t)
		}
		q := p
		q.Path = append(append([]int{}, p.Path...), i)
		ft := under(t).(*types.Struct).Field(i).Type()
		if _, isS := under(ft).(*types.Struct); isS {
			// keep an address so that contracts on inner objects work
			return SV{V: e.loadV(q), typ: ft, T: nil}
		}
		return goSV(e.loadV(q), ft)
	}
	if s, ok := a.V.(Struct); ok {
		i := structField(a.typ, n)
		if i < 0 {
			unsup("no field %s", n)
		}
		return goSV(s.F[i], under(a.typ).(*types.Struct).Field(i).Type())
	}
	unsup("field %s of %T", n, a.V)
	return SV{}
}

// loadV reads without recording assumptions
func (e *Env) loadV(p Ptr) Value {
	t := typeAt(p.Root, p.Path)
	x := e.x
	if p.Elem {
		var ts []*Term
		for _, c := range comps(t) {
			a := x.hget(e.st, elemHeap(p.Root)+pathSfx(p.Root, p.Path)+c.sfx, elemComp(c), p.Base)
			ts = append(ts, elemSelect(a, p.Idx, c, e.st.A))
		}
		return unflatten(t, ts)
	}
	if _, ok := under(t).(*types.Array); ok && len(p.Path) == 0 {
		return x.load(e.st, p)
	}
	var ts []*Term
	pre := typeKey(p.Root) + pathSfx(p.Root, p.Path)
	for _, c := range comps(t) {
		ts = append(ts, x.hget(e.st, pre+c.sfx, c, p.Base))
	}
	return unflatten(t, ts)
}

func (e *Env) findAbs(name string, a SV) (*AbsDef, SV) {
	defs := e.x.specs.abs[name]
	if defs == nil {
		return nil, a
	}
	if i, ok := a.V.(Iface); ok && i.Dyn != nil {
		if d := defs[typeKey(i.Dyn)]; d != nil {
			return d, goSV(i.DynVal, i.Dyn)
		}
	}
	// opt view T: what is said of an interface value is said of the T it holds (the contract states what happens when it holds no T)
	if c := e.x.con; c != nil && c.Opts["view"] != "" {
		if i, ok := a.V.(Iface); ok && i.Dyn == nil {
			t := e.x.typeNamed(c.Opts["view"])
			if d := defs[typeKey(t)]; d != nil {
				return d, goSV(unbox(t, i.Pay), t)
			}
		}
	}
	if a.typ != nil {
		if d := defs[typeKey(a.typ)]; d != nil {
			return d, a
		}
	}
	return nil, a
}

func (e *Env) call(x *Expr) SV {
	n := x.s
	arg := func(i int) SV { return e.eval(x.args[i]) }
	switch n {
	case "old":
		f := *e
		f.st = e.old
		return f.eval(x.args[0])
	case "init":
		f := *e
		f.st = e.pre
		f.vars = map[string]SV{}
		for k, v := range e.vars {
			f.vars[k] = v
		}
		for k, v := range e.preVars {
			f.vars[k] = v
		}
		return f.eval(x.args[0])
	case "len", "cap":
		a := arg(0)
		switch v := a.V.(type) {
		case Slice:
			if n == "cap" {
				return tsv(v.Cap)
			}
			return tsv(v.Len)
		case Prim:
			if m, ok := under(a.typ).(*types.Map); ok {
				return tsv(e.x.hget(e.st, mapInfo(m).card, cardComp, v.T))
			}
		}
		return tsv(Blen(e.term(a, "Bytes")))
	case "bytes":
		return tsv(e.term(arg(0), "Bytes"))
	case "ref":
		a := arg(0)
		if s, ok := a.V.(Slice); ok {
			return tsv(s.Ref)
		}
		return tsv(e.term(a, "Int"))
	case "off":
		return tsv(arg(0).V.(Slice).Off)
	case "tag":
		return tsv(arg(0).V.(Iface).Tag)
	case "seq":
		return tsv(e.seq(arg(0).V.(Slice)))
	case "bseq": // contents of a slice of byte slices
		s := arg(0).V.(Slice)
		return tsv(comprehension("Int", "Bytes", func(i *Term) *Term {
			f := *e
			el := f.elemV(s, i).(Slice)
			return e.x.sbytes(e.st, el)
		}, e.depth))
	case "comp": // comp(i, expr): array of expr over i
		vn := x.args[0].s
		var vs string
		probe := e.with(vn, tsv(BV("probe", "Int")))
		vs = probe.term(probe.eval(x.args[1]), "").sort
		return tsv(comprehension("Int", vs, func(i *Term) *Term {
			g := e.with(vn, tsv(i))
			return g.term(g.eval(x.args[1]), "")
		}, e.depth))
	case "allocated": // allocated after the function (or call) started
		a := arg(0)
		var r *Term
		if s, ok := a.V.(Slice); ok {
			r = s.Ref
		} else {
			r = e.term(a, "Int")
		}
		return tsv(Gt(r, e.old.A))
	case "isalloc": // belongs to memory allocated by now
		a := arg(0)
		var r *Term
		if s, ok := a.V.(Slice); ok {
			r = s.Ref
		} else if v, ok := a.V.(Iface); ok && v.Dyn == nil {
			r = v.Pay
		} else {
			r = e.term(a, "Int")
		}
		return tsv(And(Ge(r, tZero), Le(r, e.st.A)))
	case "sameslice":
		a, b := arg(0).V.(Slice), arg(1).V.(Slice)
		return tsv(And(Eq(a.Ref, b.Ref), Eq(a.Off, b.Off), Eq(a.Len, b.Len), Eq(a.Cap, b.Cap)))
	case "in":
		m := arg(0)
		mt := under(m.typ).(*types.Map)
		d := e.x.mapDom(e.st, mt, prim(m.V))
		return tsv(Select(d, e.term(arg(1), mapInfo(mt).ksort)))
	case "mdom":
		m := arg(0)
		return tsv(e.x.mapDom(e.st, under(m.typ).(*types.Map), prim(m.V)))
	case "mval":
		m := arg(0)
		mt := under(m.typ).(*types.Map)
		k := e.term(arg(1), mapInfo(mt).ksort)
		v, _ := e.x.mapGet(e.st, mt, prim(m.V), k)
		return goSV(v, mt.Elem())
	case "enum":
		return tsv(Select(arg(0).V.(RangeIt).Vals[0], e.term(arg(1), "Int")))
	case "rank":
		r := arg(0).V.(RangeIt)
		return tsv(Select(r.Vals[1], e.term(arg(1), mapInfo(r.Map).ksort)))
	case "rpos":
		return tsv(e.x.hget(e.st, "R$pos", posComp, arg(0).V.(RangeIt).Ref))
	case "rcard":
		return tsv(arg(0).V.(RangeIt).Card)
	case "rdom":
		return tsv(arg(0).V.(RangeIt).Dom0)
	case "rmap":
		r := arg(0).V.(RangeIt)
		return goSV(Prim{r.M}, r.Map)
	case "typeis":
		a := arg(0).V.(Iface)
		t := e.x.typeNamed(x.args[1].s)
		if a.Dyn != nil {
			return tsv(BoolT(types.Identical(a.Dyn, t)))
		}
		return tsv(Eq(a.Tag, typeTag(t)))
	case "extvar": // extvar("leveldb.ErrNotFound"): an error variable of a package
		return goSV(Iface{Tag: Int(1), Pay: globalRefNamed(x.args[0].s)}, types.Universe.Lookup("error").Type())
	case "pkgvar": // pkgvar("badger.DefaultIteratorOptions"): pointer to a package variable
		t := namedVars[x.args[0].s]
		if t == nil {
			unsup("unknown variable %s", x.args[0].s)
		}
		return goSV(Ptr{Base: globalRefNamed(x.args[0].s), Root: t}, types.NewPointer(t))
	case "addr": // addr(x.f): address of a field
		f := x.args[0]
		p, ok := e.asPtr(e.eval(f.args[0]))
		if f.op != "field" || !ok {
			unsup("addr()")
		}
		i := structField(typeAt(p.Root, p.Path), f.s)
		if i < 0 {
			unsup("no field %s", f.s)
		}
		q := p
		q.Path = append(append([]int{}, p.Path...), i)
		return tsv(ptrAddr(q))
	case "iface": // iface(v, "T"): v boxed as dynamic type T
		a := arg(0)
		return goSV(mkIface(e.x.typeNamed(x.args[1].s), a.V), types.NewInterfaceType(nil, nil))
	case "as":
		a := arg(0)
		t := e.x.typeNamed(x.args[1].s)
		if i, ok := a.V.(Iface); ok {
			if i.Dyn != nil && types.Identical(i.Dyn, t) {
				return goSV(i.DynVal, t)
			}
			return goSV(unbox(t, i.Pay), t)
		}
		return goSV(unflatten(t, []*Term{e.term(a, "Int")}), t)
	case "deref": // value behind a pointer to a non-struct
		p, ok := e.asPtr(arg(0))
		if !ok {
			unsup("deref")
		}
		return goSV(e.loadV(p), typeAt(p.Root, p.Path))
	case "uf": // uf("name", "Sort", args...): uninterpreted function over flattened values
		var ts []*Term
		for _, y := range x.args[2:] {
			s := e.eval(y)
			switch {
			case s.V == nil:
				ts = append(ts, s.T)
			default:
				if sl, ok := s.V.(Slice); ok {
					ts = append(ts, e.term(goSV(sl, s.typ), ""))
					if !isByte(sl.Elem) {
						ts = append(ts, sl.Len)
					}
					continue
				}
				if i, ok := s.V.(Iface); ok && i.DynVal != nil {
					// the value inside the interface
					ts = append(ts, i.Tag)
					ts = append(ts, flatten(i.DynVal)...)
					continue
				}
				ts = append(ts, flatten(s.V)...)
			}
		}
		name := x.args[0].s
		for _, t := range ts {
			name += "$" + sanitize(t.sort)
		}
		switch x.args[1].s {
		case "int64", "uint64", "int", "int32", "uint32": // an Int in the range of the Go type
			t := e.x.typeNamed(x.args[1].s)
			u := UF(name, "Int", ts...)
			typeTerm(u, comps(t)[0], nil)
			return tsv(u)
		}
		u := UF(name, x.args[1].s, ts...)
		return tsv(u)
	case "goval": // goval("T", "name", args...): a Go value of type T given by uninterpreted functions
		t := e.x.typeNamed(x.args[0].s)
		var ts []*Term
		for _, y := range x.args[2:] {
			s := e.eval(y)
			if s.V == nil {
				ts = append(ts, s.T)
			} else if i, ok := s.V.(Iface); ok && i.DynVal != nil {
				ts = append(ts, i.Tag)
				ts = append(ts, flatten(i.DynVal)...)
			} else {
				ts = append(ts, flatten(s.V)...)
			}
		}
		var rs []*Term
		for _, c := range comps(t) {
			u := UF("gv$"+x.args[1].s+c.sfx, c.sort, ts...)
			typeTerm(u, c, nil)
			rs = append(rs, u)
		}
		return goSV(unflatten(t, rs), t)
	case "at": // at("T", ref): the pointer to the object of type T with this reference
		t := e.x.typeNamed(x.args[0].s)
		return goSV(Ptr{Base: e.term(arg(1), "Int"), Root: t}, types.NewPointer(t))
	case "fadd", "fsub", "fmul", "fdiv":
		return tsv(FOp(n, e.term(arg(0), "Real"), e.term(arg(1), "Real")))
	case "goeq": // == of the language on structs
		return tsv(goEq(arg(0).V, arg(1).V))
	case "feq":
		return tsv(Feq(e.term(arg(0), "Real"), e.term(arg(1), "Real")))
	case "flt", "fle":
		return tsv(UF(n, "Bool", e.term(arg(0), "Real"), e.term(arg(1), "Real")))
	case "wrap":
		return tsv(wrap(e.term(arg(0), "Int"), e.x.typeNamed(x.args[1].s)))
	case "store":
		a := e.term(arg(0), "")
		k, v := arrSorts(a.sort)
		return tsv(Store(a, e.term(arg(1), k), e.term(arg(2), v)))
	case "const": // const("(Array K V)", v)
		_, v := arrSorts(x.args[0].s)
		return tsv(ConstArr(x.args[0].s, e.term(arg(1), v)))
	case "real":
		v := constant.MakeFromLiteral(strings.Split(x.args[0].s, "/")[0], token.INT, 0)
		if _, d, ok := strings.Cut(x.args[0].s, "/"); ok {
			v = constant.BinaryOp(constant.ToFloat(v), token.QUO, constant.ToFloat(constant.MakeFromLiteral(d, token.INT, 0)))
		}
		return tsv(realConst(v))
	case "isdyn": // dynamic type known
		i, ok := arg(0).V.(Iface)
		return tsv(BoolT(ok && i.Dyn != nil))
	case "unchanged":
		f := *e
		f.st = e.old
		return tsv(e.eq(arg(0), f.eval(x.args[0])))
	}
	if v, ok := e.vars[n]; ok && len(x.args) == 1 && v.T != nil && strings.HasPrefix(v.T.sort, "(Array") {
		ks, _ := arrSorts(v.T.sort)
		return tsv(Select(v.T, e.term(arg(0), ks)))
	}
	if e.x.specs.abs[n] != nil || e.x.specs.ghost[n] != "" {
		a := arg(0)
		if d, self := e.findAbs(n, a); d != nil {
			if e.rec > 40 {
				unsup("abstraction %s too deep", n)
			}
			f := *e
			f.rec++
			f.vars = map[string]SV{d.param: self}
			return f.eval(d.body)
		}
		s := e.x.specs.ghost[n]
		if m, ok := e.x.specs.macros[n]; ok && s == "" {
			f := *e
			f.rec++
			f.vars = map[string]SV{m.params[0]: a}
			return f.eval(m.body)
		}
		if s == "" {
			unsup("%s is not defined for %v", n, a.typ)
		}
		r := e.x.hget(e.st, "g$"+n, ghostComp(s), e.term(a, "Int"))
		if s == "Int" {
			typeGhost(r)
		}
		return tsv(r)
	}
	if m, ok := e.x.specs.macros[n]; ok {
		if len(m.params) != len(x.args) {
			unsup("macro %s arity", n)
		}
		f := *e
		f.rec++
		if f.rec > 60 {
			unsup("macro %s too deep", n)
		}
		f.vars = map[string]SV{}
		for i, p := range m.params {
			f.vars[p] = arg(i)
		}
		f.preVars = nil
		return f.eval(m.body)
	}
	if strings.HasPrefix(n, "is_") {
		if _, ok := testers["is-"+n[3:]]; ok {
			n = "is-" + n[3:]
		}
	}
	sg, ok := sigs[n]
	if !ok {
		switch n {
		case "blen":
			return tsv(Blen(e.term(arg(0), "Bytes")))
		case "bsub":
			return tsv(Bsub(e.term(arg(0), "Bytes"), e.term(arg(1), "Int"), e.term(arg(2), "Int")))
		}
		unsup("unknown function %s", n)
	}
	if len(sg.Args) != len(x.args) {
		unsup("%s: %d arguments", n, len(x.args))
	}
	var ts []*Term
	for i := range x.args {
		ts = append(ts, e.term(arg(i), sg.Args[i]))
		if ts[i].sort != sg.Args[i] {
			unsup("%s: argument %d has sort %s, want %s", n, i+1, ts[i].sort, sg.Args[i])
		}
	}
	return tsv(App(n, ts...))
}

func typeGhost(t *Term) {}

// ---- locations (modifies)

type GLoc struct {
	name string
	comp Comp
	ref  *Term
	neg  bool
}

func (e *Env) locs(x *Expr) []GLoc {
	switch x.op {
	case "id":
		if x.s == "itermem" {
			return []GLoc{{name: "HB", comp: hbComp, neg: true}}
		}
		if x.s == "nothing" {
			return nil
		}
		if e.x.specs.global[x.s] {
			return []GLoc{{name: "g$" + x.s, comp: ghostComp(e.x.specs.ghost[x.s]), ref: tZero}}
		}
		if m, ok := e.x.specs.macros[x.s]; ok && len(m.params) == 0 {
			return e.locs(m.body)
		}
	case "field":
		a := e.eval(x.args[0])
		p, ok := e.asPtr(a)
		if !ok {
			unsup("location of field %s", x.s)
		}
		t := typeAt(p.Root, p.Path)
		i := structField(t, x.s)
		if i < 0 {
			unsup("no field %s", x.s)
		}
		q := append(append([]int{}, p.Path...), i)
		var r []GLoc
		for _, c := range comps(typeAt(p.Root, q)) {
			r = append(r, GLoc{name: typeKey(p.Root) + pathSfx(p.Root, q) + c.sfx, comp: c, ref: p.Base})
		}
		return r
	case "ite":
		return append(e.locs(x.args[1]), e.locs(x.args[2])...)
	case "call":
		switch x.s {
		case "old":
			f := *e
			f.st = e.old
			return f.locs(x.args[0])
		case "bytes":
			return []GLoc{{name: "HB", comp: hbComp, ref: e.eval(x.args[0]).V.(Slice).Ref}}
		case "elems":
			s := e.eval(x.args[0]).V.(Slice)
			var r []GLoc
			for _, c := range comps(s.Elem) {
				r = append(r, GLoc{name: elemHeap(s.Elem) + c.sfx, comp: elemComp(c), ref: s.Ref})
			}
			return r
		case "map":
			m := e.eval(x.args[0])
			mi := mapInfo(under(m.typ).(*types.Map))
			r := []GLoc{{name: mi.dom, comp: mi.domC, ref: prim(m.V)}, {name: mi.card, comp: cardComp, ref: prim(m.V)}}
			for i, n := range mi.vals {
				r = append(r, GLoc{name: n, comp: mi.valC[i], ref: prim(m.V)})
			}
			return r
		case "all", "deref":
			p, ok := e.asPtr(e.eval(x.args[0]))
			if !ok {
				unsup("all()")
			}
			var r []GLoc
			for _, c := range comps(typeAt(p.Root, p.Path)) {
				r = append(r, GLoc{name: typeKey(p.Root) + pathSfx(p.Root, p.Path) + c.sfx, comp: c, ref: p.Base})
			}
			return r
		}
		if e.x.specs.abs[x.s] != nil || e.x.specs.ghost[x.s] != "" {
			a := e.eval(x.args[0])
			if d, self := e.findAbs(x.s, a); d != nil {
				f := *e
				f.vars = map[string]SV{d.param: self}
				if d.hasFoot {
					var r []GLoc
					for _, y := range d.foot {
						r = append(r, f.locs(y)...)
					}
					return r
				}
				return f.locs(d.body)
			}
			if m, ok := e.x.specs.macros[x.s]; ok && e.x.specs.ghost[x.s] == "" {
				f := *e
				f.vars = map[string]SV{m.params[0]: a}
				return f.locs(m.body)
			}
			return []GLoc{{name: "g$" + x.s, comp: ghostComp(e.x.specs.ghost[x.s]), ref: e.term(a, "Int")}}
		}
		if m, ok := e.x.specs.macros[x.s]; ok {
			f := *e
			f.vars = map[string]SV{}
			for i, p := range m.params {
				f.vars[p] = e.eval(x.args[i])
			}
			return f.locs(m.body)
		}
	case "bin":
		if x.s == "&&" {
			return append(e.locs(x.args[0]), e.locs(x.args[1])...)
		}
	}
	unsup("not a location: %s %s", x.op, x.s)
	return nil
}

// ---- named types

func (x *Exec) typeNamed(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		return types.NewPointer(x.typeNamed(n[1:]))
	}
	if strings.HasPrefix(n, "[]") {
		return types.NewSlice(x.typeNamed(n[2:]))
	}
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	if n == "byte" {
		return types.Typ[types.Uint8]
	}
	if t, ok := namedTypes[n]; ok {
		return t
	}
	unsup("unknown type %s", n)
	return nil
}

var typesSeen = map[*types.Package]bool{}

var namedTypes = map[string]types.Type{}
var namedVars = map[string]types.Type{} // package variables

func collectTypes(p *types.Package, seen map[*types.Package]bool) {
	if seen[p] {
		return
	}
	seen[p] = true
	for _, n := range p.Scope().Names() {
		if v, ok := p.Scope().Lookup(n).(*types.Var); ok {
			namedVars[pkgShort(p)+"."+n] = v.Type()
		}
		if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
			k := typeKey(tn.Type())
			if _, dup := namedTypes[k]; !dup || strings.HasPrefix(p.Path(), modPath) {
				namedTypes[k] = tn.Type()
			}
		}
	}
	for _, q := range p.Imports() {
		collectTypes(q, seen)
	}
}

// ---- templates

func typeMatches(t types.Type, want string) bool {
	if t == nil {
		return false
	}
	return typeKey(t) == want || canon(t) == want
}

func (x *Exec) templateCands(pre *State, fr *Frame, L *Loop, lv []liveVal) []*Cand {
	var out []*Cand
	var cls []*Clause
	for _, c := range x.con.Clauses {
		if c.kind == "inv" {
			cls = append(cls, c)
		}
	}
	for _, g := range x.con.Uses {
		gs, ok := x.specs.groups[g]
		if !ok {
			panic("unknown invariant group " + g)
		}
		cls = append(cls, gs...)
	}
	type bnd struct {
		name string
		get  func(st *State) SV
	}
	for _, c := range cls {
		c := c
		if c.depth == "top" && len(pre.loops) > 0 || c.depth == "deep" && len(pre.loops) == 0 {
			continue
		}
		var opts [][]bnd
		ok := true
		for _, m := range c.metas {
			var bs []bnd
			want := m.sort
			all := false
			if strings.HasPrefix(want, "any ") {
				want = want[4:]
				all = true
			}
			onlyCur := strings.HasPrefix(want, "cur ")
			if onlyCur {
				want = want[4:]
			}
			outer := strings.HasPrefix(want, "outer ")
			if outer {
				want = want[6:]
			}
			for _, l := range lv {
				l := l
				if it, isR := safeGet(l, pre).(RangeIt); isR {
					if it.Map != nil && strings.HasPrefix(want, "range ") && typeMatches(it.Map, want[6:]) {
						bs = append(bs, bnd{l.name, func(st *State) SV { return SV{V: l.get(st)} }})
					}
					if want == "int" {
						bs = append(bs, bnd{"pos " + l.name, func(st *State) SV {
							return tsv(x.hget(st, "R$pos", posComp, l.get(st).(RangeIt).Ref))
						}})
					}
					continue
				}
				if l.typ == nil || !typeMatches(l.typ, want) {
					continue
				}
				if onlyCur && !l.cur {
					continue
				}
				if want == "int" {
					if outer {
						// the variable of an enclosing loop, plus one: the index of a range statement
						if !l.phi && !l.inc || l.cur {
							continue
						}
						bs = append(bs, bnd{l.name, func(st *State) SV { return goSV(l.get(st), l.typ) }})
						continue
					}
					if !l.phi && !all {
						continue
					}
					if p, ok := safeGet(l, pre).(Prim); !ok || p.T.sort != "Int" {
						continue
					}
					bs = append(bs, bnd{l.name, func(st *State) SV { return goSV(l.get(st), l.typ) }})
					bs = append(bs, bnd{l.name + "+1", func(st *State) SV { return tsv(Add(prim(l.get(st)), tOne)) }})
					continue
				}
				bs = append(bs, bnd{l.name, func(st *State) SV { return goSV(l.get(st), l.typ) }})
			}
			if len(bs) == 0 {
				ok = false
			}
			opts = append(opts, bs)
		}
		if !ok {
			continue
		}
		n := 1
		for _, o := range opts {
			n *= len(o)
		}
		if n > 3000 {
			if debugInv {
				fmt.Println("too many bindings for", c.name, n)
			}
			continue
		}
		idx := make([]int, len(opts))
		for {
			dup := false
			var nm []string
			sel := make([]bnd, len(opts))
			for i, o := range opts {
				sel[i] = o[idx[i]]
				nm = append(nm, sel[i].name)
				for j := 0; j < i; j++ {
					if sel[j].name == sel[i].name {
						dup = true
					}
				}
			}
			if !dup {
				metas := c.metas
				out = append(out, &Cand{name: c.name + "(" + strings.Join(nm, ",") + ")", tags: c.tags, eval: func(st, pre *State) *Term {
					vars := map[string]SV{}
					for k, v := range x.bind {
						vars[k] = v
					}
					pv := map[string]SV{}
					for i, m := range metas {
						vars[m.name] = sel[i].get(st)
					}
					for i, m := range metas {
						func() {
							defer func() {
								if e := recover(); e != nil {
									if _, ok := e.(unsupported); !ok {
										panic(e)
									}
								}
							}()
							pv[m.name] = sel[i].get(pre)
						}()
					}
					env := &Env{x: x, st: st, old: x.entry, pre: pre, preVars: pv, vars: vars}
					return env.boolT(c.e)
				}})
			}
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(opts[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
			if len(idx) == 0 {
				break
			}
		}
	}
	return out
}

// indexBase finds b in a subexpression b[name].
func indexBase(x *Expr, name string) *Expr {
	if x == nil {
		return nil
	}
	if x.op == "index" && len(x.args) == 2 && x.args[1].op == "id" && x.args[1].s == name {
		return x.args[0]
	}
	for _, a := range x.args {
		if b := indexBase(a, name); b != nil {
			return b
		}
	}
	return nil
}

// sliceOff is the offset of a slice with elements, when it is not zero.
func (e *Env) sliceOff(x *Expr) (o *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			o = nil
		}
	}()
	s, ok := e.eval(x).V.(Slice)
	if !ok || isByteSlice(types.NewSlice(s.Elem)) || s.Off == tZero {
		return nil
	}
	return s.Off
}

// nestedQ tells whether a formula contains a quantifier, possibly in a definition it uses.
func (sp *Specs) nestedQ(x *Expr) bool {
	if x == nil {
		return false
	}
	if x.op == "forall" || x.op == "exists" {
		return true
	}
	for _, a := range x.args {
		if sp.nestedQ(a) {
			return true
		}
	}
	if x.op == "call" || x.op == "id" {
		if m := sp.macros[x.s]; m != nil && sp.ghost[x.s] == "" {
			return sp.nestedQ(m.body)
		}
	}
	return false
}
