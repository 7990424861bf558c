package main

// Calls: builtins, contracts, inlining.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	pk := ""
	if fn.Pkg != nil {
		pk = pkgShort(fn.Pkg.Pkg)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = pkgShort(fn.Object().Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = types.Unalias(p.Elem())
		}
		n := typeKey(t)
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			pk = pkgShort(nt.Obj().Pkg())
		}
		return pk + ".(" + star + n + ")." + fn.Name()
	}
	return pk + "." + fn.Name()
}

func isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		p = fn.Object().Pkg()
	}
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func tuple(rs []Value) Value {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return Tuple(rs)
}

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, in ssa.Instruction, k func(*State, Value)) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.get(st, fr, a))
	}
	fn := x.get(st, fr, c.Value)
	x.callWith(st, fr, c, fn, args, in, k)
}

func (x *Exec) callWith(st *State, fr *Frame, c *ssa.CallCommon, fn Value, args []Value, in ssa.Instruction, k func(*State, Value)) {
	if st.dead() {
		return
	}
	if c.IsInvoke() {
		x.invoke(st, fr, c, fn, args, k)
		return
	}
	f, ok := fn.(Fn)
	if !ok {
		unsup("call of %T", fn)
	}
	switch {
	case f.Bi != nil:
		x.builtin(st, fr, c, f.Bi, args, k)
	case f.F != nil:
		if f.Recv != nil {
			args = append([]Value{f.Recv}, args...)
		}
		x.callFn(st, fr, f.F, f.Binds, args, k)
	default:
		x.callOpaque(st, fr, c, f, args, k)
	}
}

// callOpaque calls a function value the caller does not know.
func (x *Exec) callOpaque(st *State, fr *Frame, c *ssa.CallCommon, f Fn, args []Value, k func(*State, Value)) {
	unsup("call of an unknown function value")
}

// funcNamed finds the method of a concrete type.
func (x *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	return x.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (x *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Value, args []Value, k func(*State, Value)) {
	iv, ok := recv.(Iface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	if iv.Dyn != nil {
		fn := x.method(iv.Dyn, c.Method)
		if fn == nil {
			unsup("no method %s of %s", c.Method.Name(), iv.Dyn)
		}
		x.callFn(st, fr, fn, nil, append([]Value{iv.DynVal}, args...), k)
		return
	}
	x.prove(st, "nil interface: "+c.Method.Name(), Not(Eq(iv.Tag, tZero)), nil)
	key := typeKey(c.Value.Type()) + "." + c.Method.Name()
	con := x.specs.con[key]
	if con == nil {
		unsup("no contract for interface method %s", key)
	}
	sig := c.Method.Type().(*types.Signature)
	ts := []types.Type{c.Value.Type()}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	x.applyContract(st, con, append([]Value{iv}, args...), ts, sig.Results(), k)
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, binds, args []Value, k func(*State, Value)) {
	key := fnKey(fn)
	if ix, ok := intrinsics[key]; ok {
		x.called["intrinsic "+key] = true
		ix(x, st, fr, fn, args, k)
		return
	}
	if con := x.contractOf(key); con != nil && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		var ts []types.Type
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		if len(fn.Params) == 0 && len(args) > 0 { // external without body
			sig := fn.Signature
			if sig.Recv() != nil {
				ts = append(ts, sig.Recv().Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
		}
		x.applyContract(st, con, args, ts, fn.Signature.Results(), k)
		return
	}
	if isRepoFn(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 || fn.Parent() != nil || inlineExt[key] {
		x.inline(st, fr, fn, binds, args, key, func(s *State, rs []Value) { k(s, tuple(rs)) })
		return
	}
	if len(fn.Blocks) == 0 || !isRepoFn(fn) {
		// an external function that receives no memory: any result, no effect
		sig := fn.Signature
		ok := sig.Recv() == nil || valueOnly(sig.Recv().Type(), 0)
		for i := 0; i < sig.Params().Len(); i++ {
			ok = ok && valueOnly(sig.Params().At(i).Type(), 0)
		}
		if ok {
			x.called["unconstrained "+key] = true
			x.bumpAlloc(st)
			var rs []Value
			for i := 0; i < sig.Results().Len(); i++ {
				v := freshVal("ext", sig.Results().At(i).Type(), st.A)
				for _, f := range sliceFacts(v) {
					st.assume(f)
				}
				rs = append(rs, v)
			}
			k(st, tuple(rs))
			return
		}
	}
	unsup("no contract for %s", key)
}

// valueOnly tells whether a value of the type gives no access to memory.
func valueOnly(t types.Type, depth int) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if depth > 5 || !valueOnly(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		return valueOnly(u.Elem(), depth+1)
	}
	return false
}

// small dependency functions executed from their source
var inlineExt = map[string]bool{}

func (x *Exec) contractOf(key string) *Contract {
	c := x.specs.con[key]
	if c == nil || c.Iface {
		return nil
	}
	if c.Impl == "" {
		return c
	}
	return x.specs.merged(c)
}

func (sp *Specs) merged(c *Contract) *Contract {
	if c.Impl == "" {
		return c
	}
	if m, ok := sp.mergedMemo[c]; ok {
		return m
	}
	ic := sp.con[c.Impl]
	if ic == nil {
		panic("no interface contract " + c.Impl)
	}
	m := *c
	m.Params, m.Results = ic.Params, ic.Results
	m.Clauses = append(append([]*Clause{}, ic.Clauses...), c.Clauses...)
	if c.Opts["keep"] == "itermem" { // promises more than the interface: engine memory stays as it is
		for i, cl := range m.Clauses {
			if cl.kind == "modifies" {
				d := *cl
				d.es = nil
				for _, e := range cl.es {
					if e.s != "itermem" {
						d.es = append(d.es, e)
					}
				}
				m.Clauses[i] = &d
			}
		}
	}
	m.Uses = append(append([]string{}, ic.Uses...), c.Uses...)
	m.Props = c.Props
	if len(m.Props) == 0 {
		m.Props = ic.Props
	}
	m.Opts = map[string]string{}
	for k, v := range ic.Opts {
		m.Opts[k] = v
	}
	for k, v := range c.Opts {
		m.Opts[k] = v
	}
	if sp.mergedMemo == nil {
		sp.mergedMemo = map[*Contract]*Contract{}
	}
	sp.mergedMemo[c] = &m
	return &m
}

// applyContract replaces a call by the contract of the callee.
func (x *Exec) applyContract(st *State, con *Contract, args []Value, ts []types.Type, res *types.Tuple, k func(*State, Value)) {
	x.called[con.Name] = true
	if len(args) != len(con.Params) {
		panic(fmt.Sprintf("contract %s has %d parameters, call has %d", con.Name, len(con.Params), len(args)))
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok && !strings.Contains(u.msg, "[contract") {
				u.msg = "[contract " + con.Name + "] " + u.msg
				panic(u)
			}
			panic(e)
		}
	}()
	vars := map[string]SV{}
	for i, p := range con.Params {
		vars[p] = goSV(args[i], ts[i])
	}
	old := st.clone()
	pre := &Env{x: x, st: old, old: old, vars: vars}
	if !con.Extern && !con.Iface && len(con.Params) > 0 {
		if p, ok := args[0].(Ptr); ok && strings.Contains(con.Name, ".(*") {
			x.nilCheck(st, p)
		}
	}
	for _, c := range con.Clauses {
		switch c.kind {
		case "let":
			vars[c.name] = pre.eval(c.e)
		case "requires":
			x.prove(st, "precondition "+c.name+" of "+con.Name, pre.boolT(c.e), nil)
		}
	}
	var locs []GLoc
	alloc := false
	for _, c := range con.Clauses {
		switch c.kind {
		case "modifies":
			for _, e := range c.es {
				locs = append(locs, pre.locs(e)...)
			}
		case "allocates":
			alloc = true
		}
	}
	if alloc {
		x.bumpAlloc(st)
	}
	x.havocLocs(st, locs)
	negCond := map[string]*Term{}
	var negs []*Term
	for _, c := range con.Clauses {
		if c.kind == "neg" {
			t := pre.boolT(c.e)
			negCond[c.name] = t
			dup := false
			for _, u := range negs {
				dup = dup || u == t
			}
			if !dup {
				negs = append(negs, t)
			}
		}
	}
	var forkNeg func(s *State, i int, isNeg map[*Term]bool)
	forkNeg = func(s *State, i int, isNeg map[*Term]bool) {
		if i < len(negs) {
			x.fork(s, negs[i], func(s2 *State, b bool) {
				m := map[*Term]bool{negs[i]: b}
				for k, v := range isNeg {
					m[k] = v
				}
				forkNeg(s2, i+1, m)
			})
			return
		}
		neg := map[string]bool{}
		for n, t := range negCond {
			neg[n] = isNeg[t]
		}
		vs := map[string]SV{}
		for k, v := range vars {
			vs[k] = v
		}
		x.applyPost(s, old, con, vs, neg, res, k)
	}
	forkNeg(st, 0, nil)
}

func (x *Exec) applyPost(st, old *State, con *Contract, vars map[string]SV, neg map[string]bool, res *types.Tuple, k func(*State, Value)) {
	post := &Env{x: x, st: st, old: old, vars: vars, pos: true}
	rs := make([]Value, res.Len())
	for i := range rs {
		rt := res.At(i).Type()
		name := fmt.Sprintf("result%d", i)
		if i < len(con.Results) {
			name = con.Results[i]
		}
		for _, c := range con.Clauses {
			if c.name != name {
				continue
			}
			switch c.kind {
			case "result":
				rs[i] = x.toGo(post.eval(c.e), rt)
			case "freshbytes":
				b := x.newBytes(st, post.term(post.eval(c.e), "Bytes"))
				b.Elem = under(rt).(*types.Slice).Elem()
				junk := Fresh("junk", "Bytes")
				x.hset(st, "HB", hbComp, b.Ref, Bcat(x.backing(st, b.Ref), junk))
				b.Cap = Add(b.Len, Blen(junk))
				rs[i] = b
			case "fresh":
				r := x.alloc(st)
				v := freshVal(con.Name+"."+name, rt, st.A)
				switch v := v.(type) {
				case Ptr:
					v.Base = r
					rs[i] = v
				case Prim:
					rs[i] = Prim{r}
				case Slice:
					isnil := Fresh("isnil", "Bool")
					v.Ref = Ite(isnil, tZero, r)
					v.Off = tZero
					rs[i] = v
				case Iface:
					v.Pay = r
					rs[i] = v
				default:
					unsup("fresh %T", v)
				}
			}
		}
		if rs[i] == nil {
			rs[i] = freshVal(con.Name+"."+name, rt, st.A)
			if neg[name] {
				n := Fresh("mem", "Int")
				nonnegAtom[n] = true
				v := rs[i].(Slice)
				v.Ref = Sub(Int(-1), n)
				v.Off = tZero
				rs[i] = v
			}
		}
		for _, f := range sliceFacts(rs[i]) {
			if i2, ok := rs[i].(Iface); ok && i2.Pay.op != "app" && !nonnegAtom[i2.Pay] {
				continue
			}
			if _, ok := rs[i].(Iface); ok {
				continue
			}
			st.assume(f)
		}
		vars[name] = goSV(rs[i], rt)
	}
	x.ghostSets(con, post)
	for _, c := range con.Clauses {
		if c.kind == "ensures" {
			st.assume(post.boolT(c.e))
		}
	}
	var conds []*Term
	for _, c := range con.Clauses {
		if c.kind == "cases" {
			conds = append(conds, post.boolT(c.e))
		}
	}
	var rec func(s *State, i int)
	rec = func(s *State, i int) {
		if i == len(conds) {
			k(s, tuple(rs))
			return
		}
		x.fork(s, conds[i], func(s2 *State, _ bool) { rec(s2, i+1) })
	}
	rec(st, 0)
}

// toGo turns a spec value into a Go value of type t.
func (x *Exec) toGo(s SV, t types.Type) Value {
	if s.nil_ {
		return zero(t)
	}
	if s.V != nil {
		if i, ok := s.V.(Iface); ok {
			return i
		}
		if types.IsInterface(t) {
			return mkIface(s.typ, s.V)
		}
		return s.V
	}
	cs := comps(t)
	if len(cs) != 1 {
		unsup("result of type %s from a term", t)
	}
	if cs[0].sort != s.T.sort {
		unsup("result sort %s, want %s", s.T.sort, cs[0].sort)
	}
	if !s.T.isInt() {
		typeTerm(s.T, cs[0], nil)
	}
	return unflatten(t, []*Term{s.T})
}

func (x *Exec) havocLocs(st *State, locs []GLoc) {
	type nr struct {
		n string
		r *Term
	}
	done := map[nr]bool{}
	for _, l := range locs {
		if l.neg {
			n := "HB"
			freshN++
			nextID++
			nm := fmt.Sprintf("%s@%d", n, freshN)
			hbaseMark[nm] = nextID
			st.heap[n] = &HNode{kind: 'h', base: x.hnode(st, n, hbComp), name: nm, sort: hbComp.sort, comp: hbComp, reg: &Region{neg: true}, bound: st.A}
			continue
		}
		if done[nr{l.name, l.ref}] {
			continue
		}
		done[nr{l.name, l.ref}] = true
		x.havocAt(st, l.name, l.comp, l.ref)
	}
}

// ---- builtins

func (x *Exec) builtin(st *State, fr *Frame, c *ssa.CallCommon, b *ssa.Builtin, args []Value, k func(*State, Value)) {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Slice:
			if b.Name() == "len" {
				k(st, Prim{v.Len})
			} else {
				k(st, Prim{v.Cap})
			}
			return
		case Prim:
			if v.T.sort == "Bytes" {
				k(st, Prim{Blen(v.T)})
				return
			}
			if m, ok := under(c.Args[0].Type()).(*types.Map); ok {
				if v.T == tZero {
					k(st, Prim{tZero})
					return
				}
				k(st, Prim{x.hget(st, mapInfo(m).card, cardComp, v.T)})
				return
			}
		case Arr:
			k(st, Prim{Int(v.N)})
			return
		}
		unsup("len of %T", args[0])
	case "append":
		x.appendB(st, c, args, k)
		return
	case "copy":
		x.copyB(st, c, args, k)
		return
	case "delete":
		m := prim(args[0])
		mt := under(c.Args[0].Type()).(*types.Map)
		key := flatten(args[1])[0]
		if m == tZero {
			k(st, nil)
			return
		}
		mi := mapInfo(mt)
		d := x.hget(st, mi.dom, mi.domC, m)
		n := x.hget(st, mi.card, cardComp, m)
		nc := Ite(Select(d, key), Sub(n, tOne), n)
		x.hset(st, mi.card, cardComp, m, nc)
		x.hset(st, mi.dom, mi.domC, m, Store(d, key, tFalse))
		// a member implies a positive size
		st.assume(Implies(Select(d, key), Ge(n, tOne)))
		k(st, nil)
		return
	case "min", "max":
		r := prim(args[0])
		for _, a := range args[1:] {
			t := prim(a)
			if r.sort != "Int" {
				unsup("min/max")
			}
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Ge(r, t), r, t)
			}
		}
		k(st, Prim{r})
		return
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok {
			x.nilCheck(st, p)
		}
		k(st, args[0])
		return
	case "close":
		x.closeChan(st, fr, c, args[0], k)
		return
	case "print", "println":
		k(st, nil)
		return
	case "recover":
		k(st, Iface{Tag: tZero, Pay: tZero})
		return
	}
	unsup("builtin %s", b.Name())
}

// sliceOfArg is the appended or copied source
func (x *Exec) byteSrc(st *State, v Value) *Term {
	switch v := v.(type) {
	case Slice:
		return x.sbytes(st, v)
	case Prim:
		return v.T
	}
	unsup("byte source %T", v)
	return nil
}

func (x *Exec) appendB(st *State, c *ssa.CallCommon, args []Value, k func(*State, Value)) {
	s := args[0].(Slice)
	if len(args) == 1 {
		k(st, s)
		return
	}
	elem := s.Elem
	var n *Term
	var content *Term
	src, isS := args[1].(Slice)
	if isByte(elem) {
		content = x.byteSrc(st, args[1])
		n = Blen(content)
		if isS {
			n = src.Len
		}
	} else {
		n = src.Len
	}
	if n == tZero {
		k(st, s)
		return
	}
	nl := Add(s.Len, n)
	fits := Le(nl, s.Cap)
	if s.Ref == tZero {
		fits = Eq(n, tZero)
	}
	x.fork(st, fits, func(st *State, fit bool) {
		if fit {
			if s.Ref == tZero {
				// nothing fits a nil slice
			} else if !isByte(elem) && !n.isInt() {
				// nothing is written when there is nothing to append
				x.fork(st, Eq(n, tZero), func(st *State, empty bool) {
					if empty {
						k(st, s)
						return
					}
					x.copyElems(st, elem, memRef(s.Ref), Add(s.Off, s.Len), src, n, memRef(s.Ref))
					k(st, Slice{s.Ref, s.Off, nl, s.Cap, elem})
				})
				return
			} else if isByte(elem) {
				b := x.backing(st, memRef(s.Ref))
				x.hset(st, "HB", hbComp, memRef(s.Ref), Bsplice(b, Add(s.Off, s.Len), content))
			} else {
				x.copyElems(st, elem, memRef(s.Ref), Add(s.Off, s.Len), src, n, memRef(s.Ref))
			}
			k(st, Slice{s.Ref, s.Off, nl, s.Cap, elem})
			return
		}
		r := x.alloc(st)
		nc := Fresh("cap", "Int")
		nonnegAtom[nc] = true
		rangeOf[nc] = rng{tZero.val, two(47)}
		st.assume(Ge(nc, nl))
		if isByte(elem) {
			// the whole backing array keeps its size; bytes past len are zero
			oldc := x.sbytes(st, s)
			full := Bcat(oldc, content, App("bzero", Sub(nc, nl)))
			x.hset(st, "HB", hbComp, r, full)
		} else {
			x.growElems(st, elem, r, s)
			x.copyElems(st, elem, r, s.Len, src, n, r)
		}
		k(st, Slice{r, tZero, nl, nc, elem})
	})
}

// growElems gives array r the elements of s from 0 on.
func (x *Exec) growElems(st *State, elem types.Type, r *Term, s Slice) {
	for _, c := range comps(elem) {
		n := elemHeap(elem) + c.sfx
		ec := elemComp(c)
		old := x.hget(st, n, ec, memRef(s.Ref))
		var a *Term
		if s.Off == tZero {
			a = old
		} else {
			a = Fresh("grow", ec.sort)
			i := BV("i", "Int")
			e := Select(a, i)
			st.assume(Forall([]*Term{i}, [][]*Term{{e}}, Eq(e, Select(old, Add(s.Off, i)))))
			typeTerm(a, ec, st.A)
		}
		x.hset(st, n, ec, r, a)
	}
}

// copyElems writes n elements of src at position at of array dst.
func (x *Exec) copyElems(st *State, elem types.Type, dst, at *Term, src Slice, n, _ *Term) {
	for _, c := range comps(elem) {
		name := elemHeap(elem) + c.sfx
		ec := elemComp(c)
		d := x.hget(st, name, ec, dst)
		s := x.hget(st, name, ec, memRef(src.Ref))
		if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 8 {
			for j := int64(0); j < n.val.Int64(); j++ {
				d = Store(d, Add(at, Int(j)), Select(s, Add(src.Off, Int(j))))
			}
			x.hset(st, name, ec, dst, d)
			continue
		}
		a := Fresh("cpy", ec.sort)
		typeTerm(a, ec, st.A)
		i := BV("i", "Int")
		e := Select(a, i)
		in := And(Ge(i, at), Lt(i, Add(at, n)))
		st.assume(Forall([]*Term{i}, [][]*Term{{e}}, Eq(e, Ite(in, Select(s, Add(src.Off, Sub(i, at))), Select(d, i)))))
		x.hset(st, name, ec, dst, a)
	}
}

func (x *Exec) copyB(st *State, c *ssa.CallCommon, args []Value, k func(*State, Value)) {
	d := args[0].(Slice)
	if isByte(d.Elem) {
		b := x.byteSrc(st, args[1])
		bl := Blen(b)
		if s, ok := args[1].(Slice); ok {
			bl = s.Len
		}
		do := func(st *State, n *Term) {
			if n != tZero {
				x.hset(st, "HB", hbComp, memRef(d.Ref), Bsplice(x.backing(st, memRef(d.Ref)), d.Off, Bsub(b, tZero, n)))
			}
			k(st, Prim{n})
		}
		x.fork(st, Le(bl, d.Len), func(st *State, v bool) {
			if v {
				do(st, bl)
			} else {
				do(st, d.Len)
			}
		})
		return
	}
	s := args[1].(Slice)
	x.fork(st, Le(s.Len, d.Len), func(st *State, v bool) {
		n := s.Len
		if !v {
			n = d.Len
		}
		x.copyElems(st, d.Elem, memRef(d.Ref), d.Off, s, n, nil)
		k(st, Prim{n})
	})
}

// ---- channels and goroutines (see intrinsics)

type producer struct{}

func (x *Exec) recv(st *State, fr *Frame, in *ssa.UnOp, k func(*State)) { unsup("channel receive") }
func (x *Exec) makeChan(st *State, fr *Frame, in *ssa.MakeChan) *Term {
	return x.alloc(st)
}
func (x *Exec) goStmt(st *State, fr *Frame, in *ssa.Go)                 { unsup("go statement") }
func (x *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select, k func(*State)) {
	unsup("select statement")
}
func (x *Exec) closeChan(st *State, fr *Frame, c *ssa.CallCommon, ch Value, k func(*State, Value)) {
	unsup("close")
}

// ghostSets performs the ghost assignments of a contract.
func (x *Exec) ghostSets(con *Contract, e *Env) {
	type upd struct {
		l GLoc
		v *Term
	}
	var us []upd
	for _, c := range con.Clauses {
		if c.kind != "ghostset" {
			continue
		}
		ls := e.locs(c.es[0])
		if len(ls) != 1 {
			unsup("ghostset location")
		}
		us = append(us, upd{ls[0], e.term(e.eval(c.e), ls[0].comp.sort)})
	}
	for _, u := range us {
		x.hset(e.st, u.l.name, u.l.comp, u.l.ref, u.v)
	}
}
