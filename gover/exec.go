package main

// Path-wise symbolic execution of go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Fn{F: v}
	case *ssa.Builtin:
		return Fn{Bi: v}
	case *ssa.Global:
		return Ptr{Base: x.globalRef(v), Root: v.Type().(*types.Pointer).Elem()}
	}
	r, ok := st.env[vkey{fr.id, v}]
	if !ok {
		unsup("value %s of %s not available", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, val Value) {
	st.env[vkey{fr.id, v}] = val
}

var globalRefs = map[string]int64{}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	return globalRefNamed(pkgShort(g.Pkg.Pkg) + "." + g.Name())
}

func globalRefNamed(n string) *Term {
	r, ok := globalRefs[n]
	if !ok {
		r = int64(len(globalRefs) + 1)
		globalRefs[n] = r
	}
	return Int(r)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Prim{BoolT(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("constant %s", c)
			}
			return Prim{IntB(b)}
		case u.Info()&types.IsString != 0:
			return Prim{BytesLit(constant.StringVal(c.Value))}
		case u.Info()&types.IsFloat != 0:
			return Prim{realConst(c.Value)}
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func realConst(v constant.Value) *Term {
	f := constant.ToFloat(v)
	n, d := constant.Num(f), constant.Denom(f)
	if n.Kind() != constant.Int || d.Kind() != constant.Int {
		return UF("fconst$"+v.ExactString(), "Real")
	}
	s := n.ExactString()
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if len(s) > 60 || len(d.ExactString()) > 60 {
		return UF("fconst$"+v.ExactString(), "Real")
	}
	r := fmt.Sprintf("(/ %s.0 %s.0)", s, d.ExactString())
	if d.ExactString() == "1" {
		r = s + ".0"
	}
	if neg {
		r = "(- " + r + ")"
	}
	return Real(r)
}

// ---- frames

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame, key string, k func(*State, []Value)) *Frame {
	x.frameN++
	f := &Frame{id: x.frameN, fn: fn, parent: parent, key: key, k: k, loops: loopsOf(fn)}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

// inline executes the body of fn.
func (x *Exec) inline(st *State, caller *Frame, fn *ssa.Function, binds, args []Value, key string, k func(*State, []Value)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	d := 0
	for f := caller; f != nil; f = f.parent {
		if f.fn == fn {
			d++
		}
	}
	if d > 0 {
		unsup("recursive call of %s without a contract", fn)
	}
	fr := x.newFrame(fn, caller, key, nil)
	nl := len(st.loops)
	fr.k = func(s *State, rets []Value) {
		for kk := range s.env {
			if kk.f == fr.id {
				delete(s.env, kk)
			}
		}
		s.loops = s.loops[:nl:nl]
		k(s, rets)
	}
	if caller != nil && fn.Parent() == nil {
		x.inlined[fnKey(fn)] = true
	}
	for i, p := range fn.Params {
		st.env[vkey{fr.id, p}] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.env[vkey{fr.id, fv}] = binds[i]
	}
	x.block(st, fr, fn.Blocks[0], nil)
}

func (x *Exec) block(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	// leaving loops of this frame?
	for i, lc := range st.loops {
		if lc.fr == fr && !lc.L.body[b] {
			if lc.infer {
				return // exits are not followed while inferring
			}
			st.loops = st.loops[:i:i]
			break
		}
	}
	if L := fr.loops[b]; L != nil {
		if pred != nil && L.body[pred] {
			x.backEdge(st, fr, L, b, pred)
			return
		}
		x.enterLoop(st, fr, L, b, pred)
		return
	}
	x.phis(st, fr, b, pred)
	x.instrs(st, fr, b, 0)
}

func (x *Exec) phis(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var vs []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.get(st, fr, p.Edges[pi]))
	}
	for i, p := range ps {
		x.set(st, fr, p, vs[i])
	}
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := in.Type().(*types.Pointer).Elem()
			r := x.alloc(st)
			p := Ptr{Base: r, Root: t}
			x.store(st, p, zero(t))
			for _, g := range x.specs.ghostInit[typeKey(t)] {
				srt := x.specs.ghost[g[0]]
				v := UF(g[1], srt)
				switch g[1] {
				case "true":
					v = tTrue
				case "false":
					v = tFalse
				case "0":
					v = tZero
				}
				x.hset(st, "g$"+g[0], ghostComp(srt), r, v)
			}
			x.set(st, fr, in, p)
		case *ssa.Store:
			p := x.ptr(st, fr, in.Addr)
			x.nilCheck(st, p)
			x.store(st, p, x.get(st, fr, in.Val))
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				ii := i
				x.recv(st, fr, in, func(s *State) { x.instrs(s, fr, b, ii+1) })
				return
			}
			x.set(st, fr, in, x.unop(st, fr, in))
		case *ssa.BinOp:
			x.set(st, fr, in, x.binop(st, in.Op, x.get(st, fr, in.X), x.get(st, fr, in.Y), in.X.Type(), in.Type()))
		case *ssa.ChangeType:
			v := x.get(st, fr, in.X)
			if p, ok := v.(Ptr); ok {
				if pt, ok := under(in.Type()).(*types.Pointer); ok && len(p.Path) == 0 && !p.Elem {
					p.Root = pt.Elem()
					v = p
				}
			}
			if s, ok := v.(Slice); ok {
				s.Elem = under(in.Type()).(*types.Slice).Elem()
				v = s
			}
			x.set(st, fr, in, v)
		case *ssa.ChangeInterface:
			x.set(st, fr, in, x.get(st, fr, in.X))
		case *ssa.Convert:
			x.set(st, fr, in, x.convert(st, x.get(st, fr, in.X), in.X.Type(), in.Type()))
		case *ssa.MakeInterface:
			x.set(st, fr, in, mkIface(in.X.Type(), x.get(st, fr, in.X)))
		case *ssa.Extract:
			x.set(st, fr, in, x.get(st, fr, in.Tuple).(Tuple)[in.Index])
		case *ssa.Field:
			v := x.get(st, fr, in.X).(Struct)
			x.set(st, fr, in, v.F[in.Field])
		case *ssa.FieldAddr:
			p := x.ptr(st, fr, in.X)
			x.nilCheck(st, p)
			q := p
			q.Path = append(append([]int{}, p.Path...), in.Field)
			x.set(st, fr, in, q)
		case *ssa.IndexAddr:
			x.set(st, fr, in, x.indexAddr(st, fr, in))
		case *ssa.Index:
			x.set(st, fr, in, x.index(st, fr, in))
		case *ssa.Slice:
			x.set(st, fr, in, x.slice(st, fr, in))
		case *ssa.MakeSlice:
			x.set(st, fr, in, x.makeSlice(st, fr, in))
		case *ssa.MakeMap:
			r := x.mapNew(st, under(in.Type()).(*types.Map))
			x.set(st, fr, in, Prim{r})
		case *ssa.MakeChan:
			x.set(st, fr, in, Prim{x.makeChan(st, fr, in)})
		case *ssa.MapUpdate:
			m := x.get(st, fr, in.Map).(Prim).T
			x.prove(st, "nil map write", Not(Eq(m, tZero)), nil)
			x.mapSet(st, under(in.Map.Type()).(*types.Map), m, flatten(x.get(st, fr, in.Key))[0], x.get(st, fr, in.Value))
		case *ssa.Lookup:
			x.set(st, fr, in, x.lookup(st, fr, in))
		case *ssa.Range:
			x.set(st, fr, in, x.rangeStart(st, fr, in))
		case *ssa.Next:
			ii := i
			x.rangeNext(st, fr, in, func(s *State) { x.instrs(s, fr, b, ii+1) })
			return
		case *ssa.MakeClosure:
			var bs []Value
			for _, bnd := range in.Bindings {
				bs = append(bs, x.get(st, fr, bnd))
			}
			x.set(st, fr, in, Fn{F: in.Fn.(*ssa.Function), Binds: bs})
		case *ssa.TypeAssert:
			ii := i
			x.typeAssert(st, fr, in, func(s *State) { x.instrs(s, fr, b, ii+1) })
			return
		case *ssa.Call:
			ii := i
			pos := in.Pos()
			x.call(st, fr, &in.Call, in, func(s *State, v Value) {
				if pos.IsValid() {
					x.curPos = pos
				}
				x.set(s, fr, in, v)
				x.instrs(s, fr, b, ii+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.get(st, fr, a))
			}
			if !in.Call.IsInvoke() {
				d.fn = x.get(st, fr, in.Call.Value)
			} else {
				d.fn = x.get(st, fr, in.Call.Value)
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			ii := i
			x.runDefers(st, fr, func(s *State) { x.instrs(s, fr, b, ii+1) })
			return
		case *ssa.Go:
			x.goStmt(st, fr, in)
		case *ssa.Select:
			ii := i
			x.selectStmt(st, fr, in, func(s *State) { x.instrs(s, fr, b, ii+1) })
			return
		case *ssa.Send:
			unsup("channel send")
		case *ssa.If:
			c := x.get(st, fr, in.Cond).(Prim).T
			if x.infer == 0 {
				x.branch(in, 0)
			}
			x.fork(st, c, func(s *State, v bool) {
				if x.infer == 0 {
					if v {
						x.branch(in, 1)
					} else {
						x.branch(in, 2)
					}
				}
				if v {
					x.block(s, fr, b.Succs[0], b)
				} else {
					x.block(s, fr, b.Succs[1], b)
				}
			})
			return
		case *ssa.Jump:
			x.block(st, fr, b.Succs[0], b)
			return
		case *ssa.Return:
			for _, lc := range st.loops {
				if lc.fr == fr {
					if lc.infer {
						return
					}
				}
			}
			var rs []Value
			for _, r := range in.Results {
				rs = append(rs, x.get(st, fr, r))
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.prove(st, "no panic", tFalse, nil)
			return
		default:
			unsup("instruction %T", in)
		}
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	x.curPos = d.pos
	x.callWith(st, fr, d.call, d.fn, d.args, nil, func(s *State, _ Value) { x.runDefers(s, fr, k) })
}

func (x *Exec) ptr(st *State, fr *Frame, v ssa.Value) Ptr {
	p, ok := x.get(st, fr, v).(Ptr)
	if !ok {
		unsup("pointer expected: %s", v)
	}
	if p.Root == nil {
		p.Root = under(v.Type()).(*types.Pointer).Elem()
	}
	return p
}

func (x *Exec) nilCheck(st *State, p Ptr) {
	if p.Elem || len(p.Path) > 0 {
		return
	}
	if refLt(tZero, p.Base) {
		return
	}
	x.prove(st, "nil dereference", Not(Eq(p.Base, tZero)), nil)
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Value {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok && isErrorType(g.Type().(*types.Pointer).Elem()) {
			r := x.globalRef(g)
			return Iface{Tag: Int(1), Pay: r}
		}
		p := x.ptr(st, fr, in.X)
		x.nilCheck(st, p)
		return x.load(st, p)
	case token.NOT:
		return Prim{Not(x.get(st, fr, in.X).(Prim).T)}
	case token.SUB:
		t := x.get(st, fr, in.X).(Prim).T
		if t.sort == "Real" {
			return Prim{UF("fneg", "Real", t)}
		}
		return Prim{wrap(Neg(t), in.Type())}
	case token.XOR:
		t := x.get(st, fr, in.X).(Prim).T
		_, sgn := intBits(in.Type())
		if sgn {
			return Prim{Sub(Int(-1), t)}
		}
		_, hi := intRange(in.Type())
		return Prim{Sub(IntB(hi), t)}
	}
	unsup("unary %s", in.Op)
	return nil
}

func prim(v Value) *Term {
	if p, ok := v.(Prim); ok {
		return p.T
	}
	unsup("primitive expected, have %T", v)
	return nil
}

func valEq(a, b Value) *Term {
	fa, fb := flatten(a), flatten(b)
	r := tTrue
	for i := range fa {
		r = And(r, Eq(fa[i], fb[i]))
	}
	return r
}

// Feq is floating point equality: symmetric, otherwise uninterpreted.
func Feq(a, b *Term) *Term {
	return App("feq", a, b)
}

// goEq is ==  of the language on structs and arrays
func goEq(a, b Value) *Term {
	fa, fb := flatten(a), flatten(b)
	r := tTrue
	for i := range fa {
		if fa[i].sort == "Real" {
			r = And(r, Feq(fa[i], fb[i]))
			continue
		}
		r = And(r, Eq(fa[i], fb[i]))
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, xt, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		switch av := a.(type) {
		case Slice: // comparison with nil
			e = Eq(av.Ref, tZero)
			if bs := b.(Slice); bs.Ref != tZero {
				e = Eq(bs.Ref, tZero)
			}
		case Iface:
			bv := b.(Iface)
			e = And(Eq(av.Tag, bv.Tag), Eq(av.Pay, bv.Pay))
			if bv.Tag == tZero {
				e = Eq(av.Tag, tZero)
			} else if av.Tag == tZero {
				e = Eq(bv.Tag, tZero)
			}
		case Fn:
			e = Eq(flatten(a)[0], flatten(b)[0])
		default:
			if pa, ok := a.(Prim); ok && pa.T.sort == "Real" {
				e = Feq(pa.T, prim(b))
			} else if sa, ok := a.(Struct); ok {
				e = goEq(sa, b)
			} else {
				e = goEq(a, b)
			}
		}
		if op == token.NEQ {
			e = Not(e)
		}
		return Prim{e}
	}
	p, q := prim(a), prim(b)
	if p.sort == "Real" {
		n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}
		if f, ok := n[op]; ok {
			return Prim{FOp(f, p, q)}
		}
		switch op {
		case token.LSS:
			return Prim{UF("flt", "Bool", p, q)}
		case token.GTR:
			return Prim{UF("flt", "Bool", q, p)}
		case token.LEQ:
			return Prim{UF("fle", "Bool", p, q)}
		case token.GEQ:
			return Prim{UF("fle", "Bool", q, p)}
		}
		unsup("float %s", op)
	}
	if p.sort == "Bytes" {
		switch op {
		case token.ADD:
			return Prim{Bcat(p, q)}
		case token.LSS:
			return Prim{App("blt", p, q)}
		case token.GTR:
			return Prim{App("blt", q, p)}
		case token.LEQ:
			return Prim{Not(App("blt", q, p))}
		case token.GEQ:
			return Prim{Not(App("blt", p, q))}
		}
	}
	if p.sort == "Bool" {
		unsup("bool %s", op)
	}
	switch op {
	case token.ADD:
		return Prim{wrap(Add(p, q), rt)}
	case token.SUB:
		return Prim{wrap(Sub(p, q), rt)}
	case token.MUL:
		return Prim{wrap(Mul(p, q), rt)}
	case token.LSS:
		return Prim{Lt(p, q)}
	case token.GTR:
		return Prim{Lt(q, p)}
	case token.LEQ:
		return Prim{Le(p, q)}
	case token.GEQ:
		return Prim{Le(q, p)}
	case token.QUO, token.REM:
		if q.isInt() && q.val.Sign() > 0 {
			lo, _ := bounds(p)
			if nonneg(p) || lo != nil && lo.Sign() >= 0 {
				if op == token.QUO {
					return Prim{DivT(p, q.val)}
				}
				return Prim{ModT(p, q.val)}
			}
			// truncated division
			quo := Ite(Ge(p, tZero), DivT(p, q.val), Neg(DivT(Neg(p), q.val)))
			if op == token.QUO {
				return Prim{quo}
			}
			return Prim{Sub(p, Mul(IntB(q.val), quo))}
		}
		x.prove(st, "division by zero", Not(Eq(q, tZero)), nil)
		n := "idiv"
		if op == token.REM {
			n = "irem"
		}
		return Prim{wrap(UF(n, "Int", p, q), rt)}
	case token.SHL:
		if q.isInt() && q.val.IsInt64() && q.val.Int64() < 64 {
			return Prim{wrap(Mul(IntB(two(uint(q.val.Int64()))), p), rt)}
		}
	case token.SHR:
		if q.isInt() && q.val.IsInt64() && q.val.Int64() < 64 {
			return Prim{wrap(DivT(p, two(uint(q.val.Int64()))), rt)}
		}
	}
	n := map[token.Token]string{token.AND: "iand", token.OR: "ior", token.XOR: "ixor", token.SHL: "ishl", token.SHR: "ishr", token.AND_NOT: "iandnot"}[op]
	if n == "" {
		unsup("operator %s", op)
	}
	return Prim{wrap(UF(n, "Int", p, q), rt)}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	ft, tt := under(from), under(to)
	fb, fok := ft.(*types.Basic)
	tb, tok := tt.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return Prim{wrap(prim(v), to)}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			p := prim(v)
			return Prim{UF("i2f$Int", "Real", p)}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			t := UF("f2i_"+tb.Name(), "Int", prim(v))
			typeTerm(t, Comp{"", "Int", "int", to}, nil)
			return Prim{t}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() {
				return v
			}
			return Prim{UF("fround_"+tb.Name(), "Real", prim(v))}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Prim{App("runestr", prim(v))}
		}
	}
	if tok && tb.Info()&types.IsString != 0 && isByteSlice(from) {
		s := v.(Slice)
		return Prim{x.sbytes(st, s)}
	}
	if fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		s := x.newBytes(st, prim(v))
		s.Elem = tt.(*types.Slice).Elem()
		return s
	}
	if types.Identical(ft, tt) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// ---- interfaces

var typeTags = map[string]int64{}

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	n, ok := typeTags[k]
	if !ok {
		n = int64(len(typeTags) + 10)
		typeTags[k] = n
	}
	return Int(n)
}

func mkIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{Tag: typeTag(t), Pay: box(t, v), Dyn: t, DynVal: v}
}

func box(t types.Type, v Value) *Term {
	if p, ok := v.(Ptr); ok {
		return ptrAddr(p)
	}
	ts := flatten(v)
	cs := comps(t)
	if len(cs) == 1 {
		return App(boxName(cs[0].sort), ts[0])
	}
	return UF("box$"+typeKey(t), "Int", ts...)
}

func boxName(sort string) string {
	return "box_" + sort
}

func unbox(t types.Type, pay *Term) Value {
	if _, ok := under(t).(*types.Pointer); ok {
		return unflatten(t, []*Term{pay})
	}
	cs := comps(t)
	if len(cs) == 1 {
		b := boxName(cs[0].sort)
		if pay.op == "app" && pay.name == b {
			return unflatten(t, pay.args)
		}
		u := App("un"+b, pay)
		typeTerm(u, cs[0], nil)
		return unflatten(t, []*Term{u})
	}
	if pay.op == "app" && pay.name == sanitize("box$"+typeKey(t)) {
		return unflatten(t, pay.args)
	}
	var ts []*Term
	for _, c := range cs {
		u := UF("unbox$"+typeKey(t)+c.sfx, c.sort, pay)
		typeTerm(u, c, nil)
		ts = append(ts, u)
	}
	return unflatten(t, ts)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State)) {
	v := x.get(st, fr, in.X).(Iface)
	at := in.AssertedType
	fin := func(s *State, val Value, ok bool) {
		if in.CommaOk {
			if !ok {
				val = zero(at)
			}
			x.set(s, fr, in, Tuple{val, Prim{BoolT(ok)}})
		} else {
			x.set(s, fr, in, val)
		}
		k(s)
	}
	var cond *Term
	var val Value
	if types.IsInterface(at) {
		switch {
		case v.Dyn != nil:
			cond = BoolT(types.Implements(v.Dyn, under(at).(*types.Interface)))
		default:
			cond = And(Not(Eq(v.Tag, tZero)), UF("implements$"+typeKey(at), "Bool", v.Tag))
		}
		val = v
	} else {
		if v.Dyn != nil {
			cond = BoolT(types.Identical(v.Dyn, at))
			val = v.DynVal
		} else {
			cond = Eq(v.Tag, typeTag(at))
			val = unbox(at, v.Pay)
			x.assumeVal(st, val)
		}
	}
	if !in.CommaOk {
		x.prove(st, "type assertion", cond, nil)
		st.assume(cond)
		fin(st, val, true)
		return
	}
	x.fork(st, cond, func(s *State, b bool) {
		fin(s, val, b)
	})
}

// ---- indexing

func (x *Exec) inBounds(st *State, i, n *Term) {
	x.prove(st, "index in range", And(Ge(i, tZero), Lt(i, n)), nil)
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Value {
	i := prim(x.get(st, fr, in.Index))
	switch v := x.get(st, fr, in.X).(type) {
	case Slice:
		x.inBounds(st, i, v.Len)
		return Ptr{Base: memRef(v.Ref), Root: v.Elem, Elem: true, Idx: Add(v.Off, i)}
	case Ptr:
		at, ok := under(v.Root).(*types.Array)
		if !ok || len(v.Path) > 0 || v.Elem {
			unsup("index of inner array")
		}
		x.inBounds(st, i, Int(at.Len()))
		return Ptr{Base: v.Base, Root: at.Elem(), Elem: true, Idx: i}
	}
	unsup("index address")
	return nil
}

func (x *Exec) index(st *State, fr *Frame, in *ssa.Index) Value {
	i := prim(x.get(st, fr, in.Index))
	switch v := x.get(st, fr, in.X).(type) {
	case Arr:
		x.inBounds(st, i, Int(v.N))
		if isByte(v.Elem) {
			t := App("bat", v.C[0], i)
			typeTerm(t, Comp{"", "Int", "int", in.Type()}, nil)
			return Prim{t}
		}
		var ts []*Term
		for j, c := range comps(v.Elem) {
			ts = append(ts, elemSelect(v.C[j], i, c, nil))
		}
		return unflatten(v.Elem, ts)
	case Prim: // string
		x.inBounds(st, i, Blen(v.T))
		t := App("bat", v.T, i)
		typeTerm(t, Comp{"", "Int", "int", in.Type()}, nil)
		return Prim{t}
	}
	unsup("index")
	return nil
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Value {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return prim(x.get(st, fr, v))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = tZero
	}
	switch v := x.get(st, fr, in.X).(type) {
	case Prim: // string
		n := Blen(v.T)
		if hi == nil {
			hi = n
		}
		x.prove(st, "slice bounds", And(Ge(lo, tZero), Le(lo, hi), Le(hi, n)), nil)
		return Prim{Bsub(v.T, lo, hi)}
	case Slice:
		if hi == nil {
			hi = v.Len
		}
		m := v.Cap
		if mx != nil {
			m = mx
		}
		x.prove(st, "slice bounds", And(Ge(lo, tZero), Le(lo, hi), Le(hi, m), Le(m, v.Cap)), nil)
		if !isByte(v.Elem) && in.High != nil && !nonneg(Sub(v.Len, hi)) {
			x.prove(st, "reslice within length", Le(hi, v.Len), nil)
		}
		r := Slice{v.Ref, Add(v.Off, lo), Sub(hi, lo), Sub(m, lo), v.Elem}
		noteNonneg(st, r.Off)
		noteNonneg(st, r.Len)
		noteNonneg(st, r.Cap)
		return r
	case Ptr:
		at, ok := under(v.Root).(*types.Array)
		if !ok || len(v.Path) > 0 || v.Elem {
			unsup("slice of inner array")
		}
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		m := n
		if mx != nil {
			m = mx
		}
		x.prove(st, "slice bounds", And(Ge(lo, tZero), Le(lo, hi), Le(hi, m), Le(m, n)), nil)
		return Slice{v.Base, lo, Sub(hi, lo), Sub(m, lo), at.Elem()}
	}
	unsup("slice")
	return nil
}

func noteNonneg(st *State, t *Term) { st.assume(Ge(t, tZero)) }

func (x *Exec) makeSlice(st *State, fr *Frame, in *ssa.MakeSlice) Value {
	n := prim(x.get(st, fr, in.Len))
	c := prim(x.get(st, fr, in.Cap))
	x.prove(st, "make length", And(Ge(n, tZero), Le(n, c)), nil)
	el := under(in.Type()).(*types.Slice).Elem()
	return x.newSlice(st, el, n, c)
}

func (x *Exec) newSlice(st *State, el types.Type, n, c *Term) Slice {
	r := x.alloc(st)
	if isByte(el) {
		x.hset(st, "HB", hbComp, r, App("bzero", c))
	} else {
		for _, cc := range comps(el) {
			ec := elemComp(cc)
			z := zeroOf(cc.sort)
			if cc.kind == "arr" {
				unsup("slice of arrays")
			}
			x.hset(st, elemHeap(el)+cc.sfx, ec, r, ConstArr(ec.sort, z))
		}
	}
	return Slice{r, tZero, n, c, el}
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) Value {
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok { // string index
		i := prim(x.get(st, fr, in.Index))
		s := prim(x.get(st, fr, in.X))
		x.inBounds(st, i, Blen(s))
		t := App("bat", s, i)
		typeTerm(t, Comp{"", "Int", "int", in.Type()}, nil)
		return Prim{t}
	}
	m := prim(x.get(st, fr, in.X))
	key := flatten(x.get(st, fr, in.Index))[0]
	v, d := x.mapGet(st, mt, m, key)
	z := flatten(zero(mt.Elem()))
	vs := flatten(v)
	// constant maps resolve directly
	var ts []*Term
	for i := range vs {
		t := Ite(d, vs[i], z[i])
		cs := comps(mt.Elem())
		if t.op == "ite" {
			typeTerm(t, cs[i], st.A)
		}
		ts = append(ts, t)
	}
	res := unflatten(mt.Elem(), ts)
	x.assumeVal(st, res)
	if in.CommaOk {
		return Tuple{res, Prim{d}}
	}
	return res
}

// ---- range over maps and strings

var posComp = Comp{"", "Int", "nat", nil}

func (x *Exec) rangeStart(st *State, fr *Frame, in *ssa.Range) Value {
	r := x.alloc(st)
	x.hset(st, "R$pos", posComp, r, tZero)
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		return RangeIt{Ref: r, S: prim(x.get(st, fr, in.X))}
	}
	m := prim(x.get(st, fr, in.X))
	mi := mapInfo(mt)
	dom := x.mapDom(st, mt, m)
	card := x.hget(st, mi.card, cardComp, m)
	if m == tZero {
		card = tZero
	}
	en := Fresh("enum", "(Array Int "+mi.ksort+")")
	rk := Fresh("rank", "(Array "+mi.ksort+" Int)")
	i := BV("i", "Int")
	kk := BV("k", mi.ksort)
	ei := Select(en, i)
	body := Implies(And(Ge(i, tZero), Lt(i, card)), And(Select(dom, ei), Eq(Select(rk, ei), i)))
	st.assume(Forall([]*Term{i}, [][]*Term{{ei}}, body))
	rkk := Select(rk, kk)
	b2 := Implies(Select(dom, kk), And(Ge(rkk, tZero), Lt(rkk, card), Eq(Select(en, rkk), kk)))
	tr := [][]*Term{{rkk}}
	if dk := Select(dom, kk); dk.op == "select" && dk.args[0].op != "store" {
		tr = append(tr, []*Term{dk})
	}
	st.assume(Forall([]*Term{kk}, tr, b2))
	if mi.kc.kind == "int" {
		lo, hi := intRange(mi.kc.typ)
		st.assume(Forall([]*Term{i}, [][]*Term{{ei}}, And(Ge(ei, IntB(lo)), Le(ei, IntB(hi)))))
	}
	return RangeIt{Ref: r, Map: mt, M: m, Dom0: dom, Card: card, Vals: []*Term{en, rk}}
}

func (x *Exec) rangeNext(st *State, fr *Frame, in *ssa.Next, k func(*State)) {
	it := x.get(st, fr, in.Iter).(RangeIt)
	pos := x.hget(st, "R$pos", posComp, it.Ref)
	if it.Map == nil {
		n := Blen(it.S)
		x.fork(st, Lt(pos, n), func(s *State, ok bool) {
			if !ok {
				x.set(s, fr, in, Tuple{Prim{tFalse}, Prim{tZero}, Prim{tZero}})
				k(s)
				return
			}
			r := App("runeat", it.S, pos)
			typeTerm(r, Comp{"", "Int", "int", types.Typ[types.Int32]}, nil)
			w := App("runelen", it.S, pos)
			s.assume(And(Ge(w, tOne), Le(w, Int(4)), Le(Add(pos, w), n)))
			x.hset(s, "R$pos", posComp, it.Ref, Add(pos, w))
			x.set(s, fr, in, Tuple{Prim{tTrue}, Prim{pos}, Prim{r}})
			k(s)
		})
		return
	}
	if d := x.mapDom(st, it.Map, it.M); d != it.Dom0 {
		x.prove(st, "map keys unchanged while ranging", Eq(d, it.Dom0), nil)
	}
	x.fork(st, Lt(pos, it.Card), func(s *State, ok bool) {
		if !ok {
			x.set(s, fr, in, Tuple{Prim{tFalse}, zero(it.Map.Key()), zero(it.Map.Elem())})
			k(s)
			return
		}
		key := Select(it.Vals[0], pos)
		kc := comps(it.Map.Key())[0]
		typeTerm(key, kc, st.A)
		v, _ := x.mapGet(s, it.Map, it.M, key)
		x.assumeVal(s, v)
		s.assume(Select(it.Dom0, key))
		x.hset(s, "R$pos", posComp, it.Ref, Add(pos, tOne))
		x.set(s, fr, in, Tuple{Prim{tTrue}, unflatten(it.Map.Key(), []*Term{key}), v})
		k(s)
	})
}
