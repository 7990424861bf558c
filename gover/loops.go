package main

// Natural loops, invariant inference (Houdini over typed templates) and
// write-set inference.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopMemo = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := loopMemo[fn]; ok {
		return l
	}
	ls := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := ls[s]
				if L == nil {
					L = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = L
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					t := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.body[t] {
						continue
					}
					L.body[t] = true
					stack = append(stack, t.Preds...)
				}
			}
		}
	}
	loopMemo[fn] = ls
	return ls
}

type LoopCtx struct {
	A0     *Term // allocation bound at the entry of the loop
	fr     *Frame
	L      *Loop
	infer  bool
	onBack func(st *State)
	head   map[string]*HNode // heap at the head of this iteration
}

type Cand struct {
	set  func(st *State)
	name string
	eval func(st *State, pre *State) *Term
	tags []string
	dead bool
	spec bool // written in a specification, not guessed
}

func (x *Exec) backEdge(st *State, fr *Frame, L *Loop, b, pred *ssa.BasicBlock) {
	for i := len(st.loops) - 1; i >= 0; i-- {
		lc := st.loops[i]
		if lc.fr == fr && lc.L == L {
			x.phis(st, fr, b, pred)
			st.loops = st.loops[:i:i]
			lc.onBack(st)
			return
		}
	}
	panic("back edge without loop context")
}

// writesSince lists what was written between the head heap and now.
type write struct {
	ref *Term
	reg *Region
}

func writesBetween(now, head *HNode) ([]write, bool) {
	// a store may replace an earlier one to the same place, so head need not be below now:
	// everything on either side of their last common node may differ
	below := map[*HNode]bool{}
	for n := head; n != nil; n = n.base {
		below[n] = true
	}
	var ws []write
	walk := func(n, end *HNode) (*HNode, bool) {
		for ; n != nil && n != end && (end != nil || !below[n]); n = n.base {
			switch n.kind {
			case 's':
				ws = append(ws, write{ref: n.ref})
			case 'h':
				ws = append(ws, write{reg: n.reg})
			case 'b':
				return nil, false
			}
		}
		return n, n != nil
	}
	common, ok := walk(now, nil)
	if !ok {
		return ws, now == nil && head == nil
	}
	_, ok = walk(head, common)
	return ws, ok
}

// leavesBefore reports whether t only mentions constants created before serial n.
func leavesBefore(t *Term, old map[*Term]bool) bool {
	if t.op == "const" {
		return old[t]
	}
	for _, a := range t.args {
		if !leavesBefore(a, old) {
			return false
		}
	}
	return true
}

func (x *Exec) enterLoop(st *State, fr *Frame, L *Loop, b, pred *ssa.BasicBlock) {
	x.phis(st, fr, b, pred)
	pre := st.clone()
	A0 := pre.A
	idMark := nextID
	W := map[string]*Region{}
	Wc := map[string]Comp{}
	// allocation bounds of the enclosing loops, inner to outer, and of the function
	var As []*Term
	for i := len(pre.loops) - 1; i >= 0; i-- {
		As = append(As, pre.loops[i].A0)
	}
	As = append(As, x.entry.A)
	cands := x.candidates(pre, fr, L, As)
	// initial pruning
	{
		var qs [][]string
		for _, c := range cands {
			t := x.evalCand(c, pre, pre)
			if t == nil {
				c.dead = true
				qs = append(qs, nil)
				continue
			}
			if t == tTrue {
				qs = append(qs, nil)
			} else if t == tFalse {
				c.dead = true
				qs = append(qs, nil)
			} else {
				qs = append(qs, goalQueries(pre.facts(), t))
			}
		}
		ok := holdsAll(qs, nil)
		var live []*Cand
		for i, c := range cands {
			if ok[i] && !c.dead {
				live = append(live, c)
			} else if debugInv {
				fmt.Fprintf(os.Stderr, "[%s b%d init] drop %s\n", fr.fn.Name(), b.Index, c.name)
				dumpQ("init "+c.name, qs[i])
			}
		}
		cands = live
	}
	head := func() *State {
		s := pre.clone()
		// new allocation bound
		x.bumpAlloc(s)
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := freshVal(p.Name()+"."+p.Comment, p.Type(), s.A)
			if old, ok := pre.env[vkey{fr.id, p}].(Ptr); ok {
				if pv, ok := v.(Ptr); ok && old.Elem {
					_ = pv
					unsup("loop-carried element pointer")
				}
			}
			s.env[vkey{fr.id, p}] = v
			if pv, ok := v.(Prim); ok && b.Comment == "rangeindex.loop" && p.Comment == "rangeindex" {
				// counts up from -1 while below the length
				rangeOf[pv.T] = rng{big.NewInt(-1), two(47)}
				s.assume(Ge(pv.T, Int(-1)))
			}
			x.assumeVal(s, v)
		}
		var ns []string
		for n := range W {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			freshN++
			nextID++
			hbaseMark[fmt.Sprintf("%s@%d", n, freshN)] = nextID
			r := *W[n]
			s.heap[n] = &HNode{kind: 'h', base: x.hnode(pre, n, Wc[n]), name: fmt.Sprintf("%s@%d", n, freshN), sort: Wc[n].sort, comp: Wc[n], reg: &r, bound: s.A}
		}
		for _, c := range cands {
			if c.set != nil {
				c.set(s)
			}
		}
		for _, c := range cands {
			if t := x.evalCand(c, s, pre); t != nil {
				s.assume(t)
			}
		}
		return s
	}
	iter := 0
	for {
		iter++
		if iter > 60 {
			unsup("invariant inference does not converge")
		}
		s := head()
		hh := map[string]*HNode{}
		for k, v := range s.heap {
			hh[k] = v
		}
		var backs []*State
		lc := &LoopCtx{A0: A0, fr: fr, L: L, infer: true, onBack: func(e *State) { backs = append(backs, e) }}
		s.loops = append(s.loops, lc)
		x.infer++
		x.instrs(s, fr, b, firstNonPhi(b))
		x.infer--
		changed := false
		for _, e := range backs {
			if x.growWrites(e, hh, W, Wc, A0, As, idMark) {
				changed = true
			}
		}
		if changed {
			continue // judge the candidates once everything written is known to be
		}
		for _, e := range backs {
			var live []*Cand
			for _, c := range cands {
				if !c.dead {
					live = append(live, c)
				}
			}
			qs := make([][]string, len(live))
			fs := e.facts()
			for i, c := range live {
				t := x.evalCand(c, e, pre)
				if t == nil || t == tFalse {
					c.dead = true
					continue
				}
				if t != tTrue {
					qs[i] = goalQueries(fs, t)
				}
			}
			lev := make([]int, len(live))
			for i, c := range live {
				if c.spec {
					lev[i] = 2
				}
			}
			ok := holdsAll(qs, lev)
			for i, c := range live {
				if !ok[i] {
					c.dead = true
				}
				if c.dead {
					changed = true
					if debugInv {
						dumpQ(fmt.Sprintf("it%d %s", iter, c.name), qs[i])
						fmt.Fprintf(os.Stderr, "[%s b%d it%d] drop %s: %s\n", fr.fn.Name(), b.Index, iter, c.name, trunc(fmt.Sprint(x.evalCand(c, e, pre)), 300))
					}
				}
			}
		}
		var live []*Cand
		for _, c := range cands {
			if !c.dead {
				live = append(live, c)
			}
		}
		cands = live
		if !changed {
			break
		}
	}
	if debugInv {
		fmt.Fprintf(os.Stderr, "[%s b%d] after %d iterations; writes:", fr.fn.Name(), b.Index, iter)
		for n, r := range W {
			fmt.Fprintf(os.Stderr, " %s{refs %v above %v neg %v all %v}", n, r.refs, r.above, r.neg, r.all)
		}
		fmt.Fprintln(os.Stderr)
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.name)
		}
	}
	var names []string
	for _, c := range cands {
		names = append(names, c.name)
	}
	// formal obligations: initially and maintained
	if x.infer == 0 {
		x.loopInv = append(x.loopInv, fmt.Sprintf("%s loop b%d: %s", fr.fn.Name(), b.Index, strings.Join(names, "; ")))
		for _, c := range cands {
			p2 := pre.clone()
			x.prove(p2, "loop invariant holds initially: "+c.name, x.evalCand(c, pre, pre), c.tags)
		}
	}
	s := head()
	hh := map[string]*HNode{}
	for k, v := range s.heap {
		hh[k] = v
	}
	lc := &LoopCtx{A0: A0, fr: fr, L: L, onBack: func(e *State) {
		if x.infer > 0 {
			return
		}
		e2 := e.clone()
		if x.growWrites(e2, hh, W, Wc, A0, As, idMark) {
			x.fail("loop write set", "write set of the loop changed in the final pass")
		}
		for _, c := range cands {
			e3 := e.clone()
			t := x.evalCand(c, e3, pre)
			if t == nil {
				x.fail("loop invariant maintained: "+c.name, "cannot be evaluated")
				continue
			}
			x.prove(e3, "loop invariant maintained: "+c.name, t, c.tags)
		}
	}}
	s.loops = append(s.loops, lc)
	x.instrs(s, fr, b, firstNonPhi(b))
}

var debugInv = os.Getenv("GOVER_INV") != ""

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func maxConstID(t *Term, memo map[*Term]int) int {
	if v, ok := memo[t]; ok {
		return v
	}
	m := 0
	if t.op == "const" || t.op == "hsel" {
		m = t.id
		if t.op == "hsel" {
			m = 0
			if k, ok := hbaseMark[t.name]; ok {
				m = k
			}
		}
	}
	for _, a := range t.args {
		if v := maxConstID(a, memo); v > m {
			m = v
		}
	}
	memo[t] = m
	return m
}

// hbaseMark: heap base name -> term id at creation time
var hbaseMark = map[string]int{}

func (x *Exec) growWrites(e *State, hh map[string]*HNode, W map[string]*Region, Wc map[string]Comp, A0 *Term, As []*Term, mark int) bool {
	grown := false
	for n, now := range e.heap {
		h, ok := hh[n]
		if !ok {
			h = x.base[n]
		}
		if now == h {
			continue
		}
		ws, _ := writesBetween(now, h)
		if len(ws) == 0 {
			continue
		}
		r := W[n]
		if r == nil {
			r = &Region{}
			W[n] = r
			Wc[n] = now.comp
			grown = true
		}
		addRef := func(ref *Term) {
			if r.all {
				return
			}
			c := r.has(ref)
			if c == tTrue {
				return
			}
			if refLt(A0, ref) {
				r.above = A0
				grown = true
				return
			}
			if isNeg(ref) {
				if !r.neg {
					r.neg = true
					grown = true
				}
				return
			}
			if maxConstID(ref, map[*Term]int{}) <= mark {
				r.refs = append(r.refs, ref)
				grown = true
				return
			}
			if c != tFalse && x.holds(e, c) {
				return
			}
			if x.holds(e, Gt(ref, A0)) {
				if r.above == nil {
					r.above = A0
					grown = true
				}
				return
			}
			for _, A := range As {
				if refLt(A, ref) || x.holds(e, Gt(ref, A)) {
					if r.above == nil || !refLe(r.above, A) {
						r.above = A
						grown = true
					}
					return
				}
			}
			if x.holds(e, Lt(ref, tZero)) {
				if !r.neg {
					r.neg = true
					grown = true
				}
				return
			}
			if debugInv {
				fmt.Fprintf(os.Stderr, "  write set of %s becomes everything because of %s\n", n, ref)
			}
			r.all = true
			grown = true
		}
		for _, w := range ws {
			if w.ref != nil {
				addRef(w.ref)
				continue
			}
			g := w.reg
			if g.all && !r.all {
				r.all = true
				grown = true
			}
			for _, ref := range g.refs {
				addRef(ref)
			}
			if g.above != nil && !r.all {
				// inner loop: everything allocated since its entry, which is after ours
				a := A0
				if !refLe(A0, g.above) {
					a = g.above
				}
				if r.above == nil || !refLe(r.above, a) {
					r.above = a
					grown = true
				}
			}
			if g.neg && !r.neg && !r.all {
				r.neg = true
				grown = true
			}
		}
	}
	return grown
}

func isNeg(t *Term) bool {
	_, hi := bounds(t)
	return hi != nil && hi.Sign() < 0
}

// ---- candidates

func (x *Exec) evalCand(c *Cand, st, pre *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				if debugInv {
					fmt.Fprintf(os.Stderr, "  cand %s: %s\n", c.name, u.msg)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	return c.eval(st, pre)
}

type liveVal struct {
	name string
	typ  types.Type
	get  func(st *State) Value
	put  func(st *State, v Value)
	phi  bool
	cur  bool // phi of this loop
	inc  bool // a phi plus something
}

// live values at the head of a loop: values of this frame and its callers
func (x *Exec) liveVals(pre *State, fr *Frame, L *Loop) []liveVal {
	var out []liveVal
	for f := fr; f != nil; f = f.parent {
		f := f
		var vs []ssa.Value
		for k := range pre.env {
			if k.f == f.id {
				vs = append(vs, k.v)
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Pos() != vs[j].Pos() {
				return vs[i].Pos() < vs[j].Pos()
			}
			return vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			v := v
			t := v.Type()
			if t == nil {
				continue
			}
			if _, ok := t.(*types.Tuple); ok {
				continue
			}
			if f == fr {
				// skip stale values of the loop body
				if in, ok := v.(ssa.Instruction); ok {
					if L.body[in.Block()] {
						if _, isPhi := v.(*ssa.Phi); !isPhi || in.Block() != L.header {
							continue
						}
					} else if !in.Block().Dominates(L.header) {
						continue
					}
				}
			}
			_, isPhi := v.(*ssa.Phi)
			lv := liveVal{name: fmt.Sprintf("%d:%s", f.depth, v.Name()), typ: t, phi: isPhi, get: func(st *State) Value {
				r, ok := st.env[vkey{f.id, v}]
				if !ok {
					unsup("value gone")
				}
				return r
			}, put: func(st *State, nv Value) { st.env[vkey{f.id, v}] = nv }}
			if bo, ok := v.(*ssa.BinOp); ok {
				_, lv.inc = bo.X.(*ssa.Phi)
			}
			if isPhi {
				lv.cur = f == fr && v.(*ssa.Phi).Block() == L.header
			}
			out = append(out, lv)
			// contents of captured or escaping local variables
			if p, ok := pre.env[vkey{f.id, v}].(Ptr); ok && !p.Elem && len(p.Path) == 0 && p.Root != nil {
				if _, isA := v.(*ssa.Alloc); isA {
					switch under(p.Root).(type) {
					case *types.Struct, *types.Array:
					default:
						out = append(out, liveVal{name: fmt.Sprintf("%d:*%s", f.depth, v.Name()), typ: p.Root, phi: true, cur: true, get: func(st *State) Value {
							q, ok := st.env[vkey{f.id, v}].(Ptr)
							if !ok {
								unsup("value gone")
							}
							return x.load(st, q)
						}, put: func(st *State, nv Value) { x.store(st, st.env[vkey{f.id, v}].(Ptr), nv) }})
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) candidates(pre *State, fr *Frame, L *Loop, As []*Term) []*Cand {
	lv := x.liveVals(pre, fr, L)
	var out []*Cand
	add := func(name string, f func(st, pre *State) *Term) {
		out = append(out, &Cand{name: name, eval: f})
	}
	isInt := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	T := func(l liveVal, st *State) *Term { return prim(l.get(st)) }
	// built-in shapes
	for _, l := range lv {
		l := l
		if !l.cur {
			if _, isR := safeGet(l, pre).(RangeIt); !isR {
				continue
			}
		}
		switch under(l.typ).(type) {
		case *types.Slice:
			add("owned("+l.name+")", func(st, pre *State) *Term {
				s, s0 := l.get(st).(Slice), l.get(pre).(Slice)
				return Or(Eq(s.Cap, tZero), Gt(s.Ref, pre.A), Eq(s.Ref, s0.Ref))
			})
			for i, A := range As {
				A := A
				add(fmt.Sprintf("owned%d(%s)", i, l.name), func(st, pre *State) *Term {
					s := l.get(st).(Slice)
					return Or(Eq(s.Cap, tZero), Gt(s.Ref, A))
				})
			}
			add("off0("+l.name+")", func(st, pre *State) *Term { return Eq(l.get(st).(Slice).Off, tZero) })
			out[len(out)-1].set = func(st *State) {
				s := l.get(st).(Slice)
				s.Off = tZero
				l.put(st, s)
			}
			add("nonneg("+l.name+")", func(st, pre *State) *Term { return Ge(l.get(st).(Slice).Ref, tZero) })
			add("sameslice("+l.name+")", func(st, pre *State) *Term {
				s, s0 := l.get(st).(Slice), l.get(pre).(Slice)
				return And(Eq(s.Ref, s0.Ref), Eq(s.Off, s0.Off), Eq(s.Len, s0.Len), Eq(s.Cap, s0.Cap))
			})
		}
		if isInt(l.typ) && l.cur {
			add("lower("+l.name+")", func(st, pre *State) *Term { return Ge(T(l, st), T(l, pre)) })
			add("upper("+l.name+")", func(st, pre *State) *Term { return Le(T(l, st), T(l, pre)) })
			add("ge-1("+l.name+")", func(st, pre *State) *Term { return Ge(T(l, st), Int(-1)) })
			add("even("+l.name+")", func(st, pre *State) *Term { return Eq(ModT(T(l, st), big.NewInt(2)), tZero) })
			for _, m := range lv {
				m := m
				if m.name == l.name {
					continue
				}
				if isInt(m.typ) && !m.cur {
					if _, isC := safeGet(m, pre).(Prim); !isC {
						continue
					}
					if T(m, pre).isInt() {
						continue
					}
					add("le("+l.name+","+m.name+")", func(st, pre *State) *Term { return Le(T(l, st), T(m, st)) })
					add("lt("+l.name+","+m.name+")", func(st, pre *State) *Term { return Lt(T(l, st), T(m, st)) })
				}
				if _, ok := under(m.typ).(*types.Slice); ok {
					S := func(st *State) Slice { return m.get(st).(Slice) }
					if m.cur {
						add("k=len("+l.name+","+m.name+")", func(st, pre *State) *Term { return Eq(T(l, st), S(st).Len) })
						add("k+1=len("+l.name+","+m.name+")", func(st, pre *State) *Term { return Eq(Add(T(l, st), tOne), S(st).Len) })
					} else {
						add("k<=len("+l.name+","+m.name+")", func(st, pre *State) *Term { return Le(T(l, st), S(st).Len) })
						add("k<len("+l.name+","+m.name+")", func(st, pre *State) *Term { return Lt(T(l, st), S(st).Len) })
					}
				}
			}
		}
	}
	var gs []string
	for g := range x.specs.global {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		c := ghostComp(x.specs.ghost[g])
		add("unchanged("+g+")", func(st, pre *State) *Term {
			return Eq(x.hget(st, "g$"+g, c, tZero), x.hget(pre, "g$"+g, c, tZero))
		})
	}
	var its []vkey
	for k, v := range pre.env {
		if _, ok := v.(RangeIt); ok {
			its = append(its, k)
		}
	}
	sort.Slice(its, func(i, j int) bool { return its[i].f < its[j].f || its[i].f == its[j].f && its[i].v.Name() < its[j].v.Name() })
	for _, k := range its {
		v := pre.env[k]
		if it, ok := v.(RangeIt); ok {
			k := k
			inLoop := false
			if in, ok := k.v.(ssa.Instruction); ok && k.f == fr.id {
				inLoop = L.body[in.Block()]
			}
			if inLoop {
				continue
			}
			add(fmt.Sprintf("rangepos(%s)", k.v.Name()), func(st, pre *State) *Term {
				it := st.env[k].(RangeIt)
				p := x.hget(st, "R$pos", posComp, it.Ref)
				n := it.Card
				if it.Map == nil {
					n = Blen(it.S)
				}
				return And(Ge(p, tZero), Le(p, n))
			})
			_ = it
			for _, l := range lv {
				l := l
				if isInt(l.typ) && l.cur {
					add(fmt.Sprintf("rangepos(%s)=%s", k.v.Name(), l.name), func(st, pre *State) *Term {
						it := st.env[k].(RangeIt)
						return Eq(x.hget(st, "R$pos", posComp, it.Ref), T(l, st))
					})
				}
			}
		}
	}
	tc := x.templateCands(pre, fr, L, lv)
	for _, c := range tc {
		c.spec = true
	}
	out = append(out, tc...)
	return out
}

func safeGet(l liveVal, st *State) (v Value) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				v = nil
				return
			}
			panic(e)
		}
	}()
	return l.get(st)
}

func dumpQ(name string, qs []string) {
	for i, q := range qs {
		if keepDir == "" || solve(q, 0, quickSecs).Proved {
			continue
		}
		name := fmt.Sprintf("%s-case%d", name, i)
		os.MkdirAll(keepDir, 0o755)
		os.WriteFile(keepDir+"/"+sanitize(name)+".smt2", []byte(q+"(check-sat)\n"), 0o644)
	}
}
