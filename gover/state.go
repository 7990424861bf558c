package main

// Symbolic state: path condition, heap, environment, obligations.

import (
	"sort"
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	up *PC
	t  *Term
	n  int
}

type vkey struct {
	f int
	v ssa.Value
}

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
	pos  token.Pos
}

type State struct {
	pc     *PC
	heap   map[string]*HNode
	A      *Term
	env    map[vkey]Value
	defers map[int][]deferred
	loops  []*LoopCtx
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, A: s.A, heap: make(map[string]*HNode, len(s.heap)), env: make(map[vkey]Value, len(s.env)), defers: map[int][]deferred{}, loops: s.loops[:len(s.loops):len(s.loops)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{s.pc, t, n + 1}
}

func (s *State) facts() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.up {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) dead() bool {
	for p := s.pc; p != nil; p = p.up {
		if p.t == tFalse {
			return true
		}
	}
	return false
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	key    string
	depth  int
	loops  map[*ssa.BasicBlock]*Loop
	k      func(st *State, rets []Value)
	noDefR bool
}

// Obl is one proof obligation.
type Obl struct {
	Fn, Name, Pos string
	Tags          []string
	Query         string
	Res           SolveResult
	Trivial       bool
	Failed        string // reason when not even a query
	Secs          float64
}

type Exec struct {
	prog   *ssa.Program
	fset   *token.FileSet
	specs  *Specs
	fn     *ssa.Function
	con    *Contract
	base   map[string]*HNode
	entry  *State
	frameN int
	obls   []*Obl
	infer  int // >0: inside invariant inference: no obligations
	paths  int
	exits  int
	wg     sync.WaitGroup
	roots  *Frame
	bind   map[string]SV
	called map[string]bool
	inlined map[string]bool
	defTags []string
	curPos token.Pos
	loopInv []string
	branchQ int
	callDepth int
	producer *producer
	branches map[*ssa.If]int // outcomes taken: 1 true, 2 false
}

func (x *Exec) branch(in *ssa.If, v int) {
	if x.branches == nil {
		x.branches = map[*ssa.If]int{}
	}
	x.branches[in] |= v
}

// deadBranches lists the branches no path takes: unreachable in the code, or ruled out by contracts that say too much.
func (x *Exec) deadBranches() (r []string) {
	for in, v := range x.branches {
		if v == 3 {
			continue
		}
		pos := in.Cond.Pos()
		if !pos.IsValid() {
			for _, i := range in.Block().Instrs {
				if i.Pos().IsValid() {
					pos = i.Pos()
				}
			}
		}
		out := map[int]string{0: "either way", 1: "false", 2: "true"}[v]
		r = append(r, x.posStr(pos)+": never "+out)
	}
	sort.Strings(r)
	return
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- heap access

func (x *Exec) heapBase(name string, c Comp) *HNode {
	if h, ok := x.base[name]; ok {
		return h
	}
	h := &HNode{kind: 'b', name: name + "@0", sort: c.sort, comp: c, bound: x.entry.A}
	x.base[name] = h
	return h
}

func (x *Exec) hnode(st *State, name string, c Comp) *HNode {
	if h, ok := st.heap[name]; ok {
		return h
	}
	return x.heapBase(name, c)
}

func (x *Exec) hget(st *State, name string, c Comp, r *Term) *Term {
	return x.hnode(st, name, c).sel(r)
}

func (x *Exec) hset(st *State, name string, c Comp, r, v *Term) {
	if v.sort != c.sort {
		panic(fmt.Sprintf("heap %s: sort %s, value %s:%s", name, c.sort, v, v.sort))
	}
	old := x.hnode(st, name, c)
	if old.kind == 's' && old.ref == r {
		old = old.base
	}
	st.heap[name] = &HNode{kind: 's', base: old, ref: r, val: v, sort: c.sort, comp: c}
}

// havocAt gives location r an arbitrary new value
func (x *Exec) havocAt(st *State, name string, c Comp, r *Term) *Term {
	v := Fresh(name, c.sort)
	typeTerm(v, c, st.A)
	x.hset(st, name, c, r, v)
	return v
}

var hbComp = Comp{"", "Bytes", "bytes", nil}

func (x *Exec) backing(st *State, r *Term) *Term { return x.hget(st, "HB", hbComp, r) }

// ghost heap locations
func ghostComp(sort string) Comp { return Comp{"", sort, "ghost", nil} }

// ---- allocation

func (x *Exec) alloc(st *State) *Term {
	r := Add(st.A, tOne)
	st.A = r
	return r
}

// newAllocBound replaces the allocation counter by an unknown larger one
func (x *Exec) bumpAlloc(st *State) {
	a := Fresh("A", "Int")
	nonnegAtom[a] = true
	allocLB[a] = st.A
	factsOf[a] = []*Term{mkGe(a, st.A)}
	st.A = a
}

func mkGe(a, b *Term) *Term {
	return mk("ge0", "", "Bool", nil, nil, []*Term{Sub(a, b)}, nil)
}

// ---- fresh typed values

func freshVal(hint string, t types.Type, bound *Term) Value {
	var ts []*Term
	for _, c := range comps(t) {
		v := Fresh(hint+c.sfx, c.sort)
		typeTerm(v, c, bound)
		ts = append(ts, v)
	}
	v := unflatten(t, ts)
	return v
}

// sliceFacts: well-formedness of every slice inside v
func sliceFacts(v Value) []*Term {
	switch v := v.(type) {
	case Slice:
		return []*Term{Le(v.Len, v.Cap), Implies(Eq(v.Ref, tZero), Eq(v.Cap, tZero)), Implies(Eq(v.Ref, tZero), Eq(v.Off, tZero))}
	case Struct:
		var r []*Term
		for _, f := range v.F {
			r = append(r, sliceFacts(f)...)
		}
		return r
	case Tuple:
		var r []*Term
		for _, f := range v {
			r = append(r, sliceFacts(f)...)
		}
		return r
	case Iface:
		return []*Term{Implies(Eq(v.Tag, tZero), Eq(v.Pay, tZero))}
	}
	return nil
}

// ---- loads and stores through pointers

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return t
}

func pathSfx(t types.Type, path []int) string {
	s := ""
	for _, i := range path {
		f := under(t).(*types.Struct).Field(i)
		s += "." + f.Name()
		t = f.Type()
	}
	return s
}

func elemHeap(elem types.Type) string { return "E$" + canon(elem) }

func elemComp(c Comp) Comp {
	return Comp{c.sfx, "(Array Int " + c.sort + ")", "earr:" + c.kind, c.typ}
}

func (x *Exec) load(st *State, p Ptr) Value {
	if p.Root == nil {
		unsup("load through opaque pointer")
	}
	t := typeAt(p.Root, p.Path)
	if p.Elem {
		if isByte(p.Root) && len(p.Path) == 0 {
			b := x.backing(st, p.Base)
			v := App("bat", b, p.Idx)
			typeTerm(v, Comp{"", "Int", "int", t}, nil)
			return Prim{v}
		}
		var ts []*Term
		sfx := pathSfx(p.Root, p.Path)
		for _, c := range comps(t) {
			a := x.hget(st, elemHeap(p.Root)+sfx+c.sfx, elemComp(c), p.Base)
			ts = append(ts, elemSelect(a, p.Idx, c, st.A))
		}
		v := unflatten(t, ts)
		x.assumeVal(st, v)
		return v
	}
	if at, ok := under(t).(*types.Array); ok && len(p.Path) == 0 {
		// whole array object
		if isByte(at.Elem()) {
			return Arr{C: []*Term{x.backing(st, p.Base)}, Elem: at.Elem(), N: at.Len()}
		}
		var cs []*Term
		for _, c := range comps(at.Elem()) {
			cs = append(cs, x.hget(st, elemHeap(at.Elem())+c.sfx, elemComp(c), p.Base))
		}
		return Arr{C: cs, Elem: at.Elem(), N: at.Len()}
	}
	var ts []*Term
	pre := typeKey(p.Root) + pathSfx(p.Root, p.Path)
	for _, c := range comps(t) {
		ts = append(ts, x.hget(st, pre+c.sfx, c, p.Base))
	}
	v := unflatten(t, ts)
	x.assumeVal(st, v)
	return v
}

func (x *Exec) assumeVal(st *State, v Value) {
	for _, f := range sliceFacts(v) {
		if !f.free {
			st.assume(f)
		}
	}
}

func (x *Exec) store(st *State, p Ptr, v Value) {
	if p.Root == nil {
		unsup("store through opaque pointer")
	}
	t := typeAt(p.Root, p.Path)
	ts := flatten(v)
	if p.Elem {
		if isByte(p.Root) && len(p.Path) == 0 {
			b := x.backing(st, p.Base)
			x.hset(st, "HB", hbComp, p.Base, Bsplice(b, p.Idx, App("byte1", ts[0])))
			return
		}
		sfx := pathSfx(p.Root, p.Path)
		for i, c := range comps(t) {
			n := elemHeap(p.Root) + sfx + c.sfx
			a := x.hget(st, n, elemComp(c), p.Base)
			x.hset(st, n, elemComp(c), p.Base, Store(a, p.Idx, ts[i]))
		}
		return
	}
	if at, ok := under(t).(*types.Array); ok && len(p.Path) == 0 {
		if isByte(at.Elem()) {
			x.hset(st, "HB", hbComp, p.Base, ts[0])
			return
		}
		for i, c := range comps(at.Elem()) {
			x.hset(st, elemHeap(at.Elem())+c.sfx, elemComp(c), p.Base, ts[i])
		}
		return
	}
	pre := typeKey(p.Root) + pathSfx(p.Root, p.Path)
	for i, c := range comps(t) {
		x.hset(st, pre+c.sfx, c, p.Base, ts[i])
	}
}

// ---- slices

func (x *Exec) sbytes(st *State, s Slice) *Term {
	return Bsub(x.backing(st, memRef(s.Ref)), s.Off, Add(s.Off, s.Len))
}

func (x *Exec) elem(st *State, s Slice, i *Term) Value {
	return x.load(st, Ptr{Base: memRef(s.Ref), Root: s.Elem, Elem: true, Idx: Add(s.Off, i)})
}

// newBytes allocates a byte slice with the given content
func (x *Exec) newBytes(st *State, c *Term) Slice {
	r := x.alloc(st)
	x.hset(st, "HB", hbComp, r, c)
	n := Blen(c)
	return Slice{r, tZero, n, n, types.Typ[types.Uint8]}
}

// ---- maps

type mapNames struct {
	dom, card string
	vals      []string
	domC      Comp
	valC      []Comp
	ksort     string
	kc        Comp
}

func mapInfo(m *types.Map) mapNames {
	kc := comps(m.Key())
	if len(kc) != 1 {
		unsup("map key type %s", m.Key())
	}
	b := "M$" + canon(m)
	r := mapNames{dom: b + ".dom", card: b + ".card", ksort: kc[0].sort, kc: kc[0]}
	r.domC = Comp{"", "(Array " + kc[0].sort + " Bool)", "ghost", nil}
	for _, c := range comps(m.Elem()) {
		r.vals = append(r.vals, b+".v"+c.sfx)
		r.valC = append(r.valC, Comp{c.sfx, "(Array " + kc[0].sort + " " + c.sort + ")", "marr:" + c.kind, c.typ})
	}
	return r
}

var cardComp = Comp{"", "Int", "nat", nil}

func (x *Exec) mapDom(st *State, m *types.Map, r *Term) *Term {
	mi := mapInfo(m)
	if r == tZero {
		return ConstArr(mi.domC.sort, tFalse)
	}
	return x.hget(st, mi.dom, mi.domC, r)
}

func (x *Exec) mapGet(st *State, m *types.Map, r, k *Term) (Value, *Term) {
	mi := mapInfo(m)
	d := Select(x.mapDom(st, m, r), k)
	var ts []*Term
	for i, n := range mi.vals {
		a := x.hget(st, n, mi.valC[i], r)
		cs := comps(m.Elem())
		ts = append(ts, elemSelect(a, k, cs[i], st.A))
	}
	v := unflatten(m.Elem(), ts)
	return v, d
}

func (x *Exec) mapSet(st *State, m *types.Map, r, k *Term, v Value) {
	mi := mapInfo(m)
	d := x.hget(st, mi.dom, mi.domC, r)
	c := x.hget(st, mi.card, cardComp, r)
	in := Select(d, k)
	nc := Ite(in, c, Add(c, tOne))
	nonnegAtom[nc] = true
	x.hset(st, mi.card, cardComp, r, nc)
	x.hset(st, mi.dom, mi.domC, r, Store(d, k, tTrue))
	for i, t := range flatten(v) {
		a := x.hget(st, mi.vals[i], mi.valC[i], r)
		x.hset(st, mi.vals[i], mi.valC[i], r, Store(a, k, t))
	}
}

func (x *Exec) mapNew(st *State, m *types.Map) *Term {
	mi := mapInfo(m)
	r := x.alloc(st)
	x.hset(st, mi.dom, mi.domC, r, ConstArr(mi.domC.sort, tFalse))
	x.hset(st, mi.card, cardComp, r, tZero)
	for i, n := range mi.vals {
		_, ys := arrSorts(mi.valC[i].sort)
		x.hset(st, n, mi.valC[i], r, ConstArr(mi.valC[i].sort, zeroOf(ys)))
	}
	return r
}

// ---- obligations and decisions

func (x *Exec) tags(t []string) []string {
	if len(t) > 0 {
		return t
	}
	return x.defTags
}

// prove records the obligation pc => g.
func (x *Exec) prove(st *State, name string, g *Term, tags []string) {
	if x.infer > 0 {
		st.assume(g)
		return
	}
	if g.op == "and" {
		for i, a := range g.args {
			x.prove(st, fmt.Sprintf("%s.%d", name, i+1), a, tags)
		}
		return
	}
	o := &Obl{Fn: x.con.Name, Name: name, Pos: x.posStr(x.curPos), Tags: x.tags(tags)}
	if onlyProp != "" {
		ok := len(o.Tags) == 0
		for _, t := range o.Tags {
			ok = ok || t == onlyProp
		}
		if !ok {
			return // decided by the checks of its own properties
		}
	}
	x.obls = append(x.obls, o)
	if g == tTrue {
		o.Trivial = true
		o.Res = SolveResult{Proved: true, By: "simplifier"}
		return
	}
	if st.dead() {
		o.Trivial = true
		o.Res = SolveResult{Proved: true, By: "simplifier"}
		return
	}
	fs := st.facts()
	for _, f := range fs {
		if f == g {
			o.Trivial = true
			o.Res = SolveResult{Proved: true, By: "simplifier"}
			return
		}
	}
	qs := goalQueries(fs, g)
	o.Query = strings.Join(qs, "(check-sat)\n; ---- next case\n(reset)\n")
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		o.Res = solveAll(qs, 1, oblSecs)
	}()
	st.assume(g)
}

func (x *Exec) fail(name, why string) {
	x.obls = append(x.obls, &Obl{Fn: x.con.Name, Name: name, Pos: x.posStr(x.curPos), Tags: x.defTags, Failed: why})
}

var oblSecs = 20
var onlyProp = ""
var quickSecs = 2

// holds asks a quick question (used for pruning and inference).
func (x *Exec) holds(st *State, g *Term) bool {
	if g == tTrue {
		return true
	}
	if g == tFalse && st.pc == nil {
		return false
	}
	if st.dead() {
		return true
	}
	x.branchQ++
	return solveAll(goalQueries(st.facts(), g), 0, quickSecs).Proved
}

func holdsAll(qs [][]string, levels []int) []bool {
	out := make([]bool, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		if len(qs[i]) == 0 {
			out[i] = true
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			lv := 0
			if levels != nil {
				lv = levels[i]
			}
			out[i] = solveAll(qs[i], lv, quickSecs).Proved
		}(i)
	}
	wg.Wait()
	return out
}

// fork runs f for each feasible truth value of c.
func (x *Exec) fork(st *State, c *Term, f func(st *State, v bool)) {
	if c == tTrue {
		f(st, true)
		return
	}
	if c == tFalse {
		f(st, false)
		return
	}
	if st.dead() {
		return
	}
	fs := st.facts()
	for _, t := range fs {
		if t == c {
			f(st, true)
			return
		}
		if t == Not(c) {
			f(st, false)
			return
		}
	}
	r := holdsAll([][]string{{query(fs, c)}, {query(fs, Not(c))}}, nil)
	x.branchQ += 2
	if r[0] && r[1] {
		return // infeasible path
	}
	if r[0] {
		st.assume(c)
		f(st, true)
		return
	}
	if r[1] {
		st.assume(Not(c))
		f(st, false)
		return
	}
	s2 := st.clone()
	st.assume(c)
	f(st, true)
	s2.assume(Not(c))
	f(s2, false)
}
