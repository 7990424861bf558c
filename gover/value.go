package main

// Go values as tuples of terms, and the component heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Prim struct{ T *Term } // integers, booleans, floats, strings, maps, channels, opaque

type Ptr struct {
	Base *Term
	Root types.Type // type of the object Base points to; nil when Base is opaque
	Path []int      // struct field path inside Root
	// element pointer: Base is the backing array reference
	Elem bool
	Idx  *Term
}

type Slice struct {
	Ref, Off, Len, Cap *Term
	Elem               types.Type
}
type Struct struct{ F []Value }
type Arr struct { // array value: one solver array per component (Bytes for byte arrays)
	C    []*Term
	Elem types.Type
	N    int64
}
type Iface struct {
	Tag, Pay *Term
	Dyn      types.Type
	DynVal   Value
}
type Fn struct {
	F     *ssa.Function
	Binds []Value
	Recv  Value // bound method
	Bi    *ssa.Builtin
	Op    *Term // opaque
}
type Tuple []Value
type RangeIt struct {
	Ref  *Term
	Map  *types.Map // nil for strings
	M    *Term      // map ref
	S    *Term      // string
	Dom0 *Term
	Vals []*Term
	Card *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- types

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var modPath = "github.com/akhenakh/oureadb"

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPath {
		return "oureadb"
	}
	if strings.HasPrefix(p.Path(), modPath+"/") {
		return p.Path()[len(modPath)+1:]
	}
	if p.Path() == "github.com/twpayne/go-geom" {
		return "geom"
	}
	if p.Path() == "github.com/golang/protobuf/ptypes/struct" {
		return "spb"
	}
	s := p.Path()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), pkgShort)
}

// canonical type string with non-struct, non-interface names expanded
func canon(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		switch u.Underlying().(type) {
		case *types.Struct, *types.Interface:
			return typeKey(u)
		}
		return canon(u.Underlying())
	case *types.Slice:
		return "[]" + canon(u.Elem())
	case *types.Pointer:
		return "*" + canon(u.Elem())
	case *types.Map:
		return "map[" + canon(u.Key()) + "]" + canon(u.Elem())
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "byte"
		}
		return u.Name()
	}
	return typeKey(t)
}

type Comp struct {
	sfx  string
	sort string
	kind string // int kinds, ref, len, ...
	typ  types.Type
}

var compsMemo = map[types.Type][]Comp{}

func comps(t types.Type) []Comp {
	if c, ok := compsMemo[t]; ok {
		return c
	}
	c := comps0(t)
	compsMemo[t] = c
	return c
}

func comps0(t types.Type) []Comp {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", "Bool", "bool", t}}
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", "Int", "int", t}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{"", "Real", "real", t}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", "Bytes", "str", t}}
		case u.Kind() == types.UnsafePointer:
			return []Comp{{"", "Int", "ref", t}}
		case u.Kind() == types.UntypedNil:
			return []Comp{{"", "Int", "ref", t}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Comp{{"", "Int", "ref", t}}
	case *types.Slice:
		return []Comp{{".r", "Int", "sref", t}, {".o", "Int", "nat", t}, {".l", "Int", "nat", t}, {".c", "Int", "nat", t}}
	case *types.Interface:
		return []Comp{{".t", "Int", "tag", t}, {".p", "Int", "ref", t}}
	case *types.Struct:
		var r []Comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range comps(u.Field(i).Type()) {
				r = append(r, Comp{"." + u.Field(i).Name() + c.sfx, c.sort, c.kind, c.typ})
			}
		}
		return r
	case *types.Array:
		if isByte(u.Elem()) {
			return []Comp{{"[]", "Bytes", "arr", t}}
		}
		var r []Comp
		for _, c := range comps(u.Elem()) {
			r = append(r, Comp{"[]" + c.sfx, "(Array Int " + c.sort + ")", "arr", t})
		}
		return r
	case *types.Tuple:
		var r []Comp
		for i := 0; i < u.Len(); i++ {
			r = append(r, comps(u.At(i).Type())...)
		}
		return r
	}
	unsup("type %s", t)
	return nil
}

func ptrAddr(p Ptr) *Term {
	if !p.Elem && len(p.Path) == 0 {
		return p.Base
	}
	// address of an inner location: injective function of the base
	n := "addr$" + typeKey(p.Root)
	for _, i := range p.Path {
		n += fmt.Sprintf(".%d", i)
	}
	args := []*Term{p.Base}
	if p.Elem {
		args = append(args, p.Idx)
	}
	return UF(n, "Int", args...)
}

// UF applies an uninterpreted function, declaring it on first use.
func UF(name, ret string, args ...*Term) *Term {
	var as []string
	key := name
	for _, a := range args {
		as = append(as, a.sort)
	}
	key = sanitize(name)
	if s, ok := sigs[key]; ok {
		if len(s.Args) != len(as) {
			panic("uf arity " + key)
		}
	} else {
		sigs[key] = FSig{as, ret}
		theory.funDecl[key] = fmt.Sprintf("(declare-fun %s (%s) %s)", key, strings.Join(as, " "), ret)
		theory.order = append(theory.order, key)
	}
	return App(key, args...)
}

func flatten(v Value) []*Term {
	switch v := v.(type) {
	case Prim:
		return []*Term{v.T}
	case Ptr:
		return []*Term{ptrAddr(v)}
	case Slice:
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	case Iface:
		return []*Term{v.Tag, v.Pay}
	case Struct:
		var r []*Term
		for _, f := range v.F {
			r = append(r, flatten(f)...)
		}
		return r
	case Arr:
		return v.C
	case Tuple:
		var r []*Term
		for _, f := range v {
			r = append(r, flatten(f)...)
		}
		return r
	case Fn:
		if v.Op != nil {
			return []*Term{v.Op}
		}
		n := "builtin"
		if v.F != nil {
			n = v.F.String()
		}
		c := Const("fn:"+n, "Int")
		nonnegAtom[c] = true
		return []*Term{c}
	}
	unsup("flatten %T", v)
	return nil
}

func unflatten(t types.Type, ts []*Term) Value {
	v, rest := unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}

func unflat(t types.Type, ts []*Term) (Value, []*Term) {
	switch u := under(t).(type) {
	case *types.Pointer:
		return Ptr{Base: ts[0], Root: u.Elem()}, ts[1:]
	case *types.Slice:
		return Slice{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Interface:
		return Iface{Tag: ts[0], Pay: ts[1]}, ts[2:]
	case *types.Struct:
		var s Struct
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = unflat(u.Field(i).Type(), ts)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		n := 1
		if !isByte(u.Elem()) {
			n = len(comps(u.Elem()))
		}
		return Arr{C: ts[:n], Elem: u.Elem(), N: u.Len()}, ts[n:]
	case *types.Tuple:
		var s Tuple
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ts = unflat(u.At(i).Type(), ts)
			s = append(s, f)
		}
		return s, ts
	case *types.Signature:
		return Fn{Op: ts[0]}, ts[1:]
	}
	return Prim{ts[0]}, ts[1:]
}

func zeroOf(s string) *Term {
	switch s {
	case "Int":
		return tZero
	case "Bool":
		return tFalse
	case "Real":
		return Real("0.0")
	case "Bytes":
		return bEmpty
	}
	if strings.HasPrefix(s, "(Array ") {
		_, y := arrSorts(s)
		return ConstArr(s, zeroOf(y))
	}
	panic("zero of " + s)
}

func zero(t types.Type) Value {
	var ts []*Term
	for _, c := range comps(t) {
		if c.kind == "arr" && c.sort == "Bytes" {
			ts = append(ts, App("bzero", Int(under(c.typ).(*types.Array).Len())))
			continue
		}
		ts = append(ts, zeroOf(c.sort))
	}
	return unflatten(t, ts)
}

// ---- integer ranges

func two(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intBits(t types.Type) (bits uint, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, s := intBits(t)
	if s {
		return new(big.Int).Neg(two(b - 1)), new(big.Int).Sub(two(b-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(two(b), big.NewInt(1))
}

type rng struct{ lo, hi *big.Int }

var rangeOf = map[*Term]rng{}

// factsOf: typing facts that hold for a term wherever it occurs
var factsOf = map[*Term][]*Term{}

func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.val, t.val
	case "lin":
		lo, hi = new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			l, h := bounds(a)
			c := t.coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, h))
				}
			}
		}
		return
	case "ite":
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "app":
		if strings.HasPrefix(t.name, "wrap_") {
			return wrapRange(t.name)
		}
		if t.name == "mod" && t.args[1].isInt() {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].val, big.NewInt(1))
		}
		if t.name == "blen" {
			return big.NewInt(0), two(47)
		}
	}
	if r, ok := rangeOf[t]; ok {
		return r.lo, r.hi
	}
	if nonnegAtom[t] {
		return big.NewInt(0), nil
	}
	return nil, nil
}

func wrapRange(n string) (lo, hi *big.Int) {
	var b uint
	fmt.Sscanf(n[6:], "%d", &b)
	if n[5] == 's' {
		return new(big.Int).Neg(two(b - 1)), new(big.Int).Sub(two(b-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(two(b), big.NewInt(1))
}

// wrap reduces a mathematical integer to the machine integer type t.
func wrap(r *Term, t types.Type) *Term {
	lo, hi := bounds(r)
	tlo, thi := intRange(t)
	if lo != nil && hi != nil && lo.Cmp(tlo) >= 0 && hi.Cmp(thi) <= 0 {
		return r
	}
	b, s := intBits(t)
	n := fmt.Sprintf("wrap_u%d", b)
	if s {
		n = fmt.Sprintf("wrap_s%d", b)
	}
	if r.isInt() {
		m := new(big.Int).Mod(r.val, two(b))
		if s && m.Cmp(two(b-1)) >= 0 {
			m.Sub(m, two(b))
		}
		return IntB(m)
	}
	if r.op == "app" && (r.name == fmt.Sprintf("wrap_u%d", b) || r.name == fmt.Sprintf("wrap_s%d", b)) {
		return wrap(r.args[0], t)
	}
	return App(n, r)
}

// ---- heap

type HNode struct {
	base  *HNode
	kind  byte // 'b' base, 's' store, 'h' havoc
	name  string
	sort  string
	ref   *Term
	val   *Term
	reg   *Region
	memo  map[*Term]*Term
	comp  Comp
	bound *Term // allocation bound of a base constant
}

// Region describes the references a havoc may change.
type Region struct {
	refs  []*Term
	above *Term // every reference > above
	neg   bool  // every negative reference (memory owned by iterators and engines)
	all   bool
}

var allocLB = map[*Term]*Term{} // allocation counter constant -> lower bound
var refUB = map[*Term]*Term{}   // reference atom -> upper bound

// refLe reports whether a <= b is known from allocation order.
func refLe(a, b *Term) bool {
	if nonneg(Sub(b, a)) {
		return true
	}
	if a.op == "ite" {
		return refLe(a.args[1], b) && refLe(a.args[2], b)
	}
	if b.op == "ite" {
		return refLe(a, b.args[1]) && refLe(a, b.args[2])
	}
	if u, ok := refUB[a]; ok {
		return refLe(u, b)
	}
	// lower b along the allocation chain
	l := toLin(b)
	if len(l.c) == 1 {
		for x, c := range l.c {
			if lb, ok := allocLB[x]; ok && c.Cmp(big.NewInt(1)) == 0 {
				return refLe(a, Add(lb, IntB(l.k)))
			}
		}
	}
	return false
}
func refLt(a, b *Term) bool { return refLe(Add(a, tOne), b) || refLtUB(a, b) }
func refLtUB(a, b *Term) bool {
	if u, ok := refUB[a]; ok {
		return refLe(Add(u, tOne), b)
	}
	if a.op == "ite" {
		return refLt(a.args[1], b) && refLt(a.args[2], b)
	}
	return false
}

func RefEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if refLt(a, b) || refLt(b, a) {
		return tFalse
	}
	if a.op == "ite" && !a.free {
		x, y := RefEq(a.args[1], b), RefEq(a.args[2], b)
		if x == tTrue || x == tFalse || y == tTrue || y == tFalse {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && !b.free {
		x, y := RefEq(a, b.args[1]), RefEq(a, b.args[2])
		if x == tTrue || x == tFalse || y == tTrue || y == tFalse {
			return Ite(b.args[0], x, y)
		}
	}
	return Eq(a, b)
}

func (r *Region) has(x *Term) *Term {
	if r.all {
		return tTrue
	}
	c := tFalse
	for _, y := range r.refs {
		c = Or(c, RefEq(x, y))
	}
	if r.above != nil {
		switch {
		case refLe(x, r.above):
		case refLt(r.above, x):
			c = tTrue
		default:
			c = Or(c, Gt(x, r.above))
		}
	}
	if r.neg {
		if !nonneg(x) {
			c = Or(c, Lt(x, tZero))
		}
	}
	return c
}

func (h *HNode) sel(r *Term) *Term {
	if r.op == "ite" {
		return Ite(r.args[0], h.sel(r.args[1]), h.sel(r.args[2]))
	}
	if t, ok := h.memo[r]; ok {
		return t
	}
	var t *Term
	switch h.kind {
	case 'b':
		t = h.baseSel(r)
	case 's':
		e := RefEq(h.ref, r)
		switch e {
		case tTrue:
			t = h.val
		case tFalse:
			t = h.base.sel(r)
		default:
			t = Ite(e, h.val, h.base.sel(r))
		}
	case 'h':
		c := h.reg.has(r)
		switch c {
		case tFalse:
			t = h.base.sel(r)
		case tTrue:
			t = h.baseSel(r)
		default:
			t = Ite(c, h.baseSel(r), h.base.sel(r))
		}
	}
	if h.memo == nil {
		h.memo = map[*Term]*Term{}
	}
	h.memo[r] = t
	return t
}

func (h *HNode) baseSel(r *Term) *Term {
	t := mk("hsel", h.name, h.sort, nil, nil, []*Term{r}, nil)
	// references allocated after this heap was current hold unknown contents:
	// the allocation bound says nothing about them
	b := h.bound
	if b != nil && !refLe(r, b) {
		b = nil
	}
	typeTerm(t, h.comp, b)
	return t
}

// typeTerm records the typing facts of a heap-loaded or fresh term.
func typeTerm(t *Term, c Comp, bound *Term) {
	if t.free || t.isInt() {
		return
	}
	if _, ok := factsOf[t]; ok {
		return
	}
	defer func(o bool) { refSimp = o }(refSimp)
	refSimp = false
	kind := c.kind
	if strings.HasPrefix(kind, "earr:") || strings.HasPrefix(kind, "marr:") {
		kind = kind[5:]
		if bound != nil && (kind == "ref" || kind == "sref") {
			arrBound[t] = bound
		}
		arrKind[t] = kind
		ks, es := arrSorts(t.sort)
		i := BV("i", ks)
		e := Select(t, i)
		if e.op != "select" {
			return
		}
		_ = es
		var fs []*Term
		q := func(b *Term) { fs = append(fs, Forall([]*Term{i}, [][]*Term{{e}}, b)) }
		g0 := mk("ge0", "", "Bool", nil, nil, []*Term{e}, nil)
		switch kind {
		case "ref", "sref":
			if bound != nil {
				q(Le(e, bound))
			}
			if kind == "ref" {
				q(g0)
			}
		case "tag", "nat":
			q(g0)
		case "int":
			lo, hi := intRange(c.typ)
			q(And(Ge(e, IntB(lo)), Le(e, IntB(hi))))
		}
		factsOf[t] = fs
		return
	}
	switch kind {
	case "ref", "sref":
		factsOf[t] = nil
		if bound != nil {
			refUB[t] = bound
			factsOf[t] = []*Term{Le(t, bound)}
		}
		if kind == "ref" {
			f := mk("ge0", "", "Bool", nil, nil, []*Term{t}, nil)
			if t.op != "lin" {
				nonnegAtom[t] = true
			}
			factsOf[t] = append(factsOf[t], f)
		}
	case "tag":
		f := mk("ge0", "", "Bool", nil, nil, []*Term{t}, nil)
		nonnegAtom[t] = true
		factsOf[t] = []*Term{f}
	case "nat":
		f := []*Term{mk("ge0", "", "Bool", nil, nil, []*Term{t}, nil), Le(t, IntB(two(47)))}
		nonnegAtom[t] = true
		rangeOf[t] = rng{big.NewInt(0), two(47)}
		factsOf[t] = f
	case "int":
		lo, hi := intRange(c.typ)
		f := []*Term{mk("ge0", "", "Bool", nil, nil, []*Term{Sub(t, IntB(lo))}, nil), Le(t, IntB(hi))}
		if lo.Sign() >= 0 {
			nonnegAtom[t] = true
		}
		rangeOf[t] = rng{lo, hi}
		factsOf[t] = f
	default:
		factsOf[t] = nil
	}
}

var arrBound = map[*Term]*Term{}

// elemSelect reads component c of element i of an element array
func elemSelect(arr, i *Term, c Comp, bound *Term) *Term {
	t := Select(arr, i)
	if t.op == "select" {
		if b, ok := arrBound[t.args[0]]; ok {
			bound = b
		}
		typeTerm(t, c, bound)
	}
	return t
}

// memRef is the reference under which the elements of a slice live. A nil slice
// has none, so the null branch of a possibly nil slice can be dropped.
func memRef(r *Term) *Term {
	if r.op == "ite" {
		if r.args[1] == tZero {
			return memRef(r.args[2])
		}
		if r.args[2] == tZero {
			return memRef(r.args[1])
		}
	}
	return r
}

// FOp is a floating point operation; addition and multiplication commute.
func FOp(n string, a, b *Term) *Term {
	if (n == "fadd" || n == "fmul") && b.id < a.id {
		a, b = b, a
	}
	return UF(n, "Real", a, b)
}
