package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value))

var intrinsics map[string]intrinsic

var errType = types.Universe.Lookup("error").Type()

func init() {
	intrinsics = map[string]intrinsic{
		"binary.(bigEndian).PutUint64": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
			b := args[1].(Slice)
			x.prove(st, "PutUint64 length", Ge(b.Len, Int(8)), nil)
			x.hset(st, "HB", hbComp, b.Ref, Bsplice(x.backing(st, b.Ref), b.Off, App("be64", prim(args[2]))))
			k(st, nil)
		},
		"binary.(bigEndian).Uint64": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
			b := args[1].(Slice)
			x.prove(st, "Uint64 length", Ge(b.Len, Int(8)), nil)
			c := Bsub(x.backing(st, b.Ref), b.Off, Add(b.Off, Int(8)))
			k(st, Prim{dec64(c)})
		},
		"bytes.NewBuffer": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
			b := args[0].(Slice)
			r := x.alloc(st)
			for i, t := range flatten(b) {
				x.hset(st, "bytes.Buffer#"+bufComps[i].sfx, bufComps[i], r, t)
			}
			k(st, Ptr{Base: r, Root: fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()})
		},
		"binary.Read":        binaryRead,
		"sort.Slice":         sortSlice,
		"sort.SliceStable":   sortSlice,
		"slices.Sort":        slicesSort,
	}
}

var bufComps = []Comp{{".r", "Int", "sref", nil}, {".o", "Int", "nat", nil}, {".l", "Int", "nat", nil}, {".c", "Int", "nat", nil}}

func dec64(c *Term) *Term {
	if c.op == "app" && c.name == "be64" {
		a := c.args[0]
		lo, hi := bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(two(64)) < 0 {
			return a
		}
	}
	t := App("dec64", c)
	typeTerm(t, Comp{"", "Int", "int", types.Typ[types.Uint64]}, nil)
	return t
}

// binaryRead models encoding/binary.Read of a 64 bit big endian integer from a *bytes.Buffer.
func binaryRead(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
	rd := args[0].(Iface)
	ord := args[1].(Iface)
	dst := args[2].(Iface)
	if rd.Dyn == nil || typeKey(rd.Dyn) != "*bytes.Buffer" || ord.Dyn == nil || typeKey(ord.Dyn) != "binary.bigEndian" || dst.Dyn == nil {
		unsup("binary.Read of these arguments")
	}
	p, ok := dst.DynVal.(Ptr)
	if !ok || p.Root == nil {
		unsup("binary.Read destination")
	}
	t := typeAt(p.Root, p.Path)
	bits, signed := intBits(t)
	if b, ok := under(t).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || bits != 64 {
		unsup("binary.Read of %s", t)
	}
	br := rd.DynVal.(Ptr).Base
	var cs []*Term
	for _, c := range bufComps {
		cs = append(cs, x.hget(st, "bytes.Buffer#"+c.sfx, c, br))
	}
	s := Slice{cs[0], cs[1], cs[2], cs[3], types.Typ[types.Uint8]}
	x.fork(st, Ge(s.Len, Int(8)), func(st *State, ok bool) {
		if !ok {
			// io.EOF or io.ErrUnexpectedEOF; the buffer is drained
			x.hset(st, "bytes.Buffer#.l", bufComps[2], br, tZero)
			e := freshVal("binary.Read.err", errType, st.A).(Iface)
			st.assume(Not(Eq(e.Tag, tZero)))
			k(st, e)
			return
		}
		v := dec64(Bsub(x.backing(st, s.Ref), s.Off, Add(s.Off, Int(8))))
		if signed {
			v = wrap(v, t)
		}
		x.store(st, p, Prim{v})
		x.hset(st, "bytes.Buffer#.o", bufComps[1], br, Add(s.Off, Int(8)))
		x.hset(st, "bytes.Buffer#.l", bufComps[2], br, Sub(s.Len, Int(8)))
		x.hset(st, "bytes.Buffer#.c", bufComps[3], br, Sub(s.Cap, Int(8)))
		k(st, Iface{Tag: tZero, Pay: tZero})
	})
}

// sortSlice models sort.Slice: the elements are permuted so that none is less than an earlier one.
// The comparison must be a strict weak order (proved) without effects.
func sortSlice(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
	iv, ok := args[0].(Iface)
	if !ok || iv.Dyn == nil {
		unsup("sort of an unknown slice")
	}
	s, ok := iv.DynVal.(Slice)
	f, ok2 := args[1].(Fn)
	if !ok || !ok2 || f.F == nil || isByteSlice(iv.Dyn) {
		unsup("sort of %T", iv.DynVal)
	}
	n := s.Len
	// the comparison as a term over two positions
	less := func(st *State) (*Term, *Term, *Term) {
		i, j := Fresh("i", "Int"), Fresh("j", "Int")
		s2 := st.clone()
		s2.assume(And(Ge(i, tZero), Lt(i, n), Ge(j, tZero), Lt(j, n)))
		heap := map[string]*HNode{}
		for h, v := range s2.heap {
			heap[h] = v
		}
		pc := s2.pc
		var conds, vals []*Term
		as := []Value{Prim{i}, Prim{j}}
		if f.Recv != nil {
			as = append([]Value{f.Recv}, as...)
		}
		x.callFn(s2, fr, f.F, f.Binds, as, func(s3 *State, v Value) {
			for h, o := range s3.heap {
				if heap[h] != nil && heap[h] != o {
					unsup("the comparison of a sort changes %s", h)
				}
			}
			c := tTrue
			for q := s3.pc; q != pc && q != nil; q = q.up {
				c = And(q.t, c)
			}
			conds = append(conds, c)
			vals = append(vals, prim(v))
		})
		if len(vals) == 0 {
			unsup("the comparison of a sort does not return")
		}
		r := vals[len(vals)-1]
		for m := len(vals) - 2; m >= 0; m-- {
			r = Ite(conds[m], vals[m], r)
		}
		return r, i, j
	}
	at := func(t, i, j, a, b *Term) *Term { return subst(t, map[*Term]*Term{i: a, j: b}, map[*Term]*Term{}) }
	t, i, j := less(st)
	a, b, c := Fresh("a", "Int"), Fresh("b", "Int"), Fresh("c", "Int")
	in := func(v *Term) *Term { return And(Ge(v, tZero), Lt(v, n)) }
	bs := And(in(a), in(b), in(c))
	x.prove(st, "sort order irreflexive", Implies(bs, Not(at(t, i, j, a, a))), nil)
	x.prove(st, "sort order transitive", Implies(And(bs, at(t, i, j, a, b), at(t, i, j, b, c)), at(t, i, j, a, c)), nil)
	x.prove(st, "sort order weak", Implies(And(bs, Not(at(t, i, j, a, b)), Not(at(t, i, j, b, c))), Not(at(t, i, j, a, c))), nil)
	x.fork(st, Eq(s.Len, tZero), func(st *State, none bool) {
		if !none {
			x.permute(st, s)
			t, i, j := less(st)
			sorted(st, s, func(p, q *Term) *Term { return at(t, i, j, p, q) }, x)
		}
		k(st, nil)
	})
}

// slicesSort models slices.Sort of integers or strings.
func slicesSort(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, k func(*State, Value)) {
	s, ok := args[0].(Slice)
	if !ok {
		unsup("sort of %T", args[0])
	}
	b, ok := under(s.Elem).(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 || isByte(s.Elem) {
		unsup("sort of %s", s.Elem)
	}
	x.fork(st, Eq(s.Len, tZero), func(st *State, none bool) {
		if !none {
			x.permute(st, s)
			sorted(st, s, func(p, q *Term) *Term {
				u, v := prim(x.elem(st, s, p)), prim(x.elem(st, s, q))
				if b.Info()&types.IsString != 0 {
					return App("blt", u, v)
				}
				return Lt(u, v)
			}, x)
		}
		k(st, nil)
	})
}

// permute rearranges the elements of s.
func (x *Exec) permute(st *State, s Slice) {
	s.Ref = memRef(s.Ref)
	p, q := Fresh("perm", "(Array Int Int)"), Fresh("perm", "(Array Int Int)")
	i := BV("i", "Int")
	in := func(v *Term) *Term { return And(Ge(v, tZero), Lt(v, s.Len)) }
	for _, c := range comps(s.Elem) {
		hn := elemHeap(s.Elem) + c.sfx
		ec := elemComp(c)
		o := x.hget(st, hn, ec, s.Ref)
		nw := x.havocAt(st, hn, ec, s.Ref)
		pos := Sub(i, s.Off)
		ni, oi := Select(nw, i), Select(o, i)
		st.assume(Forall([]*Term{i}, [][]*Term{{ni}}, Ite(in(pos),
			And(in(Select(p, pos)), Eq(ni, Select(o, Add(s.Off, Select(p, pos)))), Eq(Select(q, Select(p, pos)), pos)),
			Eq(ni, oi))))
		st.assume(Forall([]*Term{i}, [][]*Term{{oi}}, Implies(in(pos),
			And(in(Select(q, pos)), Eq(Select(nw, Add(s.Off, Select(q, pos))), oi), Eq(Select(p, Select(q, pos)), pos)))))
	}
}

// sorted assumes that no element of s is less than an earlier one.
func sorted(st *State, s Slice, less func(p, q *Term) *Term, x *Exec) {
	i, j := BV("i", "Int"), BV("j", "Int")
	var tr []*Term
	for _, v := range []*Term{i, j} {
		tr = append(tr, flatten(x.elem(st, s, v))[0])
	}
	st.assume(Forall([]*Term{i, j}, [][]*Term{tr}, Implies(And(Ge(i, tZero), Lt(i, j), Lt(j, s.Len)), Not(less(j, i)))))
}
