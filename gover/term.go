package main

// Logical terms: hash-consed DAG with a light simplifier. Integers are
// mathematical and kept in linear normal form; byte strings (sort Bytes) are
// kept as flattened concatenations.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id   int
	op   string // int, real, lin, const, bv (bound var), app, true, false, and, or, not, ite, =, ge0, forall, exists, select, store
	args []*Term
	name string
	sort string
	val  *big.Int
	coef []*big.Int // lin: args[i]*coef[i] + val
	trig [][]*Term  // quantifiers
	free bool       // contains bound variables
}

var (
	termTab = map[string]*Term{}
	nextID  int
)

func mk(op, name, srt string, val *big.Int, coef []*big.Int, args []*Term, trig [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	if val != nil {
		b.WriteByte('|')
		b.WriteString(val.String())
	}
	for _, c := range coef {
		b.WriteByte(':')
		b.WriteString(c.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, t := range trig {
		b.WriteByte(';')
		for _, a := range t {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	nextID++
	t := &Term{id: nextID, op: op, args: args, name: name, sort: srt, val: val, coef: coef, trig: trig}
	if op == "bv" {
		t.free = true
	}
	for _, a := range args {
		if a.free {
			t.free = true
		}
	}
	if op == "forall" || op == "exists" {
		// args: body, vars...; closed over its own variables
		fv := map[*Term]bool{}
		collectBV(args[0], fv, map[*Term]bool{})
		for _, v := range args[1:] {
			delete(fv, v)
		}
		t.free = len(fv) > 0
	}
	termTab[k] = t
	return t
}

func collectBV(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.free || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bv" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sub := map[*Term]bool{}
		collectBV(t.args[0], sub, map[*Term]bool{})
		for _, v := range t.args[1:] {
			delete(sub, v)
		}
		for v := range sub {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		collectBV(a, out, seen)
	}
}

var (
	tTrue  = mk("true", "", "Bool", nil, nil, nil, nil)
	tFalse = mk("false", "", "Bool", nil, nil, nil, nil)
	tZero  = Int(0)
	tOne   = Int(1)
)

func Int(n int64) *Term       { return IntB(big.NewInt(n)) }
func IntB(n *big.Int) *Term   { return mk("int", "", "Int", n, nil, nil, nil) }
func Const(name, s string) *Term { return mk("const", name, s, nil, nil, nil, nil) }
func BV(name, s string) *Term    { return mk("bv", name, s, nil, nil, nil, nil) }
func Real(s string) *Term        { return mk("real", s, "Real", nil, nil, nil, nil) }

var freshN int

func Fresh(hint, s string) *Term {
	freshN++
	return Const(fmt.Sprintf("%s!%d", sanitize(hint), freshN), s)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

func (t *Term) isInt() bool { return t.op == "int" }

// ---- linear integers

type linear struct {
	c  map[*Term]*big.Int
	k  *big.Int
}

func toLin(t *Term) linear {
	switch t.op {
	case "int":
		return linear{nil, t.val}
	case "lin":
		m := make(map[*Term]*big.Int, len(t.args))
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return linear{m, t.val}
	}
	return linear{map[*Term]*big.Int{t: big.NewInt(1)}, big.NewInt(0)}
}

func fromLin(l linear) *Term {
	var as []*Term
	for a, c := range l.c {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return IntB(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.c[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.c[a]
	}
	return mk("lin", "", "Int", l.k, cs, as, nil)
}

func linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	la, lb := toLin(a), toLin(b)
	m := map[*Term]*big.Int{}
	A, B := big.NewInt(ka), big.NewInt(kb)
	for t, c := range la.c {
		m[t] = new(big.Int).Mul(c, A)
	}
	for t, c := range lb.c {
		x := new(big.Int).Mul(c, B)
		if o, ok := m[t]; ok {
			x.Add(x, o)
		}
		m[t] = x
	}
	k := new(big.Int).Add(new(big.Int).Mul(la.k, A), new(big.Int).Mul(lb.k, B))
	return fromLin(linear{m, k})
}

func Add(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func Sub(a, b *Term) *Term { return linComb(a, 1, b, -1) }
func Neg(a *Term) *Term    { return linComb(a, -1, tZero, 0) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := toLin(b)
		m := map[*Term]*big.Int{}
		for t, c := range l.c {
			m[t] = new(big.Int).Mul(c, a.val)
		}
		return fromLin(linear{m, new(big.Int).Mul(l.k, a.val)})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("app", "*", "Int", nil, nil, []*Term{a, b}, nil)
}
func DivT(a *Term, b *big.Int) *Term { // euclidean div by positive constant
	if a.isInt() {
		q, _ := new(big.Int).DivMod(a.val, b, new(big.Int))
		return IntB(q)
	}
	return mk("app", "div", "Int", nil, nil, []*Term{a, IntB(b)}, nil)
}
func ModT(a *Term, b *big.Int) *Term {
	if a.isInt() {
		_, m := new(big.Int).DivMod(a.val, b, new(big.Int))
		return IntB(m)
	}
	return mk("app", "mod", "Int", nil, nil, []*Term{a, IntB(b)}, nil)
}

// nonneg: atoms known to be >= 0
var nonnegAtom = map[*Term]bool{}

func nonneg(t *Term) bool {
	switch t.op {
	case "int":
		return t.val.Sign() >= 0
	case "lin":
		if t.val.Sign() < 0 {
			return false
		}
		for i, a := range t.args {
			if t.coef[i].Sign() < 0 || !nonneg(a) {
				return false
			}
		}
		return true
	case "app":
		if t.name == "blen" || t.name == "mod" {
			return true
		}
	case "ite":
		return nonneg(t.args[1]) && nonneg(t.args[2])
	}
	return nonnegAtom[t]
}

func Ge(a, b *Term) *Term { return ge0(Sub(a, b)) }
func Le(a, b *Term) *Term { return Ge(b, a) }
func Lt(a, b *Term) *Term { return Le(Add(a, tOne), b) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func ge0(t *Term) *Term {
	if t.isInt() {
		if t.val.Sign() >= 0 {
			return tTrue
		}
		return tFalse
	}
	if nonneg(t) {
		return tTrue
	}
	if refSimp {
		if v, ok := refLin(t); ok {
			return BoolT(v)
		}
	}
	n := Sub(Int(-1), t) // not(t>=0)  <=>  -1-t >= 0
	if nonneg(n) {
		return tFalse
	}
	// canonical polarity: leading coefficient positive is kept, negative is negation
	l := t
	var lead *big.Int
	if l.op == "lin" {
		lead = l.coef[0]
	} else {
		lead = big.NewInt(1)
	}
	if lead.Sign() < 0 {
		return Not(mk("ge0", "", "Bool", nil, nil, []*Term{n}, nil))
	}
	return mk("ge0", "", "Bool", nil, nil, []*Term{t}, nil)
}

// ---- booleans

func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Not(t *Term) *Term {
	switch t.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.args[0]
	}
	return mk("not", "", "Bool", nil, nil, []*Term{t}, nil)
}

func nary(op string, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "", "Bool", nil, nil, out, nil)
}
func And(ts ...*Term) *Term { return nary("and", tTrue, tFalse, ts) }
func Or(ts ...*Term) *Term  { return nary("or", tFalse, tTrue, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	return mk("ite", "", a.sort, nil, nil, []*Term{c, a, b}, nil)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("= on sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == "Int" {
		d := Sub(a, b)
		if d.isInt() {
			return BoolT(d.val.Sign() == 0)
		}
		if d.op == "lin" {
			// strictly signed?
			if nonneg(Sub(d, tOne)) || nonneg(Sub(Neg(d), tOne)) {
				return tFalse
			}
			if d.coef[0].Sign() < 0 {
				d = Neg(d)
			}
		}
		// ite with constant branches
		if a.op == "ite" && b.isInt() && a.args[1].isInt() && a.args[2].isInt() {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == "ite" && a.isInt() && b.args[1].isInt() && b.args[2].isInt() {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		return mk("=", "", "Bool", nil, nil, []*Term{d, tZero}, nil)
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if refSimp && a.sort == "Int" && (refLt(a, b) || refLt(b, a)) {
		return tFalse
	}
	if ctorApp(a) && ctorApp(b) {
		if a.name != b.name {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "blit" && b.op == "blit" {
		return BoolT(a.name == b.name)
	}
	if a.sort == "Bytes" {
		if f := bytesNeverEq(a, b); f {
			return tFalse
		}
		if d := Eq(Blen(a), Blen(b)); d == tFalse {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", "Bool", nil, nil, []*Term{a, b}, nil)
}

func bytesNeverEq(a, b *Term) bool { return false }

// datatype constructors known to the simplifier
var ctors = map[string]bool{}

// selectors: name -> (ctor, index); testers: name -> ctor
type selInfo struct {
	ctor string
	idx  int
}

var selectors = map[string]selInfo{}
var testers = map[string]string{}

func ctorApp(t *Term) bool { return (t.op == "app" || t.op == "const") && ctors[t.name] }

// ---- logic functions

type FSig struct {
	Args []string
	Ret  string
}

var sigs = map[string]FSig{}

func App(f string, args ...*Term) *Term {
	switch f {
	case "blen":
		return Blen(args[0])
	case "bcat":
		return Bcat(args...)
	case "bsub":
		return Bsub(args[0], args[1], args[2])
	}
	sg, ok := sigs[f]
	if !ok {
		panic("unknown logic function " + f)
	}
	if len(args) != len(sg.Args) {
		panic(fmt.Sprintf("%s: want %d args, have %d", f, len(sg.Args), len(args)))
	}
	for i, a := range args {
		if a.sort != sg.Args[i] {
			panic(fmt.Sprintf("%s: arg %d has sort %s, want %s", f, i, a.sort, sg.Args[i]))
		}
	}
	if len(args) == 0 {
		return Const(f, sg.Ret)
	}
	if s, ok := selectors[f]; ok {
		a := args[0]
		if ctorApp(a) && a.name == s.ctor {
			return a.args[s.idx]
		}
		if a.op == "ite" {
			return Ite(a.args[0], App(f, a.args[1]), App(f, a.args[2]))
		}
	}
	if c, ok := testers[f]; ok {
		a := args[0]
		if ctorApp(a) {
			return BoolT(a.name == c)
		}
		if a.op == "ite" {
			return Ite(a.args[0], App(f, a.args[1]), App(f, a.args[2]))
		}
	}
	if r := builtinSimp(f, args); r != nil {
		return r
	}
	return mk("app", f, sg.Ret, nil, nil, args, nil)
}

func builtinSimp(f string, args []*Term) *Term {
	switch f {
	case "dec64":
		if a := args[0]; a.op == "app" && a.name == "be64" {
			return a.args[0]
		}
	}
	return nil
}

// ---- arrays (solver-level)

func arrSorts(s string) (string, string) {
	// (Array X Y)
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func Select(a, i *Term) *Term {
	_, y := arrSorts(a.sort)
	for a.op == "store" {
		e := Eq(a.args[1], i)
		if e == tTrue {
			return a.args[2]
		}
		if e != tFalse {
			break
		}
		a = a.args[0]
	}
	if a.op == "app" && a.name == "asconst" {
		return a.args[0]
	}
	if a.op == "ite" {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	return mk("select", "", y, nil, nil, []*Term{a, i}, nil)
}

func Store(a, i, v *Term) *Term {
	_, y := arrSorts(a.sort)
	if v.sort != y {
		panic("store sort " + v.sort + " in " + a.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", "", a.sort, nil, nil, []*Term{a, i, v}, nil)
}

func ConstArr(s string, v *Term) *Term {
	return mk("app", "asconst", s, nil, nil, []*Term{v}, nil)
}

// ---- quantifiers

func Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk("forall", "", "Bool", nil, nil, append([]*Term{body}, vars...), trig)
}
func Exists(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return mk("exists", "", "Bool", nil, nil, append([]*Term{body}, vars...), nil)
}

// ---- byte strings

func BytesLit(s string) *Term { return mk("blit", s, "Bytes", nil, nil, nil, nil) }

var bEmpty = BytesLit("")

func Blen(t *Term) *Term {
	switch t.op {
	case "blit":
		return Int(int64(len(t.name)))
	case "ite":
		return Ite(t.args[0], Blen(t.args[1]), Blen(t.args[2]))
	case "app":
		switch t.name {
		case "bcat":
			r := tZero
			for _, a := range t.args {
				r = Add(r, Blen(a))
			}
			return r
		case "bsub":
			if d := Sub(t.args[2], t.args[1]); nonneg(d) {
				return d
			}
		case "be64":
			return Int(8)
		case "bzero":
			return t.args[0]
		case "byte1":
			return Int(1)
		}
	}
	r := mk("app", "blen", "Int", nil, nil, []*Term{t}, nil)
	return r
}

func Bcat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == "app" && t.name == "bcat" {
			out = append(out, t.args...)
		} else {
			out = append(out, t)
		}
	}
	var o2 []*Term
	for _, t := range out {
		if t.op == "blit" && t.name == "" {
			continue
		}
		if Blen(t) == tZero {
			continue
		}
		if n := len(o2); n > 0 {
			l := o2[n-1]
			if l.op == "blit" && t.op == "blit" {
				o2[n-1] = BytesLit(l.name + t.name)
				continue
			}
			// adjacent pieces of the same string
			if l.op == "app" && l.name == "bsub" && t.op == "app" && t.name == "bsub" && l.args[0] == t.args[0] && l.args[2] == t.args[1] &&
				nonneg(Sub(l.args[2], l.args[1])) && nonneg(Sub(t.args[2], t.args[1])) {
				o2[n-1] = Bsub(l.args[0], l.args[1], t.args[2])
				continue
			}
		}
		o2 = append(o2, t)
	}
	if len(o2) == 0 {
		return bEmpty
	}
	if len(o2) == 1 {
		return o2[0]
	}
	return mk("app", "bcat", "Bytes", nil, nil, o2, nil)
}

// Bsub is the part [i,j) of t; only meaningful for 0<=i<=j<=blen t.
func Bsub(t, i, j *Term) *Term {
	if i == j {
		return bEmpty
	}
	if i == tZero && j == Blen(t) {
		return t
	}
	switch t.op {
	case "blit":
		if i.isInt() && j.isInt() {
			a, b := i.val.Int64(), j.val.Int64()
			if a >= 0 && a <= b && b <= int64(len(t.name)) {
				return BytesLit(t.name[a:b])
			}
		}
	case "ite":
		return Ite(t.args[0], Bsub(t.args[1], i, j), Bsub(t.args[2], i, j))
	case "app":
		switch t.name {
		case "bsub":
			b := t.args[1]
			if nonneg(i) && nonneg(Sub(Sub(t.args[2], b), j)) {
				return Bsub(t.args[0], Add(b, i), Add(b, j))
			}
		case "bzero":
			if nonneg(Sub(j, i)) {
				return App("bzero", Sub(j, i))
			}
		case "bcat":
			if r := subParts(t.args, i, j); r != nil {
				return r
			}
		}
	}
	return mk("app", "bsub", "Bytes", nil, nil, []*Term{t, i, j}, nil)
}

func subParts(parts []*Term, i, j *Term) *Term {
	// drop whole parts before i
	sum := tZero
	k := 0
	for k < len(parts) {
		nx := Add(sum, Blen(parts[k]))
		if nonneg(Sub(i, nx)) {
			sum = nx
			k++
			continue
		}
		break
	}
	if k == len(parts) {
		return nil
	}
	off := Sub(i, sum)
	if !nonneg(off) {
		return nil
	}
	// now i = sum+off, inside part k (or beyond: must be provable)
	var out []*Term
	first := true
	for ; k < len(parts); k++ {
		p := parts[k]
		nx := Add(sum, Blen(p))
		lo := tZero
		if first {
			lo = off
		}
		if nonneg(Sub(j, nx)) { // whole rest of the part
			if first && off != tZero {
				if !nonneg(Sub(Blen(p), off)) {
					return nil
				}
				out = append(out, Bsub(p, lo, Blen(p)))
			} else {
				out = append(out, p)
			}
			first = false
			sum = nx
			if j == nx {
				return Bcat(out...)
			}
			continue
		}
		hi := Sub(j, sum)
		if !nonneg(Sub(hi, lo)) || !nonneg(Sub(Blen(p), hi)) {
			return nil
		}
		out = append(out, Bsub(p, lo, hi))
		return Bcat(out...)
	}
	return nil
}

// splice replaces [off, off+len c) of base by c
func Bsplice(base, off, c *Term) *Term {
	if base.op == "ite" {
		return Ite(base.args[0], Bsplice(base.args[1], off, c), Bsplice(base.args[2], off, c))
	}
	n := Blen(base)
	end := Add(off, Blen(c))
	return Bcat(Bsub(base, tZero, off), c, Bsub(base, end, n))
}

// ---- substitution

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	var tr [][]*Term
	for _, p := range t.trig {
		var q []*Term
		for _, a := range p {
			b := subst(a, m, memo)
			if b != a {
				ch = true
			}
			q = append(q, b)
		}
		tr = append(tr, q)
	}
	r := t
	if ch {
		r = rebuild(t, as, tr)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term, tr [][]*Term) *Term {
	switch t.op {
	case "lin":
		r := IntB(t.val)
		for i, a := range as {
			r = Add(r, Mul(IntB(t.coef[i]), a))
		}
		return r
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "ge0":
		return ge0(as[0])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "forall":
		return Forall(as[1:], tr, as[0])
	case "exists":
		return Exists(as[1:], as[0])
	case "app":
		if t.name == "asconst" {
			return ConstArr(t.sort, as[0])
		}
		if _, ok := sigs[t.name]; ok || t.name == "bcat" || t.name == "bsub" || t.name == "blen" {
			return App(t.name, as...)
		}
		if t.name == "div" && as[1].isInt() {
			return DivT(as[0], as[1].val)
		}
		if t.name == "mod" && as[1].isInt() {
			return ModT(as[0], as[1].val)
		}
		if t.name == "*" {
			return Mul(as[0], as[1])
		}
	}
	return mk(t.op, t.name, t.sort, t.val, t.coef, as, tr)
}

// ---- printing (debug)

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case "int":
		return t.val.String()
	case "const", "bv", "real":
		return t.name
	case "blit":
		return fmt.Sprintf("%q", t.name)
	case "true", "false":
		return t.op
	case "lin":
		var p []string
		for i, a := range t.args {
			c := t.coef[i].String()
			if c == "1" {
				p = append(p, a.str(d-1))
			} else {
				p = append(p, c+"*"+a.str(d-1))
			}
		}
		if t.val.Sign() != 0 {
			p = append(p, t.val.String())
		}
		return strings.Join(p, "+")
	}
	n := t.op
	if n == "app" || n == "hsel" {
		n = t.name
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}
