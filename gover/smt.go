package main

// Theory file loading, SMT-LIB emission and solver runs.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- s-expressions

type Sx struct {
	atom string
	list []*Sx
	isL  bool
}

func (s *Sx) String() string {
	if !s.isL {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSx(src string) []*Sx {
	pos := 0
	var parse func() *Sx
	skip := func() {
		for pos < len(src) {
			c := src[pos]
			if c == ';' {
				for pos < len(src) && src[pos] != '\n' {
					pos++
				}
			} else if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
				pos++
			} else {
				break
			}
		}
	}
	parse = func() *Sx {
		skip()
		if pos >= len(src) {
			return nil
		}
		if src[pos] == '(' {
			pos++
			r := &Sx{isL: true}
			for {
				skip()
				if pos >= len(src) {
					panic("unbalanced s-expression")
				}
				if src[pos] == ')' {
					pos++
					return r
				}
				r.list = append(r.list, parse())
			}
		}
		st := pos
		if src[pos] == '"' || src[pos] == '|' {
			q := src[pos]
			pos++
			for src[pos] != q {
				pos++
			}
			pos++
			return &Sx{atom: src[st:pos]}
		}
		for pos < len(src) && !strings.ContainsRune(" \n\t\r();", rune(src[pos])) {
			pos++
		}
		return &Sx{atom: src[st:pos]}
	}
	var out []*Sx
	for {
		skip()
		if pos >= len(src) {
			return out
		}
		out = append(out, parse())
	}
}

type Axiom struct {
	name string
	text string
	neg  string // negated, for a lemma, to be proved from what stands before it
	decl int    // functions declared before it
	pats [][]string // symbols per pattern (alternative triggers)
	syms []string
}

type Theory struct {
	sortDecls []string // sorts and datatypes, always emitted
	funDecl   map[string]string
	funBody   map[string][]string // symbols used by define-fun
	order     []string
	axioms    []*Axiom
}

var theory *Theory

var smtBuiltin = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "select": true, "store": true, "forall": true, "exists": true, "let": true, "+": true, "-": true, "*": true, "<": true, "<=": true, ">": true, ">=": true, "div": true, "mod": true, "true": true, "false": true, "Int": true, "Bool": true, "Real": true, "Array": true, "distinct": true, "!": true, "as": true, "const": true, "to_real": true, "/": true, "abs": true, "is": true, "_": true}

func symsOf(s *Sx, out map[string]bool) {
	if s.isL {
		for _, x := range s.list {
			symsOf(x, out)
		}
		return
	}
	a := s.atom
	if smtBuiltin[a] || a == "" || a[0] == ':' || (a[0] >= '0' && a[0] <= '9') {
		return
	}
	if _, ok := sigs[a]; ok {
		out[a] = true
	}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func loadTheory(files ...string) {
	th := &Theory{funDecl: map[string]string{}, funBody: map[string][]string{}}
	theory = th
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, s := range parseSx(string(src)) {
			switch s.list[0].atom {
			case "declare-sort", "define-sort":
				th.sortDecls = append(th.sortDecls, s.String())
			case "declare-datatypes":
				th.sortDecls = append(th.sortDecls, s.String())
				for i, dt := range s.list[1].list {
					dn := dt.list[0].atom
					for _, c := range s.list[2].list[i].list {
						cn := c.list[0].atom
						var as []string
						for k, fd := range c.list[1:] {
							as = append(as, fd.list[1].String())
							sigs[fd.list[0].atom] = FSig{[]string{dn}, fd.list[1].String()}
							selectors[fd.list[0].atom] = selInfo{cn, k}
						}
						sigs[cn] = FSig{as, dn}
						ctors[cn] = true
						sigs["is-"+cn] = FSig{[]string{dn}, "Bool"}
						testers["is-"+cn] = cn
					}
				}
			case "declare-fun":
				n := s.list[1].atom
				var as []string
				for _, a := range s.list[2].list {
					as = append(as, a.String())
				}
				sigs[n] = FSig{as, s.list[3].String()}
				th.funDecl[n] = s.String()
				th.order = append(th.order, n)
			case "define-fun":
				n := s.list[1].atom
				var as []string
				for _, a := range s.list[2].list {
					as = append(as, a.list[1].String())
				}
				sigs[n] = FSig{as, s.list[3].String()}
				th.funDecl[n] = s.String()
				m := map[string]bool{}
				symsOf(s.list[4], m)
				th.funBody[n] = keys(m)
				th.order = append(th.order, n)
			case "axiom", "lemma", "induction":
				iv := ""
				if s.list[0].atom == "induction" { // (induction name variable statement)
					iv = s.list[2].atom
					s = &Sx{list: []*Sx{s.list[0], s.list[1], s.list[3]}, isL: true}
				}
				ax := &Axiom{name: s.list[1].atom, text: "(assert " + s.list[2].String() + ")", decl: len(th.order)}
				switch s.list[0].atom {
				case "lemma":
					ax.neg = "(assert (not " + s.list[2].String() + "))"
				case "induction":
					ax.neg = induction(s.list[2], iv)
				}
				m := map[string]bool{}
				symsOf(s.list[2], m)
				ax.syms = keys(m)
				var findPats func(x *Sx)
				findPats = func(x *Sx) {
					if !x.isL {
						return
					}
					if len(x.list) > 2 && x.list[0].atom == "!" {
						for i := 2; i+1 < len(x.list); i += 2 {
							if x.list[i].atom == ":pattern" {
								pm := map[string]bool{}
								symsOf(x.list[i+1], pm)
								ax.pats = append(ax.pats, keys(pm))
							}
						}
						return // only the outermost patterns decide relevance
					}
					for _, y := range x.list {
						findPats(y)
					}
				}
				findPats(s.list[2])
				th.axioms = append(th.axioms, ax)
			default:
				panic("theory: " + s.list[0].atom)
			}
		}
	}
}

// induction negates a statement over a number that is to be proved for n<=0 and, given n-1, for n>0.
func induction(f *Sx, v string) string {
	var b strings.Builder
	sub := map[string]string{}
	var rest []*Sx
	for _, q := range f.list[1].list {
		n, so := q.list[0].atom, q.list[1].String()
		sub[n] = "ind^" + n
		b.WriteString("(declare-const ind^" + n + " " + so + ")\n")
		if n != v {
			rest = append(rest, q)
		} else if so != "Int" {
			panic("induction over " + so)
		}
	}
	body := f.list[2]
	pat := ""
	if body.isL && body.list[0].atom == "!" {
		for i := 2; i+1 < len(body.list); i += 2 {
			m := map[string]string{v: "(- ind^" + v + " 1)"}
			p := substSx(body.list[i+1], m)
			pat += " " + body.list[i].atom + " " + p
			// recursive functions unfold into their twins
			fs := map[string]bool{}
			symsOf(body.list[i+1], fs)
			for f := range fs {
				if _, ok := sigs[f+"!"]; ok {
					m[f] = f + "!"
				}
			}
			if q := substSx(body.list[i+1], m); q != p {
				pat += " " + body.list[i].atom + " " + q
			}
		}
		body = body.list[1]
	}
	prev := substSx(body, map[string]string{v: "(- ind^" + v + " 1)"})
	if len(rest) > 0 {
		ih := "(forall ("
		for _, q := range rest {
			ih += q.String() + " "
		}
		prev = ih + ") (! " + prev + pat + "))"
	}
	b.WriteString("(assert (=> (< 0 ind^" + v + ") " + prev + "))\n(assert (not " + substSx(body, sub) + "))")
	return b.String()
}

func substSx(x *Sx, m map[string]string) string {
	if !x.isL {
		if r, ok := m[x.atom]; ok {
			return r
		}
		return x.String()
	}
	var p []string
	for _, y := range x.list {
		p = append(p, substSx(y, m))
	}
	return "(" + strings.Join(p, " ") + ")"
}

// ---- emission

type emitter struct {
	consts map[*Term]bool
	hfuns  map[string]string // heap constants as functions: name -> decl
	syms   map[string]bool
	lits   map[string]bool
	names  map[*Term]string
	cnt    map[*Term]int
	defs   strings.Builder
	nDef   int
}

func (e *emitter) count(t *Term) {
	e.cnt[t]++
	if e.cnt[t] > 1 {
		return
	}
	switch t.op {
	case "const":
		if _, ok := sigs[t.name]; ok {
			e.syms[t.name] = true
		} else {
			e.consts[t] = true
		}
	case "blit":
		e.lits[t.name] = true
		e.syms["blen"] = true
	case "hsel":
		// heap constant application
		e.hfuns[t.name] = fmt.Sprintf("(declare-fun %s (Int) %s)", smtName(t.name), t.sort)
	case "app":
		e.syms[t.name] = true
	}
	for _, a := range t.args {
		e.count(a)
	}
	for _, p := range t.trig {
		for _, a := range p {
			e.count(a)
		}
	}
}

func smtName(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

func smtInt(v interface {
	Sign() int
	String() string
}) string {
	if v.Sign() < 0 {
		return "(- " + v.String()[1:] + ")"
	}
	return v.String()
}

func (e *emitter) str(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.raw(t)
	if !t.free && e.cnt[t] > 1 && len(t.args) > 0 && len(s) > 24 {
		e.nDef++
		n := fmt.Sprintf("d!%d", e.nDef)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		e.names[t] = n
		return n
	}
	if !t.free {
		e.names[t] = s
	}
	return s
}

func (e *emitter) list(op string, as []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(e.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (e *emitter) raw(t *Term) string {
	switch t.op {
	case "int":
		return smtInt(t.val)
	case "true", "false":
		return t.op
	case "const":
		if _, ok := sigs[t.name]; ok {
			return t.name
		}
		return smtName(t.name)
	case "bv":
		return smtName(t.name)
	case "real":
		return t.name
	case "blit":
		return smtName(fmt.Sprintf("lit:%q", t.name))
	case "lin":
		var p []string
		for i, a := range t.args {
			if t.coef[i].String() == "1" {
				p = append(p, e.str(a))
			} else {
				p = append(p, "(* "+smtInt(t.coef[i])+" "+e.str(a)+")")
			}
		}
		if t.val.Sign() != 0 {
			p = append(p, smtInt(t.val))
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(+ " + strings.Join(p, " ") + ")"
	case "ge0":
		// readable comparison: split positive and negative parts
		return "(>= " + e.str(t.args[0]) + " 0)"
	case "and", "or", "not", "ite", "=", "select", "store":
		return e.list(t.op, t.args)
	case "hsel":
		return "(" + smtName(t.name) + " " + e.str(t.args[0]) + ")"
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.args[1:] {
			fmt.Fprintf(&b, "(%s %s)", smtName(v.name), v.sort)
		}
		b.WriteString(") ")
		if len(t.trig) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(e.str(t.args[0]))
		if len(t.trig) > 0 {
			for _, p := range t.trig {
				b.WriteString(" :pattern (")
				for i, a := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(e.str(a))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	case "app":
		switch t.name {
		case "asconst":
			return "((as const " + t.sort + ") " + e.str(t.args[0]) + ")"
		case "bcat":
			// right nested binary
			s := e.str(t.args[len(t.args)-1])
			for i := len(t.args) - 2; i >= 0; i-- {
				s = "(bcat " + e.str(t.args[i]) + " " + s + ")"
			}
			return s
		}
		if c, ok := testers[t.name]; ok {
			return "((_ is " + c + ") " + e.str(t.args[0]) + ")"
		}
		if len(t.args) == 0 {
			return t.name
		}
		return e.list(t.name, t.args)
	}
	panic("emit " + t.op)
}

// withFacts adds the typing facts of every ground term that occurs.
func withFacts(facts []*Term, goal *Term) []*Term {
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	out := append([]*Term{}, facts...)
	for _, f := range facts {
		have[f] = true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.free {
			for _, f := range factsOf[t] {
				if !have[f] {
					have[f] = true
					out = append(out, f)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for i := 0; i < len(facts); i++ {
		walk(facts[i])
	}
	walk(goal)
	for i := len(facts); i < len(out); i++ {
		walk(out[i])
	}
	return out
}

// query renders "facts and not goal".
func query(facts []*Term, goal *Term) string {
	e := &emitter{consts: map[*Term]bool{}, hfuns: map[string]string{}, syms: map[string]bool{}, lits: map[string]bool{}, names: map[*Term]string{}, cnt: map[*Term]int{}}
	facts = withFacts(facts, goal)
	for _, f := range facts {
		e.count(f)
	}
	e.count(goal)
	// relevant axioms
	used := e.syms
	var grow func(n string)
	grow = func(n string) {
		used[n] = true
		for _, m := range theory.funBody[n] {
			if !used[m] {
				grow(m)
			}
		}
	}
	for n := range used {
		grow(n)
	}
	inc := map[*Axiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, ax := range theory.axioms {
			if inc[ax] {
				continue
			}
			ok := false
			if len(ax.pats) == 0 {
				ok = true
				for _, s := range ax.syms {
					if !used[s] {
						ok = false
					}
				}
			}
			for _, p := range ax.pats {
				all := true
				for _, s := range p {
					if !used[s] {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if ok {
				inc[ax] = true
				ch = true
				for _, s := range ax.syms {
					if !used[s] {
						grow(s)
					}
				}
			}
		}
	}
	var body strings.Builder
	for _, f := range facts {
		s := e.str(f)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	g := e.str(Not(goal))
	var b strings.Builder
	for _, d := range theory.sortDecls {
		b.WriteString(d + "\n")
	}
	for _, n := range theory.order {
		if used[n] {
			b.WriteString(theory.funDecl[n] + "\n")
		}
	}
	var cn []string
	for c := range e.consts {
		cn = append(cn, fmt.Sprintf("(declare-fun %s () %s)", smtName(c.name), c.sort))
	}
	for _, d := range e.hfuns {
		cn = append(cn, d)
	}
	sort.Strings(cn)
	b.WriteString(strings.Join(cn, "\n") + "\n")
	var ln []string
	for l := range e.lits {
		ln = append(ln, l)
	}
	sort.Strings(ln)
	for _, l := range ln {
		n := smtName(fmt.Sprintf("lit:%q", l))
		fmt.Fprintf(&b, "(declare-fun %s () Bytes)\n(assert (= (blen %s) %d))\n", n, n, len(l))
	}
	if len(ln) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range ln {
			b.WriteString(" " + smtName(fmt.Sprintf("lit:%q", l)))
		}
		b.WriteString("))\n")
	}
	if used["bat"] {
		for _, l := range ln {
			for i := 0; i < len(l) && len(l) <= 8; i++ {
				fmt.Fprintf(&b, "(assert (= (bat %s %d) %d))\n", smtName(fmt.Sprintf("lit:%q", l)), i, l[i])
			}
		}
	}
	if used["bempty"] && e.lits[""] {
		fmt.Fprintf(&b, "(assert (= bempty %s))\n", smtName(`lit:""`))
	}
	for _, ax := range theory.axioms {
		if inc[ax] {
			b.WriteString(ax.text + "\n")
		}
	}
	b.WriteString(e.defs.String())
	b.WriteString(body.String())
	fmt.Fprintf(&b, "(assert %s)\n", g)
	return b.String()
}

// ---- solving

type SolveResult struct {
	Proved bool
	By     string
	Detail string
	Secs   float64
}

var (
	solveCache sync.Map // hash -> SolveResult
	solverSem  = make(chan struct{}, 8)
	statMu     sync.Mutex
	statQ      int
	statSecs   float64
	statBy     = map[string]int{}
	keepDir    string
	cacheDir   string
)

var z3bin, z3old, cvc5bin = "z3-new", "z3", "cvc5"

// Solver runs are limited across the worker processes: a pipe holds one byte per free processor.
var slotR, slotW *os.File

func acquire() {
	if slotR == nil {
		solverSem <- struct{}{}
		return
	}
	var b [1]byte
	slotR.Read(b[:])
}

func release() {
	if slotR == nil {
		<-solverSem
		return
	}
	slotW.Write([]byte{'.'})
}

func runSolver(bin string, args []string, in string, to time.Duration) (string, float64) {
	// the solvers' own resource limits decide; the wall clock limit is only for a solver that hangs
	ctx, cancel := context.WithTimeout(context.Background(), 6*to+20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	return strings.TrimSpace(out.String()), time.Since(t0).Seconds()
}

// lemmas proves the lemmas of the theory from the axioms and lemmas before them.
func lemmas(secs int) *Out {
	o := &Out{Fn: "theory lemmas", Exits: 1, By: map[string]int{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i, ax := range theory.axioms {
		if ax.neg == "" {
			continue
		}
		var b strings.Builder
		for _, d := range theory.sortDecls {
			b.WriteString(d + "\n")
		}
		for _, n := range theory.order[:ax.decl] {
			b.WriteString(theory.funDecl[n] + "\n")
		}
		for _, p := range theory.axioms[:i] {
			b.WriteString(p.text + "\n")
		}
		b.WriteString(ax.neg + "\n")
		o.Obls = append(o.Obls, OblOut{Fn: o.Fn, Name: ax.name, Pos: "specs/00-theory.smt2"})
		k := len(o.Obls) - 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := solve(b.String(), 1, secs)
			ob := &o.Obls[k]
			ob.Proved, ob.By, ob.Secs = r.Proved, r.By, r.Secs
			if !r.Proved {
				ob.Detail = r.Detail
				if keepDir != "" {
					os.MkdirAll(keepDir, 0o755)
					os.WriteFile(filepath.Join(keepDir, "lemma-"+ob.Name+".smt2"), []byte(b.String()+"(check-sat)\n"), 0o644)
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range o.Obls {
		if b.Proved {
			o.By[b.By]++
		}
	}
	o.SolverQ, o.SolverS = statQ, statSecs
	o.Secs = time.Since(t0).Seconds()
	return o
}

// solve decides a query; level 0: one quick attempt (invariant inference); 1: all back ends.
func solve(q string, level int, secs int) SolveResult {
	h := sha256.Sum256([]byte(q))
	key := fmt.Sprintf("%x/%d", h[:12], level)
	if r, ok := solveCache.Load(key); ok {
		return r.(SolveResult)
	}
	if cacheDir != "" {
		if b, err := os.ReadFile(filepath.Join(cacheDir, strings.ReplaceAll(key, "/", "-"))); err == nil {
			f := strings.SplitN(string(b), "\n", 2)
			r := SolveResult{Proved: f[0] != "no", By: f[0], Detail: f[1]}
			solveCache.Store(key, r)
			return r
		}
	}
	acquire()
	defer release()
	var res SolveResult
	exhausted := false
	try := func(bin string, args []string, pre, tag string) bool {
		out, s := runSolver(bin, args, pre+q+"(check-sat)\n(get-info :reason-unknown)\n", time.Duration(secs)*time.Second)
		statMu.Lock()
		statQ++
		statSecs += s
		statMu.Unlock()
		res.Secs += s
		for strings.HasPrefix(out, "WARNING") {
			_, out, _ = strings.Cut(out, "\n")
		}
		first := out
		if i := strings.IndexByte(out, '\n'); i >= 0 {
			first = out[:i]
		}
		exhausted = strings.Contains(out, "resource") || strings.Contains(out, "cancel") || out == ""
		if first == "unsat" {
			res.Proved = true
			res.By = tag
			return true
		}
		res.Detail += tag + ": " + trunc(strings.Join(strings.Fields(out), " "), 300) + "; "
		return false
	}
	// limits are deterministic resource counts, so that a busy machine gives the same answers
	rl := func() string { return fmt.Sprintf("(set-option :rlimit %d)\n", secs*2000000) }
	const noMBQI = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
	// a search that runs out of its share starts again with another seed
	ok, share := false, secs
	for i := 0; i < 3 && !ok; i++ {
		secs = []int{(share + 3) / 4, (share + 1) / 2, share}[i]
		ok = try(z3bin, []string{"-in"}, rl()+noMBQI+[]string{"", "(set-option :smt.random_seed 7)\n", "(set-option :smt.random_seed 8)\n"}[i], "z3-5.3/ematching")
		if !exhausted {
			break
		}
	}
	secs = share
	if !ok && level > 0 {
		if level == 2 {
			secs = 2
		}
		if level == 1 {
			ok = try(z3old, []string{"-in"}, rl()+noMBQI, "z3-4.8/ematching")
		}
		if !ok {
			ok = try(cvc5bin, []string{"--lang=smt2", fmt.Sprintf("--rlimit=%d", secs*60000)}, "(set-logic ALL)\n", "cvc5")
		}
		if !ok && level != 2 {
			ok = try(z3bin, []string{"-in"}, rl(), "z3-5.3/default")
		}
	}
	if !ok && res.By == "" {
		res.By = "no"
	}
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("%05d-%s-%d-%x.smt2", int(res.Secs*1000), strings.ReplaceAll(res.By, "/", "_"), level, h[:6])), []byte(q+"(check-sat)\n"), 0o644)
	}
	solveCache.Store(key, res)
	if cacheDir != "" {
		os.WriteFile(filepath.Join(cacheDir, strings.ReplaceAll(key, "/", "-")), []byte(res.By+"\n"+res.Detail), 0o644)
	}
	return res
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
