package main

// Contract language: parsing.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	op   string // id int str call field index un bin forall exists ite let
	s    string
	args []*Expr
	vars []QVar
	trig [][]*Expr
}

type QVar struct{ name, sort string }

type Clause struct {
	kind  string // requires ensures modifies inv let result fresh freshbytes assume
	name  string
	tags  []string
	e     *Expr
	es    []*Expr
	metas []QVar
	src   string
	depth string // of an inv: top (loops within no other) or deep (loops within another)
	cond  *Expr
}

type Contract struct {
	Name    string
	Params  []string
	Results []string
	Props   []string
	Clauses []*Clause
	Extern  bool
	Iface   bool
	Impl    string // interface method this implements
	Uses    []string
	File    string
	Line    int
	Opts    map[string]string
}

type AbsDef struct {
	typ   string
	param string
	body  *Expr
	foot  []*Expr
	hasFoot bool
}

type Macro struct {
	params []string
	body   *Expr
}

type Specs struct {
	con    map[string]*Contract
	ghost  map[string]string // name -> sort
	ghostInit map[string][][2]string
	global map[string]bool
	abs    map[string]map[string]*AbsDef
	macros map[string]*Macro
	groups map[string][]*Clause
	order  []string
	mergedMemo map[*Contract]*Contract
}

// ---- lexer

type tok struct {
	k string // id int str op eof
	s string
}

func lex(src string) []tok {
	var out []tok
	rs := []rune(src)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '?' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$' || rs[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == 'x' || rs[j] >= 'a' && rs[j] <= 'f') {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j])})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for rs[j] != '"' {
				if rs[j] == '\\' {
					j++
					switch rs[j] {
					case 'x':
						var n int
						fmt.Sscanf(string(rs[j+1:j+3]), "%02x", &n)
						b.WriteByte(byte(n))
						j += 3
						continue
					case 'n':
						b.WriteByte('\n')
						j++
						continue
					}
				}
				b.WriteRune(rs[j])
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			for _, op := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "++", "::"} {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), op) {
					out = append(out, tok{"op", op})
					i += len(op)
					goto next
				}
			}
			out = append(out, tok{"op", string(c)})
			i++
		next:
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	t   []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.p].s == s && p.t[p.p].k != "str"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q, found %q in: %s", s, p.peek().s, p.src))
	}
}

func (p *parser) sortName() string {
	if p.accept("(") {
		var ps []string
		for !p.is(")") {
			ps = append(ps, p.sortName())
		}
		p.expect(")")
		return "(" + strings.Join(ps, " ") + ")"
	}
	return p.next().s
}

func (p *parser) expr() *Expr {
	switch {
	case p.is("forall") || p.is("exists"):
		e := &Expr{op: p.next().s}
		for {
			n := p.next().s
			p.expect(":")
			e.vars = append(e.vars, QVar{n, p.sortName()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		p.expect("::")
		e.args = []*Expr{p.expr()}
		return e
	case p.is("let"):
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr()
		p.expect("in")
		return &Expr{op: "let", s: n, args: []*Expr{v, p.expr()}}
	case p.is("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		return &Expr{op: "ite", args: []*Expr{c, a, p.expr()}}
	}
	return p.iff()
}

func bin(op string, a, b *Expr) *Expr { return &Expr{op: "bin", s: op, args: []*Expr{a, b}} }

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		l = bin("<==>", l, p.imp())
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		return bin("==>", l, p.rhs(p.imp))
	}
	return l
}

// rhs allows quantifiers and lets on the right of an operator
func (p *parser) rhs(f func() *Expr) *Expr {
	if p.is("forall") || p.is("exists") || p.is("let") || p.is("if") {
		return p.expr()
	}
	return f()
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		l = bin("||", l, p.rhs(p.and))
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		l = bin("&&", l, p.rhs(p.cmp))
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	var r *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			if r != nil {
				return r
			}
			return l
		}
		p.next()
		m := p.rhs(p.add)
		c := bin(op, l, m)
		if r == nil {
			r = c
		} else {
			r = bin("&&", r, c)
		}
		l = m
	}
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") || p.is("++") {
		op := p.next().s
		l = bin(op, l, p.mul())
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.next().s
		l = bin(op, l, p.unary())
	}
	return l
}
func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") {
		op := p.next().s
		return &Expr{op: "un", s: op, args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t.k == "id":
		e = &Expr{op: "id", s: t.s}
		if p.is("(") {
			p.next()
			e = &Expr{op: "call", s: t.s}
			for !p.is(")") {
				e.args = append(e.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
	case t.k == "int":
		e = &Expr{op: "int", s: t.s}
	case t.k == "str":
		e = &Expr{op: "str", s: t.s}
	case t.s == "(":
		e = p.expr()
		p.expect(")")
	default:
		panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
	}
	for {
		switch {
		case p.is("."):
			p.next()
			e = &Expr{op: "field", s: p.next().s, args: []*Expr{e}}
		case p.is("["):
			p.next()
			i := p.expr()
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func parseExpr(src string) *Expr {
	p := &parser{t: lex(src), src: src}
	e := p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	return e
}

func parseExprs(src string) []*Expr {
	if strings.TrimSpace(src) == "" {
		return nil
	}
	p := &parser{t: lex(src), src: src}
	var es []*Expr
	for {
		es = append(es, p.expr())
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	return es
}

// ---- files

var clauseKw = []string{"props", "requires", "ensures", "modifies", "inv", "let", "result", "freshbytes", "fresh", "use", "allocates", "opt", "end", "foot", "cases", "callback", "ghostset", "neg"}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	cur := ""
	for _, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && string(r) == sep {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(r)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{ghostInit: map[string][][2]string{}, con: map[string]*Contract{}, ghost: map[string]string{}, global: map[string]bool{}, abs: map[string]map[string]*AbsDef{}, macros: map[string]*Macro{}, groups: map[string][]*Clause{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		sp.file(f)
	}
	return sp
}

func (sp *Specs) file(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	type item struct {
		line int
		txt  string
	}
	var items []item // logical lines: a top-level or clause line plus continuations
	for n, l := range strings.Split(string(b), "\n") {
		if i := commentAt(l); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		w := strings.Fields(l)[0]
		top := l[0] != ' ' && l[0] != '\t'
		isKw := false
		for _, k := range clauseKw {
			if w == k {
				isKw = true
			}
		}
		if top || isKw && !strings.HasPrefix(l, "      ") {
			items = append(items, item{n + 1, strings.TrimSpace(l)})
		} else if len(items) > 0 {
			items[len(items)-1].txt += "\n" + strings.TrimSpace(l)
		}
	}
	var cur *Contract
	var group string
	for _, it := range items {
		func() {
			defer func() {
				if e := recover(); e != nil {
					panic(fmt.Sprintf("%s:%d: %v", f, it.line, e))
				}
			}()
			kw, rest, _ := strings.Cut(it.txt, " ")
			rest = strings.TrimSpace(rest)
			switch kw {
			case "ghost": // ghost name: Sort | ghost global name: Sort
				if strings.HasPrefix(rest, "global ") {
					rest = strings.TrimSpace(rest[7:])
					n, s, _ := strings.Cut(rest, ":")
					sp.global[strings.TrimSpace(n)] = true
					sp.ghost[strings.TrimSpace(n)] = strings.TrimSpace(s)
					return
				}
				n, s, _ := strings.Cut(rest, ":")
				s, ini, _ := strings.Cut(s, " init ") // ghost name: Sort init TYPE CONSTANT: the value at a new object of the type
				if f := strings.Fields(ini); len(f) == 2 {
					sp.ghostInit[f[0]] = append(sp.ghostInit[f[0]], [2]string{strings.TrimSpace(n), f[1]})
				}
				sp.ghost[strings.TrimSpace(n)] = strings.TrimSpace(s)
			case "abs": // abs name(p: TYPE) = expr [foot locs]
				h, body, _ := strings.Cut(rest, " = ")
				foot := ""
				hasFoot := false
				if i := strings.Index(body, "\nfoot "); i >= 0 {
					foot = body[i+6:]
					body = body[:i]
					hasFoot = true
				} else if i := strings.Index(body, " foot "); i >= 0 {
					foot = body[i+6:]
					body = body[:i]
					hasFoot = true
				}
				n, ps, _ := strings.Cut(h, "(")
				ps = strings.TrimSuffix(strings.TrimSpace(ps), ")")
				pn, pt, _ := strings.Cut(ps, ":")
				n = strings.TrimSpace(n)
				if sp.abs[n] == nil {
					sp.abs[n] = map[string]*AbsDef{}
				}
				d := &AbsDef{typ: strings.TrimSpace(pt), param: strings.TrimSpace(pn), body: parseExpr(body), hasFoot: hasFoot}
				if strings.TrimSpace(foot) != "none" {
					d.foot = parseExprs(foot)
				}
				sp.abs[n][d.typ] = d
			case "def":
				h, body, _ := strings.Cut(rest, " = ")
				n, ps, _ := strings.Cut(h, "(")
				m := &Macro{body: parseExpr(body)}
				for _, q := range strings.Split(strings.TrimSuffix(strings.TrimSpace(ps), ")"), ",") {
					if strings.TrimSpace(q) != "" {
						m.params = append(m.params, strings.TrimSpace(q))
					}
				}
				if sp.ghost[strings.TrimSpace(n)] != "" || sp.macros[strings.TrimSpace(n)] != nil {
					panic("defined twice: " + n)
				}
				sp.macros[strings.TrimSpace(n)] = m
			case "inline": // dependency functions executed from their source
				for _, k := range strings.Fields(rest) {
					inlineExt[k] = true
				}
			case "fn", "extern", "iface", "impl":
				impl := ""
				if i := strings.Index(rest, " : "); i >= 0 {
					impl = strings.TrimSpace(rest[i+3:])
					rest = strings.TrimSpace(rest[:i])
				}
				c := &Contract{Extern: kw == "extern", Iface: kw == "iface", Impl: impl, File: filepath.Base(f), Line: it.line, Opts: map[string]string{}}
				// KEY(params) (results): key may itself contain parentheses
				r := rest
				if kw != "impl" {
					if strings.HasSuffix(r, ")") {
						i := matchOpen(r)
						last := r[i+1 : len(r)-1]
						r2 := strings.TrimSpace(r[:i])
						if strings.HasSuffix(r2, ")") && r[i-1] == ' ' {
							c.Results = splitNames(last)
							j := matchOpen(r2)
							c.Params = splitNames(r2[j+1 : len(r2)-1])
							r = r2[:j]
						} else {
							c.Params = splitNames(last)
							r = r[:i]
						}
					}
				}
				c.Name = strings.TrimSpace(r)
				cur = c
				group = ""
				if sp.con[c.Name] != nil {
					panic("duplicate contract " + c.Name)
				}
				sp.con[c.Name] = c
				sp.order = append(sp.order, c.Name)
			case "invs":
				group = rest
				cur = nil
			case "end":
				cur, group = nil, ""
			case "props":
				cur.Props = strings.Fields(rest)
			case "use":
				cur.Uses = append(cur.Uses, strings.Fields(rest)...)
			case "opt":
				k, v, _ := strings.Cut(rest, " ")
				cur.Opts[k] = strings.TrimSpace(v)
			case "allocates":
				cur.Clauses = append(cur.Clauses, &Clause{kind: "allocates"})
			case "requires", "ensures", "modifies", "inv", "let", "result", "fresh", "freshbytes", "cases", "callback", "ghostset", "neg":
				cl := &Clause{kind: kw, src: rest}
				if strings.HasPrefix(rest, "[") {
					i := strings.Index(rest, "]")
					cl.tags = strings.Fields(strings.ReplaceAll(rest[1:i], ",", " "))
					rest = strings.TrimSpace(rest[i+1:])
				}
				switch kw {
				case "requires", "ensures":
					if i := strings.Index(rest, ": "); i > 0 && isIdent(rest[:i]) {
						cl.name = rest[:i]
						rest = rest[i+2:]
					}
					cl.e = parseExpr(rest)
				case "cases":
					cl.e = parseExpr(rest)
				case "modifies":
					cl.es = parseExprs(rest)
				case "let", "result", "freshbytes":
					n, v, _ := strings.Cut(rest, "=")
					cl.name = strings.TrimSpace(n)
					cl.e = parseExpr(v)
				case "ghostset": // ghostset LOC := expr
					l, v, _ := strings.Cut(rest, ":=")
					cl.es = []*Expr{parseExpr(l)}
					cl.e = parseExpr(v)
				case "neg": // neg result if pre-condition: the result lies in engine memory
					n, v, _ := strings.Cut(rest, " if ")
					cl.name = strings.TrimSpace(n)
					if v == "" {
						v = "true"
					}
					cl.e = parseExpr(v)
				case "fresh":
					cl.name = rest
				case "callback":
					cl.name = rest
				case "inv":
					// inv name(?a: T, ?b: T): expr
					i := strings.Index(rest, "(")
					cl.name = strings.TrimSpace(rest[:i])
					if k, n, ok := strings.Cut(cl.name, " "); ok {
						if k != "top" && k != "deep" {
							panic("unknown kind of invariant " + k)
						}
						cl.depth, cl.name = k, n
					}
					d, j := 0, i
					for ; j < len(rest); j++ {
						if rest[j] == '(' {
							d++
						}
						if rest[j] == ')' {
							d--
							if d == 0 {
								break
							}
						}
					}
					for _, m := range splitTop(rest[i+1:j], ",") {
						n, t, _ := strings.Cut(m, ":")
						cl.metas = append(cl.metas, QVar{strings.TrimPrefix(strings.TrimSpace(n), "?"), strings.TrimSpace(t)})
					}
					cl.e = parseExpr(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
				}
				if group != "" {
					sp.groups[group] = append(sp.groups[group], cl)
				} else {
					cur.Clauses = append(cur.Clauses, cl)
				}
			default:
				panic("unknown item " + kw)
			}
		}()
	}
}

func commentAt(l string) int {
	inS := false
	for i := 0; i < len(l); i++ {
		if l[i] == '"' && (i == 0 || l[i-1] != '\\') {
			inS = !inS
		}
		if l[i] == '#' && !inS {
			return i
		}
	}
	return -1
}

func matchOpen(s string) int {
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case ')':
			d++
		case '(':
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic("unbalanced parentheses in " + s)
}

func splitNames(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func isIdent(s string) bool {
	for _, r := range s {
		if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-') {
			return false
		}
	}
	return s != ""
}
