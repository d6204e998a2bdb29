package main

// Parser of contract files (/verif/contracts/*.spec).

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Node struct {
	Op   string // int float str ident sel index slice call unary op, binary op, forall exists ite meta
	Name string
	Args []*Node
	Vars []Param
	Pats [][]*Node
	Line string
	Src  string
}

type Param struct {
	Name string
	Sort string
}

type Split struct {
	Expr *Node
	Vals []int64
	Else bool  // and every other value
	Mod  int64 // residues of the expression, which must be a parameter
}

const elseVal = -1 << 62

// Case: quantified postconditions over Var are proved residue by residue.
type Case struct {
	Var string
	Mod int64
}

type Clause struct {
	E    *Node
	Src  string
	Line string
	Tag  string // optional property tag: "ensures[C02] ..."
}

type Contract struct {
	File     string
	Pkg      string // import path suffix
	Fn       string
	Name     string // Pkg + "." + Fn (+ "[mode]")
	Key      string // matches Exec lookup
	Variant  string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	ModDecl  bool
	Splits   []Split
	Cases    []Case
	Invs     []Clause
	Lets     []Let
	Unroll   int
	Wrap     bool
	NoExt    bool // no extensionality of byte sequences
	Inline   map[string]bool
	Reveal   map[string]bool
	Use      []string
	UseInst  []*Node
	Props    []string
	Mode     Mode
	Trusted  string
	Pure     bool
	Defines  []string // results are these functions of the (scalar) arguments
	Timeout  int
	NoHavoc  bool
	Ghost    []GhostSet
	Fuel     int
	Conc     string
	Calls    []string
	Panics   *Clause
	Hints    []Clause
	Total    bool
	ModeSet  bool
	IsApply  bool
	Apply    []string // parameters of a call of the function value the function returns
	Views    []string // variants of callees' contracts to use
	Invoke   *Node    // a call of a parameter that the callee may make
	InvRes   []string // names of its results
	On       []ConcHook
	CallsAs  string   // contract of the unknown functions it calls
	Begins   []Clause // what holds when it makes it
}

type Let struct {
	Name string
	E    *Node
}
type GhostSet struct {
	Name string
	E    *Node
}

type SpecFn struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Node
	Opaque bool
	Rec    bool
	Macro  bool
	Pkg    string
	Line   string
}

// lemmasOf: every lemma a unit relies on.
func lemmasOf(use []string, inst []*Node) []string {
	out := append([]string{}, use...)
	for _, n := range inst {
		if n.Op == "call" {
			out = append(out, n.Args[0].Name)
		}
	}
	return out
}

// lemmaCycle reports a lemma whose proof relies on itself.
func (db *SpecDB) lemmaCycle() string {
	state := map[string]int{}
	var visit func(n string) string
	visit = func(n string) string {
		if state[n] == 1 {
			return n
		}
		if state[n] == 2 || db.Lemmas[n] == nil {
			return ""
		}
		state[n] = 1
		for _, m := range lemmasOf(db.Lemmas[n].Use, db.Lemmas[n].UseInst) {
			if c := visit(m); c != "" {
				return c
			}
		}
		state[n] = 2
		return ""
	}
	for _, n := range db.LemmaOrd {
		if c := visit(n); c != "" {
			return c
		}
	}
	return ""
}

type Lemma struct {
	Name     string
	Params   []Param
	Requires []Clause
	Ensures  []Clause
	Induct   string
	Props    []string
	Reveal   map[string]bool
	Use      []string
	UseInst  []*Node
	Mode     Mode
	Pats     [][]*Node
	Pkg      string
	Splits   []Split
	Fuel     int
	Line     string
	Timeout  int
	Hints    []Clause
}

type SpecDB struct {
	Contracts map[string][]*Contract // function key -> variants
	ByName    map[string]*Contract
	Ifc       map[string]*Contract // interface method / named func type contracts
	Fns       map[string]*SpecFn
	Lemmas    map[string]*Lemma
	Ghosts    map[string]string // ghost variable -> sort
	Order     []string
	LemmaOrd  []string
	Sorts     map[string]bool
	Protocols map[string]*Protocol
	Assumes   map[string][]string // property -> stated assumptions
}

// ---- lexer ----

type tok struct {
	k string // id num str op eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "::", "..", "<<", ">>", "&&", "||", "==", "!=", "<=", ">=", "&^"}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (isId(s[j]) || s[j] == '.' && j+1 < len(s) && s[j+1] != '.') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c == '?' && i+1 < len(s) && isId(s[i+1]):
			j := i + 1
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, tok{"meta", s[i+1 : j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			q, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", q})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			q, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"num", strconv.Itoa(int(q[0]))})
			i = j + 1
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parserT struct {
	t    []tok
	i    int
	line string
}

func (p *parserT) peek() tok { return p.t[p.i] }
func (p *parserT) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parserT) is(s string) bool {
	return (p.t[p.i].k == "op" || p.t[p.i].k == "id") && p.t[p.i].s == s
}
func (p *parserT) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parserT) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("%s: expected %q, found %q", p.line, s, p.peek().s))
	}
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7, "&^": 7}

func (p *parserT) expr() *Node { return p.binary(1) }

func (p *parserT) binary(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Node
		if t.s == "==>" {
			r = p.binary(pr)
		} else {
			r = p.binary(pr + 1)
		}
		l = &Node{Op: t.s, Args: []*Node{l, r}, Line: p.line}
	}
}

func (p *parserT) unary() *Node {
	switch {
	case p.is("!"):
		p.next()
		return &Node{Op: "!", Args: []*Node{p.unary()}, Line: p.line}
	case p.is("-"):
		p.next()
		return &Node{Op: "neg", Args: []*Node{p.unary()}, Line: p.line}
	case p.is("^"):
		p.next()
		return &Node{Op: "compl", Args: []*Node{p.unary()}, Line: p.line}
	case p.is("*"):
		p.next()
		return &Node{Op: "deref", Args: []*Node{p.unary()}, Line: p.line}
	case p.is("forall"), p.is("exists"):
		op := p.next().s
		n := &Node{Op: op, Line: p.line}
		for {
			nm := p.next().s
			srt := p.sortName()
			n.Vars = append(n.Vars, Param{nm, srt})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var ps []*Node
			for {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			n.Pats = append(n.Pats, ps)
		}
		p.expect("::")
		n.Args = []*Node{p.expr()}
		return n
	case p.is("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return &Node{Op: "ite", Args: []*Node{c, a, b}, Line: p.line}
	case p.is("let"):
		p.next()
		nm := p.next().s
		p.expect("=")
		e := p.expr()
		p.expect("in")
		b := p.expr()
		return &Node{Op: "let", Name: nm, Args: []*Node{e, b}, Line: p.line}
	}
	return p.postfix()
}

func (p *parserT) sortName() string {
	if p.accept("[") {
		i := p.sortName()
		p.expect("]")
		e := p.sortName()
		return "[" + i + "]" + e
	}
	s := ""
	if p.accept("*") {
		s = "*"
	}
	s += p.next().s
	for p.accept(".") {
		s += "." + p.next().s
	}
	return s
}

func (p *parserT) postfix() *Node {
	t := p.next()
	var n *Node
	switch t.k {
	case "num":
		if strings.Contains(t.s, ".") {
			n = &Node{Op: "float", Name: t.s, Line: p.line}
		} else {
			n = &Node{Op: "int", Name: t.s, Line: p.line}
		}
	case "str":
		n = &Node{Op: "str", Name: t.s, Line: p.line}
	case "meta":
		n = &Node{Op: "meta", Name: t.s, Line: p.line}
		if p.is(":") {
			p.next()
			n.Src = p.sortName()
		}
	case "id":
		n = &Node{Op: "ident", Name: t.s, Line: p.line}
	case "op":
		if t.s == "(" {
			n = p.expr()
			p.expect(")")
			break
		}
		fallthrough
	default:
		panic(fmt.Errorf("%s: unexpected %q", p.line, t.s))
	}
	for {
		switch {
		case p.is(".") && p.t[p.i+1].k == "id":
			p.next()
			n = &Node{Op: "sel", Name: p.next().s, Args: []*Node{n}, Line: p.line}
		case p.is("("):
			p.next()
			c := &Node{Op: "call", Args: []*Node{n}, Line: p.line}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			n = c
		case p.is("["):
			p.next()
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				n = &Node{Op: "slice", Args: []*Node{n, nil, hi}, Line: p.line}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Node
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				n = &Node{Op: "slice", Args: []*Node{n, i, hi}, Line: p.line}
				continue
			}
			p.expect("]")
			n = &Node{Op: "index", Args: []*Node{n, i}, Line: p.line}
		default:
			return n
		}
	}
}

func parseExpr(src, line string) (n *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	ts, e := lex(src)
	if e != nil {
		return nil, fmt.Errorf("%s: %v", line, e)
	}
	p := &parserT{t: ts, line: line}
	n = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("%s: trailing %q in %q", line, p.peek().s, src)
	}
	n.Src = strings.Join(strings.Fields(src), " ")
	return n, nil
}

// ---- files ----

var keywords = map[string]bool{"package": true, "contract": true, "ifc": true, "functype": true, "func": true, "opaque": true, "def": true, "lemma": true,
	"requires": true, "ensures": true, "modifies": true, "split": true, "inv": true, "unroll": true, "wrap": true, "inline": true,
	"reveal": true, "use": true, "for": true, "mode": true, "trusted": true, "view": true, "invokes": true, "begins": true, "pure": true, "let": true, "ghost": true, "induct": true,
	"timeout": true, "fuel": true, "set": true, "defines": true, "assume": true, "conc": true, "pattern": true, "hint": true, "sort": true, "cases": true, "noext": true,
	"protocol": true, "shared": true, "holds": true, "rely": true, "guarantee": true, "stable": true, "on": true, "calls": true}

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Contracts: map[string][]*Contract{}, ByName: map[string]*Contract{}, Ifc: map[string]*Contract{}, Fns: map[string]*SpecFn{},
		Lemmas: map[string]*Lemma{}, Ghosts: map[string]string{}, Sorts: map[string]bool{}, Assumes: map[string][]string{}, Protocols: map[string]*Protocol{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, err
		}
	}
	// recursion analysis
	for _, f := range db.Fns {
		f.Rec = db.reaches(f, f.Name, map[string]bool{})
	}
	if c := db.lemmaCycle(); c != "" {
		return nil, fmt.Errorf("lemma %s relies on itself", c)
	}
	return db, nil
}

func (db *SpecDB) reaches(f *SpecFn, target string, seen map[string]bool) bool {
	if f.Body == nil {
		return false
	}
	hit := false
	var w func(n *Node)
	w = func(n *Node) {
		if n == nil {
			return
		}
		if n.Op == "call" && n.Args[0].Op == "ident" {
			nm := n.Args[0].Name
			if nm == target {
				hit = true
			} else if g := db.Fns[nm]; g != nil && !seen[nm] {
				seen[nm] = true
				if db.reaches(g, target, seen) {
					hit = true
				}
			}
		}
		for _, a := range n.Args {
			w(a)
		}
	}
	w(f.Body)
	return hit
}

type rawClause struct{ kw, text, line string }

func (db *SpecDB) loadFile(file string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cls []rawClause
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t["); j >= 0 {
			w = t[:j]
		}
		line := fmt.Sprintf("%s:%d", filepath.Base(file), i+1)
		if keywords[w] {
			cls = append(cls, rawClause{w, strings.TrimSpace(t[len(w):]), line})
			continue
		}
		if len(cls) == 0 {
			return fmt.Errorf("%s: text before any clause", line)
		}
		cls[len(cls)-1].text += " " + t
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	var proto *Protocol
	must := func(n *Node, err error) *Node {
		if err != nil {
			panic(err)
		}
		return n
	}
	for _, c := range cls {
		tag := ""
		text := c.text
		if (c.kw == "ensures" || c.kw == "requires" || c.kw == "inv") && strings.HasPrefix(text, "[") {
			j := strings.Index(text, "]")
			tag = text[1:j]
			text = strings.TrimSpace(text[j+1:])
		}
		switch c.kw {
		case "package":
			pkg = text
			cur, lem = nil, nil
		case "protocol":
			cur, lem = nil, nil
			proto = &Protocol{Name: text, Pkg: pkg, File: c.line}
			db.Protocols[text] = proto
		case "shared":
			for _, part := range splitTop(text) {
				proto.Shared = append(proto.Shared, Clause{E: must(parseExpr(part, c.line)), Src: part, Line: c.line})
			}
		case "holds", "rely", "guarantee", "stable":
			cl := Clause{E: must(parseExpr(text, c.line)), Src: strings.Join(strings.Fields(text), " "), Line: c.line}
			switch c.kw {
			case "holds":
				proto.Holds = append(proto.Holds, cl)
			case "stable":
				proto.Stable = append(proto.Stable, cl)
			case "rely":
				proto.Rely = append(proto.Rely, cl)
			default:
				proto.Guar = append(proto.Guar, cl)
			}
		case "on":
			h := ConcHook{Src: text}
			i := strings.Index(" "+text, " set ") - 1
			f := strings.SplitN(text[:i], " ", 2)
			h.Kind = f[0]
			if len(f) > 1 && strings.TrimSpace(f[1]) != "" {
				h.Loc = must(parseExpr(f[1], c.line))
			}
			r := text[i+5:]
			if j := strings.LastIndex(r, " when "); j >= 0 {
				h.If = must(parseExpr(r[j+6:], c.line))
				r = r[:j]
			}
			j := strings.Index(r, "=")
			h.Ghost = strings.TrimSpace(r[:j])
			h.E = must(parseExpr(r[j+1:], c.line))
			cur.On = append(cur.On, h)
		case "calls":
			cur.CallsAs = text
		case "contract", "ifc", "functype":
			lem = nil
			cur = db.parseHeader(c, pkg)
		case "func", "def", "opaque":
			cur, lem = nil, nil
			db.parseFn(c, pkg)
		case "sort":
			db.Sorts[text] = true
		case "assume":
			f := strings.SplitN(text, " ", 2)
			for _, id := range strings.Split(f[0], ",") {
				db.Assumes[id] = append(db.Assumes[id], f[1])
			}
		case "ghost":
			f := strings.Fields(text)
			db.Ghosts[f[0]] = f[1]
		case "lemma":
			cur = nil
			ts, e := lex(text)
			if e != nil {
				return e
			}
			p := &parserT{t: ts, line: c.line}
			lem = &Lemma{Name: p.next().s, Reveal: map[string]bool{}, Pkg: pkg, Line: c.line}
			p.expect("(")
			lem.Params = p.params()
			db.Lemmas[lem.Name] = lem
			db.LemmaOrd = append(db.LemmaOrd, lem.Name)
		case "requires", "ensures", "modifies", "inv", "hint":
			if text == "nothing" && c.kw == "modifies" {
				cur.ModDecl = true
				continue
			}
			if c.kw == "modifies" {
				for _, part := range splitTop(text) {
					cur.Modifies = append(cur.Modifies, Clause{E: must(parseExpr(part, c.line)), Src: part, Line: c.line})
				}
				cur.ModDecl = true
				continue
			}
			cl := Clause{E: must(parseExpr(text, c.line)), Src: strings.Join(strings.Fields(text), " "), Line: c.line, Tag: tag}
			switch {
			case lem != nil && c.kw == "requires":
				lem.Requires = append(lem.Requires, cl)
			case lem != nil && c.kw == "ensures":
				lem.Ensures = append(lem.Ensures, cl)
			case lem != nil && c.kw == "hint":
				lem.Hints = append(lem.Hints, cl)
			case cur == nil:
				return fmt.Errorf("%s: clause outside a contract", c.line)
			case c.kw == "requires":
				cur.Requires = append(cur.Requires, cl)
			case c.kw == "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case c.kw == "inv":
				cur.Invs = append(cur.Invs, cl)
			case c.kw == "hint":
				cur.Hints = append(cur.Hints, cl)
			}
		case "cases":
			f := strings.Fields(text)
			n, _ := strconv.ParseInt(f[2], 0, 64)
			cur.Cases = append(cur.Cases, Case{f[0], n})
		case "split":
			if f := strings.Fields(text); len(f) == 3 && f[1] == "mod" {
				n, _ := strconv.ParseInt(f[2], 0, 64)
				sp := Split{Expr: must(parseExpr(f[0], c.line)), Mod: n}
				for v := int64(0); v < n; v++ {
					sp.Vals = append(sp.Vals, v)
				}
				if lem != nil {
					lem.Splits = append(lem.Splits, sp)
				} else {
					cur.Splits = append(cur.Splits, sp)
				}
				continue
			}
			i := strings.LastIndex(text, " in ")
			sp := Split{Expr: must(parseExpr(text[:i], c.line))}
			rg := strings.TrimSpace(text[i+4:])
			if strings.HasSuffix(rg, " else") {
				rg = strings.TrimSuffix(rg, " else")
				sp.Else = true
			}
			for _, part := range strings.Split(rg, ",") {
				part = strings.TrimSpace(part)
				if j := strings.Index(part, ".."); j >= 0 {
					lo, _ := strconv.ParseInt(strings.TrimSpace(part[:j]), 0, 64)
					hi, _ := strconv.ParseInt(strings.TrimSpace(part[j+2:]), 0, 64)
					for v := lo; v <= hi; v++ {
						sp.Vals = append(sp.Vals, v)
					}
				} else {
					v, e := strconv.ParseInt(part, 0, 64)
					if e != nil {
						return fmt.Errorf("%s: split values", c.line)
					}
					sp.Vals = append(sp.Vals, v)
				}
			}
			if sp.Else {
				sp.Vals = append(sp.Vals, elseVal)
			}
			if lem != nil {
				lem.Splits = append(lem.Splits, sp)
			} else {
				cur.Splits = append(cur.Splits, sp)
			}
		case "let":
			i := strings.Index(text, "=")
			cur.Lets = append(cur.Lets, Let{strings.TrimSpace(text[:i]), must(parseExpr(text[i+1:], c.line))})
		case "set":
			i := strings.Index(text, "=")
			cur.Ghost = append(cur.Ghost, GhostSet{strings.TrimSpace(text[:i]), must(parseExpr(text[i+1:], c.line))})
		case "unroll":
			cur.Unroll, _ = strconv.Atoi(text)
		case "timeout":
			n, _ := strconv.Atoi(text)
			if lem != nil {
				lem.Timeout = n
			} else {
				cur.Timeout = n
			}
		case "fuel":
			n, _ := strconv.Atoi(text)
			if lem != nil {
				lem.Fuel = n
			} else {
				cur.Fuel = n
			}
		case "view":
			cur.Views = append(cur.Views, strings.Fields(text)...)
		case "invokes":
			i := strings.LastIndex(text, "(")
			cur.Invoke = must(parseExpr(text[:i], c.line))
			cur.InvRes = strings.Fields(strings.Trim(strings.ReplaceAll(text[i:], ",", " "), "() "))
		case "begins":
			cur.Begins = append(cur.Begins, Clause{E: must(parseExpr(text, c.line)), Src: text, Line: c.line})
		case "noext":
			cur.NoExt = true
		case "wrap":
			cur.Wrap = true
		case "defines":
			cur.Defines = strings.Fields(strings.ReplaceAll(text, ",", " "))
			cur.Pure, cur.ModDecl = true, true
		case "pure":
			cur.Pure = true
			cur.ModDecl = true
		case "conc":
			cur.Conc = text
		case "inline":
			for _, f := range strings.Fields(strings.ReplaceAll(text, ",", " ")) {
				cur.Inline[f] = true
			}
		case "reveal":
			for _, f := range strings.Fields(strings.ReplaceAll(text, ",", " ")) {
				if lem != nil {
					lem.Reveal[f] = true
				} else {
					cur.Reveal[f] = true
				}
			}
		case "use":
			if i := strings.IndexByte(text, '('); i >= 0 { // an instance
				e, err := parseExpr(text, c.line)
				if err != nil {
					return err
				}
				if lem != nil {
					lem.UseInst = append(lem.UseInst, e)
				} else {
					cur.UseInst = append(cur.UseInst, e)
				}
				continue
			}
			fs := strings.Fields(strings.ReplaceAll(text, ",", " "))
			if lem != nil {
				lem.Use = append(lem.Use, fs...)
			} else {
				cur.Use = append(cur.Use, fs...)
			}
		case "for":
			fs := strings.Fields(strings.ReplaceAll(text, ",", " "))
			if lem != nil {
				lem.Props = append(lem.Props, fs...)
			} else {
				cur.Props = append(cur.Props, fs...)
			}
		case "mode":
			for _, m := range strings.Fields(text) {
				var md *Mode
				if lem != nil {
					md = &lem.Mode
				} else {
					md = &cur.Mode
				}
				switch m {
				case "u64int":
					md.U64Int = true
				case "real":
					md.Real = true
				default:
					return fmt.Errorf("%s: mode %s", c.line, m)
				}
			}
		case "trusted":
			cur.Trusted = text
			if text == "" {
				cur.Trusted = "assumed"
			}
		case "induct":
			lem.Induct = text
		case "pattern":
			var ps []*Node
			for _, part := range splitTop(text) {
				ps = append(ps, must(parseExpr(part, c.line)))
			}
			lem.Pats = append(lem.Pats, ps)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

func (p *parserT) params() []Param {
	var out []Param
	for !p.is(")") {
		nm := p.next().s
		srt := ""
		if !p.is(",") && !p.is(")") {
			srt = p.sortName()
		}
		out = append(out, Param{nm, srt})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// parseHeader: NAME(params) (results), NAME is F, (T).M, (*T).M, or for ifc/functype a qualified name.
func (db *SpecDB) parseHeader(c rawClause, pkg string) *Contract {
	ct := &Contract{File: c.line, Pkg: pkg, Inline: map[string]bool{}, Reveal: map[string]bool{}}
	text := c.text
	if strings.HasPrefix(text, "[") {
		j := strings.Index(text, "]")
		ct.Variant = text[1:j]
		text = strings.TrimSpace(text[j+1:])
		if ct.Variant == "real" {
			ct.Mode.Real = true
		}
	}
	// function name
	var name string
	rest := text
	if strings.HasPrefix(text, "(") {
		j := strings.Index(text, ")")
		k := strings.Index(text[j:], "(") + j
		name = strings.TrimSpace(text[:k])
		rest = text[k:]
	} else {
		k := strings.Index(text, "(")
		name = strings.TrimSpace(text[:k])
		rest = text[k:]
	}
	ct.Fn = name
	ts, err := lex(rest)
	if err != nil {
		panic(err)
	}
	p := &parserT{t: ts, line: c.line}
	p.expect("(")
	for _, a := range p.params() {
		ct.Params = append(ct.Params, a.Name)
	}
	if p.accept("then") {
		p.expect("(")
		ct.IsApply = true
		for _, a := range p.params() {
			ct.Apply = append(ct.Apply, a.Name)
		}
	}
	if p.accept("(") {
		for _, a := range p.params() {
			ct.Results = append(ct.Results, a.Name)
		}
	}
	ct.Name = pkg + "." + name
	if ct.IsApply {
		ct.Name += "()"
	}
	if ct.Variant != "" {
		ct.Name += "[" + ct.Variant + "]"
	}
	if c.kw == "contract" {
		ct.Key = pkg + "." + name
		db.Contracts[ct.Key] = append(db.Contracts[ct.Key], ct)
		db.ByName[ct.Name] = ct
		db.Order = append(db.Order, ct.Name)
	} else {
		ct.Key = name
		ct.Name = name
		db.Ifc[name] = ct
	}
	return ct
}

func (db *SpecDB) parseFn(c rawClause, pkg string) {
	ts, err := lex(c.text)
	if err != nil {
		panic(err)
	}
	p := &parserT{t: ts, line: c.line}
	f := &SpecFn{Pkg: pkg, Line: c.line}
	switch c.kw {
	case "opaque":
		p.expect("func")
		f.Opaque = true
	case "def":
		f.Macro = true
	}
	f.Name = p.next().s
	if p.accept("(") {
		f.Params = p.params()
	}
	if !p.is("=") && p.peek().k != "eof" {
		f.Ret = p.sortName()
	}
	if p.accept("=") {
		f.Body = p.expr()
	}
	if p.peek().k != "eof" {
		panic(fmt.Errorf("%s: trailing %q", c.line, p.peek().s))
	}
	db.Fns[f.Name] = f
}
