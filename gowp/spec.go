package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	kind string
	text string
	tags []string
	expr ast.Expr
	lhs  ast.Expr // sets
	file string
	line int
	n    int
}

func (c *Clause) id() string { return fmt.Sprintf("%s@%s:%d.%d", c.kind, c.file, c.line, c.n) }
func (c *Clause) hasTag(t string) bool {
	for _, x := range c.tags {
		if x == t {
			return true
		}
	}
	return false
}

type LoopSpec struct {
	sel   string
	Invs  []*Clause
	Cands []*Clause
}
type Contract struct {
	Name     string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Sets     []*Clause
	Panics   []*Clause
	Hints    []*Clause
	Loops    []*LoopSpec
	Props    []string
	Trusted  bool
	Inline   bool
	NoReturn bool
	used     bool
	file     string
	line     int
}

func (c *Contract) short() string {
	i := strings.LastIndex(c.Name, ".")
	return c.Name[i+1:]
}

type Pred struct {
	name   string
	params []string
	expr   ast.Expr
	text   string
}
type UFun struct {
	name string
	args []types.Type
	ret  types.Type
}

type Specs struct {
	cons   map[string]*Contract
	preds  map[string]*Pred
	funs   map[string]*UFun
	axioms []*Clause
	ghosts []string
	files  []string
}

var kinds = []string{"floats", "ints", "bools", "objects"}

var keywords = map[string]bool{"requires": true, "ensures": true, "modifies": true, "sets": true, "panics": true, "loop": true,
	"inv": true, "cand": true, "trusted": true, "inline": true, "noreturn": true, "func": true, "pred": true, "ghost": true, "fun": true, "axiom": true, "hint": true, "props": true}

var kwRe = regexp.MustCompile(`^([a-z]+)(\[[^\]]*\])?(\s+|$)`)

type logical struct {
	kw   string
	tags []string
	text string
	line int
}

func readLogical(path string) ([]logical, error) {
	fh, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer fh.Close()
	var out []logical
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		n++
		l := sc.Text()
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if m := kwRe.FindStringSubmatch(l); m != nil && keywords[m[1]] {
			var tags []string
			if m[2] != "" {
				for _, t := range strings.FieldsFunc(m[2][1:len(m[2])-1], func(r rune) bool { return r == ',' || r == ' ' }) {
					if t != "*" {
						tags = append(tags, t)
					}
				}
			}
			out = append(out, logical{m[1], tags, strings.TrimSpace(l[len(m[0]):]), n})
			continue
		}
		if len(out) == 0 {
			return nil, fmt.Errorf("%s:%d: stray text", path, n)
		}
		out[len(out)-1].text += " " + l
	}
	return out, sc.Err()
}

func expandK(ls []logical) []logical {
	var out []logical
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if l.kw == "loop" && strings.Contains(l.text, "@K") {
			j := i + 1
			for j < len(ls) && (ls[j].kw == "inv" || ls[j].kw == "cand") {
				j++
			}
			for _, k := range kinds {
				for _, x := range ls[i:j] {
					x.text = strings.ReplaceAll(x.text, "@K", k)
					out = append(out, x)
				}
			}
			i = j - 1
			continue
		}
		if strings.Contains(l.text, "@K") {
			for _, k := range kinds {
				x := l
				x.text = strings.ReplaceAll(l.text, "@K", k)
				out = append(out, x)
			}
			continue
		}
		out = append(out, l)
	}
	return out
}

// desugar rewrites "a ==> b" into implies(a, b) and $x into ghost_x.
func desugar(s string) string {
	s = strings.ReplaceAll(s, "$", "ghost_")
	return imp(s)
}
func imp(s string) string {
	// split into bracket groups
	var sb strings.Builder
	depth := 0
	var parts []string // top-level comma-separated
	start := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			inStr = !inStr
		}
		if inStr {
			continue
		}
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, s[start:i])
				start = i + 1
			}
		}
	}
	parts = append(parts, s[start:])
	for i, p := range parts {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(impSeg(p))
	}
	return sb.String()
}
func impSeg(s string) string {
	depth := 0
	for i := 0; i+2 < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], "==>") {
			return "implies(" + impSeg(s[:i]) + "," + impSeg(s[i+3:]) + ")"
		}
	}
	// recurse into groups
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '(' || s[i] == '[' || s[i] == '{' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' || s[j] == '{' {
					d++
				} else if s[j] == ')' || s[j] == ']' || s[j] == '}' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				sb.WriteString(s[i:])
				return sb.String()
			}
			sb.WriteByte(s[i])
			sb.WriteString(imp(s[i+1 : j]))
			sb.WriteByte(s[j])
			i = j
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func parseE(s string) (ast.Expr, error) { return parser.ParseExpr(desugar(s)) }

func loadSpecs(dir string, eng *Engine) (*Specs, error) {
	sp := &Specs{cons: map[string]*Contract{}, preds: map[string]*Pred{}, funs: map[string]*UFun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	sp.files = files
	type later struct {
		l    logical
		file string
	}
	var lfun []later
	for _, fn := range files {
		ls, err := readLogical(fn)
		if err != nil {
			return nil, err
		}
		ls = expandK(ls)
		base := filepath.Base(fn)
		var cur *Contract
		var loop *LoopSpec
		cnt := map[int]int{}
		for _, l := range ls {
			fail := func(err error) error { return fmt.Errorf("%s:%d: %s: %v", fn, l.line, l.text, err) }
			cl := &Clause{kind: l.kw, text: l.text, tags: l.tags, file: base, line: l.line}
			cnt[l.line]++
			cl.n = cnt[l.line]
			switch l.kw {
			case "func":
				cur = &Contract{Name: l.text, file: base, line: l.line}
				loop = nil
				if sp.cons[l.text] != nil {
					// several blocks for one function accumulate
					cur = sp.cons[l.text]
				}
				sp.cons[l.text] = cur
			case "pred":
				i := strings.Index(l.text, "=")
				h := strings.TrimSpace(l.text[:i])
				p := strings.Index(h, "(")
				pr := &Pred{name: desugar(h[:p]), text: l.text}
				for _, a := range strings.Split(strings.TrimSuffix(h[p+1:], ")"), ",") {
					if a = strings.TrimSpace(a); a != "" {
						pr.params = append(pr.params, a)
					}
				}
				ex, err := parseE(l.text[i+1:])
				if err != nil {
					return nil, fail(err)
				}
				pr.expr = ex
				if sp.preds[pr.name] != nil {
					return nil, fail(fmt.Errorf("predicate defined twice"))
				}
				sp.preds[pr.name] = pr
			case "ghost":
				sp.ghosts = append(sp.ghosts, l.text)
			case "fun":
				lfun = append(lfun, later{l, fn})
			case "axiom":
				ex, err := parseE(l.text)
				if err != nil {
					return nil, fail(err)
				}
				cl.expr = ex
				sp.axioms = append(sp.axioms, cl)
			case "props":
				cur.Props = append(cur.Props, strings.FieldsFunc(l.text, func(r rune) bool { return r == ',' || r == ' ' })...)
			case "trusted":
				cur.Trusted = true
			case "inline":
				cur.Inline = true
			case "noreturn":
				cur.NoReturn = true
			case "loop":
				loop = &LoopSpec{sel: l.text}
				cur.Loops = append(cur.Loops, loop)
			case "modifies":
				for i, t := range splitTop(l.text) {
					c2 := *cl
					c2.n = cl.n*100 + i
					ex, err := parseE(t)
					if err != nil {
						return nil, fail(err)
					}
					c2.expr = ex
					c2.text = t
					cur.Modifies = append(cur.Modifies, &c2)
				}
			case "sets":
				i := strings.Index(l.text, "=")
				a, err := parseE(l.text[:i])
				if err != nil {
					return nil, fail(err)
				}
				b, err := parseE(l.text[i+1:])
				if err != nil {
					return nil, fail(err)
				}
				cl.lhs, cl.expr = a, b
				cur.Sets = append(cur.Sets, cl)
			default:
				ex, err := parseE(l.text)
				if err != nil {
					return nil, fail(err)
				}
				cl.expr = ex
				switch l.kw {
				case "requires":
					cur.Requires = append(cur.Requires, cl)
				case "ensures":
					cur.Ensures = append(cur.Ensures, cl)
				case "panics":
					cur.Panics = append(cur.Panics, cl)
				case "hint":
					cur.Hints = append(cur.Hints, cl)
				case "inv":
					loop.Invs = append(loop.Invs, cl)
				case "cand":
					loop.Cands = append(loop.Cands, cl)
				}
			}
		}
	}
	// ghosts
	ghostFields = map[string][]GhostField{}
	for _, g := range sp.ghosts {
		fs := strings.Fields(g) // dataframe.RawData N int
		t, err := eng.parseType(strings.Join(fs[2:], " "))
		if err != nil {
			return nil, err
		}
		ghostFields[fs[0]] = append(ghostFields[fs[0]], GhostField{"ghost_" + fs[1], t})
	}
	for _, x := range lfun {
		h := x.l.text
		p := strings.Index(h, "(")
		pe := matchParen(h, p)
		u := &UFun{name: desugar(h[:p])}
		for _, a := range splitTop(h[p+1 : pe]) {
			if a = strings.TrimSpace(a); a == "" {
				continue
			}
			t, err := eng.parseType(a)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", h, err)
			}
			u.args = append(u.args, t)
		}
		t, err := eng.parseType(strings.TrimSpace(h[pe+1:]))
		if err != nil {
			return nil, fmt.Errorf("%s: %v", h, err)
		}
		u.ret = t
		sp.funs[u.name] = u
	}
	return sp, nil
}

func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s)
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}
