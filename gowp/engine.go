package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	dir       string
	prog      *ssa.Program
	pkgs      []*packages.Package
	repo      map[*types.Package]bool
	byName    map[string]*ssa.Function
	pkgByName map[string]*types.Package
	specs     *Specs
	prop      string
	panicTags bool
	cellFns   map[string]*Val
	touchMemo map[*ssa.Function]map[string]bool
	fset      *token.FileSet
	verbose   bool
}

const modPath = "github.com/rom1mouret/ml-essentials/"

func newEngine(dir string) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: dir, Fset: fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	eng := &Engine{dir: dir, prog: prog, pkgs: pkgs, repo: map[*types.Package]bool{}, byName: map[string]*ssa.Function{}, fset: fset,
		pkgByName: map[string]*types.Package{}, cellFns: map[string]*Val{}, touchMemo: map[*ssa.Function]map[string]bool{}}
	for _, p := range prog.AllPackages() {
		if eng.pkgByName[p.Pkg.Name()] == nil || strings.HasPrefix(p.Pkg.Path(), modPath) {
			eng.pkgByName[p.Pkg.Name()] = p.Pkg
		}
	}
	for _, p := range spkgs {
		if p != nil {
			eng.repo[p.Pkg] = true
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && eng.inRepo(fn) && fn.Synthetic == "" {
			eng.byName[eng.fnName(fn)] = fn
		}
	}
	// methods not reachable from AllFunctions roots
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				eng.addFn(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						eng.addFn(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return eng, nil
}

func (eng *Engine) addFn(fn *ssa.Function) {
	if fn == nil || fn.Blocks == nil || fn.Synthetic != "" || !eng.inRepo(fn) {
		return
	}
	eng.byName[eng.fnName(fn)] = fn
	for _, a := range fn.AnonFuncs {
		eng.addFn(a)
	}
}

func (eng *Engine) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return eng.repo[f.Pkg.Pkg]
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return eng.repo[o.Pkg()]
		}
	}
	return false
}

func (eng *Engine) fnName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return eng.fnName(p) + n[i:]
		}
		return eng.fnName(p) + "$" + n
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		s := typeKey(t)
		if strings.HasPrefix(s, "*") {
			i := strings.Index(s, ".")
			return s[1:i] + ".(*" + s[i+1:] + ")." + fn.Name()
		}
		return s + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (eng *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	x := eng.fset.Position(p)
	r, err := filepath.Rel(eng.dir, x.Filename)
	if err != nil {
		r = x.Filename
	}
	return fmt.Sprintf("%s:%d", r, x.Line)
}

func (eng *Engine) contract(name string) *Contract {
	c := eng.specs.cons[name]
	if c == nil {
		return nil
	}
	if !c.Trusted && !c.Inline && !eng.hasUse(c) {
		// no clause concerns the property under check: inline the body instead,
		// unless the contract says otherwise
		return c
	}
	return c
}
func (eng *Engine) hasUse(c *Contract) bool { return true }

func (eng *Engine) useClause(c *Clause) bool {
	if len(c.tags) == 0 || eng.prop == "" {
		return true
	}
	for _, t := range c.tags {
		if t == eng.prop || t == "assume" {
			return true
		}
	}
	return false
}

func (eng *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	sel := eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return eng.prog.MethodValue(sel)
}

func (eng *Engine) lookupConst(fn *ssa.Function, n string) *types.Const {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			if c, ok := f.Pkg.Pkg.Scope().Lookup(n).(*types.Const); ok {
				return c
			}
		}
	}
	return nil
}

func (eng *Engine) parseType(s string) (types.Type, error) {
	x, err := parseE(s)
	if err != nil {
		return nil, err
	}
	return eng.parseTypeExpr(x)
}
func (eng *Engine) parseTypeExpr(x ast.Expr) (types.Type, error) {
	switch n := x.(type) {
	case *ast.Ident:
		if n.Name == "any" {
			return types.NewInterfaceType(nil, nil), nil
		}
		if o := types.Universe.Lookup(n.Name); o != nil {
			return o.Type(), nil
		}
	case *ast.StarExpr:
		t, err := eng.parseTypeExpr(n.X)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ArrayType:
		t, err := eng.parseTypeExpr(n.Elt)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case *ast.MapType:
		k, err := eng.parseTypeExpr(n.Key)
		if err != nil {
			return nil, err
		}
		v, err := eng.parseTypeExpr(n.Value)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil), nil
	case *ast.SelectorExpr:
		if p, ok := n.X.(*ast.Ident); ok {
			if pk := eng.pkgByName[p.Name]; pk != nil {
				if o := pk.Scope().Lookup(n.Sel.Name); o != nil {
					return o.Type(), nil
				}
			}
		}
	case *ast.ParenExpr:
		return eng.parseTypeExpr(n.X)
	}
	return nil, fmt.Errorf("unknown type %s", types.ExprString(x))
}

// ---------------------------------------------------------------- static footprint
func (eng *Engine) touchedFn(fn *ssa.Function) map[string]bool {
	if m, ok := eng.touchMemo[fn]; ok {
		return m
	}
	m := map[string]bool{}
	eng.touchMemo[fn] = m
	// fixpoint over the call graph (recursion handled by iterating)
	for {
		n := len(m)
		eng.scan(fn, nil, m)
		if len(m) == n {
			break
		}
	}
	return m
}

func (eng *Engine) touchedBlocks(fn *ssa.Function, bs map[*ssa.BasicBlock]bool) map[string]bool {
	m := map[string]bool{}
	eng.scan(fn, bs, m)
	return m
}

func addAll(m map[string]bool, ks []string) {
	for _, k := range ks {
		m[k] = true
	}
}

func ptrHeaps(addr ssa.Value) []string {
	// heaps written by a store of the whole pointee through addr
	el := addr.Type().Underlying().(*types.Pointer).Elem()
	var path []string
	v := addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			path = append([]string{structFields(st)[x.Field].name}, path...)
			v = x.X
			continue
		case *ssa.IndexAddr:
			var owner types.Type
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				owner = pt.Elem().Underlying().(*types.Array).Elem()
			} else {
				owner = x.X.Type().Underlying().(*types.Slice).Elem()
			}
			var out []string
			for _, l := range leavesOf(el) {
				out = append(out, regElem(owner, Leaf{append(append([]string{}, path...), l.path...), l.sort, l.typ}))
			}
			return out
		}
		break
	}
	if len(path) > 0 {
		owner := v.Type().Underlying().(*types.Pointer).Elem()
		var out []string
		for _, l := range leavesOf(el) {
			out = append(out, regField(owner, append(append([]string{}, path...), l.path...), l))
		}
		return out
	}
	if _, ok := el.Underlying().(*types.Signature); ok {
		return nil
	}
	return objectHeaps(el)
}

func (eng *Engine) scan(fn *ssa.Function, bs map[*ssa.BasicBlock]bool, m map[string]bool) {
	if con := eng.specs.cons[eng.fnName(fn)]; con != nil && bs == nil {
		for _, s := range con.Sets {
			if sel, ok := s.lhs.(*ast.SelectorExpr); ok {
				for st, gs := range ghostFields {
					for _, g := range gs {
						if g.name == sel.Sel.Name {
							k := "F:" + st + "." + g.name
							regHeap(k, arr(SInt, sortOf(g.typ)), g.typ)
							m[k] = true
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if bs != nil && !bs[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Alloc:
				el := x.Type().Underlying().(*types.Pointer).Elem()
				if _, ok := el.Underlying().(*types.Signature); !ok {
					addAll(m, objectHeaps(el))
				}
			case *ssa.MakeSlice:
				addAll(m, elemHeaps(x.Type().Underlying().(*types.Slice).Elem()))
			case *ssa.MakeMap:
				addAll(m, reachHeaps(x.Type()))
			case *ssa.MapUpdate:
				addAll(m, reachHeaps(x.Map.Type()))
			case *ssa.MakeChan:
				addAll(m, chanHeaps(x.Type()))
			case *ssa.Send:
				addAll(m, chanHeaps(x.Chan.Type()))
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					addAll(m, chanHeaps(x.X.Type()))
				}
			case *ssa.Store:
				addAll(m, ptrHeaps(x.Addr))
			case *ssa.Convert:
				if s, ok := x.Type().Underlying().(*types.Slice); ok {
					addAll(m, elemHeaps(s.Elem()))
				}
			case *ssa.MakeClosure:
				addAll2(m, eng.touchedFn(x.Fn.(*ssa.Function)))
			case *ssa.Call:
				eng.scanCall(&x.Call, m)
			case *ssa.Defer:
				eng.scanCall(&x.Call, m)
			case *ssa.Go:
				eng.scanCall(&x.Call, m)
			}
		}
	}
}
func addAll2(m, n map[string]bool) {
	for k := range n {
		m[k] = true
	}
}
func chanHeaps(t types.Type) []string {
	bufs, _, h, tl, c, x := regChan(t.Underlying().(*types.Chan))
	return append(append([]string{}, bufs...), h, tl, c, x)
}

func (eng *Engine) scanCall(c *ssa.CallCommon, m map[string]bool) {
	for _, a := range c.Args {
		switch a.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			addAll(m, ptrHeaps(a))
		}
		if fn, ok := a.(*ssa.Function); ok && fn.Blocks != nil {
			addAll2(m, eng.touchedFn(fn))
		}
	}
	if c.IsInvoke() {
		for _, fn := range eng.byName {
			if fn.Signature.Recv() != nil && fn.Name() == c.Method.Name() {
				if types.Implements(fn.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
					addAll2(m, eng.touchedFn(fn))
				}
			}
		}
		eng.sigHeaps(c.Signature(), m, eng.specs.cons[typeKey(c.Value.Type())+"."+c.Method.Name()])
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		switch f.Name() {
		case "append", "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				addAll(m, elemHeaps(s.Elem()))
			}
		case "delete":
			addAll(m, reachHeaps(c.Args[0].Type()))
		case "close":
			addAll(m, chanHeaps(c.Args[0].Type()))
		}
	case *ssa.Function:
		if f.Blocks != nil && (eng.inRepo(f) || f.Synthetic != "") {
			addAll2(m, eng.touchedFn(f))
			return
		}
		eng.sigHeaps(f.Signature, m, eng.specs.cons[eng.fnName(f)])
	}
}

// heaps possibly touched by a trusted function, from its signature
func (eng *Engine) sigHeaps(sig *types.Signature, m map[string]bool, con *Contract) {
	for i := 0; i < sig.Results().Len(); i++ {
		addAll(m, reachHeaps(sig.Results().At(i).Type()))
	}
	if con == nil || len(con.Modifies) == 0 && len(con.Sets) == 0 {
		return
	}
	for i := 0; i < sig.Params().Len(); i++ {
		addAll(m, reachHeaps(sig.Params().At(i).Type()))
	}
	if r := sig.Recv(); r != nil {
		addAll(m, reachHeaps(r.Type()))
	}
	for _, s := range con.Sets {
		if sel, ok := s.lhs.(*ast.SelectorExpr); ok {
			for st, gs := range ghostFields {
				for _, g := range gs {
					if g.name == sel.Sel.Name {
						k := "F:" + st + "." + g.name
						regHeap(k, arr(SInt, sortOf(g.typ)), g.typ)
						m[k] = true
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- verification of one function
type FnResult struct {
	Name       string
	Obls       []*OblResult
	Err        string
	Candidates int // invariants found automatically
	Inlined    []string
	Contracts  []string
	Externs    []string
	Notes      []string
	Vacuous    string
	Time       float64
	SolverTime float64
	Rounds     int
}

type OblResult struct {
	*Obl
	Status   string // proved, failed, unknown
	Solver   string
	Time     float64
	Query    string
	SubGoals []string
}

func (eng *Engine) runExec(fn *ssa.Function, con *Contract, loops map[string]*loopInfo) (e *Exec, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("unsupported: %s", string(x))
			case specErr:
				err = fmt.Errorf("specification: %s", string(x))
			default:
				if os.Getenv("GOWP_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal error: %v", r)
			}
		}
	}()
	eng.cellFns = map[string]*Val{}
	e = &Exec{eng: eng, fn: fn, con: con, loops: loops, nfresh: map[string]int{}, closed: map[[2]int]bool{},
		usedContracts: map[string]bool{}, usedExterns: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}, oblCount: map[string]int{}}
	a0 := Sym("alloc0", SInt)
	st := &State{heap: map[string]*Term{}, alloc: a0}
	e.entry = st.clone()
	e.assume(True(), Le(Int(1), a0))
	f := &Frame{fn: fn, env: map[ssa.Value]*Val{}, con: con}
	e.top = f
	names := fnParamNames(fn)
	for i, p := range fn.Params {
		v := e.freshVal("p!"+names[i], p.Type())
		e.closedVal(True(), v, a0)
		f.env[p] = v
		f.params = append(f.params, v)
	}
	for _, p := range fn.FreeVars {
		v := e.freshVal("fv!"+p.Name(), p.Type())
		e.closedVal(True(), v, a0)
		f.env[p] = v
	}
	f.entry = e.entry
	ev := e.entryEval()
	for _, p := range fn.FreeVars {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			ev.vars[p.Name()] = e.loadPtr(e.ptrOf(f.env[p], p.Type()), e.entry)
		}
	}
	for _, cl := range con.Requires {
		if eng.useClause(cl) {
			e.assume(True(), ev.boolTerm(cl.expr))
		}
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.assume(True(), Le(Int(1), f.params[0].t))
		}
	}
	e.modset = e.modLocs(con, ev)
	g, end, vals := e.execBody(f, True(), st)
	e.retReach = g
	// ghost updates
	end = end.clone()
	xev := e.entryEval()
	xev.st, xev.old = end, e.entry
	xev.setResults(fn.Signature, vals)
	for _, cl := range con.Sets {
		sel := cl.lhs.(*ast.SelectorExpr)
		base := xev.expr(sel.X)
		v := xev.expr(cl.expr)
		p := xev.fieldPtr(base, sel.Sel.Name)
		e.storePtr(p, end, v)
	}
	xev.st = end
	for _, cl := range con.Ensures {
		if !eng.useClause(cl) {
			continue
		}
		if !strings.Contains(cl.text, "existsrow") {
			e.oblige("ensures", cl.text, "", g, xev.boolTerm(cl.expr), cl.tags)
			continue
		}
		// one alternative goal per witness
		var ws []*Val
		it := types.Typ[types.Int]
		for i := len(e.skolRows) - 1; i >= 0; i-- {
			ws = append(ws, &Val{T: types.NewSlice(it), t: e.skolRows[i]})
		}
		for i := len(e.intVals) - 1; i >= 0; i-- {
			v := e.intVals[i]
			k := regElem(it, Leaf{nil, SInt, it})
			ws = append(ws, &Val{T: v.T, t: Select(end.get(k), SRef(v.t)), off: SOff(v.t)})
		}
		var alts []*Term
		seen := map[int]bool{}
		for _, w := range ws {
			w := w
			xev.wit = func(string, types.Type) *Val { return w }
			t := xev.boolTerm(cl.expr)
			if !seen[t.id] {
				seen[t.id] = true
				alts = append(alts, t)
			}
		}
		if len(alts) == 0 {
			alts = []*Term{False()}
		}
		e.oblige("ensures", cl.text, "", g, alts[0], cl.tags)
		if n := len(e.obls); n > 0 && e.obls[n-1].goal == alts[0] {
			e.obls[n-1].alts = alts[1:]
		}
	}
	xev.wit = nil
	// frame
	var ks []string
	for k := range end.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		so := heapSorts[k]
		if !strings.HasPrefix(so, "(Array Int") || end.heap[k] == e.entry.get(k) {
			continue
		}
		e.oblige("frame", "modifies only what is declared: "+k, "", g, e.frameFormula(k, end), nil)
	}
	return e, nil
}

func (eng *Engine) verifyFn(name string, sol *Solver) *FnResult {
	res := &FnResult{Name: name}
	t0 := time.Now()
	defer func() { res.Time = time.Since(t0).Seconds() }()
	con := eng.specs.cons[name]
	fn := eng.byName[name]
	if fn == nil {
		res.Err = "function not found in /repo"
		return res
	}
	P = newPool()
	loops := map[string]*loopInfo{}
	e, err := eng.runExec(fn, con, loops)
	if err != nil {
		res.Err = err.Error()
		return res
	}
	var cands []*Obl
	for round := 0; ; round++ {
		for _, l := range loops {
			l.seen = true
		}
		if len(loops) > 0 {
			e, err = eng.runExec(fn, con, loops)
			if err != nil {
				res.Err = err.Error()
				return res
			}
		}
		cands = nil
		for _, o := range e.obls {
			if o.cand != "" {
				cands = append(cands, o)
			}
		}
		res.Rounds = round + 1
		if len(cands) == 0 {
			break
		}
		rs := sol.solveAll(e, cands, true)
		drop := 0
		for i, r := range rs {
			if r.Status != "proved" {
				lk := cands[i].cand
				for key, l := range loops {
					if strings.HasPrefix(lk, key+".") && !l.dropped[lk] {
						l.dropped[lk] = true
						drop++
						if eng.verbose {
							fmt.Printf("    drop candidate %s (%s)\n", cands[i].Name, r.Status)
						}
					}
				}
			}
		}
		if drop == 0 {
			for _, r := range rs {
				res.SolverTime += r.Time
			}
			break
		}
		if round > 25 {
			res.Err = "invariant inference did not stabilise"
			return res
		}
	}
	res.Candidates = len(cands)
	var real []*Obl
	for _, o := range e.obls {
		if o.cand == "" {
			real = append(real, o)
		}
	}
	res.Obls = sol.solveAll(e, real, false)
	for _, r := range res.Obls {
		res.SolverTime += r.Time
	}
	res.Vacuous = sol.vacuity(e)
	for k := range e.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range e.usedContracts {
		res.Contracts = append(res.Contracts, k)
	}
	for k := range e.usedExterns {
		res.Externs = append(res.Externs, k)
	}
	for k := range e.notes {
		res.Notes = append(res.Notes, k)
	}
	sort.Strings(res.Notes)
	sort.Strings(res.Inlined)
	sort.Strings(res.Contracts)
	sort.Strings(res.Externs)
	return res
}
