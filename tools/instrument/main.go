// instrument writes, for the simulator build, transformed copies of the
// repository's current Go sources plus an overlay file. The repository itself
// is only read. Usage: instrument REPO SIMDIR OUTDIR
//
// What is transformed: imports of packages that reach outside the process go
// to the simulator's shims; go statements and channel operations go through
// the simulated scheduler; preemption points are inserted between statements;
// package-level variables are registered so that they can be swapped per
// simulated process; package main becomes importable.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{ // import path -> shim dir under verifsim/shim
	"net": "net", "time": "time", "os": "os", "os/exec": "exec", "log": "log", "fmt": "fmt", "sync": "sync",
	"crypto/rand": "crand", "math/rand": "mrand",
	"github.com/dedis/crypto/nist": "nist", "github.com/dedis/crypto/proof": "proof",
}

var fail = func(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off, end int
	text     string
	order    int
}

type file struct {
	path   string // absolute
	src    []byte
	f      *ast.File
	fset   *token.FileSet
	edits  []edit
	p      bool // insert preemption points
	nsel   int
	ngo    int
	reinit string
	vars   []string
	inits  int
}

func (x *file) off(p token.Pos) int { return x.fset.Position(p).Offset }
func (x *file) ins(p token.Pos, text string) {
	o := x.off(p)
	x.edits = append(x.edits, edit{o, o, text, len(x.edits)})
}
func (x *file) rep(a, b token.Pos, text string) {
	x.edits = append(x.edits, edit{x.off(a), x.off(b), text, len(x.edits)})
}

// render applies the edits inside [from,to).
func (x *file) render(from, to int) string {
	var es []edit
	for _, e := range x.edits {
		if e.off >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// pure insertions come before replacements starting at the same place
		pi, pj := es[i].off == es[i].end, es[j].off == es[j].end
		if pi != pj {
			return pi
		}
		return es[i].order < es[j].order
	})
	var sb strings.Builder
	at := from
	for _, e := range es {
		if e.off < at {
			fail("%s: overlapping edits at %d", x.path, e.off)
		}
		sb.Write(x.src[at:e.off])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(x.src[at:to])
	return sb.String()
}

func simpleArg(e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return v.Name == "nil" || v.Name == "true" || v.Name == "false" || (v.Obj != nil && v.Obj.Kind == ast.Con)
	case *ast.UnaryExpr:
		return v.Op == token.SUB && simpleArg(v.X)
	}
	return false
}

func (x *file) goStmt(g *ast.GoStmt) {
	c := g.Call
	x.ngo++
	id := fmt.Sprintf("verif%d", x.ngo)
	x.rep(g.Go, c.Fun.Pos(), "{ "+id+"F := ")
	prev := c.Fun.End()
	names := []string{}
	for i, a := range c.Args {
		n := fmt.Sprintf("%sA%d", id, i)
		if simpleArg(a) {
			names = append(names, string(x.src[x.off(a.Pos()):x.off(a.End())]))
			x.rep(prev, a.End(), "")
		} else {
			names = append(names, n)
			x.rep(prev, a.Pos(), "; "+n+" := ")
		}
		prev = a.End()
	}
	call := strings.Join(names, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	x.rep(prev, c.Rparen+1, "; verifrt.Go(func() { "+id+"F("+call+") }) }")
}

func (x *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		if x.p {
			x.ins(s.Pos(), "verifrt.P(); ")
		}
	}
}

func (x *file) text(n ast.Node) string {
	return string(x.src[x.off(n.Pos()):x.off(n.End())])
}

// selectStmt turns a select into a switch over the operation that went ahead.
func (x *file) selectStmt(v *ast.SelectStmt, skip map[ast.Node]bool) {
	x.nsel++
	var names, inits []string
	def := false
	for i, c := range v.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		skip[cc.Comm] = true
		n := fmt.Sprintf("verifS%d_%d", x.nsel, i)
		recv := func(e ast.Expr) string {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			return "verifrt.RecvCase(" + x.text(e.(*ast.UnaryExpr).X) + ")"
		}
		get := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "verifrt.To("+x.text(s.Chan)+").Of("+x.text(s.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, recv(s.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(s.Rhs[0]))
			var l []string
			for _, e := range s.Lhs {
				l = append(l, x.text(e))
			}
			get = " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + n + ".Val()"
			if len(l) == 2 {
				get = strings.TrimSuffix(get, "()") + "2()"
			}
			get += ";"
		}
		x.rep(cc.Comm.Pos(), cc.Comm.End(), strconv.Itoa(len(names)))
		if get != "" {
			x.ins(cc.Colon+1, get)
		}
		names = append(names, n)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	head += "verifrt.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") "
	x.rep(v.Select, v.Body.Lbrace, head)
	if !def {
		x.ins(v.Body.Rbrace, "default: panic(0) ")
	}
}

// isChan tells whether an expression is a channel, as far as its declaration
// in the same file says so.
func isChan(e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.ParenExpr:
		return isChan(v.X)
	case *ast.CallExpr:
		if f, ok := v.Fun.(*ast.Ident); ok && f.Name == "make" && len(v.Args) > 0 {
			_, ok := v.Args[0].(*ast.ChanType)
			return ok
		}
		if f, ok := v.Fun.(*ast.Ident); ok && f.Obj != nil {
			if d, ok := f.Obj.Decl.(*ast.FuncDecl); ok && d.Type.Results.NumFields() == 1 {
				_, ok := d.Type.Results.List[0].Type.(*ast.ChanType)
				return ok
			}
		}
		if f, ok := v.Fun.(*ast.SelectorExpr); ok {
			if p, ok := f.X.(*ast.Ident); ok && p.Name == "time" && (f.Sel.Name == "Tick" || f.Sel.Name == "After") {
				return true
			}
		}
	case *ast.SelectorExpr:
		return v.Sel.Name == "C" || chanFields[v.Sel.Name]
	case *ast.Ident:
		if v.Obj == nil {
			return chanFields[v.Name]
		}
		switch d := v.Obj.Decl.(type) {
		case *ast.Field:
			_, ok := d.Type.(*ast.ChanType)
			return ok
		case *ast.ValueSpec:
			if _, ok := d.Type.(*ast.ChanType); ok {
				return true
			}
			for i, n := range d.Names {
				if n.Name == v.Name && i < len(d.Values) {
					return isChan(d.Values[i])
				}
			}
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if n, ok := l.(*ast.Ident); ok && n.Name == v.Name && len(d.Lhs) == len(d.Rhs) {
					return isChan(d.Rhs[i])
				}
			}
		}
	}
	return false
}

// chanFields holds the names of struct fields and package variables that are
// channels wherever they occur.
var chanFields = map[string]bool{}

func (x *file) chanNames(yes, no map[string]bool) {
	note := func(names []*ast.Ident, t ast.Expr, is bool) {
		for _, n := range names {
			if _, ok := t.(*ast.ChanType); ok || is {
				yes[n.Name] = true
			} else {
				no[n.Name] = true
			}
		}
	}
	ast.Inspect(x.f, func(n ast.Node) bool {
		if st, ok := n.(*ast.StructType); ok {
			for _, f := range st.Fields.List {
				note(f.Names, f.Type, false)
			}
		}
		return true
	})
	for _, d := range x.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, n := range v.Names {
					note([]*ast.Ident{n}, v.Type, i < len(v.Values) && isChan(v.Values[i]))
				}
			}
		}
	}
}

func (x *file) walk() {
	skip := map[ast.Node]bool{}
	two := map[ast.Node]bool{}
	ast.Inspect(x.f, func(n ast.Node) bool {
		if n != nil && skip[n] {
			return false
		}
		switch v := n.(type) {
		case *ast.SelectStmt:
			x.selectStmt(v, skip)
		case *ast.CallExpr:
			if f, ok := v.Fun.(*ast.Ident); ok && f.Name == "close" && f.Obj == nil && len(v.Args) == 1 {
				x.rep(f.Pos(), f.End(), "verifrt.Close")
			}
		case *ast.RangeStmt:
			if isChan(v.X) && v.Value == nil {
				x.nsel++
				c, ok := fmt.Sprintf("verifR%d", x.nsel), fmt.Sprintf("verifO%d", x.nsel)
				// for k := range c {  =>  for verifR := c; ; { k, verifO := Recv2(verifR); if !verifO { break };
				x.rep(v.For, v.X.Pos(), "for "+c+" := ")
				x.ins(v.X.End(), "; ; ")
				switch {
				case v.Key == nil:
					x.ins(v.Body.Lbrace+1, " if _, "+ok+" := verifrt.Recv2("+c+"); !"+ok+" { break }; ")
				case v.Tok == token.DEFINE:
					x.ins(v.Body.Lbrace+1, " "+x.text(v.Key)+", "+ok+" := verifrt.Recv2("+c+"); if !"+ok+" { break }; ")
				default:
					x.ins(v.Body.Lbrace+1, " var "+ok+" bool; "+x.text(v.Key)+", "+ok+" = verifrt.Recv2("+c+"); if !"+ok+" { break }; ")
				}
			}
		case *ast.CommClause:
			x.stmts(v.Body)
		case *ast.CaseClause:
			x.stmts(v.Body)
		case *ast.BlockStmt:
			// bodies of switch/select hold clauses, not statements
			if len(v.List) > 0 {
				switch v.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			x.stmts(v.List)
		case *ast.ForStmt:
			if len(v.Body.List) == 0 {
				x.ins(v.Body.Lbrace+1, " verifrt.P(); ")
			}
		case *ast.GoStmt:
			x.goStmt(v)
		case *ast.AssignStmt:
			if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
				two[v.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(v.Names) == 2 && len(v.Values) == 1 {
				two[v.Values[0]] = true
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				f := "verifrt.Recv("
				if two[v] {
					f = "verifrt.Recv2("
				}
				x.rep(v.OpPos, v.OpPos+2, f)
				x.ins(v.End(), ")")
			}
		case *ast.SendStmt:
			x.ins(v.Chan.Pos(), "verifrt.To(")
			x.rep(v.Chan.End(), v.Value.Pos(), ").Send(")
			x.ins(v.Value.End(), ")")
		}
		return true
	})
}

func (x *file) imports() {
	for _, im := range x.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		s, ok := shims[p]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = filepath.Base(p) + " "
		} else if im.Name.Name == "_" {
			continue
		}
		x.rep(im.Path.Pos(), im.Path.End(), name+strconv.Quote("verifsim/shim/"+s))
	}
}

func (x *file) globals(idx int) {
	var re strings.Builder
	type spec struct{ s *ast.ValueSpec }
	for _, d := range x.f.Decls {
		switch v := d.(type) {
		case *ast.GenDecl:
			if v.Tok != token.VAR {
				continue
			}
			for _, sp := range v.Specs {
				s := sp.(*ast.ValueSpec)
				var names []string
				for _, n := range s.Names {
					names = append(names, n.Name)
					if n.Name != "_" {
						x.vars = append(x.vars, n.Name)
					}
				}
				if len(s.Values) == 0 {
					continue
				}
				if len(s.Values) == len(s.Names) {
					for i, n := range names {
						re.WriteString("\t" + n + " = " + x.render(x.off(s.Values[i].Pos()), x.off(s.Values[i].End())) + "\n")
					}
				} else {
					re.WriteString("\t" + strings.Join(names, ", ") + " = " + x.render(x.off(s.Values[0].Pos()), x.off(s.Values[0].End())) + "\n")
				}
			}
		case *ast.FuncDecl:
			if v.Recv == nil && v.Name.Name == "init" {
				x.rep(v.Name.Pos(), v.Name.End(), fmt.Sprintf("verifInit_%d_%d", idx, x.inits))
				x.inits++
			}
		}
	}
	x.reinit = re.String()
}

type pkg struct {
	dir, path, name string
	files           []*file
	imports         map[string]bool
}

func loadPkg(dir, path string, points bool) *pkg {
	ents, err := os.ReadDir(dir)
	if err != nil {
		fail("%v", err)
	}
	p := &pkg{dir: dir, path: path, imports: map[string]bool{}}
	ctx := build.Default
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		full := filepath.Join(dir, n)
		src, err := os.ReadFile(full)
		if err != nil {
			fail("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		if err != nil {
			fail("parse: %v", err)
		}
		x := &file{path: full, src: src, f: f, fset: fset, p: points}
		p.name = f.Name.Name
		p.files = append(p.files, x)
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			p.imports[s] = true
		}
	}
	return p
}

// exported top-level names of a package directory
func exported(dir string) (consts, types, vars, funcs []string) {
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		fail("%s: %v", dir, err)
	}
	for _, n := range append(append([]string{}, bp.GoFiles...), bp.CgoFiles...) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			fail("%v", err)
		}
		for _, d := range f.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Recv == nil && v.Name.IsExported() && v.Type.TypeParams == nil {
					funcs = append(funcs, v.Name.Name)
				}
			case *ast.GenDecl:
				for _, sp := range v.Specs {
					switch s := sp.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() && s.TypeParams == nil {
							types = append(types, s.Name.Name)
						}
					case *ast.ValueSpec:
						for _, nm := range s.Names {
							if !nm.IsExported() {
								continue
							}
							if v.Tok == token.CONST {
								consts = append(consts, nm.Name)
							} else {
								vars = append(vars, nm.Name)
							}
						}
					}
				}
			}
		}
	}
	return
}

func aliases(importPath, realDir, shimDir string) string {
	own := map[string]bool{}
	pkgName := ""
	ents, _ := os.ReadDir(shimDir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasPrefix(e.Name(), "zz_") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(shimDir, e.Name()), nil, 0)
		if err != nil {
			fail("%v", err)
		}
		pkgName = f.Name.Name
		for _, d := range f.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Recv == nil {
					own[v.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range v.Specs {
					switch s := sp.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	c, t, v, f := exported(realDir)
	var sb strings.Builder
	sb.WriteString("package " + pkgName + "\n\nimport verifreal " + strconv.Quote(importPath) + "\n\n")
	done := map[string]bool{}
	put := func(kw string, l []string) {
		sort.Strings(l)
		for _, n := range l {
			if own[n] || done[n] {
				continue
			}
			done[n] = true
			sb.WriteString(kw + " " + n + " = verifreal." + n + "\n")
		}
	}
	put("const", c)
	put("type", t)
	put("var", v)
	put("var", f)
	return sb.String()
}

// mapHooks makes the runtime report every use of a map.
func mapHooks(goroot string, write func(target, rel, text string)) {
	dir := filepath.Join(goroot, "src/internal/runtime/maps")
	n := 0
	for _, f := range []string{"runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			fail("%v", err)
		}
		s := string(b)
		const hook = "	if VerifHook != nil && m != nil {\n		VerifHook(unsafe.Pointer(m), sys.GetCallerPC(), %v)\n	}\n"
		const rd, wr = "	if race.Enabled && m != nil {\n", "	if race.Enabled {\n"
		n += strings.Count(s, rd) + strings.Count(s, wr)
		s = strings.ReplaceAll(s, rd, fmt.Sprintf(hook, false)+rd)
		s = strings.ReplaceAll(s, wr, fmt.Sprintf(hook, true)+wr)
		if f == "runtime.go" {
			s += "\n// VerifHook, when set, sees every use of a map.\nvar VerifHook func(m unsafe.Pointer, pc uintptr, write bool)\n"
		}
		write(filepath.Join(dir, f), "goroot/maps/"+f, s)
	}
	mf := filepath.Join(goroot, "src/runtime/map.go")
	b, err := os.ReadFile(mf)
	if err != nil {
		fail("%v", err)
	}
	s := string(b)
	for _, h := range [][3]string{
		{"func mapdelete(t *abi.MapType, m *maps.Map, key unsafe.Pointer) {\n", "m", "true"},
		{"func mapIterStart(t *abi.MapType, m *maps.Map, it *maps.Iter) {\n", "m", "false"},
		{"func mapIterNext(it *maps.Iter) {\n", "it.Map()", "false"},
		{"func mapclear(t *abi.MapType, m *maps.Map) {\n", "m", "true"},
	} {
		n += strings.Count(s, h[0])
		s = strings.ReplaceAll(s, h[0], h[0]+"	if maps.VerifHook != nil && "+h[1]+" != nil {\n		maps.VerifHook(unsafe.Pointer("+h[1]+"), sys.GetCallerPC(), "+h[2]+")\n	}\n")
	}
	if n != 17 {
		fail("runtime: %d uses of maps found", n)
	}
	s += "\n// VerifSetMapHook sets what sees every use of a map.\nfunc VerifSetMapHook(f func(m unsafe.Pointer, pc uintptr, write bool)) { maps.VerifHook = f }\n" +
		"\n// VerifOnStack tells whether p points into the running goroutine's stack.\nfunc VerifOnStack(p unsafe.Pointer) bool {\n	gp := getg()\n	return uintptr(p) >= gp.stack.lo && uintptr(p) < gp.stack.hi\n}\n"
	write(mf, "goroot/runtime/map.go", s)
}

// followed tells whether the code synchronises only by means the simulator
// sees.
func followed(pkgs []*pkg) bool {
	for _, p := range pkgs {
		if p.imports["sync/atomic"] || p.imports["context"] || p.imports["unsafe"] {
			return false
		}
		for _, x := range p.files {
			ok := true
			for _, im := range x.f.Imports {
				if im.Path.Value == `"sync"` && im.Name != nil {
					ok = false
				}
			}
			ast.Inspect(x.f, func(n ast.Node) bool {
				if s, is := n.(*ast.SelectorExpr); is {
					if id, is := s.X.(*ast.Ident); is && id.Name == "io" && s.Sel.Name == "Pipe" {
						ok = false
					}
					if id, is := s.X.(*ast.Ident); is && id.Name == "sync" {
						switch s.Sel.Name {
						case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Locker":
						default:
							ok = false
						}
					}
				}
				return true
			})
			if !ok {
				return false
			}
		}
	}
	return true
}

func main() {
	if len(os.Args) != 5 {
		fail("usage: instrument REPO SIMDIR OUTDIR GOMODCACHE")
	}
	repo, simdir, out, modcache := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	goroot := runtime.GOROOT()
	if g := os.Getenv("GOROOT"); g != "" {
		goroot = g
	}
	build.Default.GOROOT = goroot
	modb, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fail("%v", err)
	}
	mm := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(modb)
	if mm == nil {
		fail("no module line")
	}
	module := string(mm[1])
	replace := map[string]string{}
	write := func(target, rel, text string) {
		o := filepath.Join(out, rel)
		os.MkdirAll(filepath.Dir(o), 0o755)
		if old, err := os.ReadFile(o); err != nil || string(old) != text {
			if err := os.WriteFile(o, []byte(text), 0o644); err != nil {
				fail("%v", err)
			}
		}
		replace[target] = o
	}

	// import closure from the command
	todo := []string{module + "/cmd"}
	seen := map[string]bool{}
	var pkgs []*pkg
	for len(todo) > 0 {
		ip := todo[0]
		todo = todo[1:]
		if seen[ip] {
			continue
		}
		seen[ip] = true
		rel := strings.TrimPrefix(strings.TrimPrefix(ip, module), "/")
		points := rel == "cmd" || strings.HasPrefix(rel, "cmd/")
		p := loadPkg(filepath.Join(repo, rel), ip, points)
		pkgs = append(pkgs, p)
		var l []string
		for i := range p.imports {
			if i == module || strings.HasPrefix(i, module+"/") {
				l = append(l, i)
			}
		}
		sort.Strings(l)
		todo = append(todo, l...)
	}
	for k := 0; k < 2; k++ {
		yes, no := map[string]bool{}, map[string]bool{}
		for _, p := range pkgs {
			for _, x := range p.files {
				x.chanNames(yes, no)
			}
		}
		for n := range yes {
			chanFields[n] = !no[n]
		}
	}
	for _, p := range pkgs {
		var reg, inits strings.Builder
		pname := p.name
		for i, x := range p.files {
			if p.name == "main" {
				pname = "cmdmain"
				x.rep(x.f.Name.Pos(), x.f.Name.End(), pname)
				for _, d := range x.f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						x.rep(fd.Name.Pos(), fd.Name.End(), "Main")
					}
				}
			}
			x.imports()
			x.walk()
			x.globals(i)
			x.ins(x.f.Name.End(), "; import verifrt \"verifsim/rt\"")
			text := x.render(0, len(x.src))
			if !strings.Contains(text, "//go:build") {
				text = "//go:build go1.21\n\n" + text
			}
			text += "\nvar _ = verifrt.P\n"
			if x.reinit != "" {
				text += fmt.Sprintf("\nfunc verifReinit_%d() {\n%s}\n", i, x.reinit)
				fmt.Fprintf(&inits, "\tverifrt.RegInit(verifReinit_%d)\n", i)
			}
			for _, v := range x.vars {
				fmt.Fprintf(&reg, "\tverifrt.RegVar(&%s)\n", v)
			}
			rel, _ := filepath.Rel(repo, x.path)
			write(x.path, filepath.Join("src", rel), text)
		}
		for i, x := range p.files {
			for k := 0; k < x.inits; k++ {
				fmt.Fprintf(&inits, "\tverifrt.RegInit(verifInit_%d_%d)\n", i, k)
			}
		}
		if reg.Len()+inits.Len() > 0 {
			rel, _ := filepath.Rel(repo, p.dir)
			g := "//go:build go1.21\n\npackage " + pname + "\n\nimport verifrt \"verifsim/rt\"\n\nfunc init() {\n" + reg.String() + inits.String() + "}\n"
			write(filepath.Join(p.dir, "zz_verif_globals.go"), filepath.Join("src", rel, "zz_verif_globals.go"), g)
		}
	}

	// shim aliases
	for ip, s := range shims {
		dir := filepath.Join(goroot, "src", ip)
		if strings.Contains(ip, ".") {
			m, _ := filepath.Glob(filepath.Join(modcache, "github.com/dedis/crypto@*", strings.TrimPrefix(ip, "github.com/dedis/crypto/")))
			if len(m) == 0 {
				fail("module cache: %s not found", ip)
			}
			dir = m[len(m)-1]
		}
		sd := filepath.Join(simdir, "shim", s)
		write(filepath.Join(sd, "zz_alias.go"), filepath.Join("shim", s, "zz_alias.go"), aliases(ip, dir, sd))
	}

	// runtime: reproducible hash keys and map iteration order
	rg := filepath.Join(goroot, "src/runtime/rand.go")
	rb, err := os.ReadFile(rg)
	if err != nil {
		fail("%v", err)
	}
	rs := string(rb)
	sub := func(old, new string) {
		if strings.Count(rs, old) != 1 {
			fail("runtime/rand.go: pattern %q not found once", old)
		}
		rs = strings.Replace(rs, old, new, 1)
	}
	sub("	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	if verifOff && len(startupRand) >= 16 &&")
	sub("		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", "		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n		if verifOff {")
	sub("func maps_rand() uint64 {", "func maps_rand() uint64 {\n	if VerifMapRand != nil {\n		return VerifMapRand()\n	}")
	rs += "\nvar verifOff bool\n\n// VerifMapRand, when set, supplies the randomness of map iteration.\nvar VerifMapRand func() uint64\n"
	write(rg, "goroot/runtime/rand.go", rs)
	mapHooks(goroot, write)

	// group operations: log every exponentiation so that oracles can look up
	// the secret exponents the system under test used
	nm, _ := filepath.Glob(filepath.Join(modcache, "github.com/dedis/crypto@*", "nist", "residue.go"))
	if len(nm) == 0 {
		fail("module cache: nist/residue.go not found")
	}
	nf := nm[len(nm)-1]
	nb, err := os.ReadFile(nf)
	if err != nil {
		fail("%v", err)
	}
	ns := string(nb)
	const expLine = "	p.Int.Exp(&b.(*residuePoint).Int, &s.(*Int).V, p.g.P)\n"
	if strings.Count(ns, expLine) != 1 {
		fail("nist/residue.go: exponentiation not found once")
	}
	ns = strings.Replace(ns, expLine, "	verifBase := new(big.Int)\n	if MulHook != nil {\n		verifBase.Set(&b.(*residuePoint).Int)\n	}\n"+expLine+"	if MulHook != nil {\n		MulHook(verifBase, &s.(*Int).V, &p.Int)\n	}\n", 1)
	ns += "\n// MulHook, when set, sees every exponentiation: base, exponent, result.\nvar MulHook func(b, s, r *big.Int)\n"
	dst := filepath.Join(out, "dedis")
	root := filepath.Dir(filepath.Dir(nf))
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			fail("%v", err)
		}
		rel, _ := filepath.Rel(root, path)
		if info.IsDir() {
			os.MkdirAll(filepath.Join(dst, rel), 0o755)
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			fail("%v", err)
		}
		if path == nf {
			b = []byte(ns)
		}
		t := filepath.Join(dst, rel)
		if o, err := os.ReadFile(t); err == nil && string(o) == string(b) {
			return nil
		}
		return os.WriteFile(t, b, 0o644)
	})
	if _, err := os.Stat(filepath.Join(dst, "go.mod")); err != nil {
		os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module github.com/dedis/crypto\n\ngo 1.16\n"), 0o644)
	}

	// glue
	var ev, fn strings.Builder
	useBridge := false
	for _, p := range pkgs {
		if p.path == module+"/proto" {
			for _, x := range p.files {
				for _, d := range x.f.Decls {
					if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
						for _, sp := range g.Specs {
							for _, n := range sp.(*ast.ValueSpec).Names {
								if n.IsExported() {
									fmt.Fprintf(&ev, "\tsim.Ev[%q] = int(proto.%s)\n", n.Name, n.Name)
								}
							}
						}
					}
				}
			}
		}
		if p.path == module+"/cmd/bridge" {
			for _, x := range p.files {
				for _, d := range x.f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "MessageOf") {
						continue
					}
					if fd.Type.Params.NumFields() == 1 && fd.Type.Results.NumFields() == 1 {
						if _, ok := fd.Type.Params.List[0].Type.(*ast.MapType); ok {
							if at, ok := fd.Type.Results.List[0].Type.(*ast.ArrayType); ok && at.Len == nil {
								fmt.Fprintf(&fn, "\tsim.MessageOf[%q] = bridge.%s\n", strings.TrimPrefix(fd.Name.Name, "MessageOf"), fd.Name.Name)
								useBridge = true
							}
						}
					}
				}
			}
		}
	}
	mu := ""
	if followed(pkgs) {
		mu = fmt.Sprintf("\tsim.SetMapUser(%q)\n", module+"/")
	}
	g := "package main\n\nimport (\n\t\"verifsim/sim\"\n\tcmdmain \"" + module + "/cmd\"\n"
	if ev.Len() > 0 {
		g += "\t\"" + module + "/proto\"\n"
	}
	if useBridge {
		g += "\t\"" + module + "/cmd/bridge\"\n"
	}
	g += ")\n\nfunc main() {\n\tsim.AppMain = cmdmain.Main\n" + mu + ev.String() + fn.String() + "\tsim.Main()\n}\n"
	write(filepath.Join(repo, "verifmain", "main.go"), "src/verifmain/main.go", g)

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail("%v", err)
	}
	// module file of the simulator build
	mod := string(modb) + "\n\nrequire verifsim v0.0.0\n\nreplace verifsim => " + simdir + "\n\nreplace github.com/dedis/crypto => " + filepath.Join(out, "dedis") + "\n"
	os.WriteFile(filepath.Join(out, "zrep.mod"), []byte(mod), 0o644)
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(out, "zrep.sum"), sum, 0o644)
}
