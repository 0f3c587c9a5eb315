package rt

// Package-level variables of the code under test are shared by all simulated
// processes, so they are swapped on every process switch.

type gvar interface {
	save(p *Proc, i int)
	load(p *Proc, i int)
	reset()
}

type gv[T any] struct {
	p    *T
	init func()
}

func (g *gv[T]) save(p *Proc, i int) { v := *g.p; p.vals[i] = &v }
func (g *gv[T]) load(p *Proc, i int) {
	if p.vals[i] == nil {
		var z T
		*g.p = z
		return
	}
	*g.p = *(p.vals[i].(*T))
}
func (g *gv[T]) reset() { var z T; *g.p = z }

type ginit struct {
	v    gvar
	init func()
}

var gvars []gvar
var ginits []func()

// RegVar registers a package-level variable.
func RegVar[T any](p *T) int {
	gvars = append(gvars, &gv[T]{p: p})
	return 0
}

// RegInit registers code that (re)initialises variables, or a package's init function.
func RegInit(f func()) int {
	ginits = append(ginits, f)
	return 0
}

func (w *World) switchTo(p *Proc) {
	if w.curProc == p || p.harness {
		return
	}
	if o := w.curProc; o != nil {
		if o.vals == nil {
			o.vals = make([]interface{}, len(gvars))
		}
		for i, g := range gvars {
			g.save(o, i)
		}
	}
	if p.vals == nil {
		p.vals = make([]interface{}, len(gvars))
	}
	for i, g := range gvars {
		g.load(p, i)
	}
	w.curProc = p
}

func initGlobals(p *Proc) {
	for _, g := range gvars {
		g.reset()
	}
	for _, f := range ginits {
		f()
	}
}
