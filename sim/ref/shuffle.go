package ref

import (
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// ShuffleForgery is a dishonest prover of Neff's pair shuffle. Its output is no
// permutation of (X,Y): the first output is the sum of two inputs, or the last
// one is chosen after the challenges are known.
//
//	link     the simple shuffle is about other values than the pair shuffle
//	simple   one equation of the simple shuffle does not hold
//	sigma    the exponents of the product check are not those that were committed
//	weakfs   a component of the output is solved for in the end
//	xbar     one first component of the output is multiplied by something
//	ybar     one second component is (somebody's reputation changes)
//
// Each succeeds exactly when the verifier leaves out the corresponding check.
type ShuffleForgery struct {
	Mode       string
	H          *Int
	X, Y       []*Int
	Xbar, Ybar []*Int
	pi         []int
	beta       []*Int
	rf         RandFn
	Done       bool
}

func NewShuffleForgery(mode string, h *Int, X, Y []*Int, rf RandFn) *ShuffleForgery {
	f := &ShuffleForgery{Mode: mode, H: h, X: X, Y: Y, rf: rf}
	k := len(X)
	f.pi = make([]int, k)
	for i := range f.pi {
		f.pi[i] = i
	}
	for i := k - 1; i > 0; i-- {
		j := int(rf(I(int64(i + 1))).Int64())
		f.pi[i], f.pi[j] = f.pi[j], f.pi[i]
	}
	for i := 0; i < k; i++ {
		b := rf(Q)
		x, y := X[f.pi[i]], Y[f.pi[i]]
		if i == 0 && f.mixes() {
			x, y = Mul(x, X[f.pi[1]]), Mul(y, Y[f.pi[1]])
		}
		f.beta = append(f.beta, b)
		f.Xbar = append(f.Xbar, Mul(x, Exp(G, b)))
		f.Ybar = append(f.Ybar, Mul(y, Exp(h, b)))
	}
	j, d := int(rf(I(int64(k))).Int64()), Exp(G, AddQ(One, rf(I(9))))
	switch f.Mode {
	case "xbar":
		f.Xbar[j] = Mul(f.Xbar[j], d)
	case "ybar":
		f.Ybar[j] = Mul(f.Ybar[j], d)
	}
	return f
}

func (f *ShuffleForgery) mixes() bool {
	return f.Mode == "link" || f.Mode == "simple" || f.Mode == "sigma"
}

func pt(x *Int) abstract.Point {
	p := Suite().Point()
	if err := p.UnmarshalBinary(Bytes(x)); err != nil {
		panic(err)
	}
	return p
}

func pts(l []*Int) (r []abstract.Point) {
	for _, x := range l {
		r = append(r, pt(x))
	}
	return
}

func sec(x *Int) abstract.Secret {
	s := Suite().Secret()
	if err := s.UnmarshalBinary(SecBytes(x)); err != nil {
		panic(err)
	}
	return s
}

func secs(l []*Int) (r []abstract.Secret) {
	for _, x := range l {
		r = append(r, sec(x))
	}
	return
}

func unsec(s abstract.Secret) *Int {
	b, _ := s.MarshalBinary()
	return new(Int).SetBytes(b)
}

func mulQ(a, b *Int) *Int { return ModQ(new(Int).Mul(a, b)) }

// Prove makes the proof for a protocol name.
func (f *ShuffleForgery) Prove(name string) []byte {
	rand := Suite().Cipher([]byte("forgery"))
	b, err := proof.HashProve(Suite(), name, rand, f.prove)
	if err != nil {
		return nil
	}
	f.Done = true
	return b
}

func (f *ShuffleForgery) rnd(k int) (l []*Int) {
	for ; k > 0; k-- {
		l = append(l, f.rf(Q))
	}
	return
}

func (f *ShuffleForgery) prove(ctx proof.ProverContext) error {
	k := len(f.X)
	a, u, w, cs := f.rnd(k), f.rnd(k), f.rnd(k), f.rnd(k)
	gamma, tau0 := f.rf(Q), f.rf(Q)
	delta := f.rf(Q)
	exps := func(l []*Int) (r []*Int) {
		for _, x := range l {
			r = append(r, Exp(G, x))
		}
		return
	}
	// step 1: sum_i sigma_i M_ij = rho_j + cs_j, where cs is committed
	if !f.mixes() { // honest: sigma_i = w_i + rho_pi(i) - u_pi(i)
		for i := 0; i < k; i++ {
			cs[f.pi[i]] = SubQ(w[i], u[f.pi[i]])
		}
	}
	var p1 struct {
		Gamma            abstract.Point
		A, C, U, W       []abstract.Point
		Lambda1, Lambda2 abstract.Point
	}
	ac, wc := make([]*Int, k), make([]*Int, k)
	for i := 0; i < k; i++ {
		ac[i], wc[i] = mulQ(gamma, a[f.pi[i]]), mulQ(gamma, w[i])
	}
	L1, L2 := Exp(G, tau0), Exp(f.H, tau0)
	for j := 0; j < k; j++ {
		L1, L2 = Mul(L1, Exp(f.X[j], cs[j])), Mul(L2, Exp(f.Y[j], cs[j]))
	}
	if f.Mode == "weakfs" {
		L2 = Mul(L2, Exp(G, delta))
	}
	p1.Gamma, p1.A, p1.C, p1.U, p1.W = pt(Exp(G, gamma)), pts(exps(a)), pts(exps(ac)), pts(exps(u)), pts(exps(wc))
	p1.Lambda1, p1.Lambda2 = pt(L1), pt(L2)
	if err := ctx.Put(&p1); err != nil {
		return err
	}
	v2 := struct{ Zrho []abstract.Secret }{make([]abstract.Secret, k)}
	if err := ctx.PubRand(&v2); err != nil {
		return err
	}
	rho := make([]*Int, k)
	for i := range rho {
		rho[i] = unsec(v2.Zrho[i])
	}
	// step 3
	sigma := make([]*Int, k)
	for i := 0; i < k; i++ {
		sigma[i] = AddQ(rho[f.pi[i]], cs[f.pi[i]])
		if i == 1 && f.mixes() {
			sigma[i] = SubQ(sigma[i], sigma[0])
		}
	}
	b, d := make([]*Int, k), make([]*Int, k)
	for i := 0; i < k; i++ {
		b[i] = SubQ(rho[i], u[i])
	}
	for i := 0; i < k; i++ {
		if f.Mode == "link" || f.Mode == "simple" {
			d[i] = mulQ(gamma, SubQ(sigma[i], w[i]))
		} else {
			d[i] = mulQ(gamma, b[f.pi[i]])
		}
	}
	p3 := struct{ D []abstract.Point }{pts(exps(d))}
	if err := ctx.Put(&p3); err != nil {
		return err
	}
	var v4 struct{ Zlambda abstract.Secret }
	v4.Zlambda = Suite().Secret()
	if err := ctx.PubRand(&v4); err != nil {
		return err
	}
	lambda := unsec(v4.Zlambda)
	// step 5
	tau := new(Int).Neg(tau0)
	for i := 0; i < k; i++ {
		tau = AddQ(tau, mulQ(sigma[i], f.beta[i]))
	}
	p5 := struct {
		Zsigma []abstract.Secret
		Ztau   abstract.Secret
	}{secs(sigma), sec(ModQ(tau))}
	if err := ctx.Put(&p5); err != nil {
		return err
	}
	// step 6: simple shuffle of x into y = gamma x_pi
	x, y := make([]*Int, k), make([]*Int, k)
	for i := 0; i < k; i++ {
		x[i] = AddQ(a[i], mulQ(lambda, b[i]))
	}
	for i := 0; i < k; i++ {
		y[i] = mulQ(gamma, x[f.pi[i]])
	}
	px, py := exps(x), exps(y)
	if f.Mode == "simple" {
		for i := 0; i < k; i++ {
			y[i] = AddQ(ac[i], mulQ(lambda, d[i]))
		}
		py = exps(y)
	}
	p0 := struct{ X, Y []abstract.Point }{pts(px), pts(py)}
	if err := ctx.Put(&p0); err != nil {
		return err
	}
	var v1 struct{ Zt abstract.Secret }
	v1.Zt = Suite().Secret()
	if err := ctx.PubRand(&v1); err != nil {
		return err
	}
	t := unsec(v1.Zt)
	gt := mulQ(gamma, t)
	theta := f.rnd(2*k - 1)
	n := len(theta)
	Theta := make([]*Int, 0, n+1)
	xh, yh := make([]*Int, k), make([]*Int, k)
	for i := 0; i < k; i++ {
		xh[i], yh[i] = SubQ(x[i], t), SubQ(y[i], gt)
	}
	Theta = append(Theta, ModQ(new(Int).Neg(mulQ(theta[0], yh[0]))))
	for i := 1; i < k; i++ {
		Theta = append(Theta, SubQ(mulQ(theta[i-1], xh[i]), mulQ(theta[i], yh[i])))
	}
	for i := k; i < n; i++ {
		Theta = append(Theta, SubQ(mulQ(theta[i-1], gamma), theta[i]))
	}
	Theta = append(Theta, mulQ(theta[n-1], gamma))
	p2 := struct{ Theta []abstract.Point }{pts(exps(Theta))}
	if err := ctx.Put(&p2); err != nil {
		return err
	}
	var v3 struct{ Zc abstract.Secret }
	v3.Zc = Suite().Secret()
	if err := ctx.PubRand(&v3); err != nil {
		return err
	}
	c := unsec(v3.Zc)
	// all equations but the brk-th hold; in an honest proof that one does, too
	brk := k
	if f.Mode == "simple" {
		brk = int(f.rf(I(int64(n + 1))).Int64())
	}
	alpha := make([]*Int, n)
	gi := new(big.Int).ModInverse(gamma, Q)
	run := new(Int).Set(c)
	for i := 0; i < brk; i++ {
		if i < k {
			run = mulQ(mulQ(run, xh[i]), new(Int).ModInverse(yh[i], Q))
		} else {
			run = mulQ(run, gamma)
		}
		alpha[i] = AddQ(theta[i], run)
	}
	run = new(Int).Set(c)
	for i := n; i > brk; i-- {
		if i >= k {
			run = mulQ(run, gi)
		} else {
			run = mulQ(mulQ(run, yh[i]), new(Int).ModInverse(xh[i], Q))
		}
		alpha[i-1] = AddQ(theta[i-1], run)
	}
	p4 := struct{ Zalpha []abstract.Secret }{secs(alpha)}
	if err := ctx.Put(&p4); err != nil {
		return err
	}
	if f.Mode == "weakfs" { // Lambda2 has delta too much: the last output makes up for it
		e := mulQ(delta, new(Int).ModInverse(sigma[k-1], Q))
		f.Ybar[k-1] = Mul(f.Ybar[k-1], Exp(G, e))
	}
	return nil
}
