package ref

import (
	"crypto/sha256"
	"math"
)

// RandFn returns a uniformly random number below its argument.
type RandFn func(*Int) *Int

// Rnd is a number in the commitment randomness range.
func (f *FO) Rnd(rf RandFn) *Int {
	R := f.Radius()
	d := new(Int).Lsh(R, 1)
	return new(Int).Sub(rf(d), R)
}

func hashNN(bind bool, commitx, C, Cr, commitrx *Int) *Int {
	h := sha256.New()
	h.Write(commitx.Bytes())
	h.Write(C.Bytes())
	h.Write(Cr.Bytes())
	if bind {
		h.Write(commitrx.Bytes())
	}
	return new(Int).SetBytes(h.Sum(nil))
}

func sq(x *Int) *Int { return new(Int).Mul(x, x) }

// three finds 4x+1 = a^2+b^2+d^2; for huge x with Rabin and Shallit's method.
func three(x *Int, rf RandFn) (a, b, d *Int) {
	goal := new(Int).Lsh(x, 2)
	goal.Add(goal, One)
	if goal.BitLen() <= 24 {
		g := goal.Int64()
		for a := int64(0); a*a <= g; a++ {
			for b := int64(0); a*a+b*b <= g; b++ {
				d := int64(math.Sqrt(float64(g - a*a - b*b)))
				for k := d - 1; k <= d+1; k++ {
					if k >= 0 && a*a+b*b+k*k == g {
						return I(a), I(b), I(k)
					}
				}
			}
		}
		return I(0), I(0), I(0)
	}
	root := new(Int).Sqrt(goal)
	for {
		a := rf(root)
		p := new(Int).Sub(goal, sq(a))
		if p.Bit(0) == 0 || p.Bit(1) != 0 { // want p = 1 mod 4
			continue
		}
		if !p.ProbablyPrime(8) {
			continue
		}
		// Cornacchia
		var t *Int
		for {
			z := rf(p)
			e := new(Int).Sub(p, One)
			e.Rsh(e, 2)
			t = new(Int).Exp(z, e, p)
			if c := new(Int).Mod(new(Int).Add(sq(t), One), p); c.Sign() == 0 {
				break
			}
		}
		u, v := new(Int).Set(p), t
		r := new(Int).Sqrt(p)
		for v.Cmp(r) > 0 {
			u, v = v, new(Int).Mod(u, v)
		}
		w := new(Int).Sqrt(new(Int).Sub(p, sq(v)))
		if new(Int).Add(sq(v), sq(w)).Cmp(p) == 0 {
			return a, v, w
		}
	}
}

// ProveNonneg argues that commitx = g^x h^rc has x >= 0. When x is negative
// the squares cannot add up and the result is a forgery attempt.
func (f *FO) ProveNonneg(X *Int, commitx, rc *Int, bind bool, rf RandFn) *Nonneg {
	a, b, d := I(0), I(0), I(0)
	if X.Sign() >= 0 {
		a, b, d = three(X, rf)
	}
	rx, ra, rb, rd := f.Rnd(rf), f.Rnd(rf), f.Rnd(rf), f.Rnd(rf)
	delta := new(Int).Mul(I(4), rx)
	for _, p := range [][2]*Int{{a, ra}, {b, rb}, {d, rd}} {
		t := new(Int).Mul(I(2), p[0])
		t.Mul(t, p[1])
		delta.Sub(delta, t)
	}
	r := f.Rnd(rf)
	C := f.Exp(f.G[2], X)
	C = f.Mul(C, f.Exp(f.G[3], a))
	C = f.Mul(C, f.Exp(f.G[4], b))
	C = f.Mul(C, f.Exp(f.G[5], d))
	C = f.Mul(C, f.Exp(f.G[6], delta))
	C = f.Mul(C, f.Exp(f.H1, r))
	rr := f.Rnd(rf)
	Cr := f.Exp(f.G[2], rx)
	Cr = f.Mul(Cr, f.Exp(f.G[3], ra))
	Cr = f.Mul(Cr, f.Exp(f.G[4], rb))
	Cr = f.Mul(Cr, f.Exp(f.G[5], rd))
	for _, s := range []*Int{ra, rb, rd} {
		Cr = f.Mul(Cr, f.Exp(f.G[6], new(Int).Neg(sq(s))))
	}
	Cr = f.Mul(Cr, f.Exp(f.H1, rr))
	rrx := f.Rnd(rf)
	commitrx := f.Commit(rx, rrx)
	e := hashNN(bind, commitx, C, Cr, commitrx)
	lin := func(v, w *Int) *Int { t := new(Int).Mul(v, e); return t.Add(t, w) }
	return &Nonneg{commitrx, C, Cr, lin(rc, rrx), lin(X, rx), lin(a, ra), lin(b, rb), lin(d, rd), lin(r, rr)}
}

// ForgeNonneg makes a forged argument about commitx = g^x h^rc:
//
//	"rx"  a challenge that does not cover commitrx: proves an unrelated y >= 0
//	      and then chooses commitrx to satisfy the second equation
//	"cr"  a challenge that does not cover Cr: chooses Cr last
//	"eq2" satisfies the first equation only (with y), the second not at all
//	"eq1" satisfies the second equation only
//	"nodl" leaves out the relation between x and the three squares
//
// alt chooses what stands in the places that the targeted check ignores.
func (f *FO) ForgeNonneg(mode string, y int64, alt int, x, commitx, rc *Int, rf RandFn) *Nonneg {
	X := I(y)
	a, b, d := three(X, rf)
	rx, ra, rb, rd := f.Rnd(rf), f.Rnd(rf), f.Rnd(rf), f.Rnd(rf)
	delta := new(Int).Mul(I(4), rx)
	for _, p := range [][2]*Int{{a, ra}, {b, rb}, {d, rd}} {
		t := new(Int).Mul(I(2), p[0])
		t.Mul(t, p[1])
		delta.Sub(delta, t)
	}
	r := f.Rnd(rf)
	C := f.Exp(f.G[2], X)
	C = f.Mul(C, f.Exp(f.G[3], a))
	C = f.Mul(C, f.Exp(f.G[4], b))
	C = f.Mul(C, f.Exp(f.G[5], d))
	C = f.Mul(C, f.Exp(f.G[6], delta))
	C = f.Mul(C, f.Exp(f.H1, r))
	rr := f.Rnd(rf)
	Cr := f.Exp(f.G[2], rx)
	Cr = f.Mul(Cr, f.Exp(f.G[3], ra))
	Cr = f.Mul(Cr, f.Exp(f.G[4], rb))
	Cr = f.Mul(Cr, f.Exp(f.G[5], rd))
	for _, s := range []*Int{ra, rb, rd} {
		Cr = f.Mul(Cr, f.Exp(f.G[6], new(Int).Neg(sq(s))))
	}
	Cr = f.Mul(Cr, f.Exp(f.H1, rr))
	rrx := f.Rnd(rf)
	crx := f.Commit(rx, rrx)
	var e *Int
	lin := func(v, w *Int) *Int { t := new(Int).Mul(v, e); return t.Add(t, w) }
	switch mode {
	case "rx":
		e = hashNN(false, commitx, C, Cr, nil)
		x_ := lin(X, rx)
		R := f.Rnd(rf)
		// commitrx := g^x' h^R / commitx^e
		crx = f.Mul(f.Commit(x_, R), f.Exp(commitx, new(Int).Neg(e)))
		return &Nonneg{crx, C, Cr, R, x_, lin(a, ra), lin(b, rb), lin(d, rd), lin(r, rr)}
	case "cr", "crx":
		h := sha256.New()
		h.Write(commitx.Bytes())
		h.Write(C.Bytes())
		if mode == "cr" {
			h.Write(crx.Bytes())
		}
		e = new(Int).SetBytes(h.Sum(nil))
		x_, a_, b_, d_, r_ := lin(x, rx), f.Rnd(rf), f.Rnd(rf), f.Rnd(rf), f.Rnd(rf)
		dl := new(Int).Mul(I(4), x_)
		dl.Add(dl, e).Mul(dl, e)
		dl.Sub(dl, sq(a_)).Sub(dl, sq(b_)).Sub(dl, sq(d_))
		R := f.Mul(f.Exp(f.G[2], x_), f.Exp(f.G[3], a_))
		R = f.Mul(R, f.Exp(f.G[4], b_))
		R = f.Mul(R, f.Exp(f.G[5], d_))
		R = f.Mul(R, f.Exp(f.G[6], dl))
		R = f.Mul(R, f.Exp(f.H1, r_))
		Cr = f.Mul(R, f.Exp(C, new(Int).Neg(e)))
		return &Nonneg{crx, C, Cr, lin(rc, rrx), x_, a_, b_, d_, r_}
	case "nodl":
		a, b, d = I(int64(alt)), I(y), new(Int)
		C = f.Mul(f.Exp(f.G[2], x), f.Exp(f.G[3], a))
		C = f.Mul(C, f.Mul(f.Exp(f.G[4], b), f.Exp(f.G[5], d)))
		C = f.Mul(C, f.Exp(f.H1, r))
		Cr = f.Mul(f.Exp(f.G[2], rx), f.Exp(f.G[3], ra))
		Cr = f.Mul(Cr, f.Mul(f.Exp(f.G[4], rb), f.Exp(f.G[5], rd)))
		Cr = f.Mul(Cr, f.Exp(f.H1, rr))
		e = hashNN(true, commitx, C, Cr, crx)
		return &Nonneg{crx, C, Cr, lin(rc, rrx), lin(x, rx), lin(a, ra), lin(b, rb), lin(d, rd), lin(r, rr)}
	case "eq2":
		switch alt {
		case 1:
			crx = new(Int)
		case 2:
			crx = I(1)
		case 3:
			crx = commitx
		}
		e = hashNN(true, commitx, C, Cr, crx)
		n := &Nonneg{crx, C, Cr, lin(rc, rrx), lin(X, rx), lin(a, ra), lin(b, rb), lin(d, rd), lin(r, rr)}
		if alt > 0 {
			n.R = I(int64(alt % 2))
		}
		return n
	default: // eq1
		switch alt {
		case 1:
			C, Cr = new(Int), new(Int)
		case 2:
			C, Cr = I(1), I(1)
		case 3:
			C, Cr = commitx, crx
		case 4:
			Cr = C
		}
		e = hashNN(true, commitx, C, Cr, crx)
		n := &Nonneg{crx, C, Cr, lin(rc, rrx), lin(x, rx), lin(a, ra), lin(b, rb), lin(d, rd), lin(r, rr)}
		if alt > 0 {
			n.A_, n.B_, n.D_, n.R_ = new(Int), new(Int), new(Int), new(Int)
		}
		if alt == 3 {
			n.A_, n.B_, n.D_, n.R_ = n.X_, n.X_, n.X_, n.R
		}
		return n
	}
}

// ForgeEqual exploits a challenge that covers only one of the two sides.
// alt chooses what stands in the response that only the other side uses.
func (f *FO) ForgeEqual(mode string, alt int, GT, HT, x, rp, y, rfo *Int, rf RandFn) *Equal {
	t1, t2, t3 := rf(Q), rf(Q), rf(Q)
	if alt%4 == 3 {
		t1 = new(Int)
	}
	h := sha256.New()
	v := x
	if mode == "t1" {
		h.Write(Bytes(Commit(GT, HT, t1, t2)))
	} else {
		h.Write(f.Commit(t1, t3).Bytes())
		v = y
	}
	c := new(Int).SetBytes(h.Sum(nil))
	lin := func(v, w *Int) *Int { t := new(Int).Mul(v, c); return t.Add(t, w) }
	q := &Equal{c, lin(v, t1), lin(rp, t2), lin(rfo, t3)}
	free := &q.S3
	if mode == "t2" {
		free = &q.S2
	}
	switch alt % 4 {
	case 1, 3:
		*free = new(Int)
	case 2:
		*free = I(int64(1 + alt/4))
	}
	return q
}

// ProveEqual argues that GT^x HT^rp and g1^x h1^rfo hold the same x. xp and xf
// may differ (a forgery attempt); s1 follows xf as an integer.
func (f *FO) ProveEqual(GT, HT, x, rp, rfo *Int, rf RandFn) *Equal {
	t1, t2, t3 := rf(Q), rf(Q), rf(Q)
	T1 := Commit(GT, HT, t1, t2)
	T2 := f.Commit(t1, t3)
	h := sha256.New()
	h.Write(Bytes(T1))
	h.Write(T2.Bytes())
	c := new(Int).SetBytes(h.Sum(nil))
	lin := func(v, w *Int) *Int { t := new(Int).Mul(v, c); return t.Add(t, w) }
	return &Equal{c, lin(x, t1), lin(rp, t2), lin(rfo, t3)}
}

// VerifyNonneg is the reference verifier.
func (f *FO) VerifyNonneg(commitx *Int, n *Nonneg, bind bool) bool {
	for _, v := range []*Int{n.Commitrx, n.C, n.Cr, n.R, n.X_, n.A_, n.B_, n.D_, n.R_} {
		if v == nil {
			return false
		}
	}
	e := hashNN(bind, commitx, n.C, n.Cr, n.Commitrx)
	dl := new(Int).Mul(I(4), n.X_)
	dl.Add(dl, e).Mul(dl, e)
	dl.Sub(dl, sq(n.A_)).Sub(dl, sq(n.B_)).Sub(dl, sq(n.D_))
	l := f.Mul(f.Exp(n.C, e), n.Cr)
	r := f.Mul(f.Exp(f.G[2], n.X_), f.Exp(f.G[3], n.A_))
	r = f.Mul(r, f.Exp(f.G[4], n.B_))
	r = f.Mul(r, f.Exp(f.G[5], n.D_))
	r = f.Mul(r, f.Exp(f.G[6], dl))
	r = f.Mul(r, f.Exp(f.H1, n.R_))
	if l.Cmp(r) != 0 {
		return false
	}
	l = f.Mul(f.Exp(commitx, e), n.Commitrx)
	r = f.Commit(n.X_, n.R)
	return l.Cmp(r) == 0
}

// VerifyEqual is the reference verifier of the equality argument.
func (f *FO) VerifyEqual(GT, HT, pc, fc *Int, q *Equal) bool {
	if q.C == nil || q.S1 == nil || q.S2 == nil || q.S3 == nil {
		return false
	}
	// an honest s1 is c*x + t1 for a small x; anything longer than the group
	// order could wrap around on one side only
	if q.S1.Sign() < 0 || q.S1.BitLen() > Q.BitLen()+8 || pc.Sign() == 0 {
		return false
	}
	T1 := Mul(Commit(GT, HT, ModQ(q.S1), ModQ(q.S2)), Inv(Exp(pc, ModQ(q.C))))
	T2 := f.Mul(f.Commit(q.S1, q.S3), f.Exp(fc, new(Int).Neg(q.C)))
	h := sha256.New()
	h.Write(Bytes(T1))
	h.Write(T2.Bytes())
	return q.C.Cmp(new(Int).SetBytes(h.Sum(nil))) == 0
}
