// Package ref is an independent reference for the wire formats and the
// mathematics of the protocol: the simulator's oracles and adversaries use it
// instead of the code under test.
package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

var P, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
var Q, _ = new(big.Int).SetString("5099133861178675934299038070513690140208594154615901954959232152506056770707302268711370548280642524887896017588520836152823386566007063045571431221913131", 10)
var G = big.NewInt(4)
var One = big.NewInt(1)

const PLen = 64

var suite abstract.Suite

func Suite() abstract.Suite {
	if suite == nil {
		suite = nist.NewAES128SHA256QR512()
	}
	return suite
}

type Int = big.Int

func Exp(b, e *Int) *Int { return new(Int).Exp(b, e, P) }
func Mul(a, b *Int) *Int { c := new(Int).Mul(a, b); return c.Mod(c, P) }
func Inv(a *Int) *Int    { return new(Int).ModInverse(a, P) }
func Div(a, b *Int) *Int { return Mul(a, Inv(b)) }
func AddQ(a, b *Int) *Int {
	c := new(Int).Add(a, b)
	return c.Mod(c, Q)
}
func SubQ(a, b *Int) *Int {
	c := new(Int).Sub(a, b)
	return c.Mod(c, Q)
}
func ModQ(a *Int) *Int { return new(Int).Mod(a, Q) }
func I(x int64) *Int   { return big.NewInt(x) }

func Bytes(a *Int) []byte {
	b := a.Bytes()
	if len(b) >= PLen {
		return b
	}
	return append(make([]byte, PLen-len(b)), b...)
}

func SecBytes(a *Int) []byte { return Bytes(a) }

// Valid group element encoding.
func Valid(a *Int) bool {
	return a.Sign() > 0 && a.Cmp(P) < 0 && new(Int).Exp(a, Q, P).Cmp(One) == 0
}

// Commit is GT^x HT^r.
func Commit(GT, HT, x, r *Int) *Int { return Mul(Exp(GT, ModQ(x)), Exp(HT, r)) }

func hashElGamal(msg []byte, T *Int) *Int {
	s := Suite()
	c := s.Cipher(Bytes(T))
	c.Message(nil, nil, msg)
	x := s.Secret().Pick(c)
	b, _ := x.MarshalBinary()
	return new(Int).SetBytes(b)
}

// Sig is a decoded signature.
type Sig struct{ C, R *Int }

func DecodeSig(b []byte) (Sig, error) {
	if len(b) < 128 {
		return Sig{}, errors.New("short signature")
	}
	s := Sig{new(Int).SetBytes(b[:64]), new(Int).SetBytes(b[64:128])}
	if s.C.Cmp(Q) >= 0 || s.R.Cmp(Q) >= 0 {
		return s, errors.New("signature out of range")
	}
	return s, nil
}

// Sign makes a signature with base g, key x and nonce v.
func Sign(msg []byte, x, g, v *Int) []byte {
	c := hashElGamal(msg, Exp(g, v))
	r := new(Int).Mul(x, c)
	r.Sub(v, r).Mod(r, Q)
	return append(Bytes(c), Bytes(r)...)
}

// SignZero exploits a verifier that takes 0 for its base.
func SignZero(msg []byte, r *Int) []byte {
	c := hashElGamal(msg, new(Int))
	return append(Bytes(c), Bytes(r)...)
}

func Verify(msg []byte, pk []byte, sig []byte, g *Int) bool {
	s, err := DecodeSig(sig)
	if err != nil {
		return false
	}
	T := Mul(Exp(g, s.R), Exp(new(Int).SetBytes(pk), s.C))
	return hashElGamal(msg, T).Cmp(s.C) == 0
}

// Nonce is the nonce v of a signature given the key.
func Nonce(sig []byte, x *Int) *Int {
	s, err := DecodeSig(sig)
	if err != nil {
		return nil
	}
	v := new(Int).Mul(x, s.C)
	return AddQ(v, s.R)
}

// MaskInt is how random.Int reads a draw for a modulus.
func MaskInt(draw []byte, mod *Int) *Int {
	bl := mod.BitLen()
	if len(draw) != (bl+7)/8 {
		return nil
	}
	b := append([]byte(nil), draw...)
	if h := uint(bl & 7); h != 0 {
		b[0] &= ^(byte(0xff) << h)
	}
	i := new(Int).SetBytes(b)
	if i.Sign() > 0 && i.Cmp(mod) < 0 {
		return i
	}
	return nil
}

// ---- Fujisaki-Okamoto side ----

type FO struct {
	N  *Int
	G  [7]*Int // G[1..6]
	H1 *Int
}

func (f *FO) Exp(b, e *Int) *Int {
	r := new(Int).Exp(b, e, f.N)
	if r == nil {
		return new(Int)
	}
	return r
}
func (f *FO) Mul(a, b *Int) *Int { c := new(Int).Mul(a, b); return c.Mod(c, f.N) }
func (f *FO) Commit(x, r *Int) *Int {
	return f.Mul(f.Exp(f.G[1], x), f.Exp(f.H1, r))
}
func (f *FO) Radius() *Int {
	r := new(Int).Lsh(One, 80)
	return r.Mul(r, f.N)
}

func HashInts(xs ...*Int) *Int {
	h := sha256.New()
	for _, x := range xs {
		h.Write(x.Bytes())
	}
	return new(Int).SetBytes(h.Sum(nil))
}

// Nonneg is the argument's wire structure.
type Nonneg struct {
	Commitrx, C, Cr, R, X_, A_, B_, D_, R_ *Int
}

// Equal is the equality argument's wire structure.
type Equal struct {
	C, S1, S2, S3 *Int
}

func U32(n int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(n))
	return b
}
