// Package rand stands for crypto/rand.
package rand

import (
	real "crypto/rand"
	"io"
	"math/big"
	"verifsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { rt.Entropy(b); return len(b), nil }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { rt.Entropy(b); return len(b), nil }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	n := max.BitLen()
	b := make([]byte, (n+7)/8)
	for {
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		if x := n % 8; x != 0 {
			b[0] &= byte(1<<uint(x)) - 1
		}
		v := new(big.Int).SetBytes(b)
		if v.Cmp(max) < 0 {
			return v, nil
		}
	}
}

// Prime is not deterministic in the standard library, so it is searched here.
func Prime(r io.Reader, bits int) (*big.Int, error) {
	b := make([]byte, (bits+7)/8)
	for {
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		v := new(big.Int).SetBytes(b)
		v.Rsh(v, uint(len(b)*8-bits))
		v.SetBit(v, bits-1, 1)
		v.SetBit(v, 0, 1)
		if v.ProbablyPrime(20) {
			return v, nil
		}
	}
}

func Text() string { return real.Text() }
