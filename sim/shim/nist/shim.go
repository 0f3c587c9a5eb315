// Package nist caches the cipher suite: creating it re-checks the primality of
// its constants every time, which dominates simulated runs otherwise.
package nist

import (
	"github.com/dedis/crypto/abstract"
	real "github.com/dedis/crypto/nist"
)

var qr512 abstract.Suite

func NewAES128SHA256QR512() abstract.Suite {
	if qr512 == nil {
		qr512 = real.NewAES128SHA256QR512()
	}
	return qr512
}
