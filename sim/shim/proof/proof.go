// Package proof lets the simulator's adversary forge shuffle proofs. It knows
// how the verifier names the protocol, since that is public.
package proof

import (
	"github.com/dedis/crypto/abstract"
	real "github.com/dedis/crypto/proof"
)

// Forge makes the proof for a marker that the adversary has put into a message.
var Forge func(name string, marker []byte) []byte

func HashVerify(suite abstract.Suite, protocolName string, verifier real.Verifier, proof []byte) error {
	if Forge != nil {
		if p := Forge(protocolName, proof); p != nil {
			proof = p
		}
	}
	return real.HashVerify(suite, protocolName, verifier, proof)
}
