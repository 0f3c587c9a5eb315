module verifsim

go 1.20

require (
	github.com/dedis/crypto v0.0.0-20150613143308-38ce20af3931
	go.dedis.ch/protobuf v1.0.11
)
