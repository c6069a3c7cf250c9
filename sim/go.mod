module verifsim

go 1.24

require (
	github.com/blockfrost/blockfrost-go v0.1.0
	github.com/fivebinaries/go-cardano-serialization v0.0.0
	golang.org/x/crypto v0.0.0-20220210151621-f4118a5b28e2
)

replace github.com/fivebinaries/go-cardano-serialization => /repo
