module verif.local/harness

go 1.25

require (
	a.local/detrand v0.0.0-00010101000000-000000000000
	github.com/binance-chain/tss-lib v0.0.0-00010101000000-000000000000
	github.com/rs/zerolog v0.0.0
	gitlab.com/alephledger/core-go v0.0.0-00010101000000-000000000000
	gitlab.com/alephledger/threshold-ecdsa v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/ethereum/go-ethereum v1.10.3 // indirect
	golang.org/x/crypto v0.9.0 // indirect
)

replace (
	a.local/detrand => ./shim/detrand
	github.com/binance-chain/tss-lib => ./shim/tss-lib
	github.com/rs/zerolog => ./shim/zerolog
	gitlab.com/alephledger/core-go => ./shim/core-go
	gitlab.com/alephledger/threshold-ecdsa => /repo
)
