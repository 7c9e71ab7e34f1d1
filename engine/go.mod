module verif/engine

go 1.26.0

require (
	github.com/OneOfOne/xxhash v1.2.5
	github.com/bwesterb/go-ristretto v1.1.0
	github.com/dusk-network/bn256 v0.5.1-lattices
	golang.org/x/crypto v0.0.0-20200128174031-69ecbb4d6d5d
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
