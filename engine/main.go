package main

import (
	"os"
	"runtime/pprof"
)

func main() {
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	cli()
}
