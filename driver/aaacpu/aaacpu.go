// Package aaacpu is overlaid into the module by the verification driver's build.
// Its import path sorts before galois', so its init runs first: it hides CPU
// features named in VERIF_CPU_OFF from the packages that ask cpuid for them.
package aaacpu

import (
	"os"
	"strings"

	"github.com/klauspost/cpuid/v2"
)

// Off lists the features that were switched off.
var Off []string

func init() {
	ids := map[string]cpuid.FeatureID{
		"avx512f": cpuid.AVX512F, "avx512bw": cpuid.AVX512BW, "avx2": cpuid.AVX2,
		"ssse3": cpuid.SSSE3, "sse2": cpuid.SSE2, "gfni": cpuid.GFNI,
	}
	for _, name := range strings.Split(os.Getenv("VERIF_CPU_OFF"), ",") {
		if id, ok := ids[name]; ok {
			cpuid.CPU.Disable(id)
			Off = append(Off, name)
		}
	}
}
