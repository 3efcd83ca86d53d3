package props

import (
	"os"
	"testing"

	"vibeverif/core"
)

// FuzzProp is the coverage-guided form of the property named by VERIF_FUZZ.
func FuzzProp(f *testing.F) {
	if os.Getenv("VERIF_FUZZ") == "C19bytes" {
		core.FuzzBytes(f, core.Prop[DamageCase]{ID: "C19", Rule: "bytes mutated under coverage guidance from valid files", Exec: execDamage}, seedFiles(f),
			func(b []byte) DamageCase { return DamageCase{UseRaw: true, Raw: b} })
		return
	}
	test, ok := map[string]func(*testing.T){
		"C01": TestC01, "C02": TestC02, "C03": TestC03, "C04": TestC04, "C05": TestC05, "C06": TestC06, "C07": TestC07, "C08": TestC08, "C09": TestC09, "C10": TestC10, "C11": TestC11, "C13": TestC13, "C14": TestC14, "C15": TestC15, "C19": TestC19, "C21": TestC21, "C24": TestC24, "C25": TestC25,
	}[os.Getenv("VERIF_FUZZ")]
	if !ok {
		f.Skip("VERIF_FUZZ not set")
	}
	core.FuzzWith(f, test)
}

// seedFiles are small valid files of every encoding.
func seedFiles(f *testing.F) (out [][]byte) {
	for enc := uint32(0); enc < 8; enc++ {
		for n := 0; n < 4; n++ {
			spec := core.FileSpec{Enc: enc, Target: 4096}
			for i := 0; i < n; i++ {
				spec.Chunks = append(spec.Chunks, core.Chunk{{N: 1 + 3*i, ID: 300, Step: 1, V: -900, VStep: 77}})
			}
			var blocks []core.Pairs
			for _, c := range spec.Chunks {
				blocks = append(blocks, c.Expand())
			}
			// unpadded, so that mutations meet structure
			out = append(out, core.Build(blocks, core.BuildOpts{Enc: enc, Target: 4096, BitmapFirst: n == 2}))
		}
	}
	return out
}
