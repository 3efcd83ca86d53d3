package faults

import (
	"os"
	"testing"

	"vibeverif/core"
)

// FuzzProp is the coverage-guided form of the property named by VERIF_FUZZ.
func FuzzProp(f *testing.F) {
	test, ok := map[string]func(*testing.T){
		"C16": TestC16, "C17": TestC17, "C18": TestC18, "C20": TestC20, "C26": TestC26,
		"C28": TestC28, "C28Read": TestC28Read,
	}[os.Getenv("VERIF_FUZZ")]
	if !ok {
		f.Skip("VERIF_FUZZ not set")
	}
	core.FuzzWith(f, test)
}
