// genvos writes vos/forward.go: every exported name of package os that does
// not involve *os.File, forwarded. Run once per Go release by hand:
//
//	go run /verif/tools/genvos > /verif/harness/vos/forward.go
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
)

// replaced by hand in vos.go
var own = map[string]bool{"File": true, "Create": true, "CreateTemp": true, "NewFile": true, "Open": true, "OpenFile": true, "OpenInRoot": true,
	"Pipe": true, "ReadFile": true, "WriteFile": true, "Rename": true, "Remove": true, "RemoveAll": true, "Truncate": true, "Stat": true, "Lstat": true, "Link": true}

func main() {
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import("os")
	if err != nil {
		panic(err)
	}
	fmt.Println("// Code generated by tools/genvos. DO NOT EDIT.\n\npackage vos\n\nimport \"os\"\n")
	for _, name := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(name)
		if !o.Exported() || own[name] {
			continue
		}
		switch o.(type) {
		case *types.Const:
			fmt.Printf("const %s = os.%s\n", name, name)
		case *types.TypeName:
			fmt.Printf("type %s = os.%s\n", name, name)
		default:
			fmt.Printf("var %s = os.%s\n", name, name)
		}
	}
}
