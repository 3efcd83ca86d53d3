// mkoverlay writes a build overlay in which every non-test file below -dir
// that imports "os" imports the harness's stand-in instead.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	dir := flag.String("dir", "", "source tree")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	repl := map[string]string{}
	err := filepath.WalkDir(*dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return err
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		text, shift := string(src), 0
		for _, im := range f.Imports {
			if im.Path.Value != `"os"` {
				continue
			}
			new := `"vibeverif/vos"`
			if im.Name == nil {
				new = "os " + new
			}
			at := fset.Position(im.Path.Pos()).Offset + shift
			text = text[:at] + new + text[at+len(im.Path.Value):]
			shift += len(new) - len(im.Path.Value)
		}
		if shift == 0 {
			return nil
		}
		to := filepath.Join(*out, fmt.Sprintf("f%d.go", len(repl)))
		repl[path] = to
		return os.WriteFile(to, []byte(text), 0o644)
	})
	if err == nil && len(repl) == 0 {
		err = fmt.Errorf("no file below %s imports os", *dir)
	}
	if err == nil {
		var b []byte
		if b, err = json.Marshal(map[string]any{"Replace": repl}); err == nil {
			err = os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "mkoverlay:", err)
		os.Exit(1)
	}
}
