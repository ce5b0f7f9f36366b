package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// overlay writes dir/overlay.json, with which every non-test Go file of repo
// that imports sync imports verifh/vsync instead.
func overlay(repo, dir string) error {
	rep := map[string]string{}
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if path != repo && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
		if err != nil {
			return nil // the compiler will tell
		}
		for _, im := range f.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			from, to := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
			text := `"verifh/vsync"`
			if im.Name == nil {
				text = "sync " + text
			}
			out := filepath.Join(dir, fmt.Sprintf("ov%d.go", len(rep)))
			if err := os.WriteFile(out, []byte(string(src[:from])+text+string(src[to:])), 0o666); err != nil {
				return err
			}
			rep[path] = out
			break
		}
		return nil
	})
	if err != nil {
		return err
	}
	b, err := json.Marshal(map[string]any{"Replace": rep})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o666)
}
