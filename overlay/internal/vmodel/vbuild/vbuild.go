// Package vbuild models the bundler: its output is its entry point's text.
package vbuild

import (
	"os"
	"path/filepath"

	"github.com/evanw/esbuild/pkg/api"
)

//vsym:model github.com/evanw/esbuild/pkg/api.Build
func build(o api.BuildOptions) api.BuildResult {
	fail := func(s string) api.BuildResult {
		return api.BuildResult{Errors: []api.Message{{Text: s}}}
	}
	if len(o.EntryPoints) != 1 {
		return fail("entry points")
	}
	for _, p := range o.Alias {
		if _, err := os.ReadFile(filepath.Join(o.AbsWorkingDir, p)); err != nil {
			return fail("alias")
		}
	}
	b, err := os.ReadFile(filepath.Join(o.AbsWorkingDir, o.EntryPoints[0]))
	if err != nil {
		return fail("entry point")
	}
	if len(b) > 0 && (b[0] == ')' || b[0] == '(') {
		return fail("syntax")
	}
	return api.BuildResult{OutputFiles: []api.OutputFile{{Contents: b}}}
}

// Hashes are numbers given out one by one: an injective function.
var hashed []string

//vsym:model github.com/cespare/xxhash/v2.Sum64
func sum64(b []byte) uint64 { return sum64String(string(b)) }

//vsym:model github.com/cespare/xxhash/v2.Sum64String
func sum64String(s string) uint64 {
	for i, t := range hashed {
		if len(s) == len(t) && s == t {
			return uint64(i) + 1<<40
		}
	}
	hashed = append(hashed, s)
	return uint64(len(hashed)-1) + 1<<40
}
