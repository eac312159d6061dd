// Package vjs models the compilers of scripts: a compiled program is known by
// its text.
package vjs

import (
	"errors"

	"github.com/dop251/goja"
)

var texts = map[*goja.Program]string{}

// Text is what a program was compiled from.
func Text(p *goja.Program) string { return texts[p] }

// bad: scripts that start with a parenthesis do not parse.
func bad(src string) bool {
	return len(src) > 0 && (src[0] == ')' || src[0] == '(')
}

//vsym:model github.com/dop251/goja.Compile
func compile(name, src string, strict bool) (*goja.Program, error) {
	if bad(src) {
		return nil, errors.New("SyntaxError")
	}
	p := &goja.Program{}
	texts[p] = src
	return p, nil
}

//vsym:model github.com/dop251/goja.MustCompile
func mustCompile(name, src string, strict bool) *goja.Program {
	p, err := compile(name, src, strict)
	if err != nil {
		panic(err)
	}
	return p
}
