package snippets

import (
	"strings"
	"time"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vmodel/vjs"
	"github.com/gernest/requiemdb/internal/vsym"
)

const vPost = `")`

// vPre starts a script: what bundled libraries put first can be long and the
// same in every script.
var vPre = `out("`

// vOut is what a program prints.
func vOut(p *goja.Program) (s string) {
	if vsym.Symbolic() {
		t := vjs.Text(p)
		vsym.Assert(len(t) >= len(vPre)+len(vPost) && t[:len(vPre)] == vPre, "a program was compiled from another text")
		return t[len(vPre) : len(t)-len(vPost)]
	}
	r := goja.New()
	r.Set("out", func(v string) { s += v })
	_, err := r.RunProgram(p)
	vsym.Assert(err == nil, "a program does not run")
	return s
}

// vScript is a script that prints a word.
func vScript(l string) (text, word string) {
	word = vsym.Str(l, 1+vsym.Choose(l+".len", 2))
	for i := range word {
		vsym.Assume(vsym.And(word[i] >= 'a', word[i] <= 'z'))
	}
	return vPre + word + vPost, word
}

// VsymSnippets compiles scripts, some for the second time.
//
//vsym:harness C31 time=100 ttime=300
//vsym:bound two scripts that print any word of one or two letters and one that does not parse, after nothing or after 7000 bytes they have in common, requested in any order four times (thorough: five), from a cache that may forget any entry at any time
func VsymSnippets() {
	vPre = `out("`
	if vsym.Choose("bundled", 2) == 1 {
		vPre = "/*" + strings.Repeat(" a library\n", 700) + "*/" + vPre
	}
	s, err := New()
	vsym.Assert(err == nil, "no cache")
	vmodel.CacheMiss = func() bool { return vsym.Choose("forgotten", 2) == 1 }
	var text, word [2]string
	text[0], word[0] = vScript("a")
	text[1], word[1] = vScript("b")
	buf := make([]byte, 0, 64)
	for i := 0; i < vsym.Bound(4, 5); i++ {
		if !vsym.Symbolic() {
			time.Sleep(10 * time.Millisecond) // the cache settles in the background
		}
		n := vsym.Choose("script", 3)
		if n == 2 {
			_, err := s.GetProgramData([]byte("(" + text[0]))
			vsym.Assert(err != nil, "a script that does not parse compiles")
			continue
		}
		// callers may reuse their buffer
		buf = append(buf[:0], text[n]...)
		p, err := s.GetProgramData(buf)
		vsym.Assert(err == nil, "a script does not compile")
		clear(buf)
		out := vOut(p)
		vsym.Observe("out", out)
		vsym.Assert(out == word[n], "another script's program was returned")
	}
	s.Close()
}
