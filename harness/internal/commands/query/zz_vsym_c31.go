package query

import (
	"io"
	"log/slog"
	"os"
	"os/signal"
	"strings"
	"syscall"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/vmodel"
	_ "github.com/gernest/requiemdb/internal/vmodel/vbuild"
	"github.com/gernest/requiemdb/internal/vmodel/vjs"
	"github.com/gernest/requiemdb/internal/vsym"
)

const vPost = `")`

var vPre = `out("`

// vOut is what a program prints first.
func vOut(p *goja.Program) (s string) {
	if vsym.Symbolic() {
		t := vjs.Text(p)
		if len(t) < len(vPre)+len(vPost) || t[:len(vPre)] != vPre || t[len(t)-len(vPost):] != vPost {
			return "?"
		}
		return t[len(vPre) : len(t)-len(vPost)]
	}
	r := goja.New()
	r.Set("out", func(v string) { s += v })
	_, err := r.RunProgram(p)
	vsym.Assert(err == nil, "a program does not run")
	return s
}

func vScript(l string) (text, word string) {
	word = vsym.Str(l, 1+vsym.Choose(l+".len", 2))
	for i := range word {
		vsym.Assume(vsym.And(word[i] >= 'a', word[i] <= 'z'))
	}
	return vPre + word + vPost, word
}

func vHome() {
	os.Setenv("HOME", vsym.TempDir())
	os.Setenv("TMPDIR", vsym.TempDir())
}

var vLog = slog.New(slog.NewTextHandler(io.Discard, nil))

// VsymBuild builds scripts, some for the second time.
//
//vsym:harness C31 time=100 ttime=300
//vsym:bound two scripts that print any word of one or two letters and one that does not parse, after nothing or after 7000 bytes they have in common, built in any order three times (thorough: four) with one cache directory
//vsym:assume the bundler keeps the meaning of a script
func VsymBuild() {
	vHome()
	vPre = `out("`
	if vsym.Choose("bundled", 2) == 1 {
		vPre = "/*" + strings.Repeat(" a library\n", 700) + "*/" + vPre
	}
	var text, word [2]string
	text[0], word[0] = vScript("a")
	text[1], word[1] = vScript("b")
	for i := 0; i < vsym.Bound(3, 4); i++ {
		n := vsym.Choose("script", 3)
		if n == 2 {
			_, err := build(vLog, []byte("("+text[0]))
			vsym.Assert(err != nil, "a script that does not parse builds")
			continue
		}
		p, err := build(vLog, []byte(text[n]))
		vsym.Assert(err == nil, "a script does not build")
		out := vOut(p)
		vsym.Observe("out", out)
		vsym.Assert(out == word[n], "another script's program was built")
	}
}

type vCrash struct{}

// vInterrupted builds a script in a process that dies while it writes.
func vInterrupted(text string) (done bool) {
	if !vsym.Symbolic() {
		// the file of the compiled script cannot grow to its full size
		full, err := compile.Compile([]byte(text))
		vsym.Assert(err == nil, "a script does not compile")
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		vsym.Assert(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) == nil, "no limit")
		cut := uint64(len(full) - 8)
		if vsym.Choose("crash", 2) == 0 {
			cut = old.Cur
		}
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: cut, Max: old.Max})
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		_, err = build(vLog, []byte(text))
		return err == nil
	}
	left := -1
	if vsym.Choose("crash", 2) == 1 {
		left = vsym.Choose("write", 8)
	}
	defer func() {
		vmodel.FSWrite = nil
		if r := recover(); r != nil {
			if _, ok := r.(vCrash); !ok {
				panic(r)
			}
			done = false
		}
	}()
	vmodel.FSWrite = func(string, int) {
		if left == 0 {
			panic(vCrash{})
		}
		left--
	}
	_, err := build(vLog, []byte(text))
	return err == nil
}

// VsymInterrupted builds a script after a run that was interrupted while it
// built the same one.
//
//vsym:harness C31 time=60 ttime=200
//vsym:bound a script of any word of one or two letters, a crash after no or half of the bytes of any file written by the first run (or none), then two runs
//vsym:assume the bundler keeps the meaning of a script; renames are atomic and do not overtake the data of the file
func VsymInterrupted() {
	vHome()
	text, word := vScript("a")
	if !vsym.Symbolic() {
		// bundled, it is larger than any file written to bundle it
		text = strings.Repeat(";out('');", 20000) + text
	}
	vInterrupted(text)
	for i := 0; i < 2; i++ {
		p, err := build(vLog, []byte(text))
		vsym.Assert(err == nil, "a script does not build after an interrupted run")
		out := vOut(p)
		vsym.Observe("out", out)
		vsym.Assert(out == word, "a truncated script is used after an interrupted run")
	}
}
