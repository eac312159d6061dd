package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type harness struct {
	name   string // function name
	pkg    string // import path
	dir    string // directory relative to the repository
	fn     *ssa.Function
	opts   map[string]string
	bounds []string
	assume []string
	races  bool

	ex     *explorer
	native map[string]int // counters
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	verif   = flag.String("verif", "/verif", "verification directory")
	checkID = flag.String("check", "", "property id")
	tier    = flag.String("tier", "quick", "tier")
	only    = flag.String("only", "", "run only harnesses whose name contains this")
	verbose = flag.Bool("v", false, "verbose")
	noRep   = flag.Bool("noreplay", false, "skip native replay")
	workers = flag.Int("workers", 0, "workers")
	budget  = flag.Int("budget", 0, "seconds per harness (overrides)")
	list    = flag.Bool("list", false, "list harnesses")
	replayF = flag.String("replay", "", "replay a violation file natively")
)

type overlay struct {
	files map[string][]byte // absolute target -> content
	src   map[string]string // absolute target -> source path
}

func (o *overlay) addTree(root, base string) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		t := filepath.Join(base, rel)
		o.files[t] = b
		o.src[t] = p
		return nil
	})
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// harnessFilesFor lists the harness packages that mention the property.
func harnessDirs(o *overlay, id string) []string {
	seen := map[string]bool{}
	re := regexp.MustCompile(`(?m)^//vsym:harness (\S+,)?` + id + `(,\S+)?( |$)`)
	for t, b := range o.files {
		if strings.Contains(filepath.Base(t), "zz_vsym") && re.Match(b) {
			rel, _ := filepath.Rel(*repo, filepath.Dir(t))
			seen[rel] = true
		}
	}
	var l []string
	for d := range seen {
		l = append(l, d)
	}
	sort.Strings(l)
	return l
}

func loadProgram(o *overlay, dirs []string) (*ssa.Program, []*packages.Package, []string) {
	var dropped []string
	for try := 0; try < 6; try++ {
		pats := []string{}
		for _, d := range dirs {
			pats = append(pats, "./"+d)
		}
		if _, ok := o.files[filepath.Join(*repo, "internal/vmodel/vmodel.go")]; ok {
			pats = append(pats, "./internal/vmodel")
		}
		cfg := &packages.Config{
			Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:     *repo,
			Env:     append(os.Environ(), "CGO_ENABLED=0"),
			Overlay: o.files,
		}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			fatal("load: %v", err)
		}
		bad := map[string]bool{}
		repoBad := ""
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.Index(file, ":"); i > 0 {
					file = file[:i]
				}
				if *verbose || try > 0 {
					fmt.Fprintln(os.Stderr, "load:", e)
				}
				if strings.Contains(filepath.Base(file), "zz_vsym") || strings.Contains(file, "/internal/vmodel/") {
					bad[file] = true
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					repoBad = e.Error()
				}
			}
		})
		if len(bad) == 0 {
			if repoBad != "" {
				fatal("the repository does not compile: %s", repoBad)
			}
			prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
			return prog, ps, dropped
		}
		for f := range bad {
			fmt.Fprintf(os.Stderr, "harness file %s does not compile against this tree, dropped\n", f)
			dropped = append(dropped, filepath.Base(f))
			delete(o.files, f)
			delete(o.src, f)
		}
	}
	fatal("harness files do not compile")
	return nil, nil, nil
}

func directives(g *ast.CommentGroup) []string {
	if g == nil {
		return nil
	}
	var l []string
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, "//vsym:") {
			l = append(l, strings.TrimPrefix(c.Text, "//vsym:"))
		}
	}
	return l
}

func discover(prog *ssa.Program, ps []*packages.Package, id string) []*harness {
	own := map[string]*ssa.Function{}
	var hs []*harness
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				dirs := directives(fd.Doc)
				if len(dirs) == 0 {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := prog.FuncValue(obj)
				var h *harness
				for _, s := range dirs {
					kind, rest, _ := strings.Cut(s, " ")
					switch kind {
					case "model":
						if strings.Contains(p.PkgPath, "/internal/vmodel") {
							models[strings.TrimSpace(rest)] = fn
						} else {
							own[strings.TrimSpace(rest)] = fn
						}
					case "harness":
						ff := strings.Fields(rest)
						for _, one := range strings.Split(ff[0], ",") {
							if one == id || id == "" {
								h = &harness{name: fd.Name.Name, pkg: p.PkgPath, fn: fn, opts: map[string]string{}, native: map[string]int{}}
								h.opts["id"] = ff[0]
								for _, o := range ff[1:] {
									k, v, _ := strings.Cut(o, "=")
									h.opts[k] = v
								}
								rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
								h.dir = rel
							}
						}
					}
				}
				if h != nil {
					for _, s := range dirs {
						kind, rest, _ := strings.Cut(s, " ")
						switch kind {
						case "bound":
							h.bounds = append(h.bounds, rest)
						case "assume":
							h.assume = append(h.assume, rest)
						}
					}
					if t := h.opts["tier"]; t != "" && t != *tier {
						continue
					}
					if *only != "" && !strings.Contains(h.name, *only) {
						continue
					}
					hs = append(hs, h)
				}
			}
		}
	})
	// models beside harnesses are for these alone
	for k, fn := range own {
		for _, h := range hs {
			if h.fn.Pkg == fn.Pkg {
				models[k] = fn
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs
}

func (h *harness) num(k string, def int) int {
	if *tier == "thorough" {
		if v, err := strconv.Atoi(h.opts["t"+k]); err == nil {
			return v
		}
	}
	if v, err := strconv.Atoi(h.opts[k]); err == nil {
		return v
	}
	return def
}

func main() {
	flag.Parse()
	debug.SetMemoryLimit(16 << 30)
	debug.SetGCPercent(200)
	start := time.Now()
	o := &overlay{files: map[string][]byte{}, src: map[string]string{}}
	o.addTree(filepath.Join(*verif, "overlay"), *repo)
	o.addTree(filepath.Join(*verif, "harness"), *repo)
	if *replayF != "" {
		os.Exit(replayFile(o, *replayF))
	}
	dirs := harnessDirs(o, *checkID)
	if len(dirs) == 0 {
		fatal("no harness for %s", *checkID)
	}
	// only the harness files of the packages in use
	prog, ps, dropped := loadProgram(o, dirs)
	hs := discover(prog, ps, *checkID)
	if len(hs) == 0 && len(dropped) == 0 {
		fatal("no harness for %s", *checkID)
	}
	loadT := time.Since(start)
	// native builds proceed while the engine explores
	scratch, err := os.MkdirTemp("", "vsym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	nb := newNative(o, scratch)
	if !*noRep {
		nb.prepare(hs, prog)
	}

	known := loadKnown()
	rtErr := types.Type(nil)
	if p := prog.ImportedPackage("runtime"); p != nil {
		if m := p.Type("errorString"); m != nil {
			rtErr = canon(m.Type())
		}
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	// all harnesses of a check share a time limit, which leaves time for the
	// native runs
	left := 480.0
	if *tier == "thorough" {
		left = 700
	}
	for i, h := range hs {
		secs := h.num("time", 60)
		sum := 0
		for _, g := range hs[i:] {
			sum += g.num("time", 60)
		}
		if float64(sum) > left {
			secs = int(float64(secs) * left / float64(sum))
		}
		if *budget > 0 {
			secs = *budget
		}
		ex := &explorer{prog: prog, entry: h.fn, name: h.name, tier: *tier, rtErrType: rtErr,
			maxSteps: int64(h.num("steps", 3_000_000)), maxPaths: h.num("paths", 0),
			deadline: time.Now().Add(time.Duration(secs) * time.Second), timeoutMS: h.num("qtime", 10000), workers: nw,
			nSamples: h.num("samples", 16)}
		h.ex = ex
		t := time.Now()
		ex.run()
		left -= time.Since(t).Seconds()
		fmt.Printf("%s: %.1fs %s\n", h.name, time.Since(t).Seconds(), ex.summary())
	}

	// native replay of counterexamples and of sampled paths
	var confirmed []*Candidate
	confirmedBy := map[*Candidate]Result{}
	unconfirmed := map[string]int{}
	validated, diverged := 0, 0
	var divNotes []string
	if !*noRep {
		type slot struct {
			h *harness
			c *Candidate
			s *PathSample
		}
		byDir := map[string][]slot{}
		var order []string
		for _, h := range hs {
			if _, ok := byDir[h.dir]; !ok {
				order = append(order, h.dir)
			}
			byDir[h.dir] = append(byDir[h.dir], []slot{}...)
			for _, c := range h.ex.cands {
				byDir[h.dir] = append(byDir[h.dir], slot{h: h, c: c})
			}
			if h.opts["validate"] != "no" {
				for i := range h.ex.samples {
					byDir[h.dir] = append(byDir[h.dir], slot{h: h, s: &h.ex.samples[i]})
				}
			}
		}
		for _, d := range order {
			sl := byDir[d]
			if len(sl) == 0 {
				continue
			}
			var cases []nativeCase
			for _, s := range sl {
				nc := nativeCase{Harness: s.h.name, Tier: *tier, Repeat: 1}
				if s.c != nil {
					nc.Values = s.c.Values
					nc.Cand = true
					nc.Repeat = s.h.num("repeat", 1)
					nc.Seconds = s.h.num("rsecs", 10)
				} else {
					nc.Values = s.s.Values
				}
				cases = append(cases, nc)
			}
			res, err := nb.run(d, cases)
			if err != nil {
				fmt.Fprintln(os.Stderr, "native replay:", err)
				divNotes = append(divNotes, "native replay failed: "+err.Error())
			}
			for i, s := range sl {
				r, ok := res[i]
				if !ok {
					if s.c != nil {
						unconfirmed[s.c.Harness+": "+s.c.Msg+" (no native answer)"]++
					}
					continue
				}
				bad := len(r.Fails) > 0 || r.Panic != ""
				if s.c != nil {
					if bad {
						confirmed = append(confirmed, s.c)
						confirmedBy[s.c] = r
						s.h.native["confirmed"]++
					} else {
						unconfirmed[s.c.Harness+": "+s.c.Kind+" "+s.c.Msg]++
						s.h.native["unconfirmed"]++
						if *verbose {
							j, _ := json.MarshalIndent(s.c, "", " ")
							fmt.Printf("UNCONFIRMED %s\n native: %+v\n", j, r)
						}
					}
					continue
				}
				if bad {
					// a sampled path the engine considers correct fails natively
					c := &Candidate{Harness: s.h.name, Kind: "native", Msg: strings.Join(r.Fails, "; ") + firstLine(r.Panic), Values: s.s.Values}
					confirmed = append(confirmed, c)
					confirmedBy[c] = r
					s.h.native["native_only"]++
					continue
				}
				if s.s.Partial {
					s.h.native["partial"]++
					continue
				}
				if !r.Skip && sameObs(s.s.Obs, r.Obs) {
					validated++
					s.h.native["validated"]++
				} else {
					diverged++
					s.h.native["diverged"]++
					if len(divNotes) < 5 {
						divNotes = append(divNotes, fmt.Sprintf("%s: engine %v, native %v (skip=%v) for %v", s.h.name, s.s.Obs, r.Obs, r.Skip, s.s.Values))
					}
				}
			}
		}
	}
	for k, n := range unconfirmed {
		fmt.Printf("note: counterexample not reproduced natively, not reported: %s x%d\n", k, n)
	}
	for _, n := range divNotes {
		fmt.Println("note: divergence:", n)
	}

	// report
	exit := 0
	os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
	seen := map[string]bool{}
	nviol := 0
	knownHit := map[string]bool{}
	if len(confirmed) == 0 && *noRep {
		for _, h := range hs {
			confirmed = append(confirmed, h.ex.cands...)
		}
	}
	for _, c := range confirmed {
		r := confirmedBy[c]
		text := c.Msg + "\n" + strings.Join(r.Fails, "\n") + "\n" + r.Panic
		if k := matchKnown(known, *checkID, c.Harness, text, r); k != nil {
			if !knownHit[k.What] {
				knownHit[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *checkID, k.What)
			}
			continue
		}
		key := c.Harness + "|" + strings.Join(r.Fails, ";") + firstLine(r.Panic)
		if len(r.Fails) == 0 && r.Panic == "" {
			key += c.Msg
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		nviol++
		if nviol > 8 {
			continue
		}
		path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d.json", *checkID, nviol))
		h := findH(hs, c.Harness)
		j, _ := json.MarshalIndent(map[string]any{"property": *checkID, "harness": c.Harness, "dir": h.dir, "tier": *tier, "kind": c.Kind, "msg": c.Msg, "pos": c.Pos, "values": c.Values, "schedule": c.Trace, "obs": c.Obs, "native": r, "repeat": h.num("repeat", 1), "race": h.opts["race"], "mods": h.opts["mods"], "hooks": h.opts["hooks"]}, "", " ")
		os.WriteFile(path, j, 0o644)
		fmt.Printf("violation in %s: %s%s\n", c.Harness, strings.Join(r.Fails, "; "), firstLine(r.Panic))
		if c.Pos != "" {
			fmt.Println("   at", c.Pos)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *checkID, path)
		exit = 1
	}
	writeEvidence(hs, loadT, time.Since(start), validated, diverged, divNotes, unconfirmed, nviol, dropped, len(knownHit))
	fmt.Printf("%s %s: %d harnesses, %d violations, %d paths validated natively, %d divergences, %.1fs\n", *checkID, *tier, len(hs), nviol, validated, diverged, time.Since(start).Seconds())
	os.RemoveAll(scratch)
	os.Exit(exit)
}

func findH(hs []*harness, n string) *harness {
	for _, h := range hs {
		if h.name == n {
			return h
		}
	}
	return hs[0]
}

func firstLine(s string) string {
	if s == "" {
		return ""
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return "panic: " + s
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func loadKnown() []knownFinding {
	var l []knownFinding
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json"))
	if err == nil {
		var f struct {
			Findings []knownFinding `json:"findings"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fatal("known_findings.json: %v", err)
		}
		l = f.Findings
	}
	return l
}

// matchKnown accepts a violation as known only when every native failure of
// the case is the listed one.
func matchKnown(l []knownFinding, id, h, text string, r Result) *knownFinding {
	for i := range l {
		k := &l[i]
		if k.Property != id || k.Harness != h || k.Match == "" {
			continue
		}
		ok := len(r.Fails) > 0 || r.Panic != ""
		for _, f := range r.Fails {
			if !strings.Contains(f, k.Match) {
				ok = false
			}
		}
		if r.Panic != "" && !strings.Contains(r.Panic, k.Match) {
			ok = false
		}
		if ok {
			return k
		}
	}
	return nil
}

// ---- native execution ----

type nativeCase struct {
	Harness string            `json:"harness"`
	Values  map[string]uint64 `json:"values"`
	Tier    string            `json:"tier"`
	Repeat  int               `json:"repeat"`
	Seconds int               `json:"seconds"`
	Cand    bool              `json:"-"` // a counterexample, not a sample
}

type Result struct {
	Index int      `json:"index"`
	Stage string   `json:"stage"`
	Fails []string `json:"fails,omitempty"`
	Panic string   `json:"panic,omitempty"`
	Obs   []string `json:"obs,omitempty"`
	Skip  bool     `json:"skip,omitempty"`
	Runs  int      `json:"runs,omitempty"`
}

type native struct {
	o        *overlay
	scratch  string
	modsOnce sync.Once
	modFile  string
	modErr   error
	mu       sync.Mutex
	built    map[string]chan error
}

func newNative(o *overlay, scratch string) *native {
	return &native{o: o, scratch: scratch, built: map[string]chan error{}}
}

func (n *native) bin(dir string) string {
	return filepath.Join(n.scratch, strings.ReplaceAll(dir, "/", "_")+".test")
}

func (n *native) prepare(hs []*harness, prog *ssa.Program) {
	names := map[string][]string{}
	pkgName := map[string]string{}
	race := map[string]bool{}
	mods := map[string]bool{}
	hooks := map[string]bool{}
	for _, h := range hs {
		names[h.dir] = append(names[h.dir], h.name)
		pkgName[h.dir] = h.fn.Pkg.Pkg.Name()
		if h.opts["race"] == "yes" {
			race[h.dir] = true
		}
		if h.opts["mods"] == "yes" {
			mods[h.dir] = true
		}
		if h.opts["hooks"] == "service" {
			hooks[h.dir] = true
		}
	}
	for d, l := range names {
		n.build(d, pkgName[d], l, race[d], mods[d], hooks[d])
	}
}

func (n *native) build(dir, pkg string, names []string, race, mods, hooks bool) {
	ch := make(chan error, 1)
	n.built[dir] = ch
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVsymReplay(t *testing.T) {\n\terr := vsym.RunCases(map[string]func(){\n", pkg, vsymPath)
	for _, x := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", x, x)
	}
	sb.WriteString("\t})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n")
	tag := strings.ReplaceAll(dir, "/", "_")
	tf := filepath.Join(n.scratch, tag+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	rep := map[string]string{filepath.Join(*repo, dir, "zz_vsym_replay_test.go"): tf}
	for t, s := range n.o.src {
		rep[t] = s
	}
	// the package's own tests are not needed
	ents, _ := filepath.Glob(filepath.Join(*repo, dir, "*_test.go"))
	for _, e := range ents {
		if e != filepath.Join(*repo, dir, "zz_vsym_replay_test.go") {
			rep[e] = ""
		}
	}
	if hooks {
		n.hooks(tag, rep)
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(n.scratch, tag+"_overlay.json")
	os.WriteFile(of, j, 0o644)
	go func() {
		args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", n.bin(dir)}
		if race {
			args = append(args, "-race")
		}
		if mods {
			mf, err := n.mods()
			if err != nil {
				ch <- err
				return
			}
			args = append(args, "-tags", "vsymmods", "-modfile", mf)
		}
		args = append(args, "./"+dir)
		cmd := exec.Command("go", args...)
		cmd.Dir = *repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("go test -c ./%s: %v\n%s", dir, err, out)
		}
		ch <- err
	}()
}

// faultPoints are the functions of the libraries that call a hook first: the
// text before the call and the call.
var faultPoints = []struct{ mod, file, after, call string }{
	{"github.com/dgraph-io/badger/v4", "txn.go", "func (txn *Txn) Get(key []byte) (item *Item, rerr error) {\n", `if err := vsymFault("kv.get"); err != nil { return nil, err }`},
	{"github.com/dgraph-io/badger/v4", "txn.go", "func (txn *Txn) modify(e *Entry) error {\n", `if err := vsymFault("kv.set"); err != nil { return err }`},
	{"github.com/dgraph-io/badger/v4", "txn.go", "func (txn *Txn) Commit() error {\n", `if len(txn.pendingWrites) > 0 { if err := vsymFault("kv.commit"); err != nil { return err } }`},
	{"github.com/dgraph-io/badger/v4", "iterator.go", "func (item *Item) Value(fn func(val []byte) error) error {\n", `if err := vsymFault("kv.value"); err != nil { return err }`},
	{"github.com/gernest/rbf", "db.go", "func (db *DB) Open() (err error) {\n", `if err := vsymFault("index.open"); err != nil { return err }`},
	{"github.com/gernest/rbf", "db.go", "func (db *DB) Begin(writable bool) (_ *Tx, err error) {\n", `if err := vsymFault("index.begin"); err != nil { return nil, err }`},
	{"github.com/gernest/rbf", "tx.go", "func (tx *Tx) Commit() error {\n", `if err := vsymFault("index.commit"); err != nil { return err }`},
	{"github.com/gernest/rbf", "tx.go", "func (tx *Tx) AddRoaring(name string, bm *roaring.Bitmap) (changed bool, err error) {\n", `if err := vsymFault("index.add"); err != nil { return false, err }`},
	{"github.com/gernest/rbf", "tx.go", "func (tx *Tx) ApplyFilter(name string, key uint64, filter roaring.BitmapFilter) (err error) {\n", `if err := vsymFault("index.filter"); err != nil { return err }`},
	{"github.com/gernest/rbf", "tx.go", "func (tx *Tx) OffsetRange(name string, offset, start, endx uint64) (*roaring.Bitmap, error) {\n", `if err := vsymFault("index.range"); err != nil { return nil, err }`},
}

var (
	reTicker = regexp.MustCompile(`\btime\.(NewTicker|Tick|After)\(`)
	reSave   = regexp.MustCompile(`(?m)^func \(\w+ \*Storage\) SaveSamples\(\w+ context\.Context, (\w+) \*samples\.List\) error \{\n`)
	reID     = regexp.MustCompile(`(?m)^func \(\w+ \*Seq\) SampleID\(\) uint64 \{\n`)
	rePkg    = regexp.MustCompile(`(?m)^package \w+\n`)
)

// hooks replaces, in copies of the sources, the ticker of the service and the
// storage behind it by those of vsvc, and lets others run after an id was taken.
func (n *native) hooks(tag string, rep map[string]string) {
	const imp = "\nimport vsymsvc \"" + modPath + "/internal/vmodel/vsvc\"\n"
	edit := func(dir string, f func(string) string) {
		l, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		for _, p := range l {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			b, err := os.ReadFile(p)
			if err != nil {
				continue
			}
			t := f(string(b))
			if t == string(b) {
				continue
			}
			i := rePkg.FindStringIndex(t)
			if i == nil {
				continue
			}
			t = t[:i[1]] + imp + t[i[1]:]
			o := filepath.Join(n.scratch, tag+"_"+strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(p))
			os.WriteFile(o, []byte(t), 0o644)
			rep[p] = o
		}
	}
	edit("internal/service", func(s string) string {
		t := reTicker.ReplaceAllString(s, "vsymsvc.$1(")
		if t != s {
			t += "\nvar _ = time.Now\n"
		}
		return t
	})
	edit("internal/seq", func(s string) string {
		return reID.ReplaceAllString(s, "${0}\tdefer vsymsvc.Pause()\n")
	})
	edit("internal/store", func(s string) string {
		return reSave.ReplaceAllString(s, "${0}\tif vsymsvc.Save != nil {\n\t\treturn vsymsvc.Save($1.Items)\n\t}\n")
	})
}

// mods writes copies of the storage libraries with fault points, and a
// go.mod using them.
func (n *native) mods() (string, error) {
	n.modsOnce.Do(func() { n.modFile, n.modErr = n.makeMods() })
	return n.modFile, n.modErr
}

func (n *native) makeMods() (string, error) {
	root := filepath.Join(n.scratch, "mods")
	dirs := map[string]string{}
	for _, p := range faultPoints {
		if dirs[p.mod] == "" {
			cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}\t{{.Dir}}", p.mod)
			cmd.Dir = *repo
			out, err := cmd.Output()
			if err != nil {
				return "", fmt.Errorf("go list -m %s: %v", p.mod, err)
			}
			src := strings.TrimSpace(strings.SplitN(string(out), "\t", 2)[0])
			dst := filepath.Join(root, strings.ReplaceAll(p.mod, "/", "_"))
			if err := copyTree(src, dst); err != nil {
				return "", err
			}
			pkg := "badger"
			if p.mod == "github.com/gernest/rbf" {
				pkg = "rbf"
			}
			os.WriteFile(filepath.Join(dst, "vsym_fault.go"), []byte("package "+pkg+"\n\n// VsymFault is called before every operation.\nvar VsymFault func(op string) error\n\nfunc vsymFault(op string) error {\n\tif VsymFault == nil {\n\t\treturn nil\n\t}\n\treturn VsymFault(op)\n}\n"), 0o644)
			dirs[p.mod] = dst
		}
		f := filepath.Join(dirs[p.mod], p.file)
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if strings.Count(string(b), p.after) != 1 {
			return "", fmt.Errorf("%s: no place for a fault point: %s", f, p.after)
		}
		os.WriteFile(f, []byte(strings.Replace(string(b), p.after, p.after+p.call+"\n", 1)), 0o644)
	}
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		return "", err
	}
	text := string(mod)
	for m, d := range dirs {
		text += "\nreplace " + m + " => " + d + "\n"
	}
	mf := filepath.Join(n.scratch, "vsym.mod")
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	os.WriteFile(filepath.Join(n.scratch, "vsym.sum"), sum, 0o644)
	return mf, os.WriteFile(mf, []byte(text), 0o644)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}

func (n *native) run(dir string, cases []nativeCase) (map[int]Result, error) {
	res := map[int]Result{}
	ch, ok := n.built[dir]
	if !ok {
		return res, fmt.Errorf("no native build for %s", dir)
	}
	err := <-ch
	ch <- err
	if err != nil {
		return res, err
	}
	tag := strings.ReplaceAll(dir, "/", "_")
	cf := filepath.Join(n.scratch, tag+"_cases.json")
	of := filepath.Join(n.scratch, tag+"_out.json")
	b, _ := json.Marshal(cases)
	os.WriteFile(cf, b, 0o644)
	os.Remove(of)
	from := 0
	work := filepath.Join(n.scratch, "work")
	os.MkdirAll(work, 0o755)
	deadline := time.Now().Add(300 * time.Second)
	deaths := map[int]int{}
	for from < len(cases) && time.Now().Before(deadline) {
		ctx, cancel := context.WithTimeout(context.Background(), 160*time.Second)
		cmd := exec.CommandContext(ctx, n.bin(dir), "-test.run", "^TestVsymReplay$", "-test.timeout", "150s")
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VSYM_CASES="+cf, "VSYM_OUT="+of, "VSYM_FROM="+strconv.Itoa(from), "VSYM_SCRATCH="+filepath.Join(work, "tmp"), "GORACE=halt_on_error=1", "TZ=UTC", "HOME="+work)
		out, rerr := cmd.CombinedOutput()
		late := ctx.Err() != nil || strings.Contains(string(out), "test timed out")
		cancel()
		started := from - 1
		f, err := os.Open(of)
		if err != nil {
			return res, fmt.Errorf("native run wrote nothing: %v %s", rerr, tail(out))
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var r Result
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			if r.Stage == "start" {
				started = max(started, r.Index)
				continue
			}
			res[r.Index] = r
		}
		f.Close()
		if _, done := res[started]; !done && started >= from {
			// the process died inside this case
			msg := tail(out)
			race := strings.Contains(string(out), "WARNING: DATA RACE")
			if race {
				msg = "DATA RACE\n" + msg
			}
			// The time limit is one for all the cases of a process, and a
			// process may die of what the machine does: a sample, or a case
			// that ran out of time, has to do it again as the first one of
			// another process.
			deaths[started]++
			if (late || !race && !cases[started].Cand) && (started != from || deaths[started] < 2) {
				from = started
				continue
			}
			if late && !cases[started].Cand {
				// too slow for an answer
				from = started + 1
				continue
			}
			res[started] = Result{Index: started, Stage: "done", Panic: "process exited: " + fmt.Sprint(rerr) + "\n" + msg}
			from = started + 1
			continue
		}
		if rerr != nil && started < from {
			return res, fmt.Errorf("native run: %v %s", rerr, tail(out))
		}
		break
	}
	return res, nil
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

func replayFile(o *overlay, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v struct {
		Harness, Dir, Tier, Race, Mods, Hooks string
		Values                                map[string]uint64
		Repeat                                int
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	pkg := filepath.Base(v.Dir)
	for t, c := range o.files {
		if filepath.Dir(t) == filepath.Join(*repo, v.Dir) && strings.HasPrefix(filepath.Base(t), "zz_vsym") {
			l := strings.SplitN(string(c[bytes.Index(c, []byte("package ")):]), "\n", 2)[0]
			pkg = strings.Fields(l)[1]
		}
	}
	scratch, _ := os.MkdirTemp("", "vsym")
	defer os.RemoveAll(scratch)
	n := newNative(o, scratch)
	n.build(v.Dir, pkg, []string{v.Harness}, v.Race == "yes", v.Mods == "yes", v.Hooks == "service")
	res, err := n.run(v.Dir, []nativeCase{{Harness: v.Harness, Values: v.Values, Tier: v.Tier, Repeat: v.Repeat, Seconds: 30, Cand: true}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := res[0]
	fmt.Printf("fails: %v\npanic: %s\nobs: %v\n", r.Fails, r.Panic, r.Obs)
	if len(r.Fails) > 0 || r.Panic != "" {
		return 1
	}
	return 0
}

// ---- evidence ----

func writeEvidence(hs []*harness, loadT, wall time.Duration, validated, diverged int, div []string, unconf map[string]int, nviol int, dropped []string, nknown int) {
	type hev struct {
		Harness     string         `json:"harness"`
		Package     string         `json:"package"`
		Bounds      []string       `json:"bounds"`
		Paths       int            `json:"paths"`
		Infeasible  int            `json:"infeasible_paths"`
		Decisions   int64          `json:"decisions"`
		Asserts     int64          `json:"assertions_checked"`
		ByConst     int64          `json:"assertions_decided_by_constant_folding"`
		Queries     int            `json:"solver_queries"`
		SolverS     float64        `json:"solver_seconds"`
		Unknown     int            `json:"solver_unknown"`
		Steps       int64          `json:"ssa_instructions_executed"`
		Complete    bool           `json:"all_paths_within_bounds_explored"`
		Unsupported map[string]int `json:"unsupported,omitempty"`
		Limits      map[string]int `json:"limits,omitempty"`
		Reached     map[string]int `json:"reached"`
		Functions   []string       `json:"functions_encoded"`
		Models      []string       `json:"functions_replaced_by_models,omitempty"`
		Native      map[string]int `json:"native_replay"`
	}
	var l []hev
	states, trans := 0, int64(0)
	funcs := map[string]bool{}
	var samples []any
	var assumptions []string
	aseen := map[string]bool{}
	q, st := 0, 0.0
	complete := true
	for _, h := range hs {
		ex := h.ex
		e := hev{Harness: h.name, Package: h.pkg, Bounds: h.bounds, Paths: ex.paths, Infeasible: ex.infeasible, Decisions: ex.decisions,
			Asserts: ex.asserts, ByConst: ex.assertConst, Queries: ex.queries, SolverS: ex.solverTime.Seconds(), Unknown: ex.unknowns,
			Steps: ex.steps, Unsupported: ex.unsupported, Limits: ex.limits, Reached: ex.reached, Native: h.native}
		e.Complete = !ex.timedOut && !ex.stopped && len(ex.unsupported) == 0 && len(ex.limits) == 0
		if !e.Complete {
			complete = false
		}
		for f := range ex.funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, "/internal/vsym") && !strings.Contains(f, "/internal/vmodel") && !strings.Contains(f, ".vsym") && !strings.Contains(f, ".Vsym") {
				e.Functions = append(e.Functions, strings.ReplaceAll(f, modPath+"/", ""))
				funcs[f] = true
			}
			if strings.Contains(f, "/internal/vmodel.") {
				e.Models = append(e.Models, strings.ReplaceAll(f, modPath+"/", ""))
			}
		}
		sort.Strings(e.Functions)
		sort.Strings(e.Models)
		states += ex.paths
		trans += ex.decisions
		q += ex.queries
		st += ex.solverTime.Seconds()
		for i, s := range ex.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": s.Values, "observed": s.Obs})
			}
		}
		for _, a := range h.assume {
			if !aseen[a] {
				aseen[a] = true
				assumptions = append(assumptions, a)
			}
		}
		l = append(l, e)
	}
	if len(samples) == 0 {
		for _, h := range hs {
			samples = append(samples, map[string]any{"harness": h.name, "reached": h.ex.reached})
		}
	}
	for _, d := range dropped {
		assumptions = append(assumptions, "harness file "+d+" does not compile against this tree and was dropped")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": *checkID, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":  complete,
			"explanation": "states counts symbolic execution paths (each stands for every input satisfying its path condition), transitions the branch/choice decisions taken on them; traces_validated_against_impl counts sampled paths whose observations the natively compiled code reproduced",
			"harnesses":   l, "functions_encoded": len(funcs), "solver_queries": q, "solver_seconds": st, "solver": solverBin,
			"divergences": diverged, "divergence_notes": div, "counterexamples_not_reproduced": unconf, "load_seconds": loadT.Seconds(), "known_findings_seen": nknown,
		},
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *checkID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
