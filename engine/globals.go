package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables are initialised lazily: the first use of a global
// executes the slice of its package's synthesized initialiser that computes
// it. User-written init() functions are not run.

type initSlice struct {
	body []*ssa.BasicBlock
	ins  map[*ssa.Global]map[ssa.Instruction]bool
	bad  map[*ssa.Global]bool
}

var initMu sync.Mutex
var initSlices = map[*ssa.Package]*initSlice{}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func getInitSlice(p *ssa.Package, g *ssa.Global) (map[ssa.Instruction]bool, *ssa.Function) {
	initMu.Lock()
	defer initMu.Unlock()
	p.Build()
	fn := p.Func("init")
	if fn == nil {
		return nil, nil
	}
	s := initSlices[p]
	if s == nil {
		s = &initSlice{ins: map[*ssa.Global]map[ssa.Instruction]bool{}}
		initSlices[p] = s
	}
	if m, ok := s.ins[g]; ok {
		return m, fn
	}
	m := map[ssa.Instruction]bool{}
	s.ins[g] = m
	var work []ssa.Value
	addInstr := func(i ssa.Instruction) {
		if m[i] {
			return
		}
		m[i] = true
		var ops []*ssa.Value
		for _, o := range i.Operands(ops) {
			if *o != nil {
				work = append(work, *o)
			}
		}
		if v, ok := i.(ssa.Value); ok {
			work = append(work, v)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && rootGlobal(st.Addr) == g {
				addInstr(i)
			}
		}
	}
	seen := map[ssa.Value]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] {
			continue
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || i.Parent() != fn {
			continue
		}
		addInstr(i)
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v {
						addInstr(r)
					}
				case *ssa.MapUpdate:
					if r.Map == v {
						addInstr(r)
					}
				case *ssa.FieldAddr:
					addInstr(r)
				case *ssa.IndexAddr:
					addInstr(r)
				case *ssa.Slice:
					addInstr(r)
				}
			}
		case *ssa.Phi:
			// control flow in the initialiser: include the branch conditions
			for _, b := range fn.Blocks {
				if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Index != 0 {
					addInstr(c)
				}
			}
		}
	}
	return m, fn
}

func (in *interp) globalAddr(g *ssa.Global) *value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if p, ok := in.stdGlobals[g]; ok {
		return p
	}
	p := new(value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	path := g.Pkg.Pkg.Path()
	perPath := strings.HasPrefix(path, modPath)
	if perPath {
		in.globals[g] = p
	} else {
		in.stdGlobals[g] = p
	}
	if strings.HasPrefix(g.Name(), "init$guard") {
		return p
	}
	set, fn := getInitSlice(g.Pkg, g)
	if len(set) == 0 {
		return p
	}
	in.runInit(fn, set)
	return p
}

func (in *interp) runInit(fn *ssa.Function, set map[ssa.Instruction]bool) {
	fi := getFn(fn)
	th := in.cur
	fr := &frame{caller: th.frame, fi: fi, regs: make([]value, fi.nregs), prev: -1}
	saved := th.frame
	th.frame = fr
	in.noSched++
	races := in.races
	in.races = false
	defer func() { th.frame = saved; in.noSched--; in.races = races }()
	// the initialiser body starts at the successor of the guard test
	cur := 0
	if len(fi.blocks) > 1 {
		cur = fi.blocks[0].succs[1]
		if len(fi.blocks[0].ins) > 0 {
			if _, ok := fi.blocks[0].ins[len(fi.blocks[0].ins)-1].i.(*ssa.If); !ok {
				cur = 0
			}
		}
	}
	prev := 0
	for n := 0; n < 100000; n++ {
		b := &fi.blocks[cur]
		for i := range b.phis {
			ph := &b.phis[i]
			if !set[ph.i] {
				continue
			}
			for k, pr := range b.preds {
				if pr == prev {
					fr.regs[ph.dst] = fr.get(in, ph.ops[k])
				}
			}
		}
		next := -1
		for k := range b.ins {
			is := &b.ins[k]
			fr.cur = is
			switch is.i.(type) {
			case *ssa.Jump:
				next = b.succs[0]
				continue
			case *ssa.If:
				if !set[is.i] {
					next = b.succs[0]
					continue
				}
				if in.branch(fr.get(in, is.ops[0]).(*Term)) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				continue
			case *ssa.Return:
				return
			case nil:
				continue
			}
			if set[is.i] {
				th.exec(fr, is)
			}
		}
		if next < 0 {
			return
		}
		prev, cur = cur, next
	}
}
