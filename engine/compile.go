package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg  int // >=0: register
	c    value
	glob *ssa.Global
}

type instr struct {
	i   ssa.Instruction
	dst int
	ops []opnd
	// per-instruction caches
	t    types.Type
	num  numInfo
	aux  int
	fn   *ssa.Function
	args []opnd
}

type blk struct {
	phis   []instr
	ins    []instr
	succs  []int
	preds  []int
	nInstr int
}

type fnInfo struct {
	fn       *ssa.Function
	key      string
	nregs    int
	blocks   []blk
	recover  int
	intr     intrinsic
	model    *ssa.Function // replacement written in Go
	isRepo   bool
	hasDefer bool
	panicky  bool
	isModel  bool
}

type intrinsic func(th *thread, fi *fnInfo, args []value) value

var fnCache sync.Map // *ssa.Function -> *fnInfo
var compileMu sync.Mutex

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg
	}
	if p := fn.Parent(); p != nil {
		return pkgOf(p)
	}
	return nil
}

func getFn(fn *ssa.Function) *fnInfo {
	if f, ok := fnCache.Load(fn); ok {
		return f.(*fnInfo)
	}
	compileMu.Lock()
	defer compileMu.Unlock()
	if f, ok := fnCache.Load(fn); ok {
		return f.(*fnInfo)
	}
	fi := compileFn(fn)
	fnCache.Store(fn, fi)
	return fi
}

func compileFn(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, key: fnKey(fn), recover: -1}
	p := pkgOf(fn)
	if p != nil {
		fi.isRepo = strings.HasPrefix(p.Pkg.Path(), modPath)
		fi.isModel = strings.Contains(p.Pkg.Path(), "/internal/vmodel") || strings.Contains(p.Pkg.Path(), "/internal/vsym")
		if fi.isModel {
			fi.isRepo = false
		}
	}
	if m, ok := models[fi.key]; ok && m != fn {
		fi.model = m
		return fi
	}
	if in, ok := intrinsics[fi.key]; ok {
		fi.intr = in
		return fi
	}
	if p != nil {
		if in, ok := pkgIntrinsics[p.Pkg.Path()]; ok && !(fn.Synthetic != "" && fn.Name() == "init") {
			fi.intr = in
			return fi
		}
		p.Build()
	}
	if fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	operand := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			return opnd{reg: -1, c: constValue(v)}
		case *ssa.Global:
			return opnd{reg: -2, glob: v}
		case *ssa.Function:
			return opnd{reg: -1, c: &closure{fn: v}}
		case *ssa.Builtin:
			return opnd{reg: -1, c: builtinVal{v}}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.String())
		}
		return opnd{reg: r}
	}
	for _, b := range fn.Blocks {
		var bl blk
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, s.Index)
		}
		for _, s := range b.Preds {
			bl.preds = append(bl.preds, s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := instr{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				in.dst = regs[v]
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupportedErr); ok {
							in.i = nil
							in.ops = []opnd{{c: u.msg}}
							return
						}
						panic(r)
					}
				}()
				switch x := i.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					if c.IsInvoke() {
						in.ops = []opnd{operand(c.Value)}
					} else if f, ok := c.Value.(*ssa.Function); ok {
						in.fn = f
					} else {
						in.ops = []opnd{operand(c.Value)}
					}
					for _, a := range c.Args {
						in.args = append(in.args, operand(a))
					}
					if _, ok := i.(*ssa.Defer); ok {
						fi.hasDefer = true
					}
				default:
					var rands []*ssa.Value
					for _, op := range i.Operands(rands) {
						if *op == nil {
							in.ops = append(in.ops, opnd{reg: -1})
						} else {
							in.ops = append(in.ops, operand(*op))
						}
					}
				}
				switch x := i.(type) {
				case *ssa.BinOp:
					in.num, _ = basicNum(x.X.Type())
				case *ssa.UnOp:
					in.num, _ = basicNum(x.Type())
				case *ssa.MakeInterface:
					in.t = canon(x.X.Type())
				case *ssa.TypeAssert:
					in.t = canon(x.AssertedType)
				}
			}()
			if _, ok := i.(*ssa.Phi); ok {
				bl.phis = append(bl.phis, in)
			} else {
				bl.ins = append(bl.ins, in)
			}
		}
		fi.blocks = append(fi.blocks, bl)
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}
