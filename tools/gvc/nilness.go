package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nilWhenEmpty: all values the slice may come from are nil when they have no elements, so that a comparison with nil is a
// comparison of the length with zero.
func (ex *Exec) nilWhenEmpty(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ex.nilWhenEmpty(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return ex.nilWhenEmpty(x.X, seen)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return false
		}
		at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		return ok && at.Len() > 0
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL || !ex.cellable(al) {
			return false
		}
		return ex.storesNilWhenEmpty(al, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ex.callNilWhenEmpty(&c.Call, x.Index, seen)
		}
	case *ssa.Call:
		return ex.callNilWhenEmpty(&x.Call, 0, seen)
	}
	return false
}

// storesNilWhenEmpty looks at all assignments of a local variable of the function (a variable starts as nil).
func (ex *Exec) storesNilWhenEmpty(al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	for _, r := range *al.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr != al || !ex.nilWhenEmpty(s.Val, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false // captured or otherwise assigned
		}
	}
	return true
}

func (ex *Exec) callNilWhenEmpty(c *ssa.CallCommon, i int, seen map[ssa.Value]bool) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return len(c.Args) > 0 && ex.nilWhenEmpty(c.Args[0], seen) // appending nothing keeps nil
	}
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	if strings.HasPrefix(fn.String(), "(*regexp.Regexp).Find") {
		ex.trusted["regexp.Regexp.Find* (nil without a match)"] = true
		return true
	}
	if len(fn.Blocks) == 0 || fn.Pkg == nil || !isModulePkg(fn.Pkg.Pkg) {
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if i >= len(r.Results) || !ex.nilWhenEmpty(r.Results[i], seen) {
				return false
			}
		}
	}
	return true
}
