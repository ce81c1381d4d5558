package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPrefix = "wiki2book"

// isModulePkg tells whether a package belongs to the verified module.
func isModulePkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPrefix || strings.HasPrefix(p.Path(), modPrefix+"/"))
}

// shortPkg is the package name used in contract keys.
func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPrefix {
		return "main"
	}
	return strings.TrimPrefix(p.Path(), modPrefix+"/")
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

type FieldInfo struct {
	name  string
	gt    types.Type
	sort  Sort // sort of the stored value
	boxed bool // recursive type: stored as Any
}

type StructInfo struct {
	key    string
	sort   Sort
	fields []FieldInfo
	st     *types.Struct
}

var (
	structInfos = map[string]*StructInfo{}
	inProgress  = map[string]bool{}
)

func opaqueSort(name string) Sort { return Sort(sanitizeName(name)) }

// structInfo describes a module struct type (nil if the type is not such a struct).
func structInfo(t types.Type) *StructInfo {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n, named := types.Unalias(t).(*types.Named)
	var key string
	if named {
		if !isModulePkg(n.Obj().Pkg()) {
			return nil
		}
		key = typeKey(t)
	} else {
		key = "struct:" + typeKey(t)
	}
	if si, ok := structInfos[key]; ok {
		return si
	}
	si := &StructInfo{key: key, sort: opaqueSort(key), st: st}
	structInfos[key] = si
	inProgress[key] = true
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fi := FieldInfo{name: f.Name(), gt: f.Type()}
		if mentionsInProgress(f.Type()) {
			fi.boxed = true
			fi.sort = SAny
		} else {
			fi.sort = sortOf(f.Type())
		}
		si.fields = append(si.fields, fi)
	}
	delete(inProgress, key)
	d := &Datatype{name: si.sort}
	for _, f := range si.fields {
		d.fields = append(d.fields, f.sort)
	}
	datatypes[si.sort] = d
	return si
}

// mentionsInProgress: does the value type (through slices and structs) contain a struct being defined?
func mentionsInProgress(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if inProgress[typeKey(t)] {
			return true
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && !isModulePkg(n.Obj().Pkg()) {
			return false
		}
		if _, ok := structInfos[typeKey(t)]; ok {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if mentionsInProgress(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Slice:
		return mentionsInProgress(u.Elem())
	case *types.Array:
		return mentionsInProgress(u.Elem())
	}
	return false
}

func (si *StructInfo) index(name string) int {
	for i, f := range si.fields {
		if f.name == name {
			return i
		}
	}
	return -1
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func sortOf(t types.Type) Sort {
	if isBuilder(t) {
		return SString
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SString
		case u.Kind() == types.UntypedNil:
			return SAny
		}
		return SInt
	case *types.Slice:
		if isByteSlice(t) {
			return SString
		}
		return SeqOf(sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	case *types.Struct:
		if si := structInfo(t); si != nil {
			return si.sort
		}
		return opaqueSort(typeKey(t))
	case *types.Pointer, *types.Map, *types.Chan:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Signature:
		return SFn
	case *types.Tuple:
		return SInt
	}
	panic(fmt.Sprintf("no sort for type %s", t))
}

// getField reads a field of a struct value.
func getField(si *StructInfo, v *Term, i int) *Term {
	f := si.fields[i]
	x := FieldOf(v, i, f.sort)
	if f.boxed {
		return Unbox(typeKey(f.gt), sortOf(f.gt), x)
	}
	return x
}

// wrapField turns a value into the form stored in the datatype.
func wrapField(f FieldInfo, v *Term) *Term {
	if f.boxed {
		return Box(typeKey(f.gt), v)
	}
	return v
}

func setField(si *StructInfo, v *Term, i int, nv *Term) *Term {
	args := make([]*Term, len(si.fields))
	for k, f := range si.fields {
		if k == i {
			args[k] = wrapField(f, nv)
		} else {
			args[k] = FieldOf(v, k, f.sort)
		}
	}
	return Ctor(si.sort, args...)
}

func zeroValue(t types.Type) *Term {
	s := sortOf(t)
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SString:
		return Str("")
	case SReal:
		return mk("int", SReal, "", Int(0).i)
	case SAny:
		return NilT
	case SFn:
		return Var("nilFn", SFn)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SeqEmpty(s)
	case *types.Array:
		if u.Len() <= 64 {
			var parts []*Term
			for i := int64(0); i < u.Len(); i++ {
				parts = append(parts, zeroValue(u.Elem()))
			}
			return SeqFromParts(s, parts)
		}
		return Var("zero$"+string(sanitizeName(string(s))), s)
	case *types.Struct:
		if si := structInfo(t); si != nil {
			var args []*Term
			for _, f := range si.fields {
				args = append(args, wrapField(f, zeroValue(f.gt)))
			}
			return Ctor(si.sort, args...)
		}
	}
	return Var("zero$"+sanitizeName(string(s)), s)
}

// boxName is the dynamic-type name used for interface values.
func boxName(t types.Type) string { return typeKey(t) }

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Slice, *types.Signature:
		return true
	}
	return false
}
