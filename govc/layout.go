package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// ---- how Go types are laid out as terms

func qual(p *types.Package) string { return p.Name() }

var typeKeyCache sync.Map

func typeKey(t types.Type) string {
	if v, ok := typeKeyCache.Load(t); ok {
		return v.(string)
	}
	s := types.TypeString(t, qual)
	s = strings.ReplaceAll(s, "interface {", "interface{")
	s = strings.ReplaceAll(s, "interface{}", "any")
	typeKeyCache.Store(t, s)
	return s
}

var (
	tagMu    sync.Mutex
	tags     = map[string]int64{}
	tagTypes = map[int64]types.Type{}
)

// tagNum numbers types for use in interface values.
func tagNum(t types.Type) int64 {
	k := typeKey(t)
	tagMu.Lock()
	defer tagMu.Unlock()
	n, ok := tags[k]
	if !ok {
		n = int64(len(tags) + 1)
		tags[k] = n
		tagTypes[n] = t
	}
	return n
}

func tagType(n int64) types.Type {
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagTypes[n]
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

var leafCache sync.Map

func leafSorts(t types.Type) []Sort {
	if v, ok := leafCache.Load(t); ok {
		return v.([]Sort)
	}
	ls := leafSorts1(t)
	leafCache.Store(t, ls)
	return ls
}

func leafSorts1(t types.Type) []Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Sort{SBool}
		case u.Info()&types.IsString != 0:
			return []Sort{SStr}
		case u.Kind() == types.UntypedNil:
			return []Sort{SInt}
		}
		return []Sort{SInt}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Sort{SInt}
	case *types.Slice:
		return []Sort{SInt, SInt, SInt, SInt}
	case *types.Interface:
		return []Sort{SVal}
	case *types.Struct:
		var out []Sort
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafSorts(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			return []Sort{SStr}
		}
		return []Sort{SSeq}
	case *types.TypeParam:
		return []Sort{SVal}
	}
	panic(unsupported(fmt.Sprintf("type %s", t)))
}

type unsupported string

// fieldRange gives the positions of the leaves of field i.
func fieldRange(s *types.Struct, i int) (int, int) {
	off := 0
	for k := 0; k < i; k++ {
		off += len(leafSorts(s.Field(k).Type()))
	}
	return off, off + len(leafSorts(s.Field(i).Type()))
}

// An embedded struct or array is an object of its own at a fixed distance from its container.
func objSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := int64(1)
		for i := 0; i < u.NumFields(); i++ {
			n += objSizeField(u.Field(i).Type())
		}
		return n
	}
	return 1
}

func objSizeField(t types.Type) int64 {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return objSize(t)
	}
	return 0
}

func fieldOffset(s *types.Struct, i int) int64 {
	n := int64(1)
	for k := 0; k < i; k++ {
		n += objSizeField(s.Field(k).Type())
	}
	return n
}

func isObjField(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SBool:
		return TFalse
	case SInt:
		return Int(0)
	case SStr:
		return Lit("")
	case SVal:
		return TNil
	case SSeq:
		return TEmpty
	}
	panic("zero of " + string(s))
}

func zeroLeaves(t types.Type) []*Term {
	if a, ok := t.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			return []*Term{Lit(strings.Repeat("\x00", int(a.Len())))}
		}
		return []*Term{Rep(box(a.Elem(), zeroLeaves(a.Elem())), Int(a.Len()))}
	}
	if s, ok := isStruct(t); ok {
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, zeroLeaves(s.Field(i).Type())...)
		}
		return out
	}
	ss := leafSorts(t)
	out := make([]*Term, len(ss))
	for i, s := range ss {
		out[i] = zeroOfSort(s)
	}
	return out
}

// box makes a Val from a value of type t.
func box(t types.Type, l []*Term) *Term {
	if isIface(t) {
		return l[0]
	}
	if _, ok := t.(*types.TypeParam); ok {
		return l[0]
	}
	tag := Int(tagNum(t))
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch leafSorts(t)[0] {
		case SBool:
			return VBool(tag, l[0])
		case SStr:
			return VStr(tag, l[0])
		}
		return VInt(tag, l[0])
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		_ = u
		return VPtr(tag, l[0])
	}
	// Composite: a sequence of its leaves.
	if len(l) > 0 {
		var from *Term
		same := true
		for i, x := range l {
			v, ok := unleafSource(x)
			if !ok || v.Op != "sym" || v.Name != "seqnth" || !isInt(v.Args[1]) || v.Args[1].N != int64(i) {
				same = false
				break
			}
			q := v.Args[0]
			if q.Op != "sel" || q.Name != "qval" || q.N != tag.N+1 || from != nil && from != q.Args[0] {
				same = false
				break
			}
			from = q.Args[0]
		}
		if same && from != nil {
			return from
		}
	}
	var vs []*Term
	for _, x := range l {
		vs = append(vs, boxLeaf(x))
	}
	return VSeq(tag, Tuple(vs))
}

func unleafSource(x *Term) (*Term, bool) {
	if x.Op == "sel" && x.N == 1 {
		return x.Args[0], true
	}
	if x.S == SVal {
		return x, true
	}
	return nil, false
}

// Leaves of composite values have the tag 0.
func boxLeaf(x *Term) *Term {
	switch x.S {
	case SBool:
		return VBool(Int(0), x)
	case SInt:
		return VInt(Int(0), x)
	case SStr:
		return VStr(Int(0), x)
	case SSeq:
		return VSeq(Int(0), x)
	case SVal:
		return x
	}
	panic(unsupported("boxing " + string(x.S)))
}

func unboxLeaf(v *Term, s Sort) *Term {
	switch s {
	case SBool:
		return SelT("bval", v, 1)
	case SInt:
		return SelT("ival", v, 1)
	case SStr:
		return SelT("sval", v, 1)
	case SSeq:
		return SelT("qval", v, 1)
	}
	return v
}

// unbox takes a value of type t out of a Val known to hold one.
func unbox(t types.Type, v *Term) []*Term {
	if isIface(t) {
		return []*Term{v}
	}
	if _, ok := t.(*types.TypeParam); ok {
		return []*Term{v}
	}
	n := tagNum(t) + 1
	switch t.Underlying().(type) {
	case *types.Basic:
		switch leafSorts(t)[0] {
		case SBool:
			return []*Term{SelT("bval", v, n)}
		case SStr:
			return []*Term{SelT("sval", v, n)}
		}
		return []*Term{SelT("ival", v, n)}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []*Term{SelT("pref", v, n)}
	}
	q := SelT("qval", v, n)
	ss := leafSorts(t)
	out := make([]*Term, len(ss))
	for i, s := range ss {
		out[i] = unboxLeaf(Nth(q, Int(int64(i))), s)
	}
	return out
}

// wellTyped says that v holds a value of type t.
func wellTyped(t types.Type, v *Term) *Term {
	if isIface(t) {
		return TTrue
	}
	if _, ok := t.(*types.TypeParam); ok {
		return TTrue
	}
	name := "VSeq"
	switch t.Underlying().(type) {
	case *types.Basic:
		switch leafSorts(t)[0] {
		case SBool:
			name = "VBool"
		case SStr:
			name = "VStr"
		default:
			name = "VInt"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		name = "VPtr"
	}
	return And(IsCtor(name, v), Eq(TagOf(v), Int(tagNum(t))))
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// keySort is the sort of the keys of a map in its term.
func keySort(t types.Type) Sort {
	if isIface(t) {
		return SVal
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return leafSorts(t)[0]
	case *types.Pointer:
		_ = u
		return SInt
	}
	return SVal
}

func keyTerm(t types.Type, l []*Term) *Term {
	if keySort(t) == SVal {
		return box(t, l)
	}
	return l[0]
}

func keyLeaves(t types.Type, k *Term) []*Term {
	if keySort(t) == SVal {
		return unbox(t, k)
	}
	return []*Term{k}
}

// isValueOf says that v, which is known to hold a value of the struct type t, consists of its leaves.
func isValueOf(t types.Type, v *Term) *Term {
	var vs []*Term
	for _, x := range unbox(t, v) {
		name := map[Sort]string{SBool: "VBool", SInt: "VInt", SStr: "VStr", SSeq: "VSeq"}[x.S]
		if name != "" {
			x = mk("ctor", name, 0, SVal, Int(0), x)
		}
		vs = append(vs, x)
	}
	return mk("=", "", 0, SBool, v, mk("ctor", "VSeq", 0, SVal, Int(tagNum(t)), Tuple(vs)))
}
