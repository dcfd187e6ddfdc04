package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

type specialFn func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome

var specialExterns map[string]specialFn

var tError = types.Universe.Lookup("error").Type()
var tAny = types.NewInterfaceType(nil, nil)

func ret(st *State, xs ...Value) []Outcome { return []Outcome{{st: st, res: xs}} }

func (v *Verif) variadicArgs(st *State, x Value) *Term {
	return v.content(st, x)
}

func init() {
	specialExterns = map[string]specialFn{
		"errors.Wrap": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return v.wrapErr(st, args[0].L[0], VStr(Int(0), args[1].L[0]))
		},
		"errors.Wrapf": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return v.wrapErr(st, args[0].L[0], VSeq(Int(0), Cat(Unit(VStr(Int(0), args[1].L[0])), v.content(st, args[2]))))
		},
		"errors.New": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return ret(st, one(tError, fn("errnew", SVal, VPtr(Int(0), v.alloc(st, 1)))))
		},
		"errors.Join": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			if len(st.unjoined) > 0 {
				v.access(st, fr, heapE, args[0].L[0], nil, false, pos)
			}
			return ret(st, one(tError, fn("errjoin", SVal, v.content(st, args[0]))))
		},
		"errors.Is": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			if args[0].L[0] == TNil {
				return ret(st, one(tBool, Eq(args[1].L[0], TNil)))
			}
			return ret(st, one(tBool, fn("erris", SBool, args[0].L[0], args[1].L[0])))
		},
		"errors.As": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			p := args[1].L[0]
			tg := TagOf(p)
			if !isInt(tg) || tagType(tg.N) == nil {
				panic(unsupported("errors.As with an unknown type"))
			}
			pt := tagType(tg.N)
			T := pt.Underlying().(*types.Pointer).Elem()
			ok := fn("erras:"+typeKey(T), SBool, args[0].L[0])
			yes, no := v.split(st, ok)
			var outs []Outcome
			if yes != nil {
				x := Value{T: T}
				for i, s := range leafSorts(T) {
					x.L = append(x.L, fn(fmt.Sprintf("erras:%s#%d", typeKey(T), i), s, args[0].L[0]))
				}
				v.refFacts(yes, T, x.L)
				yes.assume(Neq(args[0].L[0], TNil))
				v.store(fr, yes, Value{T: pt, L: unbox(pt, p)}, x, pos)
				outs = append(outs, Outcome{st: yes, res: []Value{one(tBool, TTrue)}})
			}
			if no != nil {
				if !isIface(T) {
					no.assume(Not(And(Neq(args[0].L[0], TNil), Eq(TagOf(args[0].L[0]), Int(tagNum(T))))))
				}
				outs = append(outs, Outcome{st: no, res: []Value{one(tBool, TFalse)}})
			}
			return outs
		},
		"fmt.Errorf": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			f := args[0].L[0]
			c := v.content(st, args[1])
			if isLit(f) {
				if i, ok := wrapVerb(f.Name); ok {
					return ret(st, one(tError, fn("errwrap", SVal, Nth(c, Int(int64(i))), VSeq(Int(0), Cat(Unit(VStr(Int(0), f)), c)))))
				}
			}
			return ret(st, one(tError, fn("errnew", SVal, VSeq(Int(0), SeqOf(VStr(Int(0), f), VSeq(Int(0), c), VPtr(Int(0), v.alloc(st, 1)))))))
		},
		"context.WithValue": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			c := fn("ctxwith", SVal, args[0].L[0], args[1].L[0], args[2].L[0])
			st.assume(Neq(c, TNil))
			return ret(st, one(sig.Results().At(0).Type(), c))
		},
		"context.Context.Value": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return v.ctxValue(st, args[0].L[0], args[1].L[0])
		},
		"context.Background": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			c := fn("ctxbackground", SVal)
			st.assume(Neq(c, TNil))
			return ret(st, one(sig.Results().At(0).Type(), c))
		},
		"yaml.(*Node).Decode":    decodeNode,
		"yaml.(*Decoder).Decode": decodeDoc,
		"sort.Strings":           sortInPlace,
		"slices.Sort":            sortInPlace,
		"reflect.ValueOf":        reflectOf,
		"reflect.TypeOf":         reflectOf,
		"reflect.(Value).Kind": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return ret(st, one(sig.Results().At(0).Type(), v.kindOf(st, fn("reflected", SVal, args[0].L...))))
		},
		"reflect.Type.Kind": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			return ret(st, one(sig.Results().At(0).Type(), v.kindOf(st, fn("reflected", SVal, args[0].L...))))
		},
		"sync.(*Mutex).Lock":      lockFn(true),
		"sync.(*Mutex).Unlock":    lockFn(false),
		"sync.(*RWMutex).Lock":    lockFn(true),
		"sync.(*RWMutex).Unlock":  lockFn(false),
		"sync.(*RWMutex).RLock":   lockFn(true),
		"sync.(*RWMutex).RUnlock": lockFn(false),
		"sync.Locker.Lock":        lockFn(true),
		"sync.Locker.Unlock":      lockFn(false),
		"sync.(*WaitGroup).Add": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			if st.gor != nil {
				v.oblige(st, fr, "WaitGroup.Add is not called by a goroutine", TFalse, pos, v.concLabels())
			}
			n := v.get(st, "wgcount", SArr(SInt, SInt))
			v.set(st, "wgcount", Store(n, args[0].L[0], Add(Select(n, args[0].L[0]), args[1].L[0])))
			return ret(st)
		},
		"sync.(*WaitGroup).Done": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			n := v.get(st, "wgcount", SArr(SInt, SInt))
			v.set(st, "wgcount", Store(n, args[0].L[0], Sub(Select(n, args[0].L[0]), Int(1))))
			if st.gor != nil {
				if st.gor.done {
					v.oblige(st, fr, "WaitGroup.Done is called once", TFalse, pos, v.concLabels())
				}
				st.gor.done = true
				st.gor.wg = args[0].L[0]
			}
			return ret(st)
		},
		"sync.(*WaitGroup).Wait": func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
			if st.gor != nil {
				return ret(st)
			}
			n := v.get(st, "wgcount", SArr(SInt, SInt))
			// Every goroutine started has announced itself before it started, so the count, less the calls of Done
			// that each goroutine makes, is zero.
			v.oblige(st, fr, "the WaitGroup counts exactly the goroutines started", Eq(Select(n, args[0].L[0]), Int(0)), pos, v.concLabels())
			var rest []gorAcc
			for _, g := range st.unjoined {
				if g.wg != args[0].L[0] {
					rest = append(rest, g)
				}
			}
			st.unjoined = rest
			return ret(st)
		},
	}
}

func (v *Verif) wrapErr(st *State, e, m *Term) []Outcome {
	c := st.simp(Eq(e, TNil))
	if c == TTrue {
		return ret(st, one(tError, TNil))
	}
	if c == TFalse {
		return ret(st, one(tError, fn("errwrap", SVal, e, m)))
	}
	yes, no := v.split(st, c)
	var outs []Outcome
	if yes != nil {
		outs = append(outs, Outcome{st: yes, res: []Value{one(tError, TNil)}})
	}
	if no != nil {
		outs = append(outs, Outcome{st: no, res: []Value{one(tError, fn("errwrap", SVal, e, m))}})
	}
	return outs
}

// wrapVerb finds the argument formatted by %w.
func wrapVerb(f string) (int, bool) {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			return n, true
		}
		n++
	}
	return 0, false
}

func (v *Verif) ctxValue(st *State, c, k *Term) []Outcome {
	for c.Op == "sym" && c.Name == "ctxwith" {
		e := Eq(c.Args[1], k)
		if e == TTrue {
			x := one(tAny, c.Args[2])
			return ret(st, x)
		}
		if e == TFalse {
			c = c.Args[0]
			continue
		}
		break
	}
	if isSym(c, "ctxbackground") {
		return ret(st, one(tAny, TNil))
	}
	return ret(st, one(tAny, fn("ctxvalue", SVal, c, k)))
}

func sortInPlace(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	x := args[0]
	e := v.get(st, heapE, SArr(SInt, SSeq))
	old := Select(e, x.L[0])
	v.access(st, fr, heapE, x.L[0], nil, true, pos)
	s := fn("sortseq", SSeq, v.content(st, x))
	var nw *Term
	if x.L[1] == Int(0) && x.L[2] == Len(old) {
		nw = s
	} else {
		nw = Cat(Take(old, x.L[1]), s, Drop(old, Add(x.L[1], x.L[2])))
	}
	// An empty slice has nothing to write.
	if x.L[0] != Int(0) {
		v.set(st, heapE, Store(e, x.L[0], nw))
		// What the slice holds now; the rest of its array, before and after, is as it was.
		if nw != s {
			st.assume(Eq(v.content(st, x), s))
		}
	}
	return ret(st)
}

func reflectOf(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	t := sig.Results().At(0).Type()
	x := v.freshValue(st, t, "reflect")
	st.assume(Eq(fn("reflected", SVal, x.L...), args[0].L[0]))
	st.eqs[fn("reflected", SVal, x.L...)] = args[0].L[0]
	return ret(st, x)
}

// kindOf is the reflect.Kind of the dynamic type of a value.
func (v *Verif) kindOf(st *State, x *Term) *Term {
	x = subst(x, st.eqs)
	tg := subst(TagOf(x), st.eqs)
	if x == TNil {
		return Int(0)
	}
	if isInt(tg) {
		if t := tagType(tg.N); t != nil {
			return Int(int64(kindOfType(t)))
		}
	}
	return fn("kindof", SInt, tg)
}

func kindOfType(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Array:
		return reflect.Array
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		}
	}
	return reflect.Int64
}

func lockFn(lock bool) specialFn {
	return func(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
		m := args[0]
		var id *Term
		if len(m.L) == 1 {
			id = m.L[0]
			if id.S == SVal {
				id = Sel("pref", id)
			}
		} else {
			panic(unsupported("lock without an address"))
		}
		return v.lockOp(fr, st, id, lock, pos)
	}
}

// decodeNode is Decode of a YAML node into a struct: each field is a function of the node and the key of the field.
// A field that is a node itself has the contents of the node of the specification yamlChild(node, key).
func decodeNode(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	pt, _ := args[0].T.Underlying().(*types.Pointer)
	p := args[1].L[0]
	tg := TagOf(p)
	if pt == nil || !isInt(tg) || tagType(tg.N) == nil {
		panic(unsupported("Decode into an unknown type"))
	}
	dt, ok := tagType(tg.N).Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("Decode into something that is not a pointer"))
	}
	s, ok := isStruct(dt.Elem())
	if !ok {
		panic(unsupported("Decode into something that is not a struct"))
	}
	v.noteUse("extern yaml.(*Node).Decode (built in)")
	node := v.load(fr, st, args[0], pos)
	nb := box(node.T, node.L)
	const errs = "decodeErrs" // a ghost variable: the failures
	yes, no := v.split(st, v.fresh(st, "decoded", SBool))
	var outs []Outcome
	ref := unbox(tagType(tg.N), p)[0]
	if yes != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			key := Lit(yamlKey(s, i))
			var x Value
			switch {
			case typeKey(f.Type()) == "yaml.Node":
				c := fn("logic:yamlChild", SInt, nb, key)
				yes.assume(Lt(Int(0), c))
				x = v.loadRef(nil, yes, c, f.Type(), pos)
				v.storeRef(nil, yes, Add(ref, Int(fieldOffset(s, i))), f.Type(), x.L, pos)
				continue
			case isSlice(f.Type()):
				q := fn("logic:yamlSeq", SSeq, nb, key)
				x = v.newSlice(yes, f.Type(), q)
				// The elements are values of their type.
				i, T := Var("i?e", SInt), f.Type().Underlying().(*types.Slice).Elem()
				yes.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, Len(q))), isValueOf(T, Nth(q, i))), []*Term{Nth(q, i)}))
			default:
				x = Value{T: f.Type()}
				ss := leafSorts(f.Type())
				for k, so := range ss {
					n := "logic:yamlField:" + string(so)
					switch so {
					case SStr:
						n = "logic:yamlStr"
					case SBool:
						n = "logic:yamlBool"
					case SInt:
						n = "logic:yamlInt"
					}
					if len(ss) > 1 {
						n += fmt.Sprintf("#%d", k)
					}
					x.L = append(x.L, fn(n, so, nb, key))
				}
				if isObjField(f.Type()) {
					panic(unsupported("Decode into a nested struct"))
				}
			}
			v.storeField(nil, yes, dt.Elem(), i, ref, x.L, pos)
		}
		outs = append(outs, Outcome{st: yes, res: []Value{one(tError, TNil)}})
	}
	if no != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Exported() && !isObjField(f.Type()) {
				v.storeField(nil, no, dt.Elem(), i, ref, v.freshValue(no, f.Type(), "decoded").L, pos)
			}
		}
		e := v.fresh(no, "decodeErr", SVal)
		no.assume(Neq(e, TNil))
		v.set(no, errs, Cat(v.get(no, errs, SSeq), Unit(e)))
		outs = append(outs, Outcome{st: no, res: []Value{one(tError, e)}})
	}
	return outs
}

// decodeDoc is Decode of a YAML document into a node: its contents are those of the node docNode(reader), the error is docNodeErr(reader).
func decodeDoc(v *Verif, fr *Frame, st *State, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	p := args[1].L[0]
	tg := TagOf(p)
	if !isInt(tg) || tagType(tg.N) == nil || typeKey(tagType(tg.N)) != "*yaml.Node" {
		return nil
	}
	t := tagType(tg.N).Underlying().(*types.Pointer).Elem()
	r := fn("logic:decoderOf", SVal, args[0].L[0])
	e := fn("logic:docNodeErr", SVal, r)
	doc := fn("logic:docNode", SInt, r)
	st.assume(Lt(Int(0), doc))
	yes, no := v.split(st, Eq(e, TNil))
	var outs []Outcome
	if yes != nil {
		x := v.loadRef(nil, yes, doc, t, pos)
		v.storeRef(nil, yes, unbox(tagType(tg.N), p)[0], t, x.L, pos)
		outs = append(outs, Outcome{st: yes, res: []Value{one(tError, TNil)}})
	}
	if no != nil {
		outs = append(outs, Outcome{st: no, res: []Value{one(tError, e)}})
	}
	return outs
}

// yamlKey is the key of a field in YAML.
func yamlKey(s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i))
	k := tag.Get("yaml")
	if k == "" && !strings.Contains(string(tag), ":") {
		k = string(tag)
	}
	k, _, _ = strings.Cut(k, ",")
	if k == "" {
		k = strings.ToLower(s.Field(i).Name())
	}
	return k
}
