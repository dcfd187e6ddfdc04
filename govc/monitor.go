package main

import (
	"go/token"
	"go/types"
)

// lockOp locks or unlocks the mutex with the given address.
func (v *Verif) lockOp(fr *Frame, st *State, id *Term, lock bool, pos token.Pos) []Outcome {
	held := -1
	for i, l := range st.locked {
		if l.mu == id {
			held = i
		}
	}
	if lock {
		if held >= 0 {
			v.oblige(st, fr, "a lock that is held is not locked again", TFalse, pos, []string{"*"})
		}
		st.locked = append(st.locked[:len(st.locked):len(st.locked)], lockRec{mu: id})
		return v.acquired(fr, st, id, pos)
	}
	if held < 0 {
		v.oblige(st, fr, "a lock that is unlocked is held", TFalse, pos, []string{"*"})
		return ret(st)
	}
	n := append([]lockRec(nil), st.locked[:held]...)
	st.locked = append(n, st.locked[held+1:]...)
	return ret(st)
}

// guard checks that access to a field follows its discipline.
func (v *Verif) guard(fr *Frame, st *State, S types.Type, field string, ref *Term, write bool, pos token.Pos) {
	if fr == nil {
		return
	}
	for _, m := range v.S.monitors {
		if m.typ != typeKey(S) || !m.fields[field] {
			continue
		}
		if isTopBased(ref) {
			continue // not shared yet
		}
		s := S.Underlying().(*types.Struct)
		mu := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == m.mu {
				mu = i
			}
		}
		if mu < 0 {
			v.oblige(st, fr, "the lock "+m.typ+"."+m.mu+" exists", TFalse, pos, []string{"*"})
			continue
		}
		id := Add(ref, Int(fieldOffset(s, mu)))
		held := false
		for _, l := range st.locked {
			if l.mu == id {
				held = true
			}
		}
		if !held {
			v.oblige(st, fr, "the lock is held where "+m.typ+"."+field+" is used", TFalse, pos, []string{"*"})
		}
	}
}

// guardMap checks that a map that a lock protects is used only while the lock is held.
func (v *Verif) guardMap(fr *Frame, st *State, m Value, write bool, pos token.Pos) {
	if fr == nil {
		return
	}
	id := v.guardedMaps[m.L[0]]
	if id == nil {
		return
	}
	for _, l := range st.locked {
		if l.mu == id {
			return
		}
	}
	v.oblige(st, fr, "the lock is held where a map that it protects is used", TFalse, pos, []string{"*"})
}

// guardedField notes that a map was read from a field that a lock protects.
func (v *Verif) guardedField(S types.Type, field string, ref *Term, x Value) {
	if _, ok := x.T.Underlying().(*types.Map); !ok || isTopBased(ref) {
		return
	}
	for _, m := range v.S.monitors {
		if m.typ != typeKey(S) || !m.fields[field] {
			continue
		}
		s := S.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == m.mu {
				if v.guardedMaps == nil {
					v.guardedMaps = map[*Term]*Term{}
				}
				v.guardedMaps[x.L[0]] = Add(ref, Int(fieldOffset(s, i)))
				if cl := v.S.claims; cl != nil && cl.typ == m.typ && cl.field == field {
					if v.claimMaps == nil {
						v.claimMaps = map[*Term]*Term{}
					}
					v.claimMaps[x.L[0]] = ref
				}
			}
		}
	}
}
