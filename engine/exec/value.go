// Package exec symbolically executes Go SSA.
package exec

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// Value is one of: *sym.Term, float64, *Str, Ptr, SliceV, *StructV, *ArrayV,
// Iface, *FuncV, MapRef, *Tuple, *IterV, *ReV, *ErrV, *TypeV, *RVal, nil.
type Value interface{}

type Str struct {
	S string
	B []*sym.Term // nil: concrete S
}

func (s *Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}

type ObjID int32

type Path struct {
	up *Path
	i  int32
}

// Ptr points at Obj.Path; if Idx is set, at element Idx (in [Lo,Hi)) of the array at Path.
type Ptr struct {
	Obj    ObjID
	P      *Path
	Idx    *sym.Term
	Lo, Hi int32
}

type SliceV struct {
	Obj           ObjID
	P             *Path
	Off, Len, Cap int
}

type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type Tuple struct{ V []Value }

type Iface struct {
	T types.Type // nil: nil interface
	V Value
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Bi   *ssa.Builtin
	// bound method through interface handled by wrappers in ssa
}

type MapRef struct{ Obj ObjID }

// MapV is the immutable content of a map object (insertion ordered).
type MapV struct {
	K, V []Value
}

type IterV struct {
	Str *Str
	Map *MapV
	Obj ObjID // cell holding the position
}

// ErrV is an opaque error value (message not modelled precisely).
type ErrV struct{ Msg string }

// TypeV is a reflect.Type.
type TypeV struct{ T types.Type }

type Obj struct {
	V      Value
	owner  int64
	shared bool
}

func concStr(s string) *Str { return &Str{S: s} }

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *sym.Term:
		s := v.String()
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		return s
	case *Str:
		if v.B == nil {
			return fmt.Sprintf("%q", v.S)
		}
		var p []string
		for _, b := range v.B {
			p = append(p, showVal(b))
		}
		return "str[" + strings.Join(p, " ") + "]"
	case *StructV:
		var p []string
		for _, b := range v.F {
			p = append(p, showVal(b))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *Tuple:
		var p []string
		for _, b := range v.V {
			p = append(p, showVal(b))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case Iface:
		if v.T == nil {
			return "nil-iface"
		}
		return "iface(" + v.T.String() + ":" + showVal(v.V) + ")"
	}
	return fmt.Sprintf("%T%v", v, v)
}
