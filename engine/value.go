package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: uint64 (any integer, masked to its width), bool, float64, complex128, string, *Term (symbolic
// integer or bool), *symStr (string with symbolic bytes), structV, arrayV, sliceV, *mapV, *chanV, ifaceV, *funcV,
// *Value (pointer), tupleV, *hostObj (opaque), *dataPtr (unsafe.SliceData/StringData).
type Value = any

type structV []Value
type arrayV []Value
type sliceV struct{ a []Value }
type tupleV []Value
type ifaceV struct {
	t types.Type
	v Value
}
type funcV struct {
	fn   *ssa.Function
	env  []Value
	bi   *ssa.Builtin
	host func(fr *frame, args []Value) Value
}
type symStr struct{ b []Value } // each element uint64 or *Term of width 8
type hostObj struct {
	kind string
	v    any
}
type dataPtr struct {
	a []Value
	s Value // string, when it came from unsafe.StringData
}

type mapEntry struct {
	k, v Value
	dead bool
}
type mapV struct {
	keyT    types.Type
	entries []*mapEntry
	idx     map[any]*mapEntry
	nsym    int // live entries with a non-concrete key
	n       int
	ndead   int
	frozen  bool
	iters   int
}

type ptr = *Value

var nilPtr ptr

// ---- type information ----

type kindInfo struct {
	w       uint8
	signed  bool
	isInt   bool
	float   bool
	cplx    bool
	str     bool
	boolean bool
}

func basicInfo(t types.Type) kindInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
		}
		return kindInfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kindInfo{boolean: true}
	case types.Int, types.Int64, types.UntypedInt:
		return kindInfo{w: 64, signed: true, isInt: true}
	case types.Int8:
		return kindInfo{w: 8, signed: true, isInt: true}
	case types.Int16:
		return kindInfo{w: 16, signed: true, isInt: true}
	case types.Int32, types.UntypedRune:
		return kindInfo{w: 32, signed: true, isInt: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kindInfo{w: 64, isInt: true}
	case types.Uint8:
		return kindInfo{w: 8, isInt: true}
	case types.Uint16:
		return kindInfo{w: 16, isInt: true}
	case types.Uint32:
		return kindInfo{w: 32, isInt: true}
	case types.Float32:
		return kindInfo{w: 32, float: true}
	case types.Float64, types.UntypedFloat:
		return kindInfo{w: 64, float: true}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return kindInfo{cplx: true}
	case types.String, types.UntypedString:
		return kindInfo{str: true}
	}
	return kindInfo{}
}

var zeroCache sync.Map // types.Type -> Value prototype

func zero(t types.Type) Value {
	if v, ok := zeroCache.Load(t); ok {
		return copyVal(v)
	}
	v := mkZero(t)
	zeroCache.Store(t, v)
	return copyVal(v)
}

func mkZero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ki := basicInfo(t)
		switch {
		case ki.isInt:
			return uint64(0)
		case ki.boolean:
			return false
		case ki.float:
			return float64(0)
		case ki.cplx:
			return complex128(0)
		case ki.str:
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return nilPtr
		}
		if u.Kind() == types.UntypedNil {
			return nilPtr
		}
	case *types.Pointer:
		return nilPtr
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = mkZero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(arrayV, u.Len())
		if u.Len() > 0 {
			z := mkZero(u.Elem())
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		return s
	case *types.Slice:
		return sliceV{}
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return ifaceV{}
	case *types.Signature:
		return (*funcV)(nil)
	case *types.Tuple:
		s := make(tupleV, u.Len())
		for i := range s {
			s[i] = mkZero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero of %s", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structV:
		n := make(structV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case arrayV:
		n := make(arrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

// storeTo copies v into *dst keeping the identity of nested slots.
func storeTo(dst ptr, v Value) {
	switch v := v.(type) {
	case structV:
		if d, ok := (*dst).(structV); ok && len(d) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case structV, arrayV:
					storeTo(&d[i], v[i])
				default:
					d[i] = v[i]
				}
			}
			return
		}
		*dst = copyVal(v)
		return
	case arrayV:
		if d, ok := (*dst).(arrayV); ok && len(d) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case structV, arrayV:
					storeTo(&d[i], v[i])
				default:
					d[i] = v[i]
				}
			}
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(unsupported("strLen of %T", v))
}

var byteVals [256]Value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = byteVals[s[i]]
		}
		return b
	case *symStr:
		return s.b
	}
	panic(unsupported("strBytes of %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return byteVals[s[i]]
	case *symStr:
		return s.b[i]
	}
	panic(unsupported("strAt of %T", v))
}

// mkStr builds a string value from bytes, concrete when every byte is.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &symStr{append([]Value(nil), b...)}
		}
	}
	h := make([]byte, len(b))
	for i, x := range b {
		h[i] = byte(x.(uint64))
	}
	return string(h)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic(unsupported("strSlice of %T", v))
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return &symStr{r}
}

func isConcreteStr(v Value) (string, bool) { s, ok := v.(string); return s, ok }

func bytesOf(s string) sliceV {
	return sliceV{strBytes(s)}
}

// ---- errors inside the engine ----

type unsupportedErr struct{ msg string }

func (e *unsupportedErr) Error() string { return e.msg }

func unsupported(f string, a ...any) *unsupportedErr { return &unsupportedErr{fmt.Sprintf(f, a...)} }

// ---- map keys ----

// concreteKey returns a hashable host key for a fully concrete value.
func concreteKey(v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, complex128, *mapV, *chanV:
		return x, true
	case ptr:
		return x, true
	case *hostObj:
		return x, true
	case *Term, *symStr:
		return nil, false
	case ifaceV:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := concreteKey(x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{typeID(x.t), k}, true
	case structV, arrayV:
		var sb strings.Builder
		if !encodeKey(&sb, x) {
			return nil, false
		}
		return compKey(sb.String()), true
	}
	panic(unsupported("map key %T", v))
}

type ifaceKey struct {
	t int
	k any
}
type compKey string

func encodeKey(sb *strings.Builder, v Value) bool {
	switch x := v.(type) {
	case structV:
		sb.WriteByte('{')
		for _, e := range x {
			if !encodeKey(sb, e) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case arrayV:
		sb.WriteByte('[')
		for _, e := range x {
			if !encodeKey(sb, e) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	case uint64:
		fmt.Fprintf(sb, "%d,", x)
		return true
	case bool:
		fmt.Fprintf(sb, "%v,", x)
		return true
	case string:
		fmt.Fprintf(sb, "%d:%s,", len(x), x)
		return true
	case float64:
		fmt.Fprintf(sb, "%g,", x)
		return true
	case ptr:
		fmt.Fprintf(sb, "%p,", x)
		return true
	case *mapV:
		fmt.Fprintf(sb, "%p,", x)
		return true
	case *chanV:
		fmt.Fprintf(sb, "%p,", x)
		return true
	case *hostObj:
		fmt.Fprintf(sb, "%p,", x)
		return true
	case ifaceV:
		if x.t == nil {
			sb.WriteString("nil,")
			return true
		}
		fmt.Fprintf(sb, "T%d(", typeID(x.t))
		if !encodeKey(sb, x.v) {
			return false
		}
		sb.WriteByte(')')
		return true
	}
	return false
}

// ---- type identity ----

var (
	typeIDMu   sync.RWMutex
	typeIDs    = map[types.Type]int{}
	typeIDRepr = map[string][]idType{}
	typeIDNext int
)

type idType struct {
	t  types.Type
	id int
}

func typeID(t types.Type) int {
	typeIDMu.RLock()
	id, ok := typeIDs[t]
	typeIDMu.RUnlock()
	if ok {
		return id
	}
	typeIDMu.Lock()
	defer typeIDMu.Unlock()
	if id, ok := typeIDs[t]; ok {
		return id
	}
	s := t.String()
	for _, c := range typeIDRepr[s] {
		if types.Identical(c.t, t) {
			typeIDs[t] = c.id
			return c.id
		}
	}
	typeIDNext++
	typeIDs[t] = typeIDNext
	typeIDRepr[s] = append(typeIDRepr[s], idType{t, typeIDNext})
	return typeIDNext
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return typeID(a) == typeID(b)
}
