package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, Ptr, Slice, Str, Iface, Fn, MapV, ChanV, Agg, Tuple, *MapIter.
type Value interface{}

type Ptr struct {
	obj   int // 0 = nil
	off   int
	sym   *Term // optional symbolic element index in [0,n)
	scale int
	n     int
}
type Slice struct {
	obj      int // 0 = nil
	off      int
	len, cap *Term
	es       int
}
type Str struct {
	s string
	b []*Term // symbolic when non-nil
}
type Iface struct {
	t types.Type
	v Value
}
type Fn struct {
	fn  *ssa.Function
	env []Value
	bi  string // intrinsic bound closure
}
type MapV struct{ obj int }
type ChanV struct{ obj int }
type Agg []Value
type Tuple []Value
type MapIter struct {
	keys []Value
	vals []Value
	pos  int
	str  *Str
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s Str) At(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return C(uint64(s.s[i]), 8)
}
func (s Str) Sub(i, j int) Str {
	if s.b != nil {
		if i == j {
			return Str{}
		}
		return mkStr(s.b[i:j:j])
	}
	return Str{s: s.s[i:j]}
}
func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isC() {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return Str{s: sb.String()}
}

// ---- memory ----

type access struct {
	g   int
	clk int
}
type shadow struct {
	w  access
	rs []access
}

type Object struct {
	owner  uint64
	slots  []Value
	label  string
	typ    types.Type // element type of the allocation, for messages
	uninit bool

	// sparse object: symbolic or huge length
	sparse bool
	slen   *Term // number of elements
	zero   []Value
	sp     map[int]Value

	// map object
	isMap bool
	keys  []Value
	vals  []Value
	mclk  *shadow

	// channel object
	isChan bool
	closed bool
	cclk   []int
	capn   int
	queue  []chanMsg

	sh map[int]*shadow
}

type chanMsg struct {
	v   Value
	clk []int
}

func (o *Object) clone(owner uint64) *Object {
	n := *o
	n.owner = owner
	n.slots = append([]Value(nil), o.slots...)
	if o.sp != nil {
		n.sp = make(map[int]Value, len(o.sp))
		for k, v := range o.sp {
			n.sp[k] = v
		}
	}
	if o.isMap {
		n.keys = append([]Value(nil), o.keys...)
		n.vals = append([]Value(nil), o.vals...)
	}
	if o.isChan {
		n.queue = append([]chanMsg(nil), o.queue...)
	}
	if o.sh != nil {
		n.sh = make(map[int]*shadow, len(o.sh))
		for k, v := range o.sh {
			n.sh[k] = v
		}
	}
	return &n
}

const chunkN = 64

type chunk struct {
	owner uint64
	o     [chunkN]*Object
}
type Heap struct {
	chunks []*chunk
	n      int
}

func (h *Heap) get(id int) *Object { return h.chunks[id/chunkN].o[id%chunkN] }
func (h *Heap) setRaw(id int, o *Object, owner uint64) {
	ci := id / chunkN
	c := h.chunks[ci]
	if c.owner != owner {
		nc := *c
		nc.owner = owner
		c = &nc
		h.chunks[ci] = c
	}
	c.o[id%chunkN] = o
}
func (h *Heap) add(o *Object, owner uint64) int {
	if h.n == 0 {
		h.n = 1
	}
	id := h.n
	h.n++
	for id/chunkN >= len(h.chunks) {
		h.chunks = append(h.chunks[:len(h.chunks):len(h.chunks)], &chunk{owner: owner})
	}
	h.setRaw(id, o, owner)
	return id
}
func (h *Heap) mut(id int, owner uint64) *Object {
	o := h.get(id)
	if o.owner != owner {
		o = o.clone(owner)
		h.setRaw(id, o, owner)
	}
	return o
}

// ---- types ----

var sizeCache sync.Map // types.Type -> int

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func sizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := sizeCache.Load(t); ok {
			return v.(int)
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
		sizeCache.Store(t, n)
		return n
	case *types.Array:
		return int(u.Len()) * sizeOf(u.Elem())
	}
	return 1
}

var offCache sync.Map // *types.Struct -> []int

func fieldOff(st *types.Struct, i int) int {
	if v, ok := offCache.Load(st); ok {
		return v.([]int)[i]
	}
	offs := make([]int, st.NumFields())
	n := 0
	for j := range offs {
		offs[j] = n
		n += sizeOf(st.Field(j).Type())
	}
	offCache.Store(st, offs)
	return offs[i]
}

func basicSort(b *types.Basic) (Sort, bool, bool) { // sort, signed, ok
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS, false, true
	case types.Int8:
		return BV(8), true, true
	case types.Int16:
		return BV(16), true, true
	case types.Int32, types.UntypedRune:
		return BV(32), true, true
	case types.Int, types.Int64, types.UntypedInt:
		return BV(64), true, true
	case types.Uint8:
		return BV(8), false, true
	case types.Uint16:
		return BV(16), false, true
	case types.Uint32:
		return BV(32), false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return BV(64), false, true
	case types.Float32:
		return FP32, true, true
	case types.Float64, types.UntypedFloat:
		return FP64, true, true
	}
	return Sort{}, false, false
}

func zeroSlots(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		one := zeroSlots(u.Elem(), nil)
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, one...)
		}
		return out
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zeroVal(u.At(i).Type())
		}
		return append(out, tp)
	}
	return append(out, zeroScalar(t))
}

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		s, _, ok := basicSort(u)
		if !ok {
			panic(unsupported("type " + t.String()))
		}
		switch s.K {
		case KBool:
			return tFalse
		case KBV:
			return C(0, int(s.W))
		}
		return CF(0, s)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{len: C(0, 64), cap: C(0, 64), es: sizeOf(u.Elem())}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Fn{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	}
	panic(unsupported("zero of " + t.String()))
}

func zeroVal(t types.Type) Value {
	if isAgg(t) {
		return Agg(zeroSlots(t, nil))
	}
	return zeroScalar(t)
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

func vstr(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.isC() {
			return fmt.Sprint(x.val)
		}
		return fmt.Sprintf("t%d", x.id)
	}
	return fmt.Sprintf("%v", v)
}
