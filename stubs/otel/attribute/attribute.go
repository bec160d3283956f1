package attribute

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type Key string

func (k Key) Bool(v bool) KeyValue              { return KeyValue{k, BoolValue(v)} }
func (k Key) BoolSlice(v []bool) KeyValue       { return KeyValue{k, BoolSliceValue(v)} }
func (k Key) Int(v int) KeyValue                { return KeyValue{k, IntValue(v)} }
func (k Key) IntSlice(v []int) KeyValue         { return KeyValue{k, IntSliceValue(v)} }
func (k Key) Int64(v int64) KeyValue            { return KeyValue{k, Int64Value(v)} }
func (k Key) Int64Slice(v []int64) KeyValue     { return KeyValue{k, Int64SliceValue(v)} }
func (k Key) Float64(v float64) KeyValue        { return KeyValue{k, Float64Value(v)} }
func (k Key) Float64Slice(v []float64) KeyValue { return KeyValue{k, Float64SliceValue(v)} }
func (k Key) String(v string) KeyValue          { return KeyValue{k, StringValue(v)} }
func (k Key) StringSlice(v []string) KeyValue   { return KeyValue{k, StringSliceValue(v)} }
func (k Key) Defined() bool                     { return len(k) > 0 }

type Type int

const (
	INVALID Type = iota
	BOOL
	INT64
	FLOAT64
	STRING
	BOOLSLICE
	INT64SLICE
	FLOAT64SLICE
	STRINGSLICE
	BYTESLICE
	SLICE
	MAP
	EMPTY = INVALID
)

func (t Type) String() string {
	return [...]string{"INVALID", "BOOL", "INT64", "FLOAT64", "STRING", "BOOLSLICE", "INT64SLICE", "FLOAT64SLICE", "STRINGSLICE", "BYTESLICE", "SLICE", "MAP"}[t]
}

// Value is comparable unless it holds a slice; the sets below key on the text.
type Value struct {
	t Type
	v any
}

func BoolValue(v bool) Value              { return Value{BOOL, v} }
func BoolSliceValue(v []bool) Value       { return Value{BOOLSLICE, append([]bool(nil), v...)} }
func IntValue(v int) Value                { return Value{INT64, int64(v)} }
func Int64Value(v int64) Value            { return Value{INT64, v} }
func Int64SliceValue(v []int64) Value     { return Value{INT64SLICE, append([]int64(nil), v...)} }
func Float64Value(v float64) Value        { return Value{FLOAT64, v} }
func Float64SliceValue(v []float64) Value { return Value{FLOAT64SLICE, append([]float64(nil), v...)} }
func StringValue(v string) Value          { return Value{STRING, v} }
func StringSliceValue(v []string) Value   { return Value{STRINGSLICE, append([]string(nil), v...)} }
func ByteSliceValue(v []byte) Value       { return Value{BYTESLICE, append([]byte(nil), v...)} }
func SliceValue(v ...Value) Value         { return Value{SLICE, append([]Value(nil), v...)} }
func MapValue(v ...KeyValue) Value        { return Value{MAP, append([]KeyValue(nil), v...)} }
func IntSliceValue(v []int) Value {
	r := make([]int64, len(v))
	for i, x := range v {
		r[i] = int64(x)
	}
	return Value{INT64SLICE, r}
}

func (v Value) Type() Type                { return v.t }
func (v Value) AsBool() bool              { r, _ := v.v.(bool); return r }
func (v Value) AsBoolSlice() []bool       { r, _ := v.v.([]bool); return r }
func (v Value) AsInt64() int64            { r, _ := v.v.(int64); return r }
func (v Value) AsInt64Slice() []int64     { r, _ := v.v.([]int64); return r }
func (v Value) AsFloat64() float64        { r, _ := v.v.(float64); return r }
func (v Value) AsFloat64Slice() []float64 { r, _ := v.v.([]float64); return r }
func (v Value) AsStringSlice() []string   { r, _ := v.v.([]string); return r }
func (v Value) AsSlice() []Value          { r, _ := v.v.([]Value); return r }
func (v Value) AsMap() []KeyValue         { r, _ := v.v.([]KeyValue); return r }
func (v Value) AsByteSlice() []byte       { r, _ := v.v.([]byte); return r }
func (v Value) AsInterface() any          { return v.v }
func (v Value) AsString() string {
	switch x := v.v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	}
	return ""
}
func (v Value) String() string { return v.Emit() }
func (v Value) Emit() string {
	switch x := v.v.(type) {
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	}
	return fmt.Sprint(v.v)
}

type KeyValue struct {
	Key   Key
	Value Value
}

func (kv KeyValue) Valid() bool { return kv.Key.Defined() && kv.Value.Type() != INVALID }

func Bool(k string, v bool) KeyValue              { return Key(k).Bool(v) }
func BoolSlice(k string, v []bool) KeyValue       { return Key(k).BoolSlice(v) }
func Int(k string, v int) KeyValue                { return Key(k).Int(v) }
func IntSlice(k string, v []int) KeyValue         { return Key(k).IntSlice(v) }
func Int64(k string, v int64) KeyValue            { return Key(k).Int64(v) }
func Int64Slice(k string, v []int64) KeyValue     { return Key(k).Int64Slice(v) }
func Float64(k string, v float64) KeyValue        { return Key(k).Float64(v) }
func Float64Slice(k string, v []float64) KeyValue { return Key(k).Float64Slice(v) }
func String(k string, v string) KeyValue          { return Key(k).String(v) }
func StringSlice(k string, v []string) KeyValue   { return Key(k).StringSlice(v) }
func Stringer(k string, v fmt.Stringer) KeyValue  { return Key(k).String(v.String()) }

type Filter func(KeyValue) bool

// Distinct identifies a set.
type Distinct struct{ s string }

func (d Distinct) Valid() bool { return true }

type Set struct {
	kvs []KeyValue
	id  string
}

var empty = &Set{}

func EmptySet() *Set { return empty }

func NewSet(kvs ...KeyValue) Set {
	last := map[Key]int{}
	for i, kv := range kvs {
		last[kv.Key] = i
	}
	out := make([]KeyValue, 0, len(last))
	for i, kv := range kvs {
		if last[kv.Key] == i {
			out = append(out, kv)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	var b strings.Builder
	for _, kv := range out {
		fmt.Fprintf(&b, "%q:%d:%q;", string(kv.Key), kv.Value.t, kv.Value.Emit())
	}
	return Set{out, b.String()}
}

func NewSetWithFiltered(kvs []KeyValue, f Filter) (Set, []KeyValue) {
	if f == nil {
		return NewSet(kvs...), nil
	}
	var in, dropped []KeyValue
	for _, kv := range kvs {
		if f(kv) {
			in = append(in, kv)
		} else {
			dropped = append(dropped, kv)
		}
	}
	return NewSet(in...), dropped
}

func (s *Set) Len() int {
	if s == nil {
		return 0
	}
	return len(s.kvs)
}
func (s *Set) Get(i int) (KeyValue, bool) {
	if s == nil || i < 0 || i >= len(s.kvs) {
		return KeyValue{}, false
	}
	return s.kvs[i], true
}
func (s *Set) Value(k Key) (Value, bool) {
	if s != nil {
		for _, kv := range s.kvs {
			if kv.Key == k {
				return kv.Value, true
			}
		}
	}
	return Value{}, false
}
func (s *Set) HasValue(k Key) bool { _, ok := s.Value(k); return ok }
func (s *Set) ToSlice() []KeyValue {
	if s == nil {
		return nil
	}
	return append([]KeyValue(nil), s.kvs...)
}
func (s *Set) Equivalent() Distinct {
	if s == nil {
		return Distinct{}
	}
	return Distinct{s.id}
}
func (s *Set) Equals(o *Set) bool { return s.Equivalent() == o.Equivalent() }
func (s *Set) Iter() Iterator     { return Iterator{s: s, i: -1} }
func (s *Set) Filter(f Filter) (Set, []KeyValue) {
	return NewSetWithFiltered(s.ToSlice(), f)
}
func (s *Set) String() string { return reflect.ValueOf(s.ToSlice()).String() }

type Iterator struct {
	s *Set
	i int
}

func (i *Iterator) Next() bool { i.i++; return i.i < i.s.Len() }
func (i *Iterator) Attribute() KeyValue {
	kv, _ := i.s.Get(i.i)
	return kv
}
func (i *Iterator) Label() KeyValue { return i.Attribute() }
func (i *Iterator) IndexedAttribute() (int, KeyValue) {
	return i.i, i.Attribute()
}
func (i *Iterator) Len() int { return i.s.Len() }
func (i *Iterator) ToSlice() []KeyValue {
	return i.s.ToSlice()
}

// MergeIterator merges two sets; the first wins on equal keys.
type MergeIterator struct {
	kvs []KeyValue
	i   int
}

func NewMergeIterator(a, b *Set) MergeIterator {
	m := NewSet(append(b.ToSlice(), a.ToSlice()...)...)
	return MergeIterator{m.kvs, -1}
}
func (m *MergeIterator) Next() bool          { m.i++; return m.i < len(m.kvs) }
func (m *MergeIterator) Attribute() KeyValue { return m.kvs[m.i] }
func (m *MergeIterator) Label() KeyValue     { return m.kvs[m.i] }
