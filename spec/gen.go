package spec

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Rand drives native input generation.
var Rand = rand.New(rand.NewSource(1))

var ctr int

var strPool = []string{"", "a", "b", "aa", "ab", "x", "1", "2", "0", "-1", "a-b", "b-a", "source_id", "d", "-", "/", "a/b", "http", "10", "1.5", "NaN", "true", "é", "\x00", "\"", "app", "cell", "guid-1", "__name__", "tag", "a\nb", "a%41", "a+b", "9.5"}

var customGen = map[reflect.Type]func() interface{}{}

// GenFor registers a generator for a type (native runs only).
func GenFor[T any](f func() T) {
	customGen[reflect.TypeOf((*T)(nil)).Elem()] = func() interface{} { return f() }
}

// Gen produces a random value of type t.
func Gen(t reflect.Type, depth int) reflect.Value {
	if f, ok := customGen[t]; ok {
		return reflect.ValueOf(f())
	}
	v := reflect.New(t).Elem()
	fill(v, depth)
	return v
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func genInt(bits int) int64 {
	var r int64
	switch Rand.Intn(12) {
	case 0:
		r = math.MaxInt64
	case 1:
		r = math.MinInt64
	case 2:
		r = Rand.Int63()
	case 3:
		r = -Rand.Int63()
	case 4:
		r = int64(Rand.Intn(2000)) * 1000000
	case 5:
		if bits == 64 {
			r = time.Now().UnixNano() + int64(Rand.Intn(7)-3)*int64(Rand.Intn(1200))*1000000
		}
	default:
		r = int64(Rand.Intn(12)) - 3
	}
	switch bits {
	case 8:
		return int64(int8(r))
	case 16:
		return int64(int16(r))
	case 32:
		return int64(int32(r))
	}
	return r
}

func fill(v reflect.Value, depth int) {
	v = settable(v)
	t := v.Type()
	if f, ok := customGen[t]; ok {
		v.Set(reflect.ValueOf(f()))
		return
	}
	if t == reflect.TypeOf(time.Time{}) {
		n := genInt(64)
		if Rand.Intn(10) > 0 {
			n = int64(Rand.Intn(20)) + 1
		}
		v.Set(reflect.ValueOf(time.Unix(0, n)))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(Rand.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		u := uint64(genInt(64))
		if Rand.Intn(3) > 0 {
			u = uint64(Rand.Intn(12))
		}
		if t.Bits() < 64 {
			u &= 1<<uint(t.Bits()) - 1
		}
		v.SetUint(u)
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1, 0.5, 2, 3, 1e9, -2.25, 100, 99.9}[Rand.Intn(10)])
	case reflect.String:
		v.SetString(strPool[Rand.Intn(len(strPool))])
	case reflect.Slice:
		n := Rand.Intn(4)
		if Rand.Intn(8) == 0 {
			n = 4 + Rand.Intn(4)
		}
		if depth > 6 {
			n = 0
		}
		if n == 0 && Rand.Intn(2) == 0 {
			return
		}
		c := n + Rand.Intn(3)
		s := reflect.MakeSlice(t, n, c)
		for i := 0; i < n; i++ {
			fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		n := Rand.Intn(4)
		if depth > 6 {
			n = 0
		}
		if n == 0 && Rand.Intn(2) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			m.SetMapIndex(Gen(t.Key(), depth+1), Gen(t.Elem(), depth+1))
		}
		v.Set(m)
	case reflect.Ptr:
		if depth > 6 || Rand.Intn(12) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.HasPrefix(f.Name, "XXX_") || f.Name == "state" || f.Name == "sizeCache" || f.Name == "unknownFields" || f.Name == "_" {
				continue
			}
			fill(v.Field(i), depth+1)
		}
	case reflect.Interface:
		if t == reflect.TypeOf((*error)(nil)).Elem() {
			if Rand.Intn(2) == 0 {
				v.Set(reflect.ValueOf(fmt.Errorf("error-%d", Rand.Intn(3))))
			}
			return
		}
		if impls, ok := Impls[t]; ok && len(impls) > 0 {
			k := Rand.Intn(len(impls) + 1)
			if k < len(impls) {
				v.Set(Gen(impls[k], depth+1))
			}
		}
	}
}

// Impls lists candidate dynamic types of interface-typed fields for native generation.
var Impls = map[reflect.Type][]reflect.Type{}

// Impl registers T as an implementation of interface I for native generation.
func Impl[I any, T any]() {
	it := reflect.TypeOf((*I)(nil)).Elem()
	Impls[it] = append(Impls[it], reflect.TypeOf((*T)(nil)).Elem())
}

// Dump prints a value deeply.
func Dump(v interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0, map[uintptr]bool{})
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}

func dump(b *strings.Builder, v reflect.Value, depth int, seen map[uintptr]bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 8 {
		b.WriteString("…")
		return
	}
	t := v.Type()
	if t == reflect.TypeOf(time.Time{}) {
		if v.CanInterface() {
			fmt.Fprintf(b, "time(%d)", v.Interface().(time.Time).UnixNano())
		} else {
			b.WriteString("time(?)")
		}
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			b.WriteString("&<cycle>")
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		dump(b, v.Elem(), depth+1, seen)
		delete(seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), depth, seen)
	case reflect.Struct:
		b.WriteString(t.Name() + "{")
		first := true
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if n == "state" || n == "sizeCache" || n == "unknownFields" || strings.HasPrefix(n, "XXX_") {
				continue
			}
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(n + ": ")
			dump(b, v.Field(i), depth+1, seen)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			if i > 32 {
				b.WriteString("…")
				break
			}
			dump(b, v.Index(i), depth+1, seen)
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, depth+1, seen)
			kb.WriteString(": ")
			dump(&kb, v.MapIndex(k), depth+1, seen)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString("{" + strings.Join(ks, ", ") + "}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	case reflect.Func:
		b.WriteString("func")
	default:
		b.WriteString(t.String())
	}
}
