// Package verifsym is the interface between harnesses and the checker. The
// symbolic machine interprets these functions itself; this file is their
// meaning in a native run, where the inputs come from a model file.
package verifsym

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
)

type input struct {
	Name string
	Kind string
	N    int
	Vals []string
}

type app struct {
	Name, Arg, Out string
}

type model struct {
	Tier   string
	Inputs []input
	Apps   []app
}

var (
	mu     sync.Mutex
	loaded bool
	mdl    model
	inputs map[string]*input
	apps   map[string][]byte
	names  = map[string]int{}
)

// Load reads the model file (native runs only).
func Load(path string) {
	loaded = true
	inputs = map[string]*input{}
	apps = map[string][]byte{}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &mdl); err != nil {
		panic(err)
	}
	for i := range mdl.Inputs {
		inputs[mdl.Inputs[i].Name] = &mdl.Inputs[i]
	}
	for _, a := range mdl.Apps {
		o, _ := hex.DecodeString(a.Out)
		apps[a.Name+"\x00"+a.Arg] = o
	}
}

func uname(n string) string {
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func val(name string) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	in := inputs[uname(name)]
	v := new(big.Int)
	if in != nil && len(in.Vals) > 0 {
		v.SetString(in.Vals[0], 16)
	}
	return v
}

// Byte is an unconstrained input byte.
func Byte(name string) byte { return byte(val(name).Uint64()) }

// Bytes is an unconstrained input of n bytes.
func Bytes(name string, n int) []byte {
	out := make([]byte, n)
	val(name).FillBytes(out)
	return out
}

// Str is an unconstrained input string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }
func Bool(name string) bool         { return val(name).Sign() != 0 }
func U8(name string) uint8          { return uint8(val(name).Uint64()) }
func U32(name string) uint32        { return uint32(val(name).Uint64()) }
func U64(name string) uint64        { return val(name).Uint64() }

// Int is an input between lo and hi.
func Int(name string, lo, hi int) int { return int(val(name).Uint64()) }

// Choose forks n ways.
func Choose(name string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	in := inputs[uname(name)]
	if in == nil {
		return 0
	}
	return in.N
}

type stop struct{ msg string }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(stop{"assumption"})
	}
}

// Assert states a property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("END assert: " + msg) // also when this is not the main goroutine
		panic(stop{"assert: " + msg})
	}
}

// Num is the number sum Parts[i]<<Shift[i] plus the little-endian LE.
type Num struct {
	Parts []int64
	Shift []int
	LE    []byte
}

func (n Num) big() *big.Int {
	r := new(big.Int)
	for i := len(n.LE) - 1; i >= 0; i-- {
		r.Lsh(r, 8).Or(r, big.NewInt(int64(n.LE[i])))
	}
	for i, p := range n.Parts {
		r.Add(r, new(big.Int).Lsh(big.NewInt(p), uint(n.Shift[i])))
	}
	return r
}

// Congruent asserts that the sum of the products is 0 modulo mod (or 0, if mod is "0").
func Congruent(msg, mod string, sum ...[]Num) {
	m, _ := new(big.Int).SetString(mod, 10)
	t := new(big.Int)
	for _, p := range sum {
		x := big.NewInt(1)
		for _, n := range p {
			x.Mul(x, n.big())
		}
		t.Add(t, x)
	}
	if m.Sign() != 0 {
		t.Mod(t, m)
	}
	Assert(t.Sign() == 0, msg)
}

// Within asserts that lo <= n <= hi.
func Within(msg string, n Num, lo, hi string) {
	l, _ := new(big.Int).SetString(lo, 10)
	h, _ := new(big.Int).SetString(hi, 10)
	Assert(n.big().Cmp(l) >= 0 && n.big().Cmp(h) <= 0, msg)
}

func Fail(msg string) { Assert(false, msg) }

// Cover records that a situation is reachable.
func Cover(name string) {}

func key(fam string, d []byte, n int) string {
	return fmt.Sprintf("%s/%d/%d\x00%s", fam, len(d), n, hex.EncodeToString(d))
}

func pseudo(fam string, data []byte, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.New()
		fmt.Fprintf(h, "%s/%d/%d/%d:", fam, len(data), n, i)
		h.Write(data)
		out = h.Sum(out)
	}
	return out[:n]
}

// UF is an ideal (collision-free, otherwise unconstrained) function.
func UF(fam string, data []byte, n int) []byte {
	if o, ok := apps[key(fam, data, n)]; ok {
		return append([]byte(nil), o...)
	}
	return pseudo(fam, data, n)
}

// UFn is UF with a real function standing in for values the model does not fix.
func UFn(fam string, data []byte, n int, real func([]byte, int) []byte) []byte {
	if o, ok := apps[key(fam, data, n)]; ok {
		return append([]byte(nil), o...)
	}
	return real(data, n)
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Ite chooses without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func StrEq(a, b string) bool { return a == b }

// Decide resolves a condition on this path.
func Decide(b bool) bool { return b }

// ConcInt makes a symbolic integer concrete on this path.
func ConcInt(i int) int { return i }

// Native reports whether this is a native run.
func Native() bool { return true }

// Thorough reports whether the thorough bounds are wanted.
func Thorough() bool { return mdl.Tier == "thorough" }

// Preempt allows n context switches at synchronisation points.
func Preempt(n int) {}

// OneOrder makes goroutines run in a fixed order: the harness is not about
// their interleaving.
func OneOrder(b bool) {}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	for i := 0; i < 50; i++ {
		yield()
	}
}

// Observe reports values for comparison between the symbolic and the native run.
func Observe(label string, vs ...interface{}) {
	var sb strings.Builder
	sb.WriteString(label + "=")
	for _, v := range vs {
		switch x := v.(type) {
		case nil:
			sb.WriteString("nil,")
		case string:
			fmt.Fprintf(&sb, "s%d:,", len(x))
			if len(x) > 0 {
				fmt.Fprintf(&sb, "%s,", new(big.Int).SetBytes([]byte(x)).Text(16))
			}
		default:
			rv := reflect.ValueOf(v)
			switch rv.Kind() {
			case reflect.Bool:
				if rv.Bool() {
					sb.WriteString("1,")
				} else {
					sb.WriteString("0,")
				}
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				i := big.NewInt(rv.Int())
				if i.Sign() < 0 {
					i.Add(i, new(big.Int).Lsh(big.NewInt(1), uint(rv.Type().Size()*8)))
				}
				fmt.Fprintf(&sb, "%s,", i.Text(16))
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				fmt.Fprintf(&sb, "%s,", new(big.Int).SetUint64(rv.Uint()).Text(16))
			case reflect.String:
				s := rv.String()
				fmt.Fprintf(&sb, "s%d:,", len(s))
				if len(s) > 0 {
					fmt.Fprintf(&sb, "%s,", new(big.Int).SetBytes([]byte(s)).Text(16))
				}
			case reflect.Slice, reflect.Array:
				b := make([]byte, rv.Len())
				for i := range b {
					b[i] = byte(rv.Index(i).Uint())
				}
				fmt.Fprintf(&sb, "b%d:,", len(b))
				if len(b) > 0 {
					fmt.Fprintf(&sb, "%s,", new(big.Int).SetBytes(b).Text(16))
				}
			case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan:
				if rv.IsNil() {
					sb.WriteString("nilptr,")
				} else {
					sb.WriteString("ptr,")
				}
			default:
				panic("observe of " + rv.Type().String())
			}
		}
	}
	fmt.Println("OBSERVE " + sb.String())
}

// Mark is a remembered state.
type Mark struct{ s string }

// Snapshot remembers everything reachable from v.
func Snapshot(v interface{}) *Mark { return &Mark{fingerprint(v)} }

// Same reports whether v is unchanged since the snapshot.
func Same(m *Mark, v interface{}) bool { return m.s == fingerprint(v) }

func Log(v interface{}) {}

func fingerprint(v interface{}) string {
	var sb strings.Builder
	seen := map[uintptr]int{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if !v.IsValid() {
			sb.WriteString("nil;")
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				sb.WriteString("nil;")
				return
			}
			if id, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&sb, "#%d;", id)
				return
			}
			seen[v.Pointer()] = len(seen)
			sb.WriteString("&")
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil;")
				return
			}
			fmt.Fprintf(&sb, "i(%s)", v.Elem().Type())
			rec(v.Elem())
		case reflect.Struct:
			sb.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
			sb.WriteString("}")
		case reflect.Slice:
			if v.IsNil() {
				sb.WriteString("nils;")
				return
			}
			fallthrough
		case reflect.Array:
			sb.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
			sb.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				sb.WriteString("nilm;")
				return
			}
			type kv struct {
				k string
				v reflect.Value
			}
			var es []kv
			for _, k := range v.MapKeys() {
				ks := keyText(k)
				es = append(es, kv{ks, v.MapIndex(k)})
			}
			sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
			sb.WriteString("m{")
			for _, e := range es {
				sb.WriteString(e.k + "=>")
				rec(e.v)
			}
			sb.WriteString("}")
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprintf(&sb, "f%x;", v.Pointer())
		case reflect.Bool:
			fmt.Fprintf(&sb, "%v;", v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&sb, "%d;", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprintf(&sb, "%d;", v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&sb, "%v;", v.Float())
		case reflect.String:
			fmt.Fprintf(&sb, "%q;", v.String())
		default:
			panic("fingerprint of " + v.Type().String())
		}
	}
	rec(reflect.ValueOf(v))
	return sb.String()
}

func keyText(k reflect.Value) string {
	switch k.Kind() {
	case reflect.Array:
		s := ""
		for i := 0; i < k.Len(); i++ {
			s += keyText(k.Index(i)) + ","
		}
		return s
	case reflect.String:
		return fmt.Sprintf("%q", k.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(k.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(k.Uint())
	case reflect.Ptr:
		return fmt.Sprintf("%x", k.Pointer())
	case reflect.Bool:
		return fmt.Sprint(k.Bool())
	}
	panic("fingerprint of key " + k.Type().String())
}

// RunNative runs an entry point and reports how it ended.
func RunNative(f func()) {
	defer func() {
		r := recover()
		if r == nil {
			fmt.Println("END done")
			return
		}
		if s, ok := r.(stop); ok {
			fmt.Println("END " + s.msg)
			return
		}
		fmt.Printf("END panic: %v\n", r)
	}()
	f()
}
