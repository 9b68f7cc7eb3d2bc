package main

// encoding/json on symbolic data. A marshalled document is an opaque concrete
// token naming a node of the path's document table; unmarshalling a token (or
// literal text) follows the rules of encoding/json field by field.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jBytes
	jArr
	jObj
)

type jsonNode struct {
	k      jkind
	t      *Term // bool, number
	signed bool
	text   string // number literal that is not an integer
	str    Value
	bs     []*Term
	arr    []*jsonNode
	keys   []Value
	vals   []*jsonNode
}

type jfield struct {
	name      string
	path      []int
	typ       types.Type
	omitEmpty bool
	tagged    bool
}

var jtoken = regexp.MustCompile("\x01J[0-9]{6}\x01")

// ---- field lists (encoding/json's dominance rules) ----

func (m *Machine) jfields(t types.Type) []jfield {
	type ent struct {
		st   *types.Struct
		path []int
	}
	cur := []ent{{t.Underlying().(*types.Struct), nil}}
	seen := map[*types.Struct]bool{}
	var out []jfield
	done := map[string]bool{}
	for len(cur) > 0 {
		var next []ent
		var level []jfield
		for _, e := range cur {
			if seen[e.st] {
				continue
			}
			seen[e.st] = true
			for i := 0; i < e.st.NumFields(); i++ {
				f := e.st.Field(i)
				path := append(append([]int(nil), e.path...), i)
				ft := f.Type()
				if f.Anonymous() {
					u := ft
					if p, ok := u.Underlying().(*types.Pointer); ok {
						u = p.Elem()
					}
					_, isS := u.Underlying().(*types.Struct)
					if !f.Exported() && !isS {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(e.st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				omit := false
				for _, p := range parts[1:] {
					if p == "omitempty" {
						omit = true
					} else if p == "string" {
						panic(engErr("json string option"))
					}
				}
				if f.Anonymous() && name == "" {
					u := ft
					if p, ok := u.(*types.Pointer); ok {
						u = p.Elem()
					}
					if st, ok := u.Underlying().(*types.Struct); ok {
						next = append(next, ent{st, path})
						continue
					}
				}
				tagged := name != ""
				if name == "" {
					name = f.Name()
				}
				level = append(level, jfield{name, path, ft, omit, tagged})
			}
		}
		cnt := map[string]int{}
		cntTag := map[string]int{}
		for _, f := range level {
			cnt[f.name]++
			if f.tagged {
				cntTag[f.name]++
			}
		}
		for _, f := range level {
			if done[f.name] {
				continue
			}
			if cnt[f.name] > 1 && !(cntTag[f.name] == 1 && f.tagged) {
				continue
			}
			out = append(out, f)
		}
		for n := range cnt {
			done[n] = true
		}
		cur = next
	}
	return out
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "RawMessage"
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- encoding ----

func (m *Machine) jnew(n *jsonNode) Value {
	noArms(m, "json")
	m.jsonTab = append(m.jsonTab, n)
	s := fmt.Sprintf("\x01J%06d\x01", len(m.jsonTab)-1)
	return m.newBytes(m.strBytes(s))
}

type jsonErr struct{ msg string }

func jsonMarshal(m *Machine, fr *Frame, a []Value) (res Value) {
	noArms(m, "json")
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			res = Tuple{Slice{nil: true}, m.newError(e.msg)}
		}
	}()
	v := a[0].(Iface)
	var n *jsonNode
	if v.t == nil {
		n = &jsonNode{k: jNull}
	} else {
		n = m.jenc(v.t, v.v)
	}
	return Tuple{m.jnew(n), Iface{}}
}

func (m *Machine) jenc(t types.Type, v Value) *jsonNode {
	if isRawMessage(t) {
		s := v.(Slice)
		if s.nil {
			return &jsonNode{k: jNull}
		}
		n, _ := m.jsonParse(s)
		if n == nil {
			panic(jsonErr{"json: error calling MarshalJSON for type json.RawMessage"})
		}
		return n
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.(*Value) == nil {
			return &jsonNode{k: jNull}
		}
		if isRawMessage(p.Elem()) {
			return m.jenc(p.Elem(), *v.(*Value))
		}
	}
	if fn := m.p.lookup(t, "MarshalJSON"); fn != nil {
		r := m.callSync(&Closure{fn: fn}, []Value{v}).(Tuple)
		if r[1].(Iface).t != nil {
			panic(jsonErr{"json: error calling MarshalJSON"})
		}
		n, _ := m.jsonParse(r[0])
		if n == nil {
			panic(jsonErr{"json: error calling MarshalJSON"})
		}
		return n
	}
	if fn := m.p.lookup(t, "MarshalText"); fn != nil {
		r := m.callSync(&Closure{fn: fn}, []Value{v}).(Tuple)
		if r[1].(Iface).t != nil {
			panic(jsonErr{"json: error calling MarshalText"})
		}
		return m.jstr(mkStr(bytesOf(m, r[0])))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := basicWidth(u); ok {
			if w == 0 {
				return &jsonNode{k: jBool, t: v.(*Term)}
			}
			return &jsonNode{k: jNum, t: v.(*Term), signed: s}
		}
		if u.Info()&types.IsString != 0 {
			return m.jstr(v)
		}
		if f, ok := v.(float64); ok {
			return &jsonNode{k: jNum, text: strconv.FormatFloat(f, 'g', -1, 64)}
		}
	case *types.Pointer:
		return m.jenc(u.Elem(), *v.(*Value))
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return &jsonNode{k: jNull}
		}
		return m.jenc(i.t, i.v)
	case *types.Slice:
		s := v.(Slice)
		if s.nil {
			return &jsonNode{k: jNull}
		}
		if isByteType(u.Elem()) {
			return &jsonNode{k: jBytes, bs: valTerms(s.v)}
		}
		n := &jsonNode{k: jArr}
		for _, x := range s.v {
			n.arr = append(n.arr, m.jenc(u.Elem(), x))
		}
		return n
	case *types.Array:
		n := &jsonNode{k: jArr}
		for _, x := range v.(Array) {
			n.arr = append(n.arr, m.jenc(u.Elem(), x))
		}
		return n
	case *types.Map:
		if kb, ok := u.Key().Underlying().(*types.Basic); !ok || kb.Info()&types.IsString == 0 {
			panic(engErr("json of map key %v", u.Key()))
		}
		mp := v.(*Map)
		if mp == nil {
			return &jsonNode{k: jNull}
		}
		n := &jsonNode{k: jObj}
		for _, e := range mp.ents {
			n.keys = append(n.keys, m.jstr(e.k).str)
			n.vals = append(n.vals, m.jenc(u.Elem(), e.v))
		}
		return n
	case *types.Struct:
		n := &jsonNode{k: jObj}
	fields:
		for _, f := range m.jfields(t) {
			var cur Value = v
			ct := t
			for _, i := range f.path {
				if p, ok := ct.Underlying().(*types.Pointer); ok {
					pv := cur.(*Value)
					if pv == nil {
						continue fields
					}
					cur = *pv
					ct = p.Elem()
				}
				ct2 := ct.Underlying().(*types.Struct)
				cur = cur.(Struct)[i]
				ct = ct2.Field(i).Type()
			}
			if f.omitEmpty && m.jempty(f.typ, cur) {
				continue
			}
			n.keys = append(n.keys, f.name)
			n.vals = append(n.vals, m.jenc(f.typ, cur))
		}
		return n
	case *types.Chan, *types.Signature:
		panic(jsonErr{"json: unsupported type"})
	}
	panic(engErr("json of %v", t))
}

func (m *Machine) jstr(v Value) *jsonNode {
	if s, ok := v.(string); ok {
		b, err := json.Marshal(s)
		if err == nil {
			var back string
			if json.Unmarshal(b, &back) == nil {
				return &jsonNode{k: jStr, str: back}
			}
		}
		panic(engErr("json string"))
	}
	for _, b := range v.(SymStr) {
		if b.IsConst() && b.u < 0x80 {
			continue
		}
		if !m.decide(m.c.Ult(b, m.c.Const(8, 0x80))) {
			panic(engErr("non-ASCII symbolic string in a JSON document"))
		}
	}
	return &jsonNode{k: jStr, str: v}
}

func (m *Machine) jempty(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := basicWidth(u); ok {
			x := v.(*Term)
			if x.w == 0 {
				return m.decide(m.c.Not(x))
			}
			return m.decide(m.c.Eq(x, m.c.Const(x.w, 0)))
		}
		if u.Info()&types.IsString != 0 {
			return strLen(v) == 0
		}
		return v.(float64) == 0
	case *types.Pointer:
		return v.(*Value) == nil
	case *types.Interface:
		return v.(Iface).t == nil
	case *types.Slice:
		return len(v.(Slice).v) == 0
	case *types.Array:
		return len(v.(Array)) == 0
	case *types.Map:
		mp := v.(*Map)
		return mp == nil || len(mp.ents) == 0
	}
	return false
}

// ---- parsing ----

// jsonParse turns document bytes into a node; nil if it is not valid JSON.
func (m *Machine) jsonParse(v Value) (*jsonNode, error) {
	bs := bytesOf(m, v)
	buf := make([]byte, len(bs))
	for i, b := range bs {
		if !b.IsConst() {
			panic(engErr("JSON document with symbolic bytes"))
		}
		buf[i] = byte(b.u)
	}
	if len(buf) == 9 && buf[0] == 1 && jtoken.Match(buf) {
		return m.jsonTab[atoi(string(buf[2:8]))], nil
	}
	text := jtoken.ReplaceAllFunc(buf, func(t []byte) []byte {
		return []byte(`"\u0001J` + string(t[2:8]) + `\u0001"`)
	})
	if !json.Valid(text) {
		return nil, fmt.Errorf("invalid")
	}
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	n := m.jread(d)
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return n, nil
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func (m *Machine) jread(d *json.Decoder) *jsonNode {
	t, err := d.Token()
	if err != nil {
		panic(engErr("json: %v", err))
	}
	switch x := t.(type) {
	case nil:
		return &jsonNode{k: jNull}
	case bool:
		return &jsonNode{k: jBool, t: m.c.Bool(x)}
	case json.Number:
		return m.jnum(string(x))
	case string:
		if len(x) == 9 && jtoken.MatchString(x) {
			return m.jsonTab[atoi(x[2:8])]
		}
		return &jsonNode{k: jStr, str: x}
	case json.Delim:
		switch x {
		case '[':
			n := &jsonNode{k: jArr}
			for d.More() {
				n.arr = append(n.arr, m.jread(d))
			}
			d.Token()
			return n
		case '{':
			n := &jsonNode{k: jObj}
			for d.More() {
				k, _ := d.Token()
				n.keys = append(n.keys, k.(string))
				n.vals = append(n.vals, m.jread(d))
			}
			d.Token()
			return n
		}
	}
	panic(engErr("json token %v", t))
}

func (m *Machine) jnum(s string) *jsonNode {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return &jsonNode{k: jNum, t: m.c.Const(64, uint64(i)), signed: true}
	}
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		return &jsonNode{k: jNum, t: m.c.Const(64, u)}
	}
	return &jsonNode{k: jNum, text: s}
}

// ---- decoding ----

type jdec struct {
	m   *Machine
	err string
}

func (d *jdec) save(msg string) {
	if d.err == "" {
		d.err = msg
	}
}

func jsonUnmarshal(m *Machine, fr *Frame, a []Value) Value {
	noArms(m, "json")
	n, _ := m.jsonParse(a[0])
	if n == nil {
		return m.newError("invalid character in JSON document")
	}
	v := a[1].(Iface)
	if v.t == nil {
		return m.newError("json: Unmarshal(nil)")
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		return m.newError("json: Unmarshal(non-pointer)")
	}
	p := v.v.(*Value)
	if p == nil {
		return m.newError("json: Unmarshal(nil pointer)")
	}
	d := &jdec{m: m}
	d.dec(n, pt.Elem(), p)
	if d.err != "" {
		return m.newError(d.err)
	}
	return Iface{}
}

func (d *jdec) dec(n *jsonNode, t types.Type, cell *Value) {
	m := d.m
	if isRawMessage(t) {
		m.set(cell, m.jnew(n))
		return
	}
	if _, isP := t.Underlying().(*types.Pointer); !isP {
		if _, ok := types.Unalias(t).(*types.Named); ok {
			if fn := m.p.lookup(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
				if r := m.callSync(&Closure{fn: fn}, []Value{cell, m.jnew(n)}).(Iface); r.t != nil {
					d.save(m.errText(r))
				}
				return
			}
			if m.p.lookup(types.NewPointer(t), "UnmarshalText") != nil {
				panic(engErr("json: UnmarshalText of %v", t))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.k == jNull {
			m.set(cell, (*Value)(nil))
			return
		}
		p := (*cell).(*Value)
		if p == nil {
			p = m.newCell(m.zero(u.Elem()))
			m.set(cell, p)
		}
		d.dec(n, u.Elem(), p)
		return
	case *types.Interface:
		i := (*cell).(Iface)
		if i.t != nil {
			if pt, ok := i.t.Underlying().(*types.Pointer); ok && i.v.(*Value) != nil {
				_, pp := pt.Elem().Underlying().(*types.Pointer)
				if n.k != jNull || pp {
					d.dec(n, pt.Elem(), i.v.(*Value))
					return
				}
			}
		}
		if n.k == jNull {
			m.set(cell, Iface{})
			return
		}
		if u.NumMethods() > 0 {
			d.save("json: cannot unmarshal into Go value of interface type")
			return
		}
		m.set(cell, d.generic(n))
		return
	}
	if n.k == jNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			m.set(cell, m.zero(t))
		}
		return
	}
	bad := func() { d.save("json: cannot unmarshal into Go value of type " + t.String()) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := basicWidth(u); ok {
			if w == 0 {
				if n.k != jBool {
					bad()
					return
				}
				m.set(cell, n.t)
				return
			}
			if n.k != jNum || n.t == nil {
				bad()
				return
			}
			v, ok := d.fit(n, w, s)
			if !ok {
				bad()
				return
			}
			m.set(cell, v)
			return
		}
		if u.Info()&types.IsString != 0 {
			switch n.k {
			case jStr:
				m.set(cell, n.str)
			case jBytes:
				m.set(cell, m.b64(n.bs))
			default:
				bad()
			}
			return
		}
		if u.Info()&types.IsFloat != 0 {
			if n.k != jNum {
				bad()
				return
			}
			m.set(cell, d.float(n))
			return
		}
	case *types.Slice:
		if isByteType(u.Elem()) {
			switch n.k {
			case jBytes:
				if len(n.bs) == 0 {
					m.set(cell, Slice{v: make([]Value, 0, 1)})
					return
				}
				m.set(cell, m.newBytes(n.bs))
				return
			case jStr:
				s, ok := n.str.(string)
				if !ok {
					panic(engErr("json: symbolic base64 text"))
				}
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					d.save("illegal base64 data")
					return
				}
				m.set(cell, m.newBytes(m.strBytes(string(b))))
				return
			}
		}
		if n.k != jArr {
			bad()
			return
		}
		old := (*cell).(Slice)
		out := make([]Value, len(n.arr), max(len(n.arr), 1))
		for i := range out {
			if i < len(old.v) {
				out[i] = old.v[i]
			} else {
				out[i] = m.zero(u.Elem())
			}
		}
		for i := range out {
			d.dec(n.arr[i], u.Elem(), &out[i])
		}
		m.set(cell, Slice{v: out})
		return
	case *types.Array:
		if n.k != jArr {
			bad()
			return
		}
		arr := (*cell).(Array)
		for i := range arr {
			if i < len(n.arr) {
				d.dec(n.arr[i], u.Elem(), &arr[i])
			} else {
				m.storeInto(&arr[i], m.zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if n.k != jObj {
			bad()
			return
		}
		mp := (*cell).(*Map)
		if mp == nil {
			mp = &Map{kt: u.Key(), vt: u.Elem()}
			m.set(cell, mp)
		}
		for i, k := range n.keys {
			e := m.zero(u.Elem())
			d.dec(n.vals[i], u.Elem(), &e)
			m.mapSet(mp, k, e)
		}
		return
	case *types.Struct:
		if n.k != jObj {
			bad()
			return
		}
		fs := m.jfields(t)
		for i, kv := range n.keys {
			k, ok := kv.(string)
			if !ok {
				panic(engErr("json: symbolic key into a struct"))
			}
			f := -1
			for j := range fs {
				if fs[j].name == k {
					f = j
					break
				}
			}
			if f < 0 {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						f = j
						break
					}
				}
			}
			if f < 0 {
				continue
			}
			c := cell
			ct := t
			for _, pi := range fs[f].path {
				if p, ok := ct.Underlying().(*types.Pointer); ok {
					q := (*c).(*Value)
					if q == nil {
						q = m.newCell(m.zero(p.Elem()))
						m.set(c, q)
					}
					c = q
					ct = p.Elem()
				}
				s := (*c).(Struct)
				c = &s[pi]
				ct = ct.Underlying().(*types.Struct).Field(pi).Type()
			}
			d.dec(n.vals[i], ct, c)
		}
		return
	}
	panic(engErr("json: decoding into %v", t))
}

// fit converts a number node to an integer of width w; false if out of range.
func (d *jdec) fit(n *jsonNode, w int, signed bool) (*Term, bool) {
	m := d.m
	x := n.t
	// compare in 65 bits, sign included
	var e *Term
	if n.signed {
		e = m.c.Sext(x, 66)
	} else {
		e = m.c.Zext(x, 66)
	}
	var lo, hi *Term
	one := m.c.Const(66, 1)
	if signed {
		hi = m.c.Sub(m.c.ShlC(one, w-1), one)
		lo = m.c.Sub(m.c.Const(66, 0), m.c.ShlC(one, w-1))
	} else {
		hi = m.c.Sub(m.c.ShlC(one, w), one)
		lo = m.c.Const(66, 0)
	}
	if x.w <= w && n.signed == signed {
		// always fits
	} else if !m.decide(m.c.And(m.c.Sle(lo, e), m.c.Sle(e, hi))) {
		return nil, false
	}
	return m.c.Extract(e, w-1, 0), true
}

func (d *jdec) float(n *jsonNode) Value {
	if n.t == nil {
		f, err := strconv.ParseFloat(n.text, 64)
		if err != nil {
			d.save("number out of range")
		}
		return f
	}
	if !n.t.IsConst() {
		return Poison{"float of a symbolic number"}
	}
	if n.signed {
		return float64(n.t.S64())
	}
	return float64(n.t.u)
}

func (d *jdec) generic(n *jsonNode) Iface {
	m := d.m
	switch n.k {
	case jNull:
		return Iface{}
	case jBool:
		return Iface{types.Typ[types.Bool], n.t}
	case jNum:
		return Iface{types.Typ[types.Float64], d.float(n)}
	case jStr:
		return Iface{types.Typ[types.String], n.str}
	case jBytes:
		return Iface{types.Typ[types.String], m.b64(n.bs)}
	case jArr:
		anyT := types.NewInterfaceType(nil, nil)
		s := Slice{v: make([]Value, 0, len(n.arr))}
		for _, x := range n.arr {
			s.v = append(s.v, d.generic(x))
		}
		return Iface{types.NewSlice(anyT), s}
	}
	anyT := types.NewInterfaceType(nil, nil)
	mp := &Map{kt: types.Typ[types.String], vt: anyT}
	for i, k := range n.keys {
		m.mapSet(mp, k, d.generic(n.vals[i]))
	}
	return Iface{types.NewMap(types.Typ[types.String], anyT), mp}
}

// b64 encodes bytes as base64 text.
func (m *Machine) b64(bs []*Term) Value {
	conc := make([]byte, len(bs))
	for i, b := range bs {
		if !b.IsConst() {
			return Poison{"base64 text of symbolic bytes"}
		}
		conc[i] = byte(b.u)
	}
	return base64.StdEncoding.EncodeToString(conc)
}
