package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Intrinsics of the verifsym package.

func (m *Machine) input(in *Input) { m.inputs = append(m.inputs, in) }

func (m *Machine) uname(n string) string {
	// names of inputs are unique per path
	k := m.names["in:"+n]
	m.names["in:"+n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *Machine) symBytes(name string, n int) []*Term {
	noArms(m, "input")
	name = m.uname(name)
	if n == 0 {
		m.input(&Input{Name: name, Kind: "bytes"})
		return nil
	}
	w := m.c.Var(fmt.Sprintf("%s[%d]", name, n), 8*n)
	m.input(&Input{Name: name, Kind: "bytes", Terms: []*Term{w}, N: n})
	return m.splitBytes(w, n)
}

func (m *Machine) symInt(name string, w int) *Term {
	noArms(m, "input")
	name = m.uname(name)
	v := m.c.Var(fmt.Sprintf("%s:%d", name, w), w)
	m.input(&Input{Name: name, Kind: "int", Terms: []*Term{v}, N: w})
	return v
}

func (m *Machine) uf(fam string, data []*Term, n int) []*Term {
	name := fmt.Sprintf("%s/%d/%d", fam, len(data), n)
	var t *Term
	if len(data) == 0 {
		t = m.c.App(name, nil, 8*n)
	} else {
		t = m.c.App(name, m.c.Concat(data...), 8*n)
	}
	m.noteApp(t)
	return m.splitBytes(t, n)
}

func addSymNatives() {
	s := func(n string, f nativeFn) { natives[symPkg+"."+n] = f }
	s("Byte", func(m *Machine, fr *Frame, a []Value) Value { return m.symBytes(concStr(a[0]), 1)[0] })
	s("Bytes", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concInt(a[1].(*Term)))
		return m.exactBytes(m.symBytes(concStr(a[0]), n))
	})
	s("Str", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concInt(a[1].(*Term)))
		return mkStr(m.symBytes(concStr(a[0]), n))
	})
	s("Bool", func(m *Machine, fr *Frame, a []Value) Value { return m.symInt(concStr(a[0]), 0) })
	s("U8", func(m *Machine, fr *Frame, a []Value) Value { return m.symInt(concStr(a[0]), 8) })
	s("U32", func(m *Machine, fr *Frame, a []Value) Value { return m.symInt(concStr(a[0]), 32) })
	s("U64", func(m *Machine, fr *Frame, a []Value) Value { return m.symInt(concStr(a[0]), 64) })
	s("Int", func(m *Machine, fr *Frame, a []Value) Value {
		v := m.symInt(concStr(a[0]), 64)
		if lo, hi := a[1].(*Term), a[2].(*Term); lo.IsConst() && hi.IsConst() {
			m.ranged[v] = [2]*big.Int{big.NewInt(lo.S64()), big.NewInt(hi.S64())}
		}
		m.assume(m.c.And(m.c.Sle(a[1].(*Term), v), m.c.Sle(v, a[2].(*Term))))
		return v
	})
	s("Choose", func(m *Machine, fr *Frame, a []Value) Value {
		noArms(m, "choose")
		name := m.uname(concStr(a[0]))
		n := int(m.concInt(a[1].(*Term)))
		k := m.choose(n)
		m.input(&Input{Name: name, Kind: "choose", N: k})
		return m.c.Const(64, uint64(k))
	})
	s("Assume", func(m *Machine, fr *Frame, a []Value) Value { m.assume(a[0].(*Term)); return nil })
	s("Assert", func(m *Machine, fr *Frame, a []Value) Value {
		msg, _ := a[1].(string)
		m.check(a[0].(*Term), msg)
		return nil
	})
	s("Fail", func(m *Machine, fr *Frame, a []Value) Value {
		msg, _ := a[0].(string)
		m.check(m.c.False, msg)
		return nil
	})
	s("Cover", func(m *Machine, fr *Frame, a []Value) Value {
		noArms(m, "cover")
		m.covers[concStr(a[0])] = true
		return nil
	})
	s("UF", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concInt(a[2].(*Term)))
		return m.exactBytes(m.uf(concStr(a[0]), bytesOf(m, a[1]), n))
	})
	s("UFn", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concInt(a[2].(*Term)))
		return m.exactBytes(m.uf(concStr(a[0]), bytesOf(m, a[1]), n))
	})
	s("And", func(m *Machine, fr *Frame, a []Value) Value { return m.c.And(valTerms(a[0].(Slice).v)...) })
	s("Or", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Or(valTerms(a[0].(Slice).v)...) })
	s("Not", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Not(a[0].(*Term)) })
	s("Implies", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Implies(a[0].(*Term), a[1].(*Term)) })
	s("Iff", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Eq(a[0].(*Term), a[1].(*Term)) })
	s("IteInt", func(m *Machine, fr *Frame, a []Value) Value {
		return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	s("StrEq", func(m *Machine, fr *Frame, a []Value) Value { return m.eqBytes(m.strBytes(a[0]), m.strBytes(a[1])) })
	s("Decide", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Bool(m.decide(a[0].(*Term))) })
	s("ConcInt", func(m *Machine, fr *Frame, a []Value) Value {
		return m.c.Const(64, uint64(m.concInt(a[0].(*Term))))
	})
	s("Thorough", func(m *Machine, fr *Frame, a []Value) Value { return m.c.Bool(m.cfg.Tier == "thorough") })
	s("Native", func(m *Machine, fr *Frame, a []Value) Value { return m.c.False })
	s("Preempt", func(m *Machine, fr *Frame, a []Value) Value {
		m.preempt = int(m.concInt(a[0].(*Term)))
		return nil
	})
	s("OneOrder", func(m *Machine, fr *Frame, a []Value) Value {
		m.oneOrder = m.decide(a[0].(*Term))
		return nil
	})
	s("Quiesce", func(m *Machine, fr *Frame, a []Value) Value {
		// wait until every other goroutine is blocked or done
		g := m.g
		others := func() bool {
			for _, o := range m.gs {
				if o != g && !o.done && (!o.blocked || o.wake()) {
					return false
				}
			}
			return true
		}
		if !others() {
			m.block("quiesce", others)
		}
		return nil
	})
	s("Observe", func(m *Machine, fr *Frame, a []Value) Value {
		noArms(m, "observe")
		r := obsRec{label: concStr(a[0])}
		for _, v := range a[1].(Slice).v {
			m.observe(&r, v)
		}
		m.observed = append(m.observed, r)
		return nil
	})
	s("Snapshot", func(m *Machine, fr *Frame, a []Value) Value {
		noArms(m, "snapshot")
		return Iface{m.p.snapT, Native{&stateMark{m.deepCopy(a[0], map[*Value]*Value{}, map[*Map]*Map{})}}}
	})
	s("Same", func(m *Machine, fr *Frame, a []Value) Value {
		mk := a[0].(Iface).v.(Native).x.(*stateMark)
		return m.sameState(mk.v, a[1], map[[2]*Value]bool{})
	})
	s("Log", func(m *Machine, fr *Frame, a []Value) Value {
		if m.cfg.Verbose {
			fmt.Println("LOG", m.dump(a[0]))
		}
		return nil
	})
}

type stateMark struct{ v Value }

func (m *Machine) observe(r *obsRec, v Value) {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			r.parts = append(r.parts, obsPart{text: "nil"})
			return
		}
		v = i.v
	}
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			x = m.c.BoolToBV1(x)
		}
		r.parts = append(r.parts, obsPart{t: x})
	case string, SymStr:
		bs := m.strBytes(x)
		r.parts = append(r.parts, obsPart{text: fmt.Sprintf("s%d:", len(bs))})
		if len(bs) > 0 {
			r.parts = append(r.parts, obsPart{t: m.c.Concat(bs...)})
		}
	case Slice:
		bs := valTerms(x.v)
		r.parts = append(r.parts, obsPart{text: fmt.Sprintf("b%d:", len(bs))})
		if len(bs) > 0 {
			r.parts = append(r.parts, obsPart{t: m.c.Concat(bs...)})
		}
	case *Value:
		if x == nil {
			r.parts = append(r.parts, obsPart{text: "nilptr"})
		} else {
			r.parts = append(r.parts, obsPart{text: "ptr"})
		}
	default:
		panic(engErr("observe of %T", v))
	}
}

func (m *Machine) dump(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return m.dump(x.v)
	case *Term:
		return x.String()
	case string:
		return fmt.Sprintf("%q", x)
	case SymStr:
		return m.c.Concat(x...).String()
	case Slice:
		if len(x.v) > 0 {
			if t, ok := x.v[0].(*Term); ok && t.w == 8 {
				return m.c.Concat(valTerms(x.v)...).String()
			}
		}
		var p []string
		for _, e := range x.v {
			p = append(p, m.dump(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, m.dump(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&"
	}
	return fmt.Sprintf("%T", v)
}
