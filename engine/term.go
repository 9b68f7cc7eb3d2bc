package main

// Terms: hash-consed booleans and bit-vectors with an eager simplifier.
//
// Byte strings are terms too: the byte string b0 b1 .. is the bit-vector
// concat(b0, b1, ..), and byte i of a wide term is an extract of it, so that
// byte-wise code collapses back to wide equalities.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // injective constructor (hash, signature, ...): name, a[0] (absent for empty input)
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OUlt
	OSlt
	// integer sort (w == -1)
	OIAdd
	OIMul
	OIMod // mod by positive constant
	OILe
	OBv2Int
)

type Term struct {
	id   uint32
	op   Op
	w    int // 0 bool, >0 bit-vector width, -1 Int
	a    []*Term
	u    uint64   // constants up to 64 bits
	big  *big.Int // wider constants, Int constants
	name string
	hi   int
	lo   int
	napp bool   // contains an OApp
	h    uint64 // structural hash: orders terms the same way in every run
}

type Ctx struct {
	tab   map[string]*Term
	next  uint32
	True  *Term
	False *Term
	bytes [256]*Term
	kb    []byte
	ext   map[extKey]*Term // results of Extract
}

type extKey struct {
	t      *Term
	hi, lo int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[string]*Term, 1<<14)}
	c.False = c.mk(&Term{op: OConst, w: 0, u: 0})
	c.True = c.mk(&Term{op: OConst, w: 0, u: 1})
	for i := range c.bytes {
		c.bytes[i] = c.mk(&Term{op: OConst, w: 8, u: uint64(i)})
	}
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	b := c.kb[:0]
	b = append(b, byte(t.op))
	b = appU(b, uint64(int64(t.w)))
	switch t.op {
	case OConst:
		if t.big != nil {
			b = append(b, 1)
			if t.big.Sign() < 0 {
				b = append(b, '-')
			}
			b = append(b, t.big.Bytes()...)
		} else {
			b = append(b, 0)
			b = appU(b, t.u)
		}
	case OVar:
		b = append(b, t.name...)
	case OApp:
		b = append(b, t.name...)
		b = append(b, 0)
	case OExtract:
		b = appU(b, uint64(t.hi))
		b = appU(b, uint64(t.lo))
	}
	for _, x := range t.a {
		b = appU(b, uint64(x.id))
		if x.napp || x.op == OApp {
			t.napp = true
		}
	}
	c.kb = b
	if e, ok := c.tab[string(b)]; ok {
		return e
	}
	t.id = c.next
	c.next++
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h = (h ^ v) * 1099511628211
		h ^= h >> 29
	}
	mix(uint64(t.op))
	mix(uint64(int64(t.w)))
	mix(uint64(t.hi)<<32 | uint64(uint32(t.lo)))
	mix(t.u)
	for i := 0; i < len(t.name); i++ {
		mix(uint64(t.name[i]))
	}
	if t.big != nil {
		mix(uint64(t.big.Sign() + 1))
		for _, x := range t.big.Bits() {
			mix(uint64(x))
		}
	}
	for _, x := range t.a {
		mix(x.h)
	}
	t.h = h
	c.tab[string(b)] = t
	return t
}

func before(a, b *Term) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

func appU(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) Const(w int, v uint64) *Term {
	if w == 8 {
		return c.bytes[v&0xff]
	}
	if w == 0 {
		if v&1 == 1 {
			return c.True
		}
		return c.False
	}
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	return c.mk(&Term{op: OConst, w: w, u: v & mask(w)})
}

func (c *Ctx) BigConst(w int, v *big.Int) *Term {
	if w <= 64 && w >= 0 {
		m := new(big.Int).And(v, new(big.Int).SetUint64(mask(w)))
		return c.Const(w, m.Uint64())
	}
	if w > 64 {
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		v = new(big.Int).And(v, m)
	}
	return c.mk(&Term{op: OConst, w: w, big: v})
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Big() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) IsZero() bool {
	return t.op == OConst && ((t.big == nil && t.u == 0) || (t.big != nil && t.big.Sign() == 0))
}
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.u == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.u == 0 }
func (t *Term) isOnes() bool {
	if t.op != OConst || t.w <= 0 {
		return false
	}
	if t.big == nil {
		return t.u == mask(t.w)
	}
	return t.big.BitLen() == t.w && new(big.Int).Add(t.big, big.NewInt(1)).BitLen() == t.w+1
}

// Signed value of a constant up to 64 bits.
func (t *Term) S64() int64 {
	s := uint(64 - t.w)
	return int64(t.u<<s) >> s
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w int) *Term {
	return c.mk(&Term{op: OVar, w: w, name: name})
}

// App builds the injective constructor name(arg) of width w bits.
// Applications with the same name have arguments of the same width.
func (c *Ctx) App(name string, arg *Term, w int) *Term {
	t := &Term{op: OApp, w: w, name: name}
	if arg != nil {
		t.a = []*Term{arg}
	}
	return c.mk(t)
}

func (c *Ctx) Not(x *Term) *Term {
	if x.IsConst() {
		return c.Bool(x.u == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(&Term{op: ONot, a: []*Term{x}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	zero, unit := c.False, c.True
	if op == OOr {
		zero, unit = c.True, c.False
	}
	var out []*Term
	flat := true
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		if x.op == op {
			out = append(out, x.a...)
			flat = false
		} else {
			out = append(out, x)
		}
	}
	_ = flat
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return before(out[i], out[j]) })
	k := 0
	for i, x := range out {
		if i == 0 || x != out[k-1] {
			out[k] = x
			k++
		}
	}
	out = out[:k]
	if len(out) == 1 {
		return out[0]
	}
	seen := make(map[uint32]bool, len(out))
	for _, x := range out {
		seen[x.id] = true
	}
	for _, x := range out {
		if x.op == ONot && seen[x.a[0].id] {
			return zero
		}
	}
	return c.mk(&Term{op: op, a: out})
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if g.IsConst() {
		if g.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		g, a, b = g.a[0], b, a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
	}
	// ite(g, ite(g,x,y), z) etc.
	if a.op == OIte && a.a[0] == g {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == g {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// 1-bit style: ite(g, concat(0..0,1), 0) handled as concat of ite on the differing segment
	if a.w > 1 && a.w <= 64 && a.IsConst() && b.IsConst() {
		x := a.u ^ b.u
		if x&(x-1) == 0 { // differ in a single bit
			pos := 0
			for x>>uint(pos+1) != 0 {
				pos++
			}
			bit := c.Ite(g, c.Const(1, a.u>>uint(pos)), c.Const(1, b.u>>uint(pos)))
			return c.replaceBits(a, pos, bit)
		}
	}
	return c.mk(&Term{op: OIte, w: a.w, a: []*Term{g, a, b}})
}

func (c *Ctx) replaceBits(t *Term, lo int, bits *Term) *Term {
	var parts []*Term
	if lo+bits.w < t.w {
		parts = append(parts, c.Extract(t, t.w-1, lo+bits.w))
	}
	parts = append(parts, bits)
	if lo > 0 {
		parts = append(parts, c.Extract(t, lo-1, 0))
	}
	return c.Concat(parts...)
}

// BoolToBV1 turns a boolean into a 1-bit vector.
func (c *Ctx) BoolToBV1(b *Term) *Term { return c.Ite(b, c.Const(1, 1), c.Const(1, 0)) }

func (c *Ctx) Concat(xs ...*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	out := make([]*Term, 0, len(xs))
	for _, x := range xs {
		if x.op == OConcat {
			for _, y := range x.a {
				out = c.pushPart(out, y)
			}
		} else {
			out = c.pushPart(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	return c.mk(&Term{op: OConcat, w: w, a: out})
}

func (c *Ctx) pushPart(out []*Term, y *Term) []*Term {
	for len(out) > 0 {
		p := out[len(out)-1]
		if p.op == OConst && y.op == OConst {
			w := p.w + y.w
			if w <= 64 {
				y = c.Const(w, p.u<<uint(y.w)|y.u)
			} else {
				v := new(big.Int).Lsh(p.Big(), uint(y.w))
				v.Or(v, y.Big())
				y = c.BigConst(w, v)
			}
			out = out[:len(out)-1]
			continue
		}
		if p.op == OExtract && y.op == OExtract && p.a[0] == y.a[0] && p.lo == y.hi+1 {
			y = c.Extract(p.a[0], p.hi, y.lo)
			out = out[:len(out)-1]
			if y.op == OConcat { // cannot happen: extracts of concats are split
				for _, z := range y.a {
					out = append(out, z)
				}
				return out
			}
			continue
		}
		if p.op == OIte && y.op == OIte && p.a[0] == y.a[0] && p.w+y.w <= 4096 && iteMergeable(p, y) {
			g := p.a[0]
			y = c.Ite(g, c.Concat(p.a[1], y.a[1]), c.Concat(p.a[2], y.a[2]))
			out = out[:len(out)-1]
			continue
		}
		break
	}
	return append(out, y)
}

// iteMergeable: concatenating the arms of both ites does not get bigger.
func iteMergeable(p, y *Term) bool {
	ok := func(a, b *Term) bool {
		if a.op == OConst && b.op == OConst {
			return true
		}
		if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && a.lo == b.hi+1 {
			return true
		}
		if a.op == OConcat && b.op == OExtract {
			l := a.a[len(a.a)-1]
			return l.op == OExtract && l.a[0] == b.a[0] && l.lo == b.hi+1
		}
		return false
	}
	return ok(p.a[1], y.a[1]) && ok(p.a[2], y.a[2])
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if hi < lo || hi >= t.w || lo < 0 {
		panic(fmt.Sprintf("extract %d %d of width %d", hi, lo, t.w))
	}
	switch t.op {
	case OConst, OExtract, OConcat, OVar:
		return c.extract(t, hi, lo)
	}
	k := extKey{t, hi, lo}
	if r := c.ext[k]; r != nil {
		return r
	}
	r := c.extract(t, hi, lo)
	if c.ext == nil {
		c.ext = map[extKey]*Term{}
	}
	c.ext[k] = r
	return r
}

// keepLow leaves the low bits of sums alone (integer reasoning wants them whole).
var keepLow bool

func (c *Ctx) extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	switch t.op {
	case OConst:
		if t.big == nil {
			return c.Const(w, t.u>>uint(lo))
		}
		return c.BigConst(w, new(big.Int).Rsh(t.big, uint(lo)))
	case OExtract:
		return c.Extract(t.a[0], t.lo+hi, t.lo+lo)
	case OConcat:
		var parts []*Term
		pos := t.w
		for _, x := range t.a {
			xlo := pos - x.w
			xhi := pos - 1
			pos = xlo
			if xlo > hi {
				continue
			}
			if xhi < lo {
				break
			}
			h, l := min(hi, xhi)-xlo, max(lo, xlo)-xlo
			parts = append(parts, c.Extract(x, h, l))
		}
		return c.Concat(parts...)
	case OIte:
		if t.a[1].op == OConst && t.a[2].op == OConst || t.w <= 64 && (t.a[1].op == OConst || t.a[2].op == OConst) {
			return c.Ite(t.a[0], c.Extract(t.a[1], hi, lo), c.Extract(t.a[2], hi, lo))
		}
	case OSext:
		x := t.a[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
	case OBAnd, OBOr, OBXor:
		if t.w <= 64 {
			return c.bitop(t.op, c.Extract(t.a[0], hi, lo), c.Extract(t.a[1], hi, lo))
		}
	case OAdd, OMul:
		if lo == 0 && t.w <= 64 && !keepLow { // low bits of sums and products
			as := make([]*Term, len(t.a))
			for i, x := range t.a {
				as[i] = c.Extract(x, hi, 0)
			}
			r := as[0]
			for _, x := range as[1:] {
				if t.op == OAdd {
					r = c.Add(r, x)
				} else {
					r = c.Mul(r, x)
				}
			}
			return r
		}
	}
	return c.mk(&Term{op: OExtract, w: w, a: []*Term{t}, hi: hi, lo: lo})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	return c.Concat(c.Const(w-t.w, 0), t)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if t.op == OConst && w <= 64 {
		return c.Const(w, uint64(t.S64()))
	}
	if t.op == OConcat && t.a[0].op == OConst {
		h := t.a[0]
		if h.Big().Bit(h.w-1) == 0 {
			return c.Zext(t, w)
		}
	}
	if t.op == OSext {
		return c.Sext(t.a[0], w)
	}
	return c.mk(&Term{op: OSext, w: w, a: []*Term{t}})
}

func (c *Ctx) fold2(w int, a, b *Term, f func(x, y uint64) uint64, g func(x, y *big.Int) *big.Int) *Term {
	if w <= 64 {
		return c.Const(w, f(a.u, b.u))
	}
	return c.BigConst(w, g(a.Big(), b.Big()))
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	if a.op == OConst && b.op == OConst {
		return c.fold2(a.w, a, b, func(x, y uint64) uint64 { return x + y },
			func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) })
	}
	if a.IsZero() {
		return b
	}
	if b.IsZero() {
		return a
	}
	// constant last, nested constants folded
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.op == OAdd && a.a[1].op == OConst {
		return c.Add(a.a[0], c.Add(a.a[1], b))
	}
	if b.op == OConst && a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return c.Ite(a.a[0], c.Add(a.a[1], b), c.Add(a.a[2], b))
	}
	if b.op != OConst {
		if a.op == OAdd && a.a[1].op == OConst {
			return c.Add(c.Add(a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].op == OConst {
			return c.Add(c.Add(a, b.a[0]), b.a[1])
		}
		// x + (-1 * x)
		if c.Neg(a) == b {
			return c.Const(a.w, 0)
		}
		if before(b, a) {
			a, b = b, a
		}
	}
	return c.mk(&Term{op: OAdd, w: a.w, a: []*Term{a, b}})
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		if a.w <= 64 {
			return c.Const(a.w, -a.u)
		}
		return c.BigConst(a.w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), a.big))
	}
	if a.op == OAdd {
		return c.mk(&Term{op: OAdd, w: a.w, a: sorted2(c.Neg(a.a[0]), c.Neg(a.a[1]))})
	}
	return c.Mul(a, c.ones(a.w))
}

func sorted2(a, b *Term) []*Term {
	if a.op == OConst {
		return []*Term{b, a}
	}
	if b.op != OConst && before(b, a) {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}

func (c *Ctx) ones(w int) *Term {
	if w <= 64 {
		return c.Const(w, mask(w))
	}
	return c.BigConst(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.IsZero() {
		return a
	}
	return c.Add(a, c.Neg(b))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.fold2(a.w, a, b, func(x, y uint64) uint64 { return x * y },
			func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) })
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.IsZero() {
		return b
	}
	if b.op == OConst {
		v := b.Big()
		if v.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == OMul && a.a[1].op == OConst {
			return c.Mul(a.a[0], c.Mul(a.a[1], b))
		}
		// powers of two
		if n := v.BitLen(); new(big.Int).Lsh(big.NewInt(1), uint(n-1)).Cmp(v) == 0 {
			return c.ShlC(a, n-1)
		}
	} else if before(b, a) {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, a: []*Term{a, b}})
}

// Division; the caller has excluded a zero divisor.
func (c *Ctx) Div(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && a.w <= 64 && b.u != 0 {
		switch op {
		case OUDiv:
			return c.Const(a.w, a.u/b.u)
		case OURem:
			return c.Const(a.w, a.u%b.u)
		case OSDiv:
			if b.S64() == -1 {
				return c.Neg(a)
			}
			return c.Const(a.w, uint64(a.S64()/b.S64()))
		case OSRem:
			if b.S64() == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(a.S64()%b.S64()))
		}
	}
	if b.op == OConst && b.w <= 64 {
		if b.u == 1 {
			if op == OUDiv || op == OSDiv {
				return a
			}
			return c.Const(a.w, 0)
		}
		nonneg := c.topZeros(a) > 0
		if b.u != 0 && b.u&(b.u-1) == 0 && (op == OUDiv || op == OURem || nonneg && b.S64() > 0) {
			k := 0
			for b.u>>uint(k+1) != 0 {
				k++
			}
			if op == OUDiv || op == OSDiv {
				return c.LshrC(a, k)
			}
			return c.Zext(c.Extract(a, k-1, 0), a.w)
		}
		if nonneg && b.S64() > 0 {
			if op == OSDiv {
				op = OUDiv
			}
			if op == OSRem {
				op = OURem
			}
		}
	}
	return c.mk(&Term{op: op, w: a.w, a: []*Term{a, b}})
}

// topZeros: number of known-zero leading bits.
func (c *Ctx) topZeros(t *Term) int {
	switch t.op {
	case OConst:
		return t.w - t.Big().BitLen()
	case OConcat:
		n := 0
		for _, x := range t.a {
			z := c.topZeros(x)
			n += z
			if z < x.w {
				break
			}
		}
		return n
	case OIte:
		return min(c.topZeros(t.a[1]), c.topZeros(t.a[2]))
	case OBAnd:
		return max(c.topZeros(t.a[0]), c.topZeros(t.a[1]))
	case OBOr, OBXor:
		return min(c.topZeros(t.a[0]), c.topZeros(t.a[1]))
	case OURem:
		return c.topZeros(t.a[1])
	case OUDiv:
		return c.topZeros(t.a[0])
	case OAdd:
		if z := min(c.topZeros(t.a[0]), c.topZeros(t.a[1])); z > 0 {
			return z - 1
		}
	}
	return 0
}

func (c *Ctx) ShlC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Extract(a, a.w-1-k, 0), c.Const(k, 0))
}

func (c *Ctx) LshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return c.Const(a.w, 0)
	}
	return c.Concat(c.Const(k, 0), c.Extract(a, a.w-1, k))
}

func (c *Ctx) AshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		k = a.w - 1
	}
	return c.Sext(c.Extract(a, a.w-1, k), a.w)
}

// Shift with Go semantics (amount unsigned, amounts >= width give 0 / sign).
func (c *Ctx) Shift(op Op, a, n *Term) *Term {
	if n.op == OConst {
		k := a.w
		if n.Big().IsInt64() && n.Big().Int64() < int64(a.w) {
			k = int(n.Big().Int64())
		}
		switch op {
		case OShl:
			return c.ShlC(a, k)
		case OLshr:
			return c.LshrC(a, k)
		default:
			return c.AshrC(a, k)
		}
	}
	var big *Term
	if n.w > a.w {
		big = c.Not(c.Ult(n, c.Const(n.w, uint64(a.w))))
		n = c.Extract(n, a.w-1, 0)
	} else {
		n = c.Zext(n, a.w)
	}
	r := c.mk(&Term{op: op, w: a.w, a: []*Term{a, n}})
	if big != nil {
		var o *Term
		if op == OAshr {
			o = c.AshrC(a, a.w)
		} else {
			o = c.Const(a.w, 0)
		}
		r = c.Ite(big, o, r)
	}
	return r
}

func (c *Ctx) BAnd(a, b *Term) *Term { return c.bitop(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.bitop(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term { return c.bitop(OBXor, a, b) }
func (c *Ctx) BNot(a *Term) *Term    { return c.bitop(OBXor, a, c.ones(a.w)) }

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("bitop width")
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OBAnd:
			return c.fold2(a.w, a, b, func(x, y uint64) uint64 { return x & y }, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) })
		case OBOr:
			return c.fold2(a.w, a, b, func(x, y uint64) uint64 { return x | y }, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) })
		default:
			return c.fold2(a.w, a, b, func(x, y uint64) uint64 { return x ^ y }, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) })
		}
	}
	if a == b {
		if op == OBXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.IsZero() {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.isOnes() {
			switch op {
			case OBAnd:
				return a
			case OBOr:
				return b
			case OBXor:
				if a.op == OBXor && a.a[1].isOnes() {
					return a.a[0]
				}
				if a.w == 1 && a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
					return c.Ite(a.a[0], a.a[2], a.a[1])
				}
				return c.mk(&Term{op: op, w: a.w, a: []*Term{a, b}})
			}
		}
	}
	// segment-wise when one side has structure
	if b.op == OConst && (op != OBXor || a.op == OConcat) || a.op == OConcat || b.op == OConcat {
		cuts := map[int]bool{}
		c.cuts(a, op, cuts)
		c.cuts(b, op, cuts)
		if len(cuts) > 0 {
			ps := make([]int, 0, len(cuts)+1)
			for p := range cuts {
				ps = append(ps, p)
			}
			sort.Ints(ps)
			ps = append(ps, a.w)
			// only worthwhile when some segment simplifies
			var parts []*Term
			good := false
			lo := 0
			for _, p := range ps {
				x, y := c.Extract(a, p-1, lo), c.Extract(b, p-1, lo)
				if x.op == OConst || y.op == OConst || x == y {
					good = true
				}
				lo = p
				parts = append(parts, nil)
				copy(parts[1:], parts)
				parts[0] = c.bitopSeg(op, x, y)
			}
			if good {
				return c.Concat(parts...)
			}
		}
	}
	if b.op != OConst && before(b, a) {
		a, b = b, a
	}
	return c.mk(&Term{op: op, w: a.w, a: []*Term{a, b}})
}

func (c *Ctx) bitopSeg(op Op, x, y *Term) *Term {
	if x.op != OConst && y.op != OConst && x != y {
		if before(y, x) {
			x, y = y, x
		}
		return c.mk(&Term{op: op, w: x.w, a: []*Term{x, y}})
	}
	return c.bitop(op, x, y)
}

func (c *Ctx) cuts(t *Term, op Op, m map[int]bool) {
	switch t.op {
	case OConcat:
		pos := t.w
		for _, x := range t.a {
			pos -= x.w
			if pos > 0 {
				m[pos] = true
			}
			if x.op == OConst {
				sub := map[int]bool{}
				c.cuts(x, op, sub)
				for p := range sub {
					m[pos+p] = true
				}
			}
		}
	case OConst:
		v := t.Big()
		for i := 1; i < t.w; i++ {
			if v.Bit(i) != v.Bit(i-1) {
				m[i] = true
			}
		}
	}
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.False // hash-consed: different constants
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.u == 1 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.op == OApp && b.op == OApp {
		if a.name == b.name {
			if len(a.a) == 0 {
				return c.True
			}
			return c.Eq(a.a[0], b.a[0])
		}
		return c.False // distinct constructors (same width) never collide
	}
	if a.w > 0 {
		// split at common boundaries
		if a.op == OConcat && (b.op == OConst || b.op == OConcat) || b.op == OConcat && a.op == OConst {
			return c.eqSplit(a, b)
		}
		if b.op == OConst {
			switch a.op {
			case OIte:
				if a.a[1].op == OConst || a.a[2].op == OConst {
					return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
				}
			case OAdd:
				if a.a[1].op == OConst {
					return c.Eq(a.a[0], c.Sub(b, a.a[1]))
				}
			case OBXor:
				if a.a[1].op == OConst {
					return c.Eq(a.a[0], c.BXor(b, a.a[1]))
				}
			case OSext:
				x := a.a[0]
				l := c.Extract(b, x.w-1, 0)
				if c.Sext(l, a.w) == b {
					return c.Eq(x, l)
				}
				return c.False
			case OMul:
				if a.a[1].isOnes() {
					return c.Eq(a.a[0], c.Neg(b))
				}
			}
			if a.w == 1 && b.u == 0 {
				return c.Not(c.Eq(a, c.Const(1, 1)))
			}
		} else {
			if a.op == OAdd && b.op == OAdd && a.a[1] == b.a[1] && a.a[1].op == OConst {
				return c.Eq(a.a[0], b.a[0])
			}
			if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
				return c.Ite(a.a[0], c.Eq(a.a[1], b.a[1]), c.Eq(a.a[2], b.a[2]))
			}
			if b.op == OIte && a.op == OApp {
				a, b = b, a
			}
			if a.op == OIte && (b.op == OApp || a.a[1] == b || a.a[2] == b) && iteApps(a, 6) {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
			if a.op == OIte && b.op == OIte && iteApps(a, 3) && iteApps(b, 3) {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
		}
	}
	if a.w == -1 && b.op == OConst && a.op == OConst {
		return c.Bool(a.big.Cmp(b.big) == 0)
	}
	if b.op != OConst && before(b, a) {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, a: []*Term{a, b}})
}

func iteApps(t *Term, d int) bool {
	if d == 0 {
		return false
	}
	for _, x := range t.a[1:] {
		if x.op == OApp || x.op == OConst {
			continue
		}
		if x.op == OIte && iteApps(x, d-1) {
			continue
		}
		return x.op != OIte
	}
	return true
}

func (c *Ctx) eqSplit(a, b *Term) *Term {
	ca, cb := map[int]bool{}, map[int]bool{}
	bounds(a, ca)
	bounds(b, cb)
	var ps []int
	for p := range ca {
		if b.op == OConst || cb[p] {
			ps = append(ps, p)
		}
	}
	if a.op == OConst {
		for p := range cb {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		if before(b, a) {
			a, b = b, a
		}
		return c.mk(&Term{op: OEq, a: []*Term{a, b}})
	}
	sort.Ints(ps)
	ps = append(ps, a.w)
	var cs []*Term
	lo := 0
	for _, p := range ps {
		e := c.Eq(c.Extract(a, p-1, lo), c.Extract(b, p-1, lo))
		if e.IsFalse() {
			return e
		}
		cs = append(cs, e)
		lo = p
	}
	return c.And(cs...)
}

func bounds(t *Term, m map[int]bool) {
	if t.op != OConcat {
		return
	}
	pos := t.w
	for _, x := range t.a {
		pos -= x.w
		if pos > 0 {
			m[pos] = true
		}
	}
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.Big().Cmp(b.Big()) < 0)
	}
	if b.IsZero() || a.isOnes() {
		return c.False
	}
	if a.IsZero() {
		return c.Not(c.Eq(b, c.Const(b.w, 0)))
	}
	if b.op == OConst && b.Big().Cmp(big.NewInt(1)) == 0 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	za, zb := c.topZeros(a), c.topZeros(b)
	if z := min(za, zb); z > 0 && z < a.w {
		return c.Ult(c.Extract(a, a.w-1-z, 0), c.Extract(b, b.w-1-z, 0))
	}
	if b.op == OConst && za > zb {
		return c.True
	}
	if a.op == OConst && zb > za {
		return c.False
	}
	if a.op == OIte && b.op == OConst && a.a[1].op == OConst && a.a[2].op == OConst ||
		a.op == OIte && b.op == OConst && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Ult(a.a[1], b), c.Ult(a.a[2], b))
	}
	if b.op == OIte && a.op == OConst && (b.a[1].op == OConst || b.a[2].op == OConst) {
		return c.Ite(b.a[0], c.Ult(a, b.a[1]), c.Ult(a, b.a[2]))
	}
	return c.mk(&Term{op: OUlt, a: []*Term{a, b}})
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst && a.w <= 64 {
		return c.Bool(a.S64() < b.S64())
	}
	if c.topZeros(a) > 0 && c.topZeros(b) > 0 {
		return c.Ult(a, b)
	}
	if a.op == OConst && a.w <= 64 && a.S64() < 0 && c.topZeros(b) > 0 {
		return c.True
	}
	if b.op == OConst && b.w <= 64 && b.S64() <= 0 && c.topZeros(a) > 0 {
		return c.False
	}
	if b.op == OConst && a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
		return c.Ite(a.a[0], c.Slt(a.a[1], b), c.Slt(a.a[2], b))
	}
	if a.op == OConst && b.op == OIte && (b.a[1].op == OConst || b.a[2].op == OConst) {
		return c.Ite(b.a[0], c.Slt(a, b.a[1]), c.Slt(a, b.a[2]))
	}
	return c.mk(&Term{op: OSlt, a: []*Term{a, b}})
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- printing ----

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.u == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%v:%d", t.Big().Text(16), t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	n := [...]string{"const", "var", "app", "not", "and", "or", "=", "ite", "+", "*", "udiv", "urem", "sdiv", "srem", "&", "|", "^", "shl", "lshr", "ashr", "cat", "ext", "sext", "ult", "slt", "i+", "i*", "imod", "i<=", "b2i"}[t.op]
	if t.op == OApp {
		n = t.name
	}
	if t.op == OExtract {
		n = fmt.Sprintf("ext[%d:%d]", t.hi, t.lo)
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for i, x := range t.a {
		if i > 12 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + x.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// ---- evaluation under a model ----

type Model struct {
	vals map[*Term]*big.Int // variables and applications
	memo map[*Term]*big.Int
}

func NewModel() *Model {
	return &Model{vals: map[*Term]*big.Int{}, memo: map[*Term]*big.Int{}}
}

var bigOne = big.NewInt(1)

// Eval returns nil when the model does not determine the term.
func (m *Model) Eval(t *Term) *big.Int {
	if t.op == OConst {
		return t.Big()
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t] = v
	return v
}

func wrap(v *big.Int, w int) *big.Int {
	m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)
	return v.And(v, m)
}

func signed(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return v
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return new(big.Int)
}

func (m *Model) eval(t *Term) *big.Int {
	switch t.op {
	case OVar, OApp:
		if v, ok := m.vals[t]; ok {
			return v
		}
		if t.op == OVar && t.w >= 0 {
			return new(big.Int) // unconstrained so far
		}
		return nil
	case OAnd, OOr:
		unk := false
		for _, x := range t.a {
			v := m.Eval(x)
			if v == nil {
				unk = true
				continue
			}
			if (v.Sign() == 0) == (t.op == OAnd) {
				return b2i(t.op == OOr)
			}
		}
		if unk {
			return nil
		}
		return b2i(t.op == OAnd)
	case OIte:
		g := m.Eval(t.a[0])
		if g == nil {
			return nil
		}
		if g.Sign() != 0 {
			return m.Eval(t.a[1])
		}
		return m.Eval(t.a[2])
	}
	vs := make([]*big.Int, len(t.a))
	for i, x := range t.a {
		vs[i] = m.Eval(x)
		if vs[i] == nil {
			return nil
		}
	}
	r := new(big.Int)
	switch t.op {
	case ONot:
		return b2i(vs[0].Sign() == 0)
	case OEq:
		return b2i(vs[0].Cmp(vs[1]) == 0)
	case OAdd:
		return wrap(r.Add(vs[0], vs[1]), t.w)
	case OMul:
		return wrap(r.Mul(vs[0], vs[1]), t.w)
	case OUDiv, OURem, OSDiv, OSRem:
		if vs[1].Sign() == 0 {
			return nil
		}
		switch t.op {
		case OUDiv:
			return r.Quo(vs[0], vs[1])
		case OURem:
			return r.Rem(vs[0], vs[1])
		case OSDiv:
			return wrap(r.Quo(signed(vs[0], t.w), signed(vs[1], t.w)), t.w)
		default:
			return wrap(r.Rem(signed(vs[0], t.w), signed(vs[1], t.w)), t.w)
		}
	case OBAnd:
		return r.And(vs[0], vs[1])
	case OBOr:
		return r.Or(vs[0], vs[1])
	case OBXor:
		return r.Xor(vs[0], vs[1])
	case OShl, OLshr, OAshr:
		k := t.w
		if vs[1].IsInt64() && vs[1].Int64() < int64(t.w) {
			k = int(vs[1].Int64())
		}
		switch t.op {
		case OShl:
			return wrap(r.Lsh(vs[0], uint(k)), t.w)
		case OLshr:
			return r.Rsh(vs[0], uint(k))
		default:
			return wrap(r.Rsh(signed(vs[0], t.w), uint(k)), t.w)
		}
	case OConcat:
		for i, x := range t.a {
			r.Lsh(r, uint(x.w))
			r.Or(r, vs[i])
		}
		return r
	case OExtract:
		return wrap(r.Rsh(vs[0], uint(t.lo)), t.w)
	case OSext:
		return wrap(r.Set(signed(vs[0], t.a[0].w)), t.w)
	case OUlt:
		return b2i(vs[0].Cmp(vs[1]) < 0)
	case OSlt:
		w := t.a[0].w
		return b2i(signed(vs[0], w).Cmp(signed(vs[1], w)) < 0)
	case OIAdd:
		for _, v := range vs {
			r.Add(r, v)
		}
		return r
	case OIMul:
		r.SetInt64(1)
		for _, v := range vs {
			r.Mul(r, v)
		}
		return r
	case OIMod:
		return r.Mod(vs[0], vs[1])
	case OILe:
		return b2i(vs[0].Cmp(vs[1]) <= 0)
	case OBv2Int:
		return vs[0]
	}
	panic("eval op")
}

// rebuild makes the term again with other arguments of the same widths.
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return c.App(t.name, a[0], t.w)
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = c.Add(r, x)
		}
		return r
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = c.Mul(r, x)
		}
		return r
	case OUDiv, OURem, OSDiv, OSRem:
		return c.Div(t.op, a[0], a[1])
	case OBAnd, OBOr, OBXor:
		r := a[0]
		for _, x := range a[1:] {
			r = c.bitop(t.op, r, x)
		}
		return r
	case OShl, OLshr, OAshr:
		return c.Shift(t.op, a[0], a[1])
	case OConcat:
		return c.Concat(a...)
	case OExtract:
		return c.Extract(a[0], t.hi, t.lo)
	case OSext:
		return c.Sext(a[0], t.w)
	case OUlt:
		return c.Ult(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	}
	n := *t
	n.a = a
	return c.mk(&n)
}

func (c *Ctx) size() int { return len(c.tab) }
