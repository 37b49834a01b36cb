package main

// Model of encoding/json on trees. Text is a single opaque element carrying
// the tree; decoding and encoding follow the Go types found in the program
// under analysis, including struct tags, Marshaler and Unmarshaler.

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type JKind int

const (
	JLazy JKind = iota
	JNull
	JBool
	JNumK
	JStr
	JArr
	JObj
	JBad // malformed text
)

type JNum struct {
	Int *Term  // signed 64-bit
	Lit string // literal text
	F   *Term  // finite float64 printed by encoding/json
	Txt Value  // text of decided number syntax with symbolic digits
}

type Shape struct {
	Depth, Width, StrLen int
	Keys                 []string
	Kinds                string // n b i f F s a o B !
	Lits                 []string
}

type JNode struct {
	Kind JKind
	B    *Term
	Num  *JNum
	Str  Value
	Arr  []*JNode
	Keys []Value
	Vals []*JNode

	// undecided nodes
	sh      *Shape
	depth   int
	name    string
	notNull bool

	raw []Value // the text it was read from, when symbolic
}

// lit decides the digits of a symbolic number text.
func (p *Path) lit(n *JNum) {
	if n.Txt == nil {
		return
	}
	el, _ := strElems(n.Txt)
	buf := make([]byte, len(el))
	for i, e := range el {
		buf[i] = byte(p.concretize(e.(*Term)))
	}
	*n = *litNum(string(buf))
}

func jnull() *JNode            { return &JNode{Kind: JNull} }
func jbool(t *Term) *JNode     { return &JNode{Kind: JBool, B: t} }
func jstr(s Value) *JNode      { return &JNode{Kind: JStr, Str: s} }
func jint(t *Term) *JNode      { return &JNode{Kind: JNumK, Num: &JNum{Int: t}} }
func jlit(s string) *JNode     { return &JNode{Kind: JNumK, Num: litNum(s)} }
func jfloat(t *Term) *JNode {
	if t.IsConst() {
		b, err := stdjson.Marshal(t.F())
		if err != nil {
			panic(unsupported{"float"})
		}
		return jlit(string(b))
	}
	return &JNode{Kind: JNumK, Num: &JNum{F: t}}
}

func litNum(s string) *JNum {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(i, 10) == s {
		return &JNum{Int: BVC(64, uint64(i))}
	}
	return &JNum{Lit: s}
}

var defaultLits = []string{"0.5", "-2.5e1", "1e400", "123456789012345678901", "1.0"}

func kindsAt(n *JNode) string {
	k := n.sh.Kinds
	if k == "" {
		k = "nbifsao"
	}
	out := ""
	for _, c := range k {
		if n.depth <= 0 && (c == 'a' || c == 'o') {
			continue
		}
		if c == 'n' && n.notNull {
			continue
		}
		if c == '!' && n.depth < n.sh.Depth {
			continue // malformed text only at the root
		}
		out += string(c)
	}
	return out
}

// resolve decides the kind of a lazy node (forking).
func (p *Path) resolve(n *JNode) *JNode {
	if n.Kind != JLazy {
		return n
	}
	ks := kindsAt(n)
	if ks == "" {
		panic(unsupported{"JSON shape without kinds at " + n.name})
	}
	k := ks[p.choose(len(ks), n.name+".kind")]
	p.fixKind(n, k)
	return n
}

func (p *Path) child(n *JNode, name string) *JNode {
	return &JNode{Kind: JLazy, sh: n.sh, depth: n.depth - 1, name: name}
}

func (p *Path) fixKind(n *JNode, k byte) {
	switch k {
	case 'n':
		n.Kind = JNull
	case 'b':
		n.Kind = JBool
		n.B = p.tt.Var(p.uniq(n.name+".b"), WBool)
	case 'i':
		n.Kind = JNumK
		n.Num = &JNum{Int: p.tt.Var(p.uniq(n.name+".i"), 64)}
	case 'f':
		lits := n.sh.Lits
		if len(lits) == 0 {
			lits = defaultLits
		}
		n.Kind = JNumK
		n.Num = litNum(lits[p.choose(len(lits), n.name+".lit")])
	case 'F':
		n.Kind = JNumK
		f := p.tt.FFromBits(p.tt.Var(p.uniq(n.name+".f"), 64))
		p.assume(p.finite(f))
		n.Num = &JNum{F: f}
	case 's':
		n.Kind = JStr
		n.Str = p.symStr(n.name+".s", n.sh.StrLen, true)
	case 'a':
		w := p.choose(n.sh.Width+1, n.name+".len")
		n.Kind = JArr
		for i := 0; i < w; i++ {
			n.Arr = append(n.Arr, p.child(n, fmt.Sprintf("%s[%d]", n.name, i)))
		}
	case 'o':
		n.Kind = JObj
		w := 0
		for _, key := range n.sh.Keys {
			if w >= n.sh.Width {
				break
			}
			if p.choose(2, n.name+".has."+key) == 1 {
				n.Keys = append(n.Keys, key)
				n.Vals = append(n.Vals, p.child(n, n.name+"."+key))
				w++
			}
		}
	case '!':
		n.Kind = JBad
	default:
		panic(unsupported{"shape kind " + string(k)})
	}
}

func (p *Path) finite(f *Term) *Term {
	tt := p.tt
	mx := FPC(math.MaxFloat64)
	return tt.And(tt.FCmp(OpFLe, f, mx), tt.FCmp(OpFLe, FPC(-math.MaxFloat64), f))
}

// symStr makes a symbolic string of 0..max bytes.
func (p *Path) symStr(name string, max int, ascii bool) Value {
	if max == 0 {
		return ""
	}
	name = p.uniq(name)
	b := make([]Value, max)
	for i := range b {
		v := p.tt.Var(fmt.Sprintf("%s[%d]", name, i), 8)
		if ascii {
			p.assume(p.tt.Cmp(OpULT, v, BVC(8, 0x80)))
		}
		b[i] = v
	}
	l := p.tt.Var(name+".len", 64)
	p.assume(p.tt.Cmp(OpULE, l, BVC(64, uint64(max))))
	return &SymStr{B: b, Len: l}
}

// lazyIsNull decides only whether a lazy value is null.
func (p *Path) lazyIsNull(l *LazyIface) bool {
	if l.Done {
		return l.Val.T == nil
	}
	n := l.Node
	if n.Kind != JLazy {
		return n.Kind == JNull
	}
	ks := kindsAt(n)
	if !strings.Contains(ks, "n") {
		return false
	}
	if ks == "n" || p.choose(2, n.name+".null") == 1 {
		n.Kind = JNull
		return true
	}
	n.notNull = true
	return false
}

func (p *Path) numberT() types.Type { return p.w.prog.typ("encoding/json", "Number") }

var emptyIface = types.NewInterfaceType(nil, nil).Complete()
var tString = types.Typ[types.String]
var tBool = types.Typ[types.Bool]
var tFloat64 = types.Typ[types.Float64]
var tSliceAny = types.NewSlice(emptyIface)
var tMapAny = types.NewMap(tString, emptyIface)

func (p *Path) force(v Value) Iface {
	switch x := v.(type) {
	case Iface:
		return x
	case *LazyIface:
		if !x.Done {
			x.Val = p.nodeIface(p.resolve(x.Node), x.UseNumber)
			x.Done = true
		}
		return x.Val
	}
	panic(unsupported{fmt.Sprintf("force %T", v)})
}

func (p *Path) nodeIface(n *JNode, useNumber bool) Iface {
	switch n.Kind {
	case JNull:
		return Iface{}
	case JBool:
		return Iface{tBool, n.B}
	case JNumK:
		if useNumber {
			return Iface{p.numberT(), p.numText(n.Num)}
		}
		f, err := p.numFloat(n.Num)
		if err {
			panic(unsupported{"float64 overflow in lazy decode"})
		}
		return Iface{tFloat64, f}
	case JStr:
		return Iface{tString, n.Str}
	case JArr:
		out := make([]Value, len(n.Arr))
		for i, c := range n.Arr {
			out[i] = p.nodeVal(c, useNumber)
		}
		return Iface{tSliceAny, out}
	case JObj:
		m := newMap()
		for i, k := range n.Keys {
			p.mapSet(nil, m, k, p.nodeVal(n.Vals[i], useNumber), tString)
		}
		return Iface{tMapAny, m}
	}
	panic(unsupported{fmt.Sprintf("nodeIface kind %d", n.Kind)})
}

func (p *Path) nodeVal(n *JNode, useNumber bool) Value {
	return &LazyIface{Node: n, UseNumber: useNumber}
}

func (p *Path) numText(n *JNum) Value {
	switch {
	case n.Int != nil:
		if n.Int.IsConst() {
			return strconv.FormatInt(n.Int.S(), 10)
		}
		return &SymStr{B: []Value{&Super{Kind: SupDec, T: n.Int, Signed: true}}}
	case n.F != nil:
		return &SymStr{B: []Value{&Super{Kind: SupFloat, T: n.F}}}
	case n.Txt != nil:
		return n.Txt
	}
	return n.Lit
}

// numFloat gives the float64 reading of a number; true on overflow.
func (p *Path) numFloat(n *JNum) (*Term, bool) {
	p.lit(n)
	switch {
	case n.Int != nil:
		return p.tt.IToF(n.Int, true), false
	case n.F != nil:
		return n.F, false
	}
	f, err := strconv.ParseFloat(n.Lit, 64)
	return FPC(f), err != nil
}

// floatIsInt: the JSON text of f has integer syntax.
func (p *Path) floatIsInt(f *Term) *Term {
	tt := p.tt
	integral := tt.FCmp(OpFEq, tt.FUn(OpFRti, f), f)
	lt := tt.And(tt.FCmp(OpFLt, f, FPC(1e21)), tt.FCmp(OpFLt, FPC(-1e21), f))
	return tt.And(integral, lt)
}

// numInt gives the value when the text has integer syntax and fits in 64 bits.
func (p *Path) numInt(n *JNum) (t *Term, syntax bool, rng bool) {
	p.lit(n)
	switch {
	case n.Int != nil:
		return n.Int, true, true
	case n.F != nil:
		if !p.branch(p.floatIsInt(n.F)) {
			return nil, false, false
		}
		tt := p.tt
		in := tt.And(tt.FCmp(OpFLe, FPC(-9223372036854775808.0), n.F), tt.FCmp(OpFLt, n.F, FPC(9223372036854775808.0)))
		if !p.branch(in) {
			return nil, true, false
		}
		return tt.FToI(n.F, 64, true), true, true
	}
	i, err := strconv.ParseInt(n.Lit, 10, 64)
	if err == nil {
		return BVC(64, uint64(i)), true, true
	}
	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
		return nil, true, false
	}
	return nil, false, false
}

// ---- text

// nodeText renders a node as string elements.
func (p *Path) nodeElems(n *JNode) []Value {
	if txt, ok := concreteJSON(n); ok {
		el, _ := strElems(txt)
		return el
	}
	return []Value{&Super{Kind: SupJSON, Node: n}}
}

// expandText gives the spelled-out text of scalar nodes (for Unmarshalers).
func (p *Path) expandText(n *JNode) []Value {
	p.resolve(n)
	if n.raw != nil {
		return n.raw
	}
	if txt, ok := concreteJSON(n); ok {
		el, _ := strElems(txt)
		return el
	}
	switch n.Kind {
	case JBool:
		if p.branch(n.B) {
			el, _ := strElems("true")
			return el
		}
		el, _ := strElems("false")
		return el
	case JNumK:
		el, _ := strElems(p.numText(n.Num))
		return el
	case JStr:
		out := []Value{BVC(8, '"')}
		for _, e := range p.concLen(n.Str) {
			t, ok := e.(*Term)
			if !ok {
				out = append(out, e)
				continue
			}
			// restrict to characters printed as themselves
			tt := p.tt
			plain := tt.And(tt.Cmp(OpULE, BVC(8, 0x20), t), tt.Cmp(OpULT, t, BVC(8, 0x7f)))
			for _, c := range []byte{'"', '\\', '<', '>', '&'} {
				plain = tt.And(plain, tt.Not(tt.Eq(t, BVC(8, uint64(c)))))
			}
			if !p.branch(plain) {
				panic(unsupported{"escaped character in expanded JSON text"})
			}
			out = append(out, t)
		}
		return append(out, BVC(8, '"'))
	}
	return []Value{&Super{Kind: SupJSON, Node: n}}
}

// expandFull expands lists and objects too; nil if the text is not known.
func (p *Path) expandFull(n *JNode) []Value {
	ex := p.expandText(n)
	if len(ex) != 1 {
		return ex
	}
	if _, ok := ex[0].(*Super); !ok {
		return ex
	}
	var out []Value
	add := func(s string) {
		el, _ := strElems(s)
		out = append(out, el...)
	}
	switch n.Kind {
	case JArr:
		add("[")
		for i, c := range n.Arr {
			if i > 0 {
				add(",")
			}
			e := p.expandFull(c)
			if e == nil {
				return nil
			}
			out = append(out, e...)
		}
		add("]")
		return out
	case JObj:
		add("{")
		for i, c := range n.Vals {
			if i > 0 {
				add(",")
			}
			k, ok := concreteStr(n.Keys[i])
			if !ok {
				return nil
			}
			b, err := stdjson.Marshal(k)
			if err != nil {
				return nil
			}
			add(string(b) + ":")
			e := p.expandFull(c)
			if e == nil {
				return nil
			}
			out = append(out, e...)
		}
		add("}")
		return out
	}
	return nil
}

func concreteJSON(n *JNode) (string, bool) {
	var sb strings.Builder
	if !concJSON(n, &sb) {
		return "", false
	}
	return sb.String(), true
}

func concJSON(n *JNode, sb *strings.Builder) bool {
	switch n.Kind {
	case JNull:
		sb.WriteString("null")
	case JBool:
		if !n.B.IsConst() {
			return false
		}
		if n.B.C != 0 {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case JNumK:
		switch {
		case n.Num.Int != nil:
			if !n.Num.Int.IsConst() {
				return false
			}
			sb.WriteString(strconv.FormatInt(n.Num.Int.S(), 10))
		case n.Num.F != nil || n.Num.Txt != nil:
			return false
		default:
			sb.WriteString(n.Num.Lit)
		}
	case JStr:
		s, ok := concreteStr(n.Str)
		if !ok {
			return false
		}
		b, err := stdjson.Marshal(s)
		if err != nil {
			return false
		}
		sb.Write(b)
	case JArr:
		sb.WriteByte('[')
		for i, c := range n.Arr {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !concJSON(c, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case JObj:
		sb.WriteByte('{')
		for i, c := range n.Vals {
			if i > 0 {
				sb.WriteByte(',')
			}
			k, ok := concreteStr(n.Keys[i])
			if !ok {
				return false
			}
			b, _ := stdjson.Marshal(k)
			sb.Write(b)
			sb.WriteByte(':')
			if !concJSON(c, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	default:
		return false
	}
	return true
}

// hostNode parses concrete JSON text.
func hostNode(txt string) (*JNode, int, error) {
	dec := stdjson.NewDecoder(strings.NewReader(txt))
	dec.UseNumber()
	n, err := hostValue(dec)
	if err != nil {
		return nil, int(dec.InputOffset()), err
	}
	return n, int(dec.InputOffset()), nil
}

func hostValue(dec *stdjson.Decoder) (*JNode, error) {
	// RawMessage keeps key order and duplicates
	var raw stdjson.RawMessage
	if err := dec.Decode(&raw); err != nil {
		return nil, err
	}
	return rawNode(raw)
}

func rawNode(raw []byte) (*JNode, error) {
	raw = bytes.TrimSpace(raw)
	switch raw[0] {
	case 'n':
		return jnull(), nil
	case 't':
		return jbool(True), nil
	case 'f':
		return jbool(False), nil
	case '"':
		var s string
		if err := stdjson.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		return jstr(s), nil
	case '[':
		var l []stdjson.RawMessage
		if err := stdjson.Unmarshal(raw, &l); err != nil {
			return nil, err
		}
		n := &JNode{Kind: JArr}
		for _, e := range l {
			c, err := rawNode(e)
			if err != nil {
				return nil, err
			}
			n.Arr = append(n.Arr, c)
		}
		return n, nil
	case '{':
		d := stdjson.NewDecoder(bytes.NewReader(raw))
		d.UseNumber()
		if _, err := d.Token(); err != nil {
			return nil, err
		}
		n := &JNode{Kind: JObj}
		for d.More() {
			kt, err := d.Token()
			if err != nil {
				return nil, err
			}
			c, err := hostValue(d)
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, kt.(string))
			n.Vals = append(n.Vals, c)
		}
		return n, nil
	}
	return jlit(string(raw)), nil
}

// renderNode gives the JSON text of a node under a model.
func (p *Path) renderNode(m Model, n *JNode) string {
	memo := map[*Term]uint64{}
	return renderNodeM(m, memo, n)
}

func evalStr(m Model, memo map[*Term]uint64, s Value) (string, bool) {
	switch x := s.(type) {
	case string:
		return x, true
	case *SymStr:
		l := len(x.B)
		if x.Len != nil {
			l = int(m.Eval(x.Len, memo))
		}
		var sb strings.Builder
		if l > len(x.B) {
			return "", false
		}
		for _, e := range x.B[:l] {
			if !evalElem(m, memo, e, &sb) {
				return "", false
			}
		}
		return sb.String(), true
	}
	return "", false
}

func evalElem(m Model, memo map[*Term]uint64, e Value, sb *strings.Builder) bool {
	switch t := e.(type) {
	case *Term:
		sb.WriteByte(byte(m.Eval(t, memo)))
	case *Super:
		switch t.Kind {
		case SupJSON:
			sb.WriteString(renderNodeM(m, memo, t.Node))
		case SupDec:
			v := m.Eval(t.T, memo)
			if t.Signed {
				sb.WriteString(strconv.FormatInt(sext(v, t.T.W), 10))
			} else {
				sb.WriteString(strconv.FormatUint(v, 10))
			}
		case SupFloat:
			b, err := stdjson.Marshal(math.Float64frombits(m.Eval(t.T, memo)))
			if err != nil {
				return false
			}
			sb.Write(b)
		default:
			return false
		}
	default:
		return false
	}
	return true
}

func renderNodeM(m Model, memo map[*Term]uint64, n *JNode) string {
	switch n.Kind {
	case JLazy:
		ks := kindsAt(n)
		if strings.Contains(ks, "n") || ks == "" {
			return "null"
		}
		for _, c := range ks {
			switch c {
			case 'b':
				return "false"
			case 'i', 'F':
				return "0"
			case 's':
				return `""`
			case 'a':
				return "[]"
			case 'o':
				return "{}"
			case 'f':
				if len(n.sh.Lits) > 0 {
					return n.sh.Lits[0]
				}
				return defaultLits[0]
			}
		}
		return "null"
	case JNull:
		return "null"
	case JBool:
		if m.Eval(n.B, memo) != 0 {
			return "true"
		}
		return "false"
	case JNumK:
		switch {
		case n.Num.Int != nil:
			return strconv.FormatInt(sext(m.Eval(n.Num.Int, memo), 64), 10)
		case n.Num.F != nil:
			b, _ := stdjson.Marshal(math.Float64frombits(m.Eval(n.Num.F, memo)))
			return string(b)
		case n.Num.Txt != nil:
			s, _ := evalStr(m, memo, n.Num.Txt)
			return s
		}
		return n.Num.Lit
	case JStr:
		s, ok := evalStr(m, memo, n.Str)
		if !ok {
			return `"?opaque?"`
		}
		b, _ := stdjson.Marshal(s)
		return string(b)
	case JArr:
		var parts []string
		for _, c := range n.Arr {
			parts = append(parts, renderNodeM(m, memo, c))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case JObj:
		var parts []string
		for i, c := range n.Vals {
			k, _ := evalStr(m, memo, n.Keys[i])
			b, _ := stdjson.Marshal(k)
			parts = append(parts, string(b)+":"+renderNodeM(m, memo, c))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case JBad:
		return "{bad"
	}
	return "null"
}

// ---- struct fields

type jfield struct {
	name      string
	path      []int
	omitEmpty bool
	typ       types.Type
	str       bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Anonymous() && name == "" {
			et := f.Type()
			if pt, ok := et.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
			if est, ok := et.Underlying().(*types.Struct); ok {
				if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr {
					panic(unsupported{"embedded pointer in JSON struct"})
				}
				for _, sf := range jsonFields(est) {
					sf.path = append([]int{i}, sf.path...)
					dup := false
					for _, o := range out {
						if o.name == sf.name {
							dup = true
						}
					}
					if !dup {
						out = append(out, sf)
					}
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		jf := jfield{name: name, path: []int{i}, typ: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			if o == "omitempty" {
				jf.omitEmpty = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		if jf.str {
			panic(unsupported{"json string option"})
		}
		// an outer field hides a promoted one
		repl := false
		for k := range out {
			if out[k].name == name && len(out[k].path) > 1 {
				out[k] = jf
				repl = true
			}
		}
		if !repl {
			out = append(out, jf)
		}
	}
	return out
}

// ---- errors

func (p *Path) mkErr(txt Value) Iface {
	t := types.NewPointer(p.w.prog.typ("errors", "errorString"))
	return Iface{t, p.newCell(Struct{txt})}
}

func (p *Path) newCell(v Value) Ptr {
	c := new(Value)
	*c = v
	return c
}

// newStruct allocates a named struct with some fields set.
func (p *Path) newStruct(pkg, name string, fields map[string]Value) (types.Type, Ptr) {
	t := p.w.prog.typ(pkg, name)
	s := zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	for k, v := range fields {
		done := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == k {
				s[i] = v
				done = true
			}
		}
		if !done {
			panic(unsupported{"no field " + k + " in " + name})
		}
	}
	return t, p.newCell(s)
}

func (p *Path) fieldOf(v Struct, t types.Type, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v[i]
		}
	}
	panic(unsupported{"no field " + name})
}

func (p *Path) fieldPtr(v Struct, t types.Type, name string) Ptr {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &v[i]
		}
	}
	panic(unsupported{"no field " + name})
}

func (p *Path) ptrIface(pkg, name string, fields map[string]Value) Iface {
	t, c := p.newStruct(pkg, name, fields)
	return Iface{types.NewPointer(t), c}
}

func isRaw(t types.Type) bool {
	return isNamed(t, "encoding/json", "RawMessage") || isNamed(t, "encoding/json/jsontext", "Value")
}

// textEq: the canonical texts of two nodes are the same.
func (p *Path) textEq(a, b *JNode) *Term {
	if a == b {
		return True
	}
	p.resolve(a)
	p.resolve(b)
	if a.Kind != b.Kind {
		return False
	}
	tt := p.tt
	switch a.Kind {
	case JNull:
		return True
	case JBool:
		return tt.Eq(a.B, b.B)
	case JNumK:
		return p.numEq(a.Num, b.Num)
	case JStr:
		return p.strEq(a.Str, b.Str)
	case JArr:
		if len(a.Arr) != len(b.Arr) {
			return False
		}
		r := True
		for i := range a.Arr {
			if r = tt.And(r, p.textEq(a.Arr[i], b.Arr[i])); r == False {
				return r
			}
		}
		return r
	case JObj:
		if len(a.Vals) != len(b.Vals) {
			return False
		}
		r := True
		for i := range a.Vals {
			r = tt.And(r, p.strEq(a.Keys[i], b.Keys[i]))
			if r == False {
				return r
			}
			if r = tt.And(r, p.textEq(a.Vals[i], b.Vals[i])); r == False {
				return r
			}
		}
		return r
	}
	return BoolC(a.Kind == JBad)
}

func (p *Path) syntaxErr(msg string) Iface {
	return p.ptrIface("encoding/json", "SyntaxError", map[string]Value{"msg": msg, "Offset": BVC(64, 1)})
}

func (p *Path) typeErr(value string, t types.Type, field string) Iface {
	return p.ptrIface("encoding/json", "UnmarshalTypeError", map[string]Value{
		"Value": value, "Type": p.rtIface(t), "Field": field})
}

func (p *Path) rtIface(t types.Type) Iface {
	return Iface{types.NewPointer(p.w.prog.typ("reflect", "rtype")), &RType{t}}
}

// ---- decoding

type decState struct {
	p      *Path
	fr     *Frame
	useNum bool
	saved  Iface // first type error
}

func (d *decState) typeError(n *JNode, t types.Type) {
	if d.saved.T == nil {
		d.saved = d.p.typeErr(kindName(n), t, "")
	}
}

func kindName(n *JNode) string {
	switch n.Kind {
	case JNull:
		return "null"
	case JBool:
		return "bool"
	case JNumK:
		return "number"
	case JStr:
		return "string"
	case JArr:
		return "array"
	case JObj:
		return "object"
	}
	return "value"
}

// decodeTop implements Decode/Unmarshal of one value into the pointer v.
func (p *Path) decodeTop(fr *Frame, n *JNode, v Iface, useNum bool) Iface {
	if v.T == nil {
		return p.ptrIface("encoding/json", "InvalidUnmarshalError", map[string]Value{})
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return p.ptrIface("encoding/json", "InvalidUnmarshalError", map[string]Value{"Type": p.rtIface(v.T)})
	}
	c, ok := v.V.(Ptr)
	if !ok || c == nil {
		return p.ptrIface("encoding/json", "InvalidUnmarshalError", map[string]Value{"Type": p.rtIface(v.T)})
	}
	if n.Kind == JLazy && strings.Contains(kindsAt(n), "!") {
		if p.choose(2, n.name+".malformed") == 1 {
			n.Kind = JBad
		} else {
			sh := *n.sh
			sh.Kinds = strings.ReplaceAll(sh.Kinds, "!", "")
			n.sh = &sh
		}
	}
	if n.Kind == JBad {
		return p.syntaxErr("invalid character 'b' looking for beginning of object key string")
	}
	d := &decState{p: p, fr: fr, useNum: useNum}
	if e := d.into(n, c, pt.Elem()); e.T != nil {
		return e
	}
	return d.saved
}

func (p *Path) implUnmarshal(t types.Type) bool {
	it := p.w.prog.typ("encoding/json", "Unmarshaler").Underlying().(*types.Interface)
	return implements(types.NewPointer(t), it)
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (d *decState) into(n *JNode, c Ptr, t types.Type) Iface {
	p := d.p
	none := Iface{}
	// pointers
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if p.lazyIsNull(&LazyIface{Node: n}) {
			*c = Ptr(nil)
			return none
		}
		cur, _ := (*c).(Ptr)
		if cur == nil {
			cur = p.newCell(zero(pt.Elem()))
			*c = cur
		}
		return d.into(n, cur, pt.Elem())
	}
	if isRaw(t) {
		*c = p.nodeElems(n)
		return none
	}
	if !isNamed(t, "encoding/json", "Number") && p.implUnmarshal(t) {
		txt := p.expandText(n)
		m := p.w.prog.methodByName(types.NewPointer(t), "UnmarshalJSON")
		r := p.callFn(d.fr.th, d.fr, m, []Value{Ptr(c), txt}, nil)
		return p.force(r)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if cur, ok := (*c).(Iface); ok && cur.T != nil {
			if pt, ok := cur.T.Underlying().(*types.Pointer); ok {
				if cp, ok := cur.V.(Ptr); ok && cp != nil && !p.lazyIsNull(&LazyIface{Node: n}) {
					return d.into(n, cp, pt.Elem())
				}
			}
		}
		if it.NumMethods() > 0 {
			if p.lazyIsNull(&LazyIface{Node: n}) {
				*c = Iface{}
				return none
			}
			p.resolve(n)
			d.typeError(n, t)
			return none
		}
		if !d.useNum {
			// a number that overflows float64 is an error
			if n.Kind == JNumK && (n.Num.Lit != "" || n.Num.Txt != nil) {
				if _, ov := p.numFloat(n.Num); ov {
					d.typeError(n, tFloat64)
					return none
				}
			}
		}
		*c = p.nodeVal(n, d.useNum)
		return none
	}
	p.resolve(n)
	if n.Kind == JNull {
		switch t.Underlying().(type) {
		case *types.Map:
			*c = (*MapV)(nil)
		case *types.Slice:
			*c = []Value(nil)
		}
		return none
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if isNamed(t, "encoding/json", "Number") {
				switch n.Kind {
				case JNumK:
					*c = p.numText(n.Num)
					return none
				case JStr:
					s, ok := concreteStr(n.Str)
					if !ok {
						panic(unsupported{"json.Number from symbolic string"})
					}
					if s == "" || !validNumber(s) {
						return p.mkErr(fmt.Sprintf("json: invalid number literal, trying to unmarshal %q into Number", strconv.Quote(s)))
					}
					*c = s
					return none
				}
				d.typeError(n, t)
				return none
			}
			if n.Kind != JStr {
				d.typeError(n, t)
				return none
			}
			*c = n.Str
		case u.Info()&types.IsBoolean != 0:
			if n.Kind != JBool {
				d.typeError(n, t)
				return none
			}
			*c = n.B
		case u.Info()&types.IsInteger != 0:
			if n.Kind != JNumK {
				d.typeError(n, t)
				return none
			}
			uns := u.Info()&types.IsUnsigned != 0
			p.lit(n.Num)
			w := bwidth(u)
			if uns && n.Num.Lit != "" {
				v, err := strconv.ParseUint(n.Num.Lit, 10, int(w))
				if err != nil {
					d.typeError(n, t)
					return none
				}
				*c = BVC(w, v)
				return none
			}
			v, syn, rng := p.numInt(n.Num)
			if !syn || !rng {
				d.typeError(n, t)
				return none
			}
			tt := p.tt
			if uns {
				if p.branch(tt.Cmp(OpSLT, v, BVC(64, 0))) {
					d.typeError(n, t)
					return none
				}
			}
			if w < 64 {
				back := tt.Resize(tt.Resize(v, w, false), 64, !uns)
				if !p.branch(tt.Eq(back, v)) {
					d.typeError(n, t)
					return none
				}
			}
			*c = tt.Resize(v, w, true)
		case u.Info()&types.IsFloat != 0:
			if n.Kind != JNumK {
				d.typeError(n, t)
				return none
			}
			f, ov := p.numFloat(n.Num)
			if ov {
				d.typeError(n, t)
				return none
			}
			if u.Kind() == types.Float32 {
				*c = F32(float32(p.concF(f)))
			} else {
				*c = f
			}
		default:
			panic(unsupported{"decode into " + typeStr(t)})
		}
		return none
	case *types.Slice:
		if n.Kind == JStr {
			if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Byte {
				panic(unsupported{"base64 decode"})
			}
		}
		if n.Kind != JArr {
			d.typeError(n, t)
			return none
		}
		cur, _ := (*c).([]Value)
		out := make([]Value, len(n.Arr))
		for i := range out {
			if i < len(cur) {
				out[i] = cur[i] // existing elements are decoded over
			} else {
				out[i] = zero(u.Elem())
			}
		}
		*c = out
		for i, e := range n.Arr {
			if r := d.into(e, &out[i], u.Elem()); r.T != nil {
				return r
			}
		}
		return none
	case *types.Array:
		if n.Kind != JArr {
			d.typeError(n, t)
			return none
		}
		arr := (*c).(Array)
		for i := range arr {
			if i < len(n.Arr) {
				if r := d.into(n.Arr[i], &arr[i], u.Elem()); r.T != nil {
					return r
				}
			} else {
				storeTo(&arr[i], zero(u.Elem()))
			}
		}
		return none
	case *types.Map:
		if n.Kind != JObj {
			d.typeError(n, t)
			return none
		}
		if kb := basicOf(u.Key()); kb == nil || kb.Info()&types.IsString == 0 {
			d.typeError(n, t)
			return none
		}
		m, _ := (*c).(*MapV)
		if m == nil {
			m = newMap()
			*c = m
		}
		for i, k := range n.Keys {
			tmp := p.newCell(zero(u.Elem()))
			if r := d.into(n.Vals[i], tmp, u.Elem()); r.T != nil {
				return r
			}
			p.mapSet(d.fr, m, k, *tmp, u.Key())
		}
		return none
	case *types.Struct:
		if n.Kind != JObj {
			d.typeError(n, t)
			return none
		}
		fields := jsonFields(u)
		for i, k := range n.Keys {
			var f *jfield
			if ks, ok := concreteStr(k); ok {
				for j := range fields {
					if fields[j].name == ks {
						f = &fields[j]
					}
				}
				if f == nil {
					for j := range fields {
						if strings.EqualFold(fields[j].name, ks) {
							f = &fields[j]
							break
						}
					}
				}
			} else {
				for j := range fields {
					if p.branch(p.strEq(k, fields[j].name)) {
						f = &fields[j]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			cell := c
			for _, ix := range f.path {
				st := (*cell).(Struct)
				cell = &st[ix]
			}
			if r := d.into(n.Vals[i], cell, f.typ); r.T != nil {
				return r
			}
		}
		return none
	}
	panic(unsupported{"decode into " + typeStr(t)})
}

func validNumber(s string) bool {
	var n stdjson.Number
	if s == "" || s[0] == '"' || s[0] == ' ' || s[len(s)-1] == ' ' {
		return false
	}
	if err := stdjson.Unmarshal([]byte(s), &n); err != nil {
		return false
	}
	return n != ""
}

// ---- encoding

func (p *Path) marshal(fr *Frame, v Value) (*JNode, Iface) {
	return p.encIface(fr, v, 0)
}

func (p *Path) unsupVal(s string) Iface {
	return p.ptrIface("encoding/json", "UnsupportedValueError", map[string]Value{"Str": s})
}

func (p *Path) unsupType(t types.Type) Iface {
	return p.ptrIface("encoding/json", "UnsupportedTypeError", map[string]Value{"Type": p.rtIface(t)})
}

func (p *Path) encIface(fr *Frame, v Value, depth int) (*JNode, Iface) {
	if l, ok := v.(*LazyIface); ok && !l.Done && l.UseNumber {
		return l.Node, Iface{}
	}
	i := p.force(v)
	if i.T == nil {
		return jnull(), Iface{}
	}
	return p.enc(fr, i.V, i.T, depth, false)
}

func (p *Path) enc(fr *Frame, v Value, t types.Type, depth int, addr bool) (*JNode, Iface) {
	none := Iface{}
	if depth > 60 {
		return nil, p.unsupVal("encountered a cycle via " + typeStr(t))
	}
	P := p.w.prog
	if _, isI := t.Underlying().(*types.Interface); isI {
		return p.encIface(fr, v, depth+1)
	}
	mi := P.typ("encoding/json", "Marshaler").Underlying().(*types.Interface)
	if implements(t, mi) {
		if ptr, ok := v.(Ptr); ok && ptr == nil {
			return jnull(), none
		}
		if isRaw(t) {
			b := v.([]Value)
			if b == nil {
				return jnull(), none
			}
			n, ok := p.textNode(b)
			if !ok {
				return nil, p.mkErr("json: error calling MarshalJSON for type json.RawMessage: unexpected end of JSON input")
			}
			return n, none
		}
		r := p.callMethod(fr, Iface{t, v}, "MarshalJSON").(Tuple)
		if e := p.force(r[1]); e.T != nil {
			return nil, p.ptrIface("encoding/json", "MarshalerError", map[string]Value{"Type": p.rtIface(t), "Err": e, "sourceFunc": "MarshalJSON"})
		}
		n, ok := p.textNode(r[0].([]Value))
		if !ok {
			return nil, p.ptrIface("encoding/json", "MarshalerError", map[string]Value{"Type": p.rtIface(t), "Err": p.syntaxErr("invalid"), "sourceFunc": "MarshalJSON"})
		}
		return n, none
	}
	if isNamed(t, "encoding/json", "Number") {
		if s, ok := concreteStr(v); ok {
			if s == "" {
				return jlit("0"), none
			}
			if !validNumber(s) {
				return nil, p.mkErr(fmt.Sprintf("json: invalid number literal %q", s))
			}
			return jlit(s), none
		}
		el := p.concLen(v)
		if len(el) == 1 {
			if sp, ok := el[0].(*Super); ok {
				switch sp.Kind {
				case SupDec:
					return jint(p.tt.Resize(sp.T, 64, sp.Signed)), none
				case SupFloat:
					return jfloat(sp.T), none
				}
			}
		}
		panic(unsupported{"symbolic json.Number"})
	}
	if P.hasPkg("encoding") {
		ti := P.typ("encoding", "TextMarshaler").Underlying().(*types.Interface)
		if implements(t, ti) {
			if ptr, ok := v.(Ptr); ok && ptr == nil {
				return jnull(), none
			}
			r := p.callMethod(fr, Iface{t, v}, "MarshalText").(Tuple)
			if e := p.force(r[1]); e.T != nil {
				return nil, e
			}
			return jstr(mkStr(r[0].([]Value))), none
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return jstr(p.toUTF8(v)), none
		case u.Info()&types.IsBoolean != 0:
			return jbool(v.(*Term)), none
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			uns := u.Info()&types.IsUnsigned != 0
			if uns && x.W == 64 {
				if x.IsConst() {
					return jlit(strconv.FormatUint(x.C, 10)), none
				}
				if p.branch(p.tt.Cmp(OpSLT, x, BVC(64, 0))) {
					panic(unsupported{"symbolic uint64 above int64 in JSON"})
				}
			}
			return jint(p.tt.Resize(x, 64, !uns)), none
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(F32); ok {
				b, err := stdjson.Marshal(float32(f))
				if err != nil {
					return nil, p.unsupVal(fmt.Sprint(f))
				}
				return jlit(string(b)), none
			}
			f := v.(*Term)
			if !p.branch(p.finite(f)) {
				return nil, p.unsupVal("NaN or Inf")
			}
			return jfloat(f), none
		}
		return nil, p.unsupType(t)
	case *types.Pointer:
		ptr, ok := v.(Ptr)
		if !ok {
			panic(unsupported{fmt.Sprintf("marshal pointer %T", v)})
		}
		if ptr == nil {
			return jnull(), none
		}
		return p.enc(fr, *ptr, u.Elem(), depth+1, true)
	case *types.Slice:
		s := v.([]Value)
		if s == nil {
			return jnull(), none
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Byte {
			if txt, ok := concreteStr(mkStr(s)); ok {
				b, _ := stdjson.Marshal([]byte(txt))
				return jstr(string(b[1 : len(b)-1])), none
			}
			return jstr(&SymStr{B: []Value{&Super{Kind: SupB64, Elems: append([]Value{}, s...)}}}), none
		}
		n := &JNode{Kind: JArr}
		for _, e := range s {
			c, er := p.enc(fr, e, u.Elem(), depth+1, true)
			if er.T != nil {
				return nil, er
			}
			n.Arr = append(n.Arr, c)
		}
		return n, none
	case *types.Array:
		n := &JNode{Kind: JArr}
		for _, e := range v.(Array) {
			c, er := p.enc(fr, e, u.Elem(), depth+1, addr)
			if er.T != nil {
				return nil, er
			}
			n.Arr = append(n.Arr, c)
		}
		return n, none
	case *types.Map:
		kb := basicOf(u.Key())
		if kb == nil || kb.Info()&(types.IsString|types.IsInteger) == 0 {
			return nil, p.unsupType(t)
		}
		m := v.(*MapV)
		if m == nil {
			return jnull(), none
		}
		p.mapAccess(fr, m, false)
		n := &JNode{Kind: JObj}
		type kv struct {
			k Value
			n *JNode
		}
		var kvs []kv
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			c, er := p.enc(fr, e.V, u.Elem(), depth+1, false)
			if er.T != nil {
				return nil, er
			}
			k := e.K
			if kt, ok := k.(*Term); ok {
				if !kt.IsConst() {
					panic(unsupported{"symbolic integer map key"})
				}
				if kb.Info()&types.IsUnsigned != 0 {
					k = strconv.FormatUint(kt.C, 10)
				} else {
					k = strconv.FormatInt(kt.S(), 10)
				}
			}
			kvs = append(kvs, kv{k, c})
		}
		sort.SliceStable(kvs, func(i, j int) bool {
			a, ok1 := concreteStr(kvs[i].k)
			b, ok2 := concreteStr(kvs[j].k)
			return ok1 && ok2 && a < b
		})
		for _, e := range kvs {
			n.Keys = append(n.Keys, e.k)
			n.Vals = append(n.Vals, e.n)
		}
		return n, none
	case *types.Struct:
		st, ok := v.(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("marshal struct %T", v)})
		}
		n := &JNode{Kind: JObj}
		for _, f := range jsonFields(u) {
			var cur Value = st
			for _, ix := range f.path {
				cur = cur.(Struct)[ix]
			}
			if f.omitEmpty && p.isEmpty(cur, f.typ) {
				continue
			}
			c, er := p.enc(fr, cur, f.typ, depth+1, addr)
			if er.T != nil {
				return nil, er
			}
			n.Keys = append(n.Keys, f.name)
			n.Vals = append(n.Vals, c)
		}
		return n, none
	}
	return nil, p.unsupType(t)
}

// utf8At reads the character starting with a byte known to be 0x80 or above:
// its bytes, or the replacement character when they are not UTF-8, and how
// many bytes were read.
func (p *Path) utf8At(b []Value) ([]Value, int) {
	tt := p.tt
	in := func(i int, lo, hi uint64) bool {
		if i >= len(b) {
			return false
		}
		t, ok := b[i].(*Term)
		if !ok {
			if sp, ok := b[i].(*Super); ok && sp.Kind != SupToken {
				return false // text of ASCII characters
			}
			panic(unsupported{"UTF-8 before opaque text"})
		}
		return p.branch(tt.And(tt.Cmp(OpULE, BVC(8, lo), t), tt.Cmp(OpULE, t, BVC(8, hi))))
	}
	bad := []Value{BVC(8, 0xef), BVC(8, 0xbf), BVC(8, 0xbd)}
	cont := func(n int, lo, hi uint64) ([]Value, int) {
		if !in(1, lo, hi) {
			return bad, 1
		}
		for i := 2; i < n; i++ {
			if !in(i, 0x80, 0xbf) {
				return bad, 1
			}
		}
		return b[:n:n], n
	}
	switch {
	case in(0, 0xc2, 0xdf):
		return cont(2, 0x80, 0xbf)
	case in(0, 0xe0, 0xe0):
		return cont(3, 0xa0, 0xbf)
	case in(0, 0xed, 0xed):
		return cont(3, 0x80, 0x9f)
	case in(0, 0xe1, 0xef):
		return cont(3, 0x80, 0xbf)
	case in(0, 0xf0, 0xf0):
		return cont(4, 0x90, 0xbf)
	case in(0, 0xf1, 0xf3):
		return cont(4, 0x80, 0xbf)
	case in(0, 0xf4, 0xf4):
		return cont(4, 0x80, 0x8f)
	}
	return bad, 1
}

// toUTF8 is the string a reader of its JSON text gets: bytes which are not
// UTF-8 are replaced.
func (p *Path) toUTF8(v Value) Value {
	s, ok := v.(*SymStr)
	if !ok {
		if c, ok := v.(string); ok {
			return string([]rune(c))
		}
		return v
	}
	high := False
	for _, e := range s.B {
		if t, ok := e.(*Term); ok {
			high = p.tt.Or(high, p.tt.Cmp(OpULE, BVC(8, 0x80), t))
		}
	}
	if high == False || !p.branch(high) {
		return v
	}
	b := p.concLen(v)
	var out []Value
	for i := 0; i < len(b); {
		t, ok := b[i].(*Term)
		if !ok || !p.branch(p.tt.Cmp(OpULE, BVC(8, 0x80), t)) {
			out = append(out, b[i])
			i++
			continue
		}
		r, n := p.utf8At(b[i:])
		out = append(out, r...)
		i += n
	}
	return mkStr(out)
}

func (p *Path) isEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *SymStr:
		if hasSuper(x.B) {
			return false
		}
		return p.branch(p.tt.Eq(strLenTerm(x), BVC(64, 0)))
	case *Term:
		switch x.W {
		case WBool:
			return !p.branch(x)
		case WFP:
			return p.branch(p.tt.FCmp(OpFEq, x, FPC(0)))
		}
		return p.branch(p.tt.Eq(x, BVC(x.W, 0)))
	case F32:
		return x == 0
	case SymF32:
		return p.branch(p.tt.FCmp(OpFEq, x.T, FPC(0)))
	case Ptr:
		return x == nil
	case []Value:
		return len(x) == 0
	case *MapV:
		return x == nil || x.Len() == 0
	case Iface:
		return x.T == nil
	case *LazyIface:
		return p.lazyIsNull(x)
	case Array:
		return len(x) == 0
	}
	return false
}

func hasSuper(el []Value) bool {
	for _, e := range el {
		if _, ok := e.(*Super); ok {
			return true
		}
	}
	return false
}

// textNode parses a byte slice holding exactly one JSON document.
func (p *Path) textNode(b []Value) (*JNode, bool) {
	n, rest, st := p.scanValue(b, true)
	if st != scanOK {
		return nil, false
	}
	for _, e := range rest {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() || !isSpace(byte(t.C)) {
			return nil, false
		}
	}
	return n, true
}

const (
	scanOK = iota
	scanMore
	scanEmpty
	scanBad
)

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// scanValue reads one JSON value from b; eof tells that no more input follows.
func (p *Path) scanValue(b []Value, eof bool) (*JNode, []Value, int) {
	i := 0
	for i < len(b) {
		t, ok := b[i].(*Term)
		if !ok {
			break
		}
		if t.IsConst() {
			if isSpace(byte(t.C)) {
				i++
				continue
			}
			break
		}
		break
	}
	b = b[i:]
	if len(b) == 0 {
		if eof {
			return nil, nil, scanEmpty
		}
		return nil, nil, scanMore
	}
	if sp, ok := b[0].(*Super); ok {
		switch sp.Kind {
		case SupJSON:
			return sp.Node, b[1:], scanOK
		case SupDec:
			return jint(p.tt.Resize(sp.T, 64, sp.Signed)), b[1:], scanOK
		case SupFloat:
			return jfloat(sp.T), b[1:], scanOK
		}
		panic(unsupported{"JSON text with opaque elements"})
	}
	// collect the concrete prefix
	j := 0
	buf := make([]byte, 0, len(b))
	for j < len(b) {
		t, ok := b[j].(*Term)
		if !ok || !t.IsConst() {
			break
		}
		buf = append(buf, byte(t.C))
		j++
	}
	n, off, err := hostNode(string(buf))
	if err == nil {
		// a bare number at the end of the concrete prefix may continue
		if n.Kind == JNumK && off == len(buf) {
			if j < len(b) {
				return p.scanSym(b)
			}
			if !eof {
				return nil, nil, scanMore
			}
		}
		return n, b[off:], scanOK
	}
	if j < len(b) {
		return p.scanSym(b)
	}
	if err.Error() == "unexpected EOF" || err.Error() == "EOF" || strings.Contains(err.Error(), "unexpected EOF") {
		if eof {
			return nil, nil, scanBad
		}
		return nil, nil, scanMore
	}
	return nil, nil, scanBad
}

// scanSym parses text with symbolic bytes: only the simple forms are followed.
func (p *Path) scanSym(b []Value) (*JNode, []Value, int) {
	tt := p.tt
	bt := func(i int) *Term {
		t, ok := b[i].(*Term)
		if !ok {
			panic(unsupported{"JSON text mixing symbolic and opaque parts"})
		}
		return t
	}
	is := func(i int, c byte) bool { return p.branch(tt.Eq(bt(i), BVC(8, uint64(c)))) }
	rng := func(i int, lo, hi byte) bool {
		t := bt(i)
		return p.branch(tt.And(tt.Cmp(OpULE, BVC(8, uint64(lo)), t), tt.Cmp(OpULE, t, BVC(8, uint64(hi)))))
	}
	var value, value1 func(i int) (*JNode, int, bool)
	ws := func(i int) int {
		for i < len(b) {
			if _, ok := b[i].(*Super); ok {
				return i
			}
			t := bt(i)
			sp := tt.Or(tt.Or(tt.Eq(t, BVC(8, ' ')), tt.Eq(t, BVC(8, '\t'))), tt.Or(tt.Eq(t, BVC(8, '\n')), tt.Eq(t, BVC(8, '\r'))))
			if !p.branch(sp) {
				return i
			}
			i++
		}
		return i
	}
	word := func(i int, w string) bool {
		if i+len(w) > len(b) {
			return false
		}
		for k := 0; k < len(w); k++ {
			if !is(i+k, w[k]) {
				return false
			}
		}
		return true
	}
	str := func(i int) (Value, int, bool) {
		// opening quote already consumed
		var el []Value
		for i < len(b) {
			if sp, ok := b[i].(*Super); ok {
				if sp.Kind == SupDec || sp.Kind == SupB64 || sp.Kind == SupFloat || sp.Kind == SupBig {
					el = append(el, sp)
					i++
					continue
				}
				panic(unsupported{"JSON string with opaque parts"})
			}
			if is(i, '"') {
				return mkStr(el), i + 1, true
			}
			if is(i, '\\') {
				if i+1 >= len(b) {
					return nil, i, false
				}
				esc := "\"\\/bfnrt"
				rep := "\"\\/\b\f\n\r\t"
				found := false
				for k := 0; k < len(esc); k++ {
					if is(i+1, esc[k]) {
						el = append(el, BVC(8, uint64(rep[k])))
						found = true
						break
					}
				}
				if !found {
					if is(i+1, 'u') {
						for k := i + 2; k < i+6; k++ {
							if k >= len(b) {
								return nil, k, false
							}
							h := bt(k)
							hex := func(lo, hi byte) *Term {
								return tt.And(tt.Cmp(OpULE, BVC(8, uint64(lo)), h), tt.Cmp(OpULE, h, BVC(8, uint64(hi))))
							}
							if !p.branch(tt.Or(hex('0', '9'), tt.Or(hex('a', 'f'), hex('A', 'F')))) {
								return nil, k, false
							}
						}
						panic(unsupported{"unicode escape in symbolic JSON text"})
					}
					return nil, i, false
				}
				i += 2
				continue
			}
			t := bt(i)
			if p.branch(tt.Cmp(OpULT, t, BVC(8, 0x20))) {
				return nil, i, false
			}
			if !p.branch(tt.Cmp(OpULT, t, BVC(8, 0x80))) {
				r, n := p.utf8At(b[i:])
				el = append(el, r...)
				i += n
				continue
			}
			el = append(el, t)
			i++
		}
		return nil, i, false
	}
	num := func(i int) (*JNode, int, bool) {
		st := i
		if is(i, '-') {
			i++
			if i >= len(b) {
				return nil, i, false
			}
		}
		if is(i, '0') {
			i++
		} else if rng(i, '1', '9') {
			i++
			for i < len(b) && rng(i, '0', '9') {
				i++
			}
		} else {
			return nil, i, false
		}
		if i < len(b) && is(i, '.') {
			i++
			if i >= len(b) || !rng(i, '0', '9') {
				return nil, i, false
			}
			for i < len(b) && rng(i, '0', '9') {
				i++
			}
		}
		if i < len(b) && (is(i, 'e') || is(i, 'E')) {
			i++
			if i < len(b) && (is(i, '+') || is(i, '-')) {
				i++
			}
			if i >= len(b) || !rng(i, '0', '9') {
				return nil, i, false
			}
			for i < len(b) && rng(i, '0', '9') {
				i++
			}
		}
		txt := mkStr(append([]Value{}, b[st:i]...))
		if s, ok := concreteStr(txt); ok {
			return jlit(s), i, true
		}
		return &JNode{Kind: JNumK, Num: &JNum{Txt: txt}}, i, true
	}
	value = func(i int) (*JNode, int, bool) {
		i = ws(i)
		n, j, ok := value1(i)
		if ok && n.raw == nil {
			n.raw = append([]Value{}, b[i:j]...)
			if hasSuper(n.raw) {
				n.raw = nil
			}
		}
		return n, j, ok
	}
	value1 = func(i int) (*JNode, int, bool) {
		if i >= len(b) {
			return nil, i, false
		}
		if sp, ok := b[i].(*Super); ok {
			n, _, st := p.scanValue([]Value{sp}, true)
			return n, i + 1, st == scanOK
		}
		switch {
		case is(i, '"'):
			s, j, ok := str(i + 1)
			if !ok {
				return nil, j, false
			}
			return jstr(s), j, true
		case is(i, '['):
			n := &JNode{Kind: JArr}
			i = ws(i + 1)
			if i < len(b) && is(i, ']') {
				return n, i + 1, true
			}
			for {
				c, j, ok := value(i)
				if !ok {
					return nil, j, false
				}
				n.Arr = append(n.Arr, c)
				i = ws(j)
				if i >= len(b) {
					return nil, i, false
				}
				if is(i, ',') {
					i++
					continue
				}
				if is(i, ']') {
					return n, i + 1, true
				}
				return nil, i, false
			}
		case is(i, '{'):
			n := &JNode{Kind: JObj}
			i = ws(i + 1)
			if i < len(b) && is(i, '}') {
				return n, i + 1, true
			}
			for {
				i = ws(i)
				if i >= len(b) || !is(i, '"') {
					return nil, i, false
				}
				k, j, ok := str(i + 1)
				if !ok {
					return nil, j, false
				}
				i = ws(j)
				if i >= len(b) || !is(i, ':') {
					return nil, i, false
				}
				c, j2, ok := value(i + 1)
				if !ok {
					return nil, j2, false
				}
				n.Keys = append(n.Keys, k)
				n.Vals = append(n.Vals, c)
				i = ws(j2)
				if i >= len(b) {
					return nil, i, false
				}
				if is(i, ',') {
					i++
					continue
				}
				if is(i, '}') {
					return n, i + 1, true
				}
				return nil, i, false
			}
		case is(i, 't'):
			if word(i, "true") {
				return jbool(True), i + 4, true
			}
			return nil, i, false
		case is(i, 'f'):
			if word(i, "false") {
				return jbool(False), i + 5, true
			}
			return nil, i, false
		case is(i, 'n'):
			if word(i, "null") {
				return jnull(), i + 4, true
			}
			return nil, i, false
		}
		return num(i)
	}
	if ws(0) >= len(b) {
		return nil, nil, scanEmpty
	}
	n, j, ok := value(0)
	if !ok {
		return nil, nil, scanBad
	}
	return n, b[j:], scanOK
}

// ---- node equality

func (p *Path) nodeEq(a, b *JNode) *Term {
	if a == b {
		return True
	}
	p.resolve(a)
	p.resolve(b)
	if a.Kind != b.Kind {
		return False
	}
	tt := p.tt
	switch a.Kind {
	case JNull:
		return True
	case JBool:
		return tt.Eq(a.B, b.B)
	case JNumK:
		return p.numEq(a.Num, b.Num)
	case JStr:
		return p.strEq(a.Str, b.Str)
	case JArr:
		if len(a.Arr) != len(b.Arr) {
			return False
		}
		r := True
		for i := range a.Arr {
			r = tt.And(r, p.nodeEq(a.Arr[i], b.Arr[i]))
			if r == False {
				return r
			}
		}
		return r
	case JObj:
		am, bm := p.objLast(a), p.objLast(b)
		if len(am) != len(bm) {
			return False
		}
		r := True
		for _, e := range am {
			found := false
			for _, g := range bm {
				if p.branch(p.strEq(e.k, g.k)) {
					r = tt.And(r, p.nodeEq(e.n, g.n))
					found = true
					break
				}
			}
			if !found || r == False {
				return False
			}
		}
		return r
	}
	return False
}

type objEnt struct {
	k Value
	n *JNode
}

func (p *Path) objLast(n *JNode) []objEnt {
	var out []objEnt
	for i, k := range n.Keys {
		dup := -1
		for j := range out {
			if p.branch(p.strEq(out[j].k, k)) {
				dup = j
			}
		}
		if dup >= 0 {
			out[dup].n = n.Vals[i]
		} else {
			out = append(out, objEnt{k, n.Vals[i]})
		}
	}
	return out
}

func (p *Path) numEq(a, b *JNum) *Term {
	tt := p.tt
	if a.Txt != nil && b.Txt != nil {
		return p.strEq(a.Txt, b.Txt)
	}
	p.lit(a)
	p.lit(b)
	switch {
	case a.Int != nil && b.Int != nil:
		return tt.Eq(a.Int, b.Int)
	case a.Lit != "" && b.Lit != "":
		return BoolC(a.Lit == b.Lit)
	case a.F != nil && b.F != nil:
		return tt.FCmp(OpFEq, a.F, b.F)
	case a.F == nil && b.F != nil:
		return p.numEq(b, a)
	case a.F != nil:
		// text of a float against an integer or literal text
		if b.Int != nil {
			is := p.floatIsInt(a.F)
			// beyond 2^53 the shortest float text is not the exact integer
			small := tt.And(tt.FCmp(OpFLe, a.F, FPC(1<<53)), tt.FCmp(OpFLe, FPC(-(1<<53)), a.F))
			return tt.And(tt.And(is, small), tt.FCmp(OpFEq, tt.IToF(b.Int, true), a.F))
		}
		f, err := strconv.ParseFloat(b.Lit, 64)
		if err != nil {
			return False
		}
		t, _ := stdjson.Marshal(f)
		if string(t) != b.Lit {
			return False
		}
		return tt.FCmp(OpFEq, a.F, FPC(f))
	}
	return False // integer text against a non-canonical literal
}
