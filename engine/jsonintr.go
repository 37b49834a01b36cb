package main

// Intrinsics for encoding/json entry points.

import (
	"fmt"
	"strings"
)

type jsonDecoder struct {
	r      Iface
	buf    []Value
	eof    bool
	useNum bool
	err    Iface // sticky
	off    int64
	strict bool
}

func (p *Path) decoderOf(fr *Frame, v Value) *jsonDecoder {
	c := fr.deref(v)
	d, ok := p.side[cellSide{c}].(*jsonDecoder)
	if !ok {
		panic(unsupported{"json.Decoder not made by NewDecoder"})
	}
	return d
}

func (p *Path) stdGlobal(pkg, name string) Value {
	return *p.globalPtr(p.w.prog.byPath[pkg].Var(name))
}

// more reads another chunk; false at EOF or error.
func (d *jsonDecoder) more(fr *Frame) (Iface, bool) {
	p := fr.p
	if d.eof {
		return Iface{}, false
	}
	buf := make([]Value, 512)
	z := BVC(8, 0)
	for i := range buf {
		buf[i] = z
	}
	for tries := 0; tries < 100; tries++ {
		r := p.callMethod(fr, d.r, "Read", buf).(Tuple)
		n := int(p.concretizeS(r[0].(*Term)))
		err := p.force(r[1])
		d.buf = append(d.buf, buf[:n]...)
		if err.T != nil {
			eof := p.force(p.stdGlobal("io", "EOF"))
			if identical(err.T, eof.T) && p.branch(p.eq(fr, err.T, err.V, eof.V)) {
				d.eof = true
				return Iface{}, n > 0
			}
			return err, n > 0
		}
		if n > 0 {
			return Iface{}, true
		}
	}
	panic(unsupported{"reader makes no progress"})
}

func (d *jsonDecoder) next(fr *Frame) (*JNode, Iface) {
	p := fr.p
	for {
		n, rest, st := p.scanValue(d.buf, d.eof)
		switch st {
		case scanOK:
			d.buf = rest
			return n, Iface{}
		case scanBad:
			d.err = p.syntaxErr("invalid character in JSON text")
			return nil, d.err
		case scanEmpty:
			e := p.force(p.stdGlobal("io", "EOF"))
			return nil, e
		}
		err, got := d.more(fr)
		if err.T != nil && !got {
			d.err = err
			return nil, err
		}
		if !got && d.eof {
			n, rest, st := p.scanValue(d.buf, true)
			switch st {
			case scanOK:
				d.buf = rest
				return n, Iface{}
			case scanEmpty:
				return nil, p.force(p.stdGlobal("io", "EOF"))
			}
			e := p.force(p.stdGlobal("io", "ErrUnexpectedEOF"))
			if st == scanBad && !p.looksTruncated(d.buf) {
				e = p.syntaxErr("invalid character in JSON text")
			}
			d.err = e
			return nil, e
		}
	}
}

func (p *Path) looksTruncated(b []Value) bool {
	s, ok := mkStr(b).(string)
	if !ok {
		return false
	}
	_, _, err := hostNode(s)
	return err != nil && strings.Contains(err.Error(), "EOF")
}

func (p *Path) allSpace(rest []Value) bool {
	tt := p.tt
	for _, e := range rest {
		t, ok := e.(*Term)
		if !ok {
			return false
		}
		sp := tt.Or(tt.Or(tt.Eq(t, BVC(8, ' ')), tt.Eq(t, BVC(8, '\t'))), tt.Or(tt.Eq(t, BVC(8, '\n')), tt.Eq(t, BVC(8, '\r'))))
		if !p.branch(sp) {
			return false
		}
	}
	return true
}

func initJSONIntr() {
	reg("encoding/json.NewDecoder", func(fr *Frame, args []Value) Value {
		p := fr.p
		c := p.newCell(zero(p.w.prog.typ("encoding/json", "Decoder")))
		p.side[cellSide{c}] = &jsonDecoder{r: p.force(args[0])}
		return c
	})
	reg("(*encoding/json.Decoder).UseNumber", func(fr *Frame, args []Value) Value {
		fr.p.decoderOf(fr, args[0]).useNum = true
		return nil
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *Frame, args []Value) Value {
		panic(unsupported{"DisallowUnknownFields"})
	})
	reg("(*encoding/json.Decoder).InputOffset", func(fr *Frame, args []Value) Value {
		return BVC(64, uint64(fr.p.decoderOf(fr, args[0]).off))
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *Frame, args []Value) Value {
		p := fr.p
		d := p.decoderOf(fr, args[0])
		if d.err.T != nil {
			return d.err
		}
		n, err := d.next(fr)
		if err.T != nil {
			return err
		}
		return p.decodeTop(fr, n, p.force(args[1]), d.useNum)
	})
	reg("(*encoding/json.Decoder).More", func(fr *Frame, args []Value) Value {
		p := fr.p
		d := p.decoderOf(fr, args[0])
		for {
			el := d.buf
			for len(el) > 0 {
				t, ok := el[0].(*Term)
				if !ok {
					return True
				}
				if !t.IsConst() {
					panic(unsupported{"Decoder.More on symbolic text"})
				}
				if isSpace(byte(t.C)) {
					el = el[1:]
					continue
				}
				return BoolC(t.C != ']' && t.C != '}')
			}
			if _, got := d.more(fr); !got {
				return False
			}
		}
	})
	reg("(*encoding/json.Decoder).Buffered", func(fr *Frame, args []Value) Value {
		p := fr.p
		d := p.decoderOf(fr, args[0])
		fn := p.w.prog.lookupFn("bytes", "NewReader")
		r := p.callFn(fr.th, fr, fn, []Value{append([]Value{}, d.buf...)}, nil)
		return Iface{fn.Signature.Results().At(0).Type(), r}
	})
	reg("(*encoding/json.Decoder).Token", func(fr *Frame, args []Value) Value {
		p := fr.p
		d := p.decoderOf(fr, args[0])
		// only the end of the input can be told
		for {
			el := d.buf
			for len(el) > 0 {
				t, ok := el[0].(*Term)
				if ok && t.IsConst() && isSpace(byte(t.C)) {
					el = el[1:]
					continue
				}
				break
			}
			if len(el) > 0 {
				n, err := d.next(fr)
				if err.T != nil {
					return Tuple{Iface{}, err}
				}
				if n.Kind == JLazy {
					p.resolve(n)
				}
				if n.Kind == JArr || n.Kind == JObj {
					// the opening delimiter; what follows cannot be read
					d.err = p.mkErr("model: tokens inside a composite")
					return Tuple{Iface{p.w.prog.typ("encoding/json", "Delim"), BVC(32, uint64(map[JKind]byte{JArr: '[', JObj: '{'}[n.Kind]))}, Iface{}}
				}
				return Tuple{p.force(p.nodeVal(n, d.useNum)), Iface{}}
			}
			d.buf = nil
			if err, got := d.more(fr); !got {
				if err.T == nil {
					err = p.force(p.stdGlobal("io", "EOF"))
				}
				return Tuple{Iface{}, err}
			}
		}
	})
	reg("encoding/json.Unmarshal", func(fr *Frame, args []Value) Value {
		p := fr.p
		b := args[0].([]Value)
		n, rest, st := p.scanValue(b, true)
		switch st {
		case scanEmpty, scanMore:
			return p.syntaxErr("unexpected end of JSON input")
		case scanBad:
			return p.syntaxErr("invalid character in JSON text")
		}
		if !p.allSpace(rest) {
			return p.syntaxErr("invalid character after top-level value")
		}
		return p.decodeTop(fr, n, p.force(args[1]), false)
	})
	marshal := func(fr *Frame, args []Value) Value {
		p := fr.p
		p.encoding(fr)
		n, err := p.marshal(fr, args[0])
		if err.T != nil {
			return Tuple{[]Value(nil), err}
		}
		return Tuple{p.nodeElems(n), nilErr()}
	}
	reg("encoding/json.Marshal", marshal)
	reg("encoding/json.MarshalIndent", func(fr *Frame, args []Value) Value {
		p := fr.p
		p.encoding(fr)
		n, err := p.marshal(fr, args[0])
		if err.T != nil {
			return Tuple{[]Value(nil), err}
		}
		// indentation is insignificant whitespace
		return Tuple{[]Value{&Super{Kind: SupJSON, Node: n, Tag: "indent"}}, nilErr()}
	})
	reg("encoding/json.Valid", func(fr *Frame, args []Value) Value {
		n, rest, st := fr.p.scanValue(args[0].([]Value), true)
		return BoolC(st == scanOK && n.Kind != JBad && fr.p.allSpace(rest))
	})
	reg("(*encoding/json.SyntaxError).Error", func(fr *Frame, args []Value) Value {
		c := fr.deref(args[0])
		return fr.p.fieldOf((*c).(Struct), fr.p.w.prog.typ("encoding/json", "SyntaxError"), "msg")
	})
	for _, n := range []string{"UnmarshalTypeError", "InvalidUnmarshalError", "UnsupportedTypeError", "UnsupportedValueError", "MarshalerError"} {
		n := n
		reg("(*encoding/json."+n+").Error", func(fr *Frame, args []Value) Value {
			return mkStr(append(lit("json: "), opaque(n)...))
		})
	}
	reg("(*encoding/json.MarshalerError).Unwrap", func(fr *Frame, args []Value) Value {
		c := fr.deref(args[0])
		return fr.p.fieldOf((*c).(Struct), fr.p.w.prog.typ("encoding/json", "MarshalerError"), "Err")
	})
	reg("(encoding/json.Number).String", func(fr *Frame, args []Value) Value { return args[0] })
	// json.NewEncoder(w).Encode
	reg("encoding/json.NewEncoder", func(fr *Frame, args []Value) Value {
		p := fr.p
		c := p.newCell(zero(p.w.prog.typ("encoding/json", "Encoder")))
		p.side[cellSide{c}] = args[0]
		return c
	})
	reg("(*encoding/json.Encoder).Encode", func(fr *Frame, args []Value) Value {
		p := fr.p
		w, ok := p.side[cellSide{fr.deref(args[0])}]
		if !ok {
			panic(unsupported{"json.Encoder"})
		}
		p.encoding(fr)
		n, err := p.marshal(fr, args[1])
		if err.T != nil {
			return err
		}
		b := append(append([]Value{}, p.nodeElems(n)...), BVC(8, '\n'))
		r := p.callMethod(fr, p.force(w), "Write", b).(Tuple)
		return p.force(r[1])
	})
	reg("(*encoding/json.Encoder).SetIndent", func(fr *Frame, args []Value) Value { return nil })
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(fr *Frame, args []Value) Value { return nil })
	_ = fmt.Sprint
}

// encoding is the preemption point of harnesses that ask for it (v.Encoding):
// the value encoded may be shared.
func (p *Path) encoding(fr *Frame) {
	if p.encodeYield && fr.info != nil && fr.info.inRepo {
		p.yield(fr)
	}
}
