// Package model holds library models, executed by the symbolic engine in
// place of the library functions of the same name.  They are never run
// natively.
package model

import (
	"math/big"
	"strconv"
)

// bigSet and bigText store and read the canonical decimal text of a big.Int
// (engine primitives).
func bigSet(z *big.Int, s string) { panic("engine") }
func bigText(z *big.Int) string   { panic("engine") }

func BigSetString(z *big.Int, s string, base int) (*big.Int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return nil, false
	}
	if base == 0 {
		base = 10
		prefixed := false
		if len(s) > 1 && s[0] == '0' {
			prefixed = true
			switch s[1] {
			case 'x', 'X':
				base = 16
				s = s[2:]
			case 'b', 'B':
				base = 2
				s = s[2:]
			case 'o', 'O':
				base = 8
				s = s[2:]
			default:
				base = 8
				s = s[1:]
			}
		}
		// underscores may only stand between digits or after a prefix
		plain := ""
		last := prefixed
		for i := 0; i < len(s); i++ {
			if s[i] == '_' {
				if !last {
					return nil, false
				}
				last = false
				continue
			}
			last = true
			plain += s[i : i+1]
		}
		if !last || plain == "" {
			return nil, false
		}
		s = plain
	}
	if base != 10 {
		if base > 16 || len(s) > 15 {
			panic("model: big.Int.SetString with another base")
		}
		var n uint64
		for i := 0; i < len(s); i++ {
			c := s[i]
			d := 99
			switch {
			case c >= '0' && c <= '9':
				d = int(c - '0')
			case c >= 'a' && c <= 'f':
				d = int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				d = int(c-'A') + 10
			}
			if d >= base {
				return nil, false
			}
			n = n*uint64(base) + uint64(d)
		}
		if neg {
			BigSetInt64(z, -int64(n))
		} else {
			BigSetUint64(z, n)
		}
		return z, true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	for len(s) > 1 && s[0] == '0' {
		s = s[1:]
	}
	if neg && !(len(s) == 1 && s[0] == '0') {
		s = "-" + s
	}
	bigSet(z, s)
	return z, true
}

func BigIsInt64(z *big.Int) bool {
	_, err := strconv.ParseInt(bigText(z), 10, 64)
	return err == nil
}

func BigIsUint64(z *big.Int) bool {
	_, err := strconv.ParseUint(bigText(z), 10, 64)
	return err == nil
}

// low 64 bits
func low64(s string) uint64 {
	neg := s[0] == '-'
	if neg {
		s = s[1:]
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	if neg {
		return -n
	}
	return n
}

func BigInt64(z *big.Int) int64   { return int64(low64(bigText(z))) }
func BigUint64(z *big.Int) uint64 { return low64(bigText(z)) }

func BigNeg(z, x *big.Int) *big.Int {
	s := bigText(x)
	switch {
	case s == "0":
	case s[0] == '-':
		s = s[1:]
	default:
		s = "-" + s
	}
	bigSet(z, s)
	return z
}

func BigAbs(z, x *big.Int) *big.Int {
	s := bigText(x)
	if s[0] == '-' {
		s = s[1:]
	}
	bigSet(z, s)
	return z
}

func BigAppend(z *big.Int, buf []byte, base int) []byte {
	return append(buf, BigText(z, base)...)
}

func BigMarshalText(z *big.Int) ([]byte, error) { return []byte(BigString(z)), nil }

func BigMarshalJSON(z *big.Int) ([]byte, error) {
	if z == nil {
		return []byte("null"), nil
	}
	return []byte(bigText(z)), nil
}

type bigErr string

func (self bigErr) Error() string { return string(self) }

func BigUnmarshalText(z *big.Int, text []byte) error {
	if _, ok := BigSetString(z, string(text), 0); !ok {
		return bigErr("math/big: cannot unmarshal " + strconv.Quote(string(text)) + " into a *big.Int")
	}
	return nil
}

func BigUnmarshalJSON(z *big.Int, text []byte) error {
	if string(text) == "null" {
		return nil
	}
	return BigUnmarshalText(z, text)
}

func BigString(z *big.Int) string {
	if z == nil {
		return "<nil>"
	}
	return bigText(z)
}

func BigText(z *big.Int, base int) string {
	if base != 10 {
		panic("model: big.Int.Text with another base")
	}
	return BigString(z)
}

func BigSetInt64(z *big.Int, x int64) *big.Int {
	bigSet(z, strconv.FormatInt(x, 10))
	return z
}

func BigSetUint64(z *big.Int, x uint64) *big.Int {
	bigSet(z, strconv.FormatUint(x, 10))
	return z
}

func BigNewInt(x int64) *big.Int { return BigSetInt64(new(big.Int), x) }

func BigSet(z, x *big.Int) *big.Int {
	bigSet(z, bigText(x))
	return z
}

func BigSign(z *big.Int) int {
	s := bigText(z)
	switch {
	case s == "0":
		return 0
	case s[0] == '-':
		return -1
	}
	return 1
}

func BigCmp(x, y *big.Int) int {
	a, b := bigText(x), bigText(y)
	if a == b {
		return 0
	}
	na, nb := a[0] == '-', b[0] == '-'
	if na != nb {
		if na {
			return -1
		}
		return 1
	}
	less := len(a) < len(b) || len(a) == len(b) && a < b
	if less != na {
		return -1
	}
	return 1
}
