// Package wire is an independent reader and writer of the HBCI/FinTS wire
// syntax, written from the specification and not from go-hbci's code. The
// monitors use it to judge what go-hbci puts on the wire and the simulated
// bank uses it to answer.
package wire

import (
	"bytes"
	"fmt"
	"strconv"
)

// Latin1 converts a string of code points below 256 to ISO 8859-1 bytes.
func Latin1(s string) []byte {
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			panic(fmt.Sprintf("wire: rune %q is not Latin-1", r))
		}
		out = append(out, byte(r))
	}
	return out
}

// UTF8 converts ISO 8859-1 bytes to a string.
func UTF8(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

// Esc escapes the syntax characters of Latin-1 bytes.
func Esc(b []byte) []byte {
	out := make([]byte, 0, len(b)+4)
	for _, c := range b {
		switch c {
		case '?', '@', '\'', ':', '+':
			out = append(out, '?')
		}
		out = append(out, c)
	}
	return out
}

// T is a text element on the wire.
func T(s string) []byte { return Esc(Latin1(s)) }

// I is a number on the wire.
func I(n int) []byte { return []byte(strconv.Itoa(n)) }

// Bin is a binary element on the wire.
func Bin(b []byte) []byte {
	return append([]byte(fmt.Sprintf("@%d@", len(b))), b...)
}

// G joins group elements, dropping empty trailing ones.
func G(parts ...[]byte) []byte {
	n := len(parts)
	for n > 0 && len(parts[n-1]) == 0 {
		n--
	}
	return bytes.Join(parts[:n], []byte(":"))
}

// Raw is a literal piece of wire.
func Raw(s string) []byte { return []byte(s) }

// Seg builds a segment; ref 0 means no reference.
func Seg(id string, pos, ver, ref int, des ...[]byte) []byte {
	h := fmt.Sprintf("%s:%d:%d", id, pos, ver)
	if ref > 0 {
		h += fmt.Sprintf(":%d", ref)
	}
	n := len(des)
	for n > 0 && len(des[n-1]) == 0 {
		n--
	}
	out := []byte(h)
	for _, d := range des[:n] {
		out = append(out, '+')
		out = append(out, d...)
	}
	return append(out, '\'')
}

// Elem is one group data element.
type Elem struct {
	Val []byte // unescaped text, or binary content
	Bin bool
	Raw []byte
}

// DE is a data element (group).
type DE []Elem

// Segment is a parsed segment.
type Segment struct {
	ID   string
	Pos  int
	Ver  int
	Ref  int  // 0: none
	DEs  []DE // without the header
	Raw  []byte
	Head DE
}

// Str is the text of group element j of data element i (header excluded).
func (s Segment) Str(i, j int) string {
	if i < 0 || i >= len(s.DEs) || j >= len(s.DEs[i]) {
		return ""
	}
	return UTF8(s.DEs[i][j].Val)
}

// Int is the number at i,j or -1.
func (s Segment) Int(i, j int) int {
	v, err := strconv.Atoi(s.Str(i, j))
	if err != nil {
		return -1
	}
	return v
}

// Has tells whether the element is present and not empty.
func (s Segment) Has(i, j int) bool {
	return i < len(s.DEs) && j < len(s.DEs[i]) && (len(s.DEs[i][j].Val) > 0 || s.DEs[i][j].Bin)
}

// ParseElem reads one element starting at p and returns the position behind.
func parseElem(b []byte, p int) (Elem, int, error) {
	if p < len(b) && b[p] == '@' {
		q := p + 1
		for q < len(b) && b[q] >= '0' && b[q] <= '9' {
			q++
		}
		if q == p+1 || q >= len(b) || b[q] != '@' {
			return Elem{}, p, fmt.Errorf("bad binary length at %d", p)
		}
		n, err := strconv.Atoi(string(b[p+1 : q]))
		if err != nil || n < 0 || n > len(b)-q-1 {
			return Elem{}, p, fmt.Errorf("binary length exceeds input at %d", p)
		}
		end := q + 1 + n
		return Elem{Val: b[q+1 : end], Bin: true, Raw: b[p:end]}, end, nil
	}
	var val []byte
	q := p
	for q < len(b) {
		switch b[q] {
		case '+', ':', '\'':
			return Elem{Val: val, Raw: b[p:q]}, q, nil
		case '@':
			return Elem{}, q, fmt.Errorf("unescaped @ at %d", q)
		case '?':
			if q+1 >= len(b) {
				return Elem{}, q, fmt.Errorf("dangling escape at %d", q)
			}
			switch b[q+1] {
			case '?', '@', '\'', ':', '+':
			default:
				return Elem{}, q, fmt.Errorf("bad escape at %d", q)
			}
			val = append(val, b[q+1])
			q += 2
		default:
			val = append(val, b[q])
			q++
		}
	}
	return Elem{}, q, fmt.Errorf("unterminated element")
}

// ParseRaw splits a message into segments of data elements of groups,
// strictly, without interpreting headers.
func ParseRaw(b []byte) (segs [][]DE, raws [][]byte, err error) {
	p := 0
	for p < len(b) {
		start := p
		var des []DE
		var cur DE
		for {
			e, q, err := parseElem(b, p)
			if err != nil {
				return nil, nil, err
			}
			if q >= len(b) {
				return nil, nil, fmt.Errorf("unterminated segment")
			}
			cur = append(cur, e)
			p = q + 1
			switch b[q] {
			case ':':
				continue
			case '+':
				des = append(des, cur)
				cur = nil
				continue
			case '\'':
				des = append(des, cur)
			default:
				return nil, nil, fmt.Errorf("expected delimiter at %d, got %q", q, b[q])
			}
			break
		}
		segs = append(segs, des)
		raws = append(raws, b[start:p])
	}
	return segs, raws, nil
}

// Parse reads a whole message of segments with proper headers.
func Parse(b []byte) ([]Segment, error) {
	segs, raws, err := ParseRaw(b)
	if err != nil {
		return nil, err
	}
	var out []Segment
	for i, des := range segs {
		h := des[0]
		if len(h) < 3 || len(h) > 4 {
			return nil, fmt.Errorf("segment %d: header has %d elements: %q", i, len(h), raws[i])
		}
		s := Segment{ID: string(h[0].Val), DEs: des[1:], Raw: raws[i], Head: h}
		var e1, e2, e3 error
		s.Pos, e1 = strconv.Atoi(string(h[1].Val))
		s.Ver, e2 = strconv.Atoi(string(h[2].Val))
		if len(h) == 4 && len(h[3].Val) > 0 {
			s.Ref, e3 = strconv.Atoi(string(h[3].Val))
		}
		if e1 != nil || e2 != nil || e3 != nil {
			return nil, fmt.Errorf("segment %d: bad header %q", i, raws[i])
		}
		out = append(out, s)
	}
	return out, nil
}

// Find returns the segments with the id.
func Find(segs []Segment, id string) []Segment {
	var out []Segment
	for _, s := range segs {
		if s.ID == id {
			out = append(out, s)
		}
	}
	return out
}
