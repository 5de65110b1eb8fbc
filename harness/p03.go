//go:build p03 || all

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strconv"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/token"
	"github.com/mitch000001/go-hbci/transport"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P03",
		rule: "Splitting conserves every byte and agrees with an independent strict reader. Evaluated per input: generated messages (escaped texts, binary data made of delimiters, numbers, empty elements), their mutations and truncations, random syntax characters.",
		fn:   runP03,
		assumptions: []string{
			"harness/wire is the reference for strict syntax",
			"values that look like decimals with leading zeros are left out (known finding of P01)",
		},
	})
}

// genElem is one valid group element on the wire.
func genElem(rng *rand.Rand) []byte {
	switch rng.Intn(12) {
	case 0, 1:
		return nil
	case 2:
		return wire.Raw(strconv.Itoa(rng.Intn(1000)))
	case 3:
		return wire.Raw("0" + genDigits(rng, rng.Intn(6)))
	case 4:
		return wire.Raw(strconv.Itoa(rng.Intn(1000)) + "," + genDigits(rng, rng.Intn(3)))
	case 5:
		return wire.Raw("0," + genDigits(rng, rng.Intn(4)))
	case 6:
		b := make([]byte, rng.Intn(20))
		for i := range b {
			b[i] = "+:'?@0,1A\r\n\x00\xff"[rng.Intn(13)]
		}
		return wire.Bin(b)
	case 7:
		return wire.Bin(genBytes(rng, rng.Intn(300)))
	case 8:
		// nested message in binary data
		return wire.Bin(genRawMessage(rng, 1+rng.Intn(2), 2))
	case 9:
		return wire.Raw(genDigits(rng, 1+rng.Intn(3)) + genText1(rng, 3)[0:0] + genWord(rng, 2))
	default:
		return wire.T(genAnyTextNLZ(rng))
	}
}

func genAnyTextNLZ(rng *rand.Rand) string {
	for {
		s := genText(rng, 1+rng.Intn(30))
		if !leadingZeroDecimal(s) {
			return s
		}
	}
}

func genDE(rng *rand.Rand) []byte {
	n := 1
	if rng.Intn(3) == 0 {
		n = 1 + rng.Intn(6)
	}
	var parts [][]byte
	for i := 0; i < n; i++ {
		parts = append(parts, genElem(rng))
	}
	return bytes.Join(parts, []byte(":"))
}

func genRawMessage(rng *rand.Rand, segs, des int) []byte {
	var out []byte
	for i := 0; i < segs; i++ {
		out = append(out, fmt.Sprintf("%s:%d:%d", []string{"HNHBK", "HIRMG", "HISAL", "X", "HIKAZS", "DIXYZ"}[rng.Intn(6)], i+1, 1+rng.Intn(9))...)
		if rng.Intn(3) == 0 {
			out = append(out, fmt.Sprintf(":%d", rng.Intn(20))...)
		}
		n := rng.Intn(des + 1)
		for j := 0; j < n; j++ {
			out = append(out, '+')
			out = append(out, genDE(rng)...)
		}
		out = append(out, '\'')
	}
	return out
}

// guarded returns a copy of b with spare capacity and a check that neither it
// nor what lies behind was written to.
func guarded(b []byte) ([]byte, func() bool) {
	back := make([]byte, len(b)+64)
	copy(back, b)
	for i := len(b); i < len(back); i++ {
		back[i] = 0xA5
	}
	in := back[:len(b)]
	return in, func() bool {
		for _, x := range back[len(b):] {
			if x != 0xA5 {
				return false
			}
		}
		return bytes.Equal(in, b)
	}
}

func cloneParts(p [][]byte) [][]byte {
	out := make([][]byte, len(p))
	for i := range p {
		out[i] = append([]byte{}, p[i]...)
	}
	return out
}

func sameParts(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// hasLeadingZeroDecimal tells whether some element of the message looks like
// a decimal with leading zeros.
func hasLZ(msg []byte) bool {
	segs, _, err := wire.ParseRaw(msg)
	if err != nil {
		return false
	}
	for _, s := range segs {
		for _, de := range s {
			for _, e := range de {
				if !e.Bin && leadingZeroDecimal(string(e.Raw)) {
					return true
				}
			}
		}
	}
	return false
}

// checkSplit judges everything the library does with one message.
func checkSplit(c *vt.C, msg []byte) {
	ref, raws, refErr := wire.ParseRaw(msg)
	strict := refErr == nil && !hasLZ(msg)

	in, intact := guarded(msg)
	ex := message.NewSegmentExtractor(in)
	segs, err := ex.Extract()
	c.Count("messages", 1)
	if strict {
		c.Count("messages strict", 1)
	}
	if !intact() {
		c.Fail("segments:input", "splitting %s changed its input", b2s(msg))
		return
	}
	if err != nil {
		c.Count("messages refused", 1)
		if strict {
			c.Fail("segments:refused", "%s: %v", b2s(msg), err)
		}
	} else {
		first := cloneParts(segs)
		if got := bytes.Join(first, nil); !bytes.Equal(got, msg) {
			c.Fail("segments:lost", "%s split into %q", b2s(msg), first)
			return
		}
		if strict && !sameParts(first, raws) {
			c.Fail("segments:parts", "%s split into %q, want %q", b2s(msg), first, raws)
			return
		}
		for i, s := range first {
			if len(s) == 0 || s[len(s)-1] != '\'' {
				c.Fail("segments:end", "segment %d of %s is %q", i, b2s(msg), s)
				return
			}
		}
		if got := ex.Segments(); !sameParts(got, first) {
			c.Fail("segments:kept", "Segments of %s: %q, want %q", b2s(msg), got, first)
		}
		again, err2 := ex.Extract()
		if err2 != nil || !sameParts(again, first) {
			c.Fail("segments:repeat", "second split of %s: %q, %v; first %q", b2s(msg), again, err2, first)
		}
		if got := ex.Segments(); !sameParts(got, first) {
			c.Fail("segments:kept", "Segments after the second split of %s: %q, want %q", b2s(msg), got, first)
		}
		if !sameParts(segs, first) {
			c.Fail("segments:repeat", "the second split changed the result of the first: %q, want %q", segs, first)
		}
		for i, s := range first {
			var refSeg []wire.DE
			if strict {
				refSeg = ref[i]
			}
			checkSegmentSplit(c, s, refSeg)
		}
	}
	if !intact() {
		c.Fail("segments:input", "splitting %s changed its input", b2s(msg))
	}

	checkLexer(c, msg, strict, ref)

	// a response read from the network
	resp, rerr := transport.ReadResponse(bufio.NewReaderSize(&chunks{b: msg, rng: c.Rng}, 16), nil)
	if (rerr == nil) != (err == nil) {
		c.Fail("response", "reading %s as response: %v, splitting it: %v", b2s(msg), rerr, err)
	} else if rerr == nil {
		if !sameParts(resp.Segments(), segs) || !bytes.Equal(resp.MarshaledResponse, msg) {
			c.Fail("response", "response %s has segments %q and message %s, want segments %q", b2s(msg), resp.Segments(), b2s(resp.MarshaledResponse), segs)
		}
		if body, e := io.ReadAll(resp.Body); e != nil || !bytes.Equal(body, msg) {
			c.Fail("response", "body of response %s is %s, %v", b2s(msg), b2s(body), e)
		}
		c.Count("responses", 1)
	}
}

// chunks is a reader with short reads.
type chunks struct {
	b   []byte
	rng *rand.Rand
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + r.rng.Intn(len(p))
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	return n, nil
}

func checkSegmentSplit(c *vt.C, s []byte, ref []wire.DE) {
	in, intact := guarded(s)
	els, err := segment.ExtractElements(in)
	c.Count("segments", 1)
	if !intact() {
		c.Fail("elements:input", "splitting segment %s changed its input", b2s(s))
		return
	}
	if err != nil {
		if ref != nil {
			// a segment without any content
			if len(s) > 1 {
				c.Fail("elements:refused", "segment %s: %v", b2s(s), err)
			}
		}
		return
	}
	first := cloneParts(els)
	got := append(bytes.Join(first, []byte("+")), '\'')
	// An empty element at the very end may be left out.
	got2 := append(bytes.Join(append(cloneParts(first), nil), []byte("+")), '\'')
	if !bytes.Equal(got, s) && !bytes.Equal(got2, s) {
		c.Fail("elements:lost", "segment %s split into %q", b2s(s), first)
		return
	}
	if ref != nil {
		n := len(ref)
		if len(first) == n-1 && len(ref[n-1]) == 1 && len(ref[n-1][0].Raw) == 0 {
			n--
		}
		if len(first) != n {
			c.Fail("elements:parts", "segment %s split into %d elements %q, want %d", b2s(s), len(first), first, n)
			return
		}
	}
	if again, err2 := segment.ExtractElements(in); err2 != nil || !sameParts(again, first) || !sameParts(els, first) {
		c.Fail("elements:repeat", "second split of segment %s: %q, %v; first %q, now %q", b2s(s), again, err2, first, els)
	}
	for i, e := range first {
		var refDE wire.DE
		if ref != nil {
			refDE = ref[i]
			var raws [][]byte
			for _, x := range refDE {
				raws = append(raws, x.Raw)
			}
			if want := bytes.Join(raws, []byte(":")); !bytes.Equal(e, want) {
				c.Fail("elements:parts", "element %d of segment %s is %q, want %q", i, b2s(s), e, want)
				return
			}
		}
		checkGroupSplit(c, e, refDE)
	}
}

func checkGroupSplit(c *vt.C, e []byte, ref wire.DE) {
	if len(e) == 0 {
		return
	}
	in, intact := guarded(e)
	parts, err := element.ExtractElements(in)
	c.Count("elements", 1)
	if !intact() {
		c.Fail("group:input", "splitting element %s changed its input", b2s(e))
		return
	}
	if err != nil {
		if ref != nil {
			c.Fail("group:refused", "element %s: %v", b2s(e), err)
		}
		return
	}
	first := cloneParts(parts)
	if got := bytes.Join(first, []byte(":")); !bytes.Equal(got, e) {
		c.Fail("group:lost", "element %s split into %q", b2s(e), first)
		return
	}
	if ref != nil {
		if len(first) != len(ref) {
			c.Fail("group:parts", "element %s split into %q, want %d parts", b2s(e), first, len(ref))
			return
		}
		for i := range first {
			if !bytes.Equal(first[i], ref[i].Raw) {
				c.Fail("group:parts", "part %d of element %s is %q, want %q", i, b2s(e), first[i], ref[i].Raw)
			}
		}
	}
	if again, err2 := element.ExtractElements(in); err2 != nil || !sameParts(again, first) || !sameParts(parts, first) {
		c.Fail("group:repeat", "second split of element %s: %q, %v; first %q, now %q", b2s(e), again, err2, first, parts)
	}
}

// checkLexer: the tokens are the input, in order, and the delimiters are
// those of the reference.
func checkLexer(c *vt.C, msg []byte, strict bool, ref [][]wire.DE) {
	in, intact := guarded(msg)
	l := token.NewLexer("p03", in)
	var got []byte
	var kinds []token.Type
	for n := 0; l.HasNext(); n++ {
		t := l.Next()
		if t.Type() == token.ERROR {
			if strict {
				c.Fail("lexer:refused", "%s: %s", b2s(msg), t.Value())
			}
			c.Count("lexer errors", 1)
			if l.HasNext() {
				c.Fail("lexer:error", "tokens after an error of %s", b2s(msg))
			}
			return
		}
		if t.Type() == token.EOF {
			if l.HasNext() || len(t.Value()) > 0 {
				c.Fail("lexer:eof", "tokens after the end of %s", b2s(msg))
				return
			}
			break
		}
		if t.Pos() != len(got) {
			c.Fail("lexer:position", "token %q of %s at %d, want %d", t.Value(), b2s(msg), t.Pos(), len(got))
			return
		}
		if len(t.Value()) == 0 {
			c.Fail("lexer:empty", "empty token %s of %s", t.Type(), b2s(msg))
			return
		}
		got = append(got, t.Value()...)
		kinds = append(kinds, t.Type())
		isDelim := t.Type() == token.DATA_ELEMENT_SEPARATOR || t.Type() == token.SEGMENT_END_MARKER || t.Type() == token.GROUP_DATA_ELEMENT_SEPARATOR
		if isDelim != t.IsSyntaxSymbol() {
			c.Fail("lexer:syntax", "token %s is syntax: %v", t.Type(), t.IsSyntaxSymbol())
		}
		c.Count("tokens", 1)
	}
	if !intact() {
		c.Fail("lexer:input", "lexing %s changed its input", b2s(msg))
	}
	if !bytes.Equal(got, msg) {
		c.Fail("lexer:lost", "tokens of %s are %s", b2s(msg), b2s(got))
		return
	}
	shape := kinds
	if len(shape) > 16 {
		shape = shape[:16]
	}
	c.State("%d", shape)
	if !strict {
		return
	}
	var want []token.Type
	for _, s := range ref {
		for i, de := range s {
			for j, e := range de {
				if len(e.Raw) > 0 {
					want = append(want, kindOf(e))
				}
				if j < len(de)-1 {
					want = append(want, token.GROUP_DATA_ELEMENT_SEPARATOR)
				}
			}
			if i < len(s)-1 {
				want = append(want, token.DATA_ELEMENT_SEPARATOR)
			}
		}
		want = append(want, token.SEGMENT_END_MARKER)
	}
	if len(want) != len(kinds) {
		c.Fail("lexer:tokens", "%s lexed as %v, want %v", b2s(msg), kinds, want)
		return
	}
	for i := range want {
		if want[i] != kinds[i] && !(want[i] == anyTextToken && (kinds[i] == token.ALPHA_NUMERIC || kinds[i] == token.TEXT)) {
			c.Fail("lexer:tokens", "token %d of %s is %s, want %s", i, b2s(msg), kinds[i], want[i])
			return
		}
	}
}

// anyTextToken stands for ALPHA_NUMERIC or TEXT.
const anyTextToken = token.Type(-12345)

func kindOf(e wire.Elem) token.Type {
	if e.Bin {
		return token.BINARY_DATA
	}
	digits := func(s []byte) bool {
		for _, x := range s {
			if x < '0' || x > '9' {
				return false
			}
		}
		return true
	}
	r := e.Raw
	switch {
	case digits(r) && (r[0] != '0' || len(r) == 1):
		return token.NUMERIC
	case digits(r):
		return token.DIGIT
	}
	if i := bytes.IndexByte(r, ','); i > 0 && digits(r[:i]) && digits(r[i+1:]) {
		return token.FLOAT
	}
	return anyTextToken
}

func runP03(r *vt.Run) {
	for i := 0; i < r.N(60000, 600000); i++ {
		r.Case(fmt.Sprintf("message/%d", i), func(c *vt.C) {
			checkSplit(c, genRawMessage(c.Rng, 1+c.Rng.Intn(6), 8))
		})
	}
	for i := 0; i < r.N(60000, 600000); i++ {
		r.Case(fmt.Sprintf("mutated/%d", i), func(c *vt.C) {
			msg := genRawMessage(c.Rng, 1+c.Rng.Intn(3), 5)
			for k := 0; k < 8; k++ {
				checkSplit(c, mutate(c.Rng, msg))
			}
		})
	}
	for i := 0; i < r.N(40000, 400000); i++ {
		r.Case(fmt.Sprintf("syntax/%d", i), func(c *vt.C) {
			for k := 0; k < 10; k++ {
				b := make([]byte, 1+c.Rng.Intn(14))
				for i := range b {
					b[i] = "+:'?@,012A\r"[c.Rng.Intn(11)]
				}
				if c.Rng.Intn(2) == 0 {
					b = append(b, '\'')
				}
				checkSplit(c, b)
			}
		})
	}
	for i := 0; i < r.N(300, 3000); i++ {
		r.Case(fmt.Sprintf("truncated/%d", i), func(c *vt.C) {
			msg := genRawMessage(c.Rng, 2, 4)
			if len(msg) > 600 {
				msg = genRawMessage(c.Rng, 1, 2)
			}
			for n := 0; n < len(msg) && n < 800; n++ {
				checkSplit(c, msg[:n])
			}
		})
	}
	// every short sequence of syntax characters
	alphabet := "+:'?@10,A"
	max := r.N(5, 7)
	var walk func(c *vt.C, b []byte)
	walk = func(c *vt.C, b []byte) {
		checkSplit(c, b)
		if len(b) < max {
			for i := range alphabet {
				walk(c, append(b[:len(b):len(b)], alphabet[i]))
			}
		}
	}
	for i := range alphabet {
		for j := range alphabet {
			r.Case(fmt.Sprintf("short/%d/%d", i, j), func(c *vt.C) {
				walk(c, []byte{alphabet[i], alphabet[j]})
			})
		}
	}
	// large messages: one large element, or many segments, data elements or
	// group elements
	for i := 0; i < r.N(40, 400); i++ {
		r.Case(fmt.Sprintf("large/%d", i), func(c *vt.C) {
			size := 1 << (12 + c.Rng.Intn(10))
			size += c.Rng.Intn(size)
			var msg bytes.Buffer
			msg.WriteString("HNVSD:999:1+")
			switch kind := i % 5; kind {
			case 0:
				msg.Write(wire.Bin(genBytes(c.Rng, size)))
			case 1:
				msg.WriteString("x")
				for msg.Len() < size/8 {
					msg.Write(wire.T(genAnyTextNLZ(c.Rng)))
				}
			case 2:
				for msg.Len() < size/8 {
					msg.Write(genRawMessage(c.Rng, 1+c.Rng.Intn(6), 8))
					msg.WriteString("HNVSD:999:1+")
				}
			default:
				for msg.Len() < size/8 {
					msg.Write(genElem(c.Rng))
					msg.WriteString("+:"[kind-3 : kind-2])
				}
			}
			msg.WriteString("'HNHBS:2:1+1'")
			c.Count("large bytes", msg.Len())
			checkSplit(c, msg.Bytes())
		})
	}
	r.Require("messages strict", 60000)
	r.Require("messages refused", 50000)
	r.Require("elements", 50000)
	r.Require("tokens", 200000)
	r.Require("responses", 60000)
	r.Require("large bytes", 1000000)
}
