//go:build p04 || all

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P04",
		rule: "Every lookup by ID equals the selection an independent reader makes, in order, as bytes and decoded. Evaluated per message: every ID in it and IDs near to them, over generated messages of known, unknown, repeated and look-alike segments.",
		fn:   runP04,
		assumptions: []string{
			"harness/wire is the reference for the segments of a message",
			"segments of known kind and version are generated with valid content",
		},
	})
}

// marked is a segment of a generated message.
type marked struct {
	id       string
	ver, pos int
	raw      []byte
	known    bool
	mark     string // content that must be found in the decoded segment
}

func (e *marked) build(ref int, des ...[]byte) { e.raw = wire.Seg(e.id, e.pos, e.ver, ref, des...) }

// genMarked draws a segment at the position.
func genMarked(rng *rand.Rand, pos int) *marked {
	m := &marked{pos: pos, known: true}
	text := func(n int) string {
		for {
			if s := genText1(rng, n); !leadingZeroDecimal(s) {
				return s
			}
		}
	}
	conn := wire.G(wire.T("123"), nil, wire.I(280), wire.T("10020030"))
	switch k := rng.Intn(18); k {
	case 0:
		m.id, m.ver, m.mark = "HIRMG", 2, text(40)
		m.build(0, wire.G(wire.Raw("0010"), nil, wire.T(m.mark)))
	case 1, 2:
		m.id, m.ver, m.mark = "HIRMS", 2, text(40)
		m.build(1+rng.Intn(9), wire.G(wire.Raw("0020"), nil, wire.T(m.mark)), wire.G(wire.Raw("3040"), wire.Raw("1,2"), wire.T("mehr"), wire.T(text(10))))
	case 3:
		m.id, m.ver, m.mark = "HISYN", 3+rng.Intn(2), text(20)
		m.build(4, wire.T(m.mark))
	case 4, 5:
		m.id, m.ver, m.mark = "HISAL", 5+rng.Intn(4), text(20)
		if m.ver > 6 {
			conn = wire.G(wire.T("DE123"), wire.T("BIC"))
		}
		m.build(3, conn, wire.T(m.mark), wire.Raw("EUR"), wire.G(wire.Raw("C"), wire.Raw("12,5"), wire.Raw("EUR"), wire.Raw("20261002")))
	case 6:
		m.id, m.ver, m.mark = "HIKIM", 2, text(20)
		m.build(0, wire.T(m.mark), wire.T("Bitte beachten: HIRMS:1:2 HISAL:5:5"))
	case 7:
		m.id, m.ver = "HIKAZ", 5+rng.Intn(3)
		m.build(3, wire.Bin([]byte(plainMT940("123456", int64(1+rng.Intn(100000)), "HISAL:3:5+x'HIRMS:4:2"))))
	case 8:
		m.id, m.ver, m.mark = "HIPRO", 3+rng.Intn(2), text(20)
		m.build(3, wire.G(wire.T(text(8)), wire.I(2)), wire.I(3), wire.Raw("20261002"), wire.Raw("101112"), wire.G(wire.Raw("0020"), nil, wire.T(m.mark)))
	case 9:
		m.id, m.mark = "HIUPD", text(20)
		a := acctW{Ver: 4 + rng.Intn(4), ID: text(8), User: "u", Type: 1, Currency: "EUR", Name1: m.mark, Jobs: []jobW{{ID: "HKSAL", Sigs: 1}}}
		s := a.seg("10020030")
		m.ver = s.Ver
		m.build(4, s.DEs...)
	case 10, 11:
		// look-alikes of known segments
		m.known = false
		m.id = []string{"HIRM", "HIRMGX", "HIRMSS", "HISA", "HISALS", "HIKAZS", "hirmg", "Hisal", "HIKIMS", "HISYNS", "HI", "H", "IRMS", "HIRMS2", "HISAL7"}[rng.Intn(15)]
		m.ver = 1 + rng.Intn(8)
		m.build(0, wire.T(text(12)), wire.G(wire.T("HISAL"), wire.I(1), wire.I(5)))
	case 12, 13:
		// known kind, unknown version, content the known versions refuse
		m.known = false
		m.id = []string{"HIRMG", "HIRMS", "HISAL", "HIKAZ", "HISYN", "HIKIM", "HIUPD", "HIPRO"}[rng.Intn(8)]
		m.ver = 90 + rng.Intn(9)
		m.build(rng.Intn(5), wire.Bin([]byte("HIRMG:1:2+0010::x'")), wire.T(text(10)), wire.G(nil, wire.T("y"), wire.Bin(genBytes(rng, 9))))
	case 14:
		m.known = false
		m.id, m.ver = strings.ToUpper("HI"+genWord(rng, 3)), 1+rng.Intn(7)
		m.id = "HI" + string([]byte{byte('A' + rng.Intn(26)), 'Q', byte('0' + rng.Intn(10))})
		m.build(0, wire.Bin([]byte("'HIRMS:2:2:1+0020::b'HISAL:3:5'")))
	case 15:
		m.known = false
		m.id, m.ver = "DIXYZS", 1
		m.build(0)
	default:
		m.known = false
		m.id, m.ver = []string{"HIXYZ", "HIABCS", "DITRXS", "HIEKA"}[rng.Intn(4)], 1+rng.Intn(6)
		var des [][]byte
		for n := rng.Intn(5); n > 0; n-- {
			des = append(des, wire.G(wire.T(text(10)), wire.T(text(3))))
		}
		m.build(rng.Intn(3), des...)
	}
	return m
}

// markOf reads the marker back from a decoded segment.
func markOf(s segment.Segment) (string, bool) {
	switch t := s.(type) {
	case interface {
		Acknowledgements() []domain.Acknowledgement
	}:
		if a := t.Acknowledgements(); len(a) > 0 {
			return a[0].Text, true
		}
		return "", true
	case *segment.SynchronisationResponseSegment:
		return t.ClientSystemID(), true
	case *segment.AccountBalanceResponseSegment:
		return t.AccountBalance().ProductName, true
	case *segment.BankAnnouncementSegment:
		return t.Subject.Val(), true
	case *segment.StatusProtocolResponseSegment:
		return t.Status().Text, true
	case interface {
		AccountInformation() domain.AccountInformation
	}:
		return t.AccountInformation().Name1, true
	}
	return "", false
}

// finder is the lookup interface of every kind of decoded message.
type finder interface {
	FindMarshaledSegment(string) []byte
	FindMarshaledSegments(string) [][]byte
	FindSegment(string) segment.Segment
	FindSegments(string) []segment.Segment
}

func checkDecoded(c *vt.C, what, id string, got []segment.Segment, want []*marked) {
	if len(got) != len(want) {
		c.Fail("decoded:"+what, "%d segments %s decoded, want %d", len(got), id, len(want))
		return
	}
	for i, s := range got {
		w := want[i]
		h := s.Header()
		if h == nil || h.ID.Val() != w.id || h.Version.Val() != w.ver || h.Position.Val() != w.pos {
			c.Fail("decoded:"+what, "segment %d of kind %s decoded as %v, want %q", i, id, h, w.raw)
			return
		}
		if b, ok := s.(interface{ Version() int }); ok && b.Version() != w.ver {
			c.Fail("decoded:"+what, "segment %q decoded as version %d", w.raw, b.Version())
		}
		if mark, ok := markOf(s); ok && w.mark != "" {
			c.Count("marks", 1)
			if mark != w.mark {
				c.Fail("decoded:"+what, "segment %q holds %q, want %q", w.raw, mark, w.mark)
			}
		}
		c.Count("decoded", 1)
	}
}

func lookupCase(c *vt.C) {
	n := c.Rng.Intn(20)
	if c.Rng.Intn(10) == 0 {
		n = 40
	}
	var all []*marked
	var msg []byte
	ids := map[string]bool{"HIRMG": true, "HIRMS": true, "HISAL": true, "HIRM": true, "HISALS": true, "HIKAZ": true, "HKXYZ": true, "": true, "hisal": true, "H": true}
	pos := 0
	for i := 0; i < n; i++ {
		pos += 1 + c.Rng.Intn(3)*c.Rng.Intn(3)
		m := genMarked(c.Rng, pos)
		all = append(all, m)
		msg = append(msg, m.raw...)
		ids[m.id] = true
		if len(m.id) > 1 {
			ids[m.id[:len(m.id)-1]] = true
		}
		ids[m.id+"S"] = true
		ids[m.id+fmt.Sprintf(":%d", m.pos)] = true
	}
	if _, err := wire.Parse(msg); err != nil {
		panic(err) // generator
	}
	if n > 0 {
		c.State("%d %s %d", n, all[0].id, all[n-1].ver)
	}
	ex := message.NewSegmentExtractor(msg)
	segs, err := ex.Extract()
	if err != nil || len(segs) != n {
		c.Fail("extract", "%s: %d segments, %v", b2s(msg), len(segs), err)
		return
	}
	resp, err := transport.ReadResponse(bufio.NewReader(bytes.NewReader(msg)), nil)
	if err != nil {
		c.Fail("response", "%s: %v", b2s(msg), err)
		return
	}
	un := message.NewUnmarshaler(msg)
	if err := un.Unmarshal(); err != nil {
		c.Fail("unmarshal", "%s: %v", b2s(msg), err)
		return
	}
	header := &segment.MessageHeaderSegment{}
	if err := header.UnmarshalHBCI(wire.Seg("HNHBK", 1, 3, 0, wire.Raw("000000000123"), wire.I(300), wire.T("dlg"), wire.I(2), wire.G(wire.T("dlg"), wire.I(2)))); err != nil {
		c.Fail("header", "%v", err)
		return
	}
	dec, err := message.NewDecryptedMessage(header, segment.NewMessageEndSegment(99, 2), msg)
	if err != nil {
		c.Fail("decrypted", "%s: %v", b2s(msg), err)
		return
	}
	if got := un.MarshaledSegments(); len(got) != n {
		c.Fail("marshaled", "%d segments, want %d", len(got), n)
	}
	for id := range ids {
		var raws [][]byte
		var known, same []*marked
		for _, m := range all {
			if m.id == id {
				raws = append(raws, m.raw)
				same = append(same, m)
				if m.known {
					known = append(known, m)
				}
			}
		}
		c.State("%d/%d", len(raws), len(known))
		c.Count("lookups", 1)
		if len(raws) > 1 {
			c.Count("repeated", 1)
		}
		var first []byte
		if len(raws) > 0 {
			first = raws[0]
		}
		for what, got := range map[string][][]byte{"extractor": ex.FindSegments(id), "response": resp.FindSegments(id), "unmarshaler": un.MarshaledSegmentsByID(id), "decrypted": dec.FindMarshaledSegments(id)} {
			if !sameLists(got, raws) {
				c.Fail("bytes:"+what, "segments %q of %s: %q, want %q", id, b2s(msg), got, raws)
			}
		}
		for what, got := range map[string][]byte{"extractor": ex.FindSegment(id), "response": resp.FindSegment(id), "unmarshaler": un.MarshaledSegmentByID(id), "decrypted": dec.FindMarshaledSegment(id)} {
			if !bytes.Equal(got, first) || (got == nil) != (first == nil) {
				c.Fail("bytes:"+what, "first segment %q of %s: %q, want %q", id, b2s(msg), got, first)
			}
		}
		checkDecoded(c, "unmarshaler", id, un.SegmentsByID(id), known)
		checkDecoded(c, "decrypted", id, dec.FindSegments(id), known)
		for what, got := range map[string]segment.Segment{"unmarshaler": un.SegmentByID(id), "decrypted": dec.FindSegment(id)} {
			if got == nil {
				if len(known) > 0 {
					c.Fail("decoded:"+what, "no segment %s decoded of %s", id, b2s(msg))
				}
			} else if len(known) == 0 {
				c.Fail("decoded:"+what, "segment %v decoded as %s of %s", got.Header(), id, b2s(msg))
			} else {
				checkDecoded(c, what, id, []segment.Segment{got}, known[:1])
			}
		}
		if p := dec.SegmentPosition(id); len(same) > 0 && p != same[0].pos || len(same) == 0 && p != -1 {
			c.Fail("position", "position of %q in %s: %d", id, b2s(msg), p)
		}
		// A version without a decoder is not read by the one of another version.
		for _, ver := range append([]int{0, 10 + c.Rng.Intn(90)}, versionsOf(same)...) {
			if segment.KnownSegments.IsUnmarshaler(segment.VersionedSegment{ID: id, Version: ver}) {
				continue
			}
			if s, err := un.UnmarshalSegment(id, ver); err == nil {
				c.Fail("unknown-version", "%s in version %d of %s: decoded %v, the library knows no such segment", id, ver, b2s(msg), s.Header())
			}
			c.Count("unknown versions", 1)
		}
		// One segment by ID and version: the first that has both, or an error.
		for ver := 1; ver <= 9; ver++ {
			if !segment.KnownSegments.IsUnmarshaler(segment.VersionedSegment{ID: id, Version: ver}) {
				continue
			}
			var match []*marked
			for _, m := range same {
				if m.ver == ver {
					match = append(match, m)
				}
			}
			by := un // one that has decoded everything already, or a new one
			if c.Rng.Intn(2) == 0 {
				by = message.NewUnmarshaler(msg)
			}
			switch s, err := by.UnmarshalSegment(id, ver); {
			case len(match) == 0:
				if err == nil {
					c.Fail("single", "%s in version %d of %s: decoded %v, there is none", id, ver, b2s(msg), s.Header())
				}
				c.Count("absent versions", 1)
			case err != nil:
				c.Fail("single", "decoding %s in version %d of %s: %v", id, ver, b2s(msg), err)
			default:
				checkDecoded(c, "single", id, []segment.Segment{s}, match[:1])
				c.Count("versions looked up", 1)
			}
		}
	}
	if r := dec.(interface {
		FindSegments(string) []segment.Segment
	}); r == nil {
		c.Fail("interface", "no lookup")
	}
	// being encrypted is decided by a segment of that kind, nothing else
	enc := false
	if c.Rng.Intn(2) == 0 {
		enc = true
		msg = append(wire.Seg("HNVSK", 998, 3, 0, wire.Raw("998")), msg...)
	} else {
		msg = append(wire.Seg("HNVSKS", 998, 3, 0, wire.T("HNVSK:998:3")), msg...)
	}
	if resp, err := transport.ReadResponse(bufio.NewReader(bytes.NewReader(msg)), nil); err != nil || resp.IsEncrypted() != enc {
		c.Fail("encrypted", "%s: encrypted %v, want %v (%v)", b2s(msg), err == nil && resp.IsEncrypted(), enc, err)
	}
}

func versionsOf(list []*marked) (vs []int) {
	for _, m := range list {
		vs = append(vs, m.ver)
	}
	return vs
}

func sameLists(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// clientCase looks up segments in messages built by the client.
func clientCase(c *vt.C) {
	var segs []segment.ClientSegment
	want := map[string][]segment.ClientSegment{"HKSAL": nil, "HKKA": nil, "HKXYZ": nil}
	add := func(id string, s segment.ClientSegment) {
		segs = append(segs, s)
		want[id] = append(want[id], s)
	}
	acct := domain.AccountConnection{AccountID: genAnyText(c.Rng, 10), CountryCode: 280, BankID: "10020030"}
	for n := c.Rng.Intn(8); n > 0; n-- {
		switch c.Rng.Intn(6) {
		case 0:
			add("HKSAL", segment.NewAccountBalanceRequestV5(acct, true))
		case 1:
			add("HKKAZ", segment.NewAccountTransactionRequestSegmentV5(acct, false))
		case 2:
			add("HKIDN", segment.NewIdentificationSegment(domain.BankID{CountryCode: 280, ID: "1"}, "a", "0", true))
		case 3:
			add("HKVVB", segment.NewProcessingPreparationSegmentV3(1, 2, domain.German, "p", "1"))
		case 4:
			var none *segment.IdentificationSegment
			segs = append(segs, none)
		case 5:
			add("HKPRO", segment.NewStatusProtocolRequestV4(time.Unix(0, 0), time.Unix(86400, 0), 3, "x"))
		}
	}
	msg := message.NewBasicMessage(message.NewHBCIMessage(segment.FINTS300, segs...))
	places := map[segment.ClientSegment]int{}
	n := 1 + c.Rng.Intn(20)
	for _, s := range segs {
		if !reflect.ValueOf(s).IsNil() {
			n += 1 + c.Rng.Intn(2)
			s.SetPosition(func() int { return n })
			places[s] = n
		}
	}
	for id, w := range want {
		got := msg.FindSegments(id)
		ok := len(got) == len(w)
		for i := 0; ok && i < len(w); i++ {
			ok = got[i] == segment.Segment(w[i])
		}
		if !ok {
			c.Fail("client:segments", "segments %s: %v, want %v", id, got, w)
		}
		one := msg.FindSegment(id)
		if len(w) == 0 {
			if one != nil || msg.FindMarshaledSegment(id) != nil || len(msg.FindMarshaledSegments(id)) != 0 || msg.SegmentPosition(id) != -1 {
				c.Fail("client:segment", "segment %s found in a message without", id)
			}
			continue
		}
		if one != segment.Segment(w[0]) {
			c.Fail("client:segment", "first segment %s: %v, want %v", id, one, w[0])
		}
		if p := msg.SegmentPosition(id); p != places[w[0]] {
			c.Fail("client:position", "position of %s: %d, want %d", id, p, places[w[0]])
		}
		all := msg.FindMarshaledSegments(id)
		if len(all) != len(w) {
			c.Fail("client:marshaled", "%d marshaled segments %s, want %d", len(all), id, len(w))
		}
		// the bytes are those the message is sent with
		for i, s := range w {
			sent, err := s.MarshalHBCI()
			if err != nil {
				c.Fail("client:marshal", "segment %s: %v", id, err)
				continue
			}
			if i < len(all) && !bytes.Equal(all[i], sent) {
				c.Fail("client:marshaled bytes", "segment %s %d: found %q, sent as %q", id, i, all[i], sent)
			}
			if i == 0 && !bytes.Equal(msg.FindMarshaledSegment(id), sent) {
				c.Fail("client:marshaled bytes", "first segment %s: found %q, sent as %q", id, msg.FindMarshaledSegment(id), sent)
			}
		}
		c.Count("client lookups", 1)
	}
}

func runP04(r *vt.Run) {
	for i := 0; i < r.N(8000, 150000); i++ {
		r.Case(fmt.Sprintf("lookup/%d", i), lookupCase)
	}
	for i := 0; i < r.N(2000, 20000); i++ {
		r.Case(fmt.Sprintf("client/%d", i), clientCase)
	}
	r.Require("lookups", 50000)
	r.Require("versions looked up", 1000)
	r.Require("absent versions", 1000)
	r.Require("repeated", 3000)
	r.Require("decoded", 20000)
	r.Require("marks", 10000)
	r.Require("client lookups", 1000)
}
