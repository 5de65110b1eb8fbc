//go:build p22 || all

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P22",
		rule: "Evaluated per message: the reported acknowledgements equal, as a list and field by field, those a reference writer put into it; the same for every status entry and for what the dialog and the client hand on. Distinct states are the mixes of messages and of entries.",
		fn:   runP22,
		assumptions: []string{
			"a message has at most one HIRMG, in front of the HIRMS, as the protocol demands",
			"the last parameter of an acknowledgement is not empty: whether a bank's trailing separator is one more parameter is left open",
		},
	})
}

// ack22 draws an acknowledgement with a code of the class (-1: any).
func ack22(rng *rand.Rand, class int) simbank.Ack {
	a := simbank.Ack{Code: 1 + rng.Intn(9999)}
	switch rng.Intn(8) {
	case 0:
		a.Code = []int{10, 20, 100, 999, 1000, 2999, 3000, 3040, 3060, 3920, 3999, 4000, 8999, 9000, 9010, 9999, 1}[rng.Intn(17)]
	case 1:
		a.Code = 1 + rng.Intn(999)
	}
	if class >= 0 {
		a.Code = class*1000 + 1 + rng.Intn(999)
	}
	switch rng.Intn(4) {
	case 0:
		a.RefDE = fmt.Sprint(1 + rng.Intn(20))
	case 1:
		a.RefDE = fmt.Sprintf("%d,%d", 1+rng.Intn(20), 1+rng.Intn(20))
	case 2:
		a.RefDE = genText(rng, 7)
	}
	a.Text = genText1(rng, 80)
	if rng.Intn(8) == 0 {
		a.Text = strings.Repeat(genText1(rng, 8), 10)
	}
	n := 0
	if rng.Intn(2) == 0 {
		n = 1 + rng.Intn(10)
	}
	for i := 0; i < n; i++ {
		p := genText(rng, 35)
		if i == n-1 {
			p = genText1(rng, 35)
		}
		a.Params = append(a.Params, p)
	}
	return a
}

func acks22(rng *rand.Rand, max, class int) []simbank.Ack {
	var out []simbank.Ack
	for n := 1 + rng.Intn(max); n > 0; n-- {
		out = append(out, ack22(rng, class))
	}
	// Repetitions are to be kept.
	if rng.Intn(4) == 0 {
		out = append(out, out[rng.Intn(len(out))])
	}
	return out
}

// want22 is an acknowledgement as it must be reported.
type want22 struct {
	ack    simbank.Ack
	typ    string
	dialog string
	number int
	seg    int
}

func (w want22) diff(got domain.Acknowledgement) string {
	a := w.ack
	switch {
	case got.Code != a.Code:
		return "code"
	case got.ReferenceDataElement != a.RefDE:
		return "referenced element"
	case got.Text != a.Text:
		return "text"
	case len(got.Params) != len(a.Params) || len(a.Params) > 0 && !reflect.DeepEqual(got.Params, a.Params):
		return "parameters"
	case got.Type != w.typ:
		return "type"
	case got.IsMessageAcknowledgement() != (w.typ == domain.MessageAcknowledgement) || got.IsSegmentAcknowledgement() == got.IsMessageAcknowledgement():
		return "kind"
	case got.ReferencingMessage.DialogID != w.dialog || got.ReferencingMessage.MessageNumber != w.number:
		return "referenced message"
	case w.seg > 0 && got.ReferencingSegmentNumber != w.seg, w.seg <= 0 && got.ReferencingSegmentNumber > 0:
		return "referenced segment"
	}
	class22 := a.Code / 1000
	if got.IsSuccess() != (class22 == 0) || got.IsWarning() != (class22 == 3) || got.IsError() != (class22 == 9) {
		return "classification"
	}
	return ""
}

// checkAcks22 compares the lists.
func checkAcks22(c *vt.C, what string, got []domain.Acknowledgement, want []want22) {
	if len(got) != len(want) {
		c.Fail(what+":number", "%d acknowledgements reported, the bank sent %d: %+v, want %+v", len(got), len(want), got, want)
		return
	}
	for i, g := range got {
		if d := want[i].diff(g); d != "" {
			c.Fail(what+":"+d, "acknowledgement %d of %d: %s of %+v differs from %+v", i+1, len(got), d, g, want[i])
			return
		}
		checkPrinted22(c, what, g.String(), want[i])
		c.Count(what+" acknowledgements", 1)
	}
}

// checkPrinted22: the printed form tells what the message says.
func checkPrinted22(c *vt.C, what, s string, w want22) {
	parts := []string{w.ack.Text, fmt.Sprint(w.ack.Code), w.ack.RefDE, w.dialog, fmt.Sprint(w.number), w.typ}
	if w.seg > 0 {
		parts = append(parts, fmt.Sprint(w.seg))
	}
	for _, p := range parts {
		if !strings.Contains(s, p) {
			c.Fail(what+":printed", "%q lacks %q of %+v", s, p, w)
			return
		}
	}
}

// status22 draws a status entry.
type status22 struct {
	want22
	ver  int
	at   time.Time
	wire simbank.Seg
}

func genStatus22(rng *rand.Rand, ver, ref int) status22 {
	s := status22{ver: ver}
	s.ack = ack22(rng, -1)
	s.dialog, s.number = genText1(rng, 30), 1+rng.Intn(9999)
	s.typ = domain.MessageAcknowledgement
	var seg []byte
	if rng.Intn(3) > 0 {
		s.typ, s.seg = domain.SegmentAcknowledgement, 1+rng.Intn(999)
		seg = wire.I(s.seg)
	}
	d := genDate(rng)
	h, m, se := genClock(rng)
	s.at = time.Date(d.Year(), d.Month(), d.Day(), h, m, se, 0, time.UTC)
	s.wire = simbank.S("HIPRO", ver, ref, wire.G(wire.T(s.dialog), wire.I(s.number)), seg, wire.Raw(s.at.Format("20060102")), wire.Raw(s.at.Format("150405")), s.ack.Wire())
	return s
}

func checkStatus22(c *vt.C, what string, got []domain.StatusAcknowledgement, want []status22) {
	if len(got) != len(want) {
		c.Fail(what+":number", "%d entries reported, the bank sent %d: %+v", len(got), len(want), got)
		return
	}
	for i, g := range got {
		w := want[i]
		if d := w.diff(g.Acknowledgement); d != "" {
			c.Fail(what+":"+d, "entry %d of %d: %s of %+v differs from %+v", i+1, len(got), d, g, w.want22)
			return
		}
		// The clock of the bank, whatever the place it is attributed to; a
		// clock that does not exist there can not be told.
		at := g.TransmittedAt
		same := time.Date(w.at.Year(), w.at.Month(), w.at.Day(), w.at.Hour(), w.at.Minute(), w.at.Second(), 0, at.Location())
		if !at.Equal(same) {
			c.Fail(what+":time", "entry transmitted at %v, the bank said %v", at, w.at)
			return
		}
		checkPrinted22(c, what, g.String(), w.want22)
		c.Count(what+" entries", 1)
	}
}

func statuses22(m message.BankMessage) []domain.StatusAcknowledgement {
	var out []domain.StatusAcknowledgement
	for _, s := range m.FindSegments("HIPRO") {
		out = append(out, s.(segment.StatusProtocolResponse).Status())
	}
	return out
}

// filler22 is a segment that is no acknowledgement but looks like one.
func filler22(rng *rand.Rand) simbank.Seg {
	looks := "HIRMS:9:2:3+9010::falsch'HIRMG:2:2+9050::falsch'"
	switch rng.Intn(6) {
	case 0:
		return simbank.S("HIKIM", 2, 0, wire.T("Betreff"), wire.T(looks))
	case 1:
		return simbank.S("HIXYZ", 1, 2, wire.Bin([]byte(looks)))
	case 2:
		return simbank.S("HIRMX", 2, 2, ack22(rng, 9).Wire())
	case 3:
		return simbank.S("HISYN", 3, 4, wire.T("sys1"))
	case 4:
		return simbank.S("HISAL", 5, 3, wire.G(wire.T("1"), nil, wire.I(280), wire.T("10020030")), wire.T("Giro"), wire.Raw("EUR"), wire.Raw("C:1,:EUR:20261002"))
	}
	return simbank.S("HIRMGS", 1, 0, wire.I(1), wire.I(1), ack22(rng, 9).Wire())
}

// messageCase22: acknowledgements and status entries of a decoded message.
func messageCase22(c *vt.C) {
	rng := c.Rng
	version := []int{220, 300}[rng.Intn(2)]
	dialogID, number := genText1(rng, 30), 1+rng.Intn(9999)
	var segs []simbank.Seg
	var want []want22
	nMsg, nSeg := 0, 0
	if rng.Intn(8) > 0 {
		var des [][]byte
		for _, a := range acks22(rng, 4, -1) {
			want = append(want, want22{a, domain.MessageAcknowledgement, dialogID, number, 0})
			des = append(des, a.Wire())
			nMsg++
		}
		segs = append(segs, simbank.S("HIRMG", 2, 0, des...))
	}
	var status []status22
	for n := rng.Intn(8); n > 0; n-- {
		switch rng.Intn(3) {
		case 0:
			segs = append(segs, filler22(rng))
		case 1:
			s := genStatus22(rng, 3+rng.Intn(2), 3)
			status = append(status, s)
			segs = append(segs, s.wire)
		default:
			ref := 1 + rng.Intn(999)
			if rng.Intn(12) == 0 {
				ref = 0
			}
			var des [][]byte
			for _, a := range acks22(rng, 4, -1) {
				want = append(want, want22{a, domain.SegmentAcknowledgement, dialogID, number, ref})
				des = append(des, a.Wire())
				nSeg++
			}
			segs = append(segs, simbank.S("HIRMS", 2, ref, des...))
		}
	}
	var raw []byte
	for i, s := range segs {
		raw = append(raw, wire.Seg(s.ID, i+2, s.Ver, s.Ref, s.DEs...)...)
	}
	head := wire.Seg("HNHBK", 1, 3, 0, wire.Raw("000000000300"), wire.I(version), wire.T("d1"), wire.I(number), wire.G(wire.T(dialogID), wire.I(number)))
	header := &segment.MessageHeaderSegment{}
	if err := header.UnmarshalHBCI(head); err != nil {
		c.Fail("header", "%q: %v", head, err)
		return
	}
	m, err := message.NewDecryptedMessage(header, segment.NewMessageEndSegment(len(segs)+2, number), raw)
	if err != nil {
		c.Fail("refused", "%s: %v", b2s(raw), err)
		return
	}
	checkAcks22(c, "message", m.Acknowledgements(), want)
	if rng.Intn(3) == 0 {
		// Looking other segments up changes nothing.
		m.FindSegments("HIRMS")
		m.FindSegment("HIRMG")
		m.SupportedSegments()
		checkAcks22(c, "message", m.Acknowledgements(), want)
	}
	checkStatus22(c, "status", statuses22(m), status)
	c.Count("messages", 1)
	c.State("%d/%d/%d/%d/%d", version, nMsg, nSeg, len(status), len(segs))
	if rng.Intn(500) == 0 {
		c.Sample("%s -> %v", b2s(raw), m.Acknowledgements())
	}
}

// malformedCase22: an acknowledgement that can not be read is an error, and
// none is made up from it.
func malformedCase22(c *vt.C) {
	rng := c.Rng
	bad := [][]byte{wire.Raw("ABCD::Text"), wire.Raw("0010"), wire.Raw("0010:1"), wire.Raw(":1:Text"), wire.Raw("00x0:1:Text"), wire.Raw("Text:0010:1"), wire.Raw("1,5:1:Text")}[rng.Intn(7)]
	n := rng.Intn(4)
	des := [][]byte{}
	for i := 0; i < 4; i++ {
		if i == n {
			des = append(des, bad)
		} else {
			des = append(des, ack22(rng, -1).Wire())
		}
	}
	id := []string{"HIRMG", "HIRMS"}[rng.Intn(2)]
	raw := wire.Seg(id, 2, 2, 3, des...)
	m, err := message.NewDecryptedMessage(segment.NewReferencingMessageHeaderSegment(300, 300, "d", 1, domain.MessageReference{DialogID: "d", MessageNumber: 1}), segment.NewMessageEndSegment(9, 1), raw)
	if err == nil {
		c.Fail("malformed", "%q is accepted as %+v", raw, m.Acknowledgements())
	}
	c.Count("malformed refused", 1)
	c.State("malformed/%s/%s", id, bad)
}

// dialogCase22: what the dialog and the client hand on.
func dialogCase22(c *vt.C) {
	rng := c.Rng
	e := newEnv(rng, envOpts{version: []int{220, 300}[rng.Intn(2)], hostile: rng.Intn(3) == 0})
	e.proVers = [][]int{{3}, {4}, {3, 4}}[rng.Intn(3)]
	var want []want22
	var status []status22
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if req.Kind != simbank.Job {
			return
		}
		want = nil
		add := func(list []simbank.Ack, typ string, seg int) {
			for _, a := range list {
				want = append(want, want22{a, typ, req.DialogID, req.Number, seg})
			}
		}
		calm := func(max int) []simbank.Ack {
			list := acks22(rng, max, []int{0, 1, 3}[rng.Intn(3)])
			for i := range list {
				// 3040 asks for another request, 3920 is for initialisations.
				if list[i].Code == 3040 || list[i].Code == 3920 {
					list[i].Code = 3041
				}
			}
			return list
		}
		r.MsgAcks = calm(3)
		add(r.MsgAcks, domain.MessageAcknowledgement, 0)
		r.SegAcks = nil
		for n := rng.Intn(4); n > 0; n-- {
			sa := simbank.SegAck{Ref: 2 + rng.Intn(8), Acks: calm(3)}
			r.SegAcks = append(r.SegAcks, sa)
			add(sa.Acks, domain.SegmentAcknowledgement, sa.Ref)
		}
		r.Segs = nil
		for n := rng.Intn(5); n > 0; n-- {
			s := genStatus22(rng, req.JobSeg.Ver, req.JobSeg.Pos)
			status = append(status, s)
			r.Segs = append(r.Segs, s.wire)
		}
	}
	if rng.Intn(2) == 0 {
		e.connect()
		from := genDate(rng)
		got, err := e.cl.Status(from, from.AddDate(0, 0, 3), 0, "")
		if err != nil {
			c.Fail("client", "status: %v\n%s", err, e.bank.Trace())
			return
		}
		checkStatus22(c, "client status", got, status)
		c.State("client/%d/%d", e.version, len(status))
		return
	}
	d := e.newDialog()
	if _, err := d.SyncClientSystemID(); err != nil {
		c.Fail("dialog", "synchronisation: %v\n%s", err, e.bank.Trace())
		return
	}
	from := genDate(rng)
	job := segment.NewStatusProtocolRequestV3
	if e.proVers[len(e.proVers)-1] == 4 {
		job = segment.NewStatusProtocolRequestV4
	}
	hv := segment.SupportedHBCIVersions[e.version]
	m, err := d.SendMessage(message.NewHBCIMessage(hv, hv.TanProcess4Request(segment.IdentificationID), job(from, from, 0, "")))
	if err != nil {
		c.Fail("dialog", "message: %v\n%s", err, e.bank.Trace())
		return
	}
	checkAcks22(c, "dialog", m.Acknowledgements(), want)
	checkStatus22(c, "dialog status", statuses22(m), status)
	c.State("dialog/%d/%d/%d", e.version, len(want), len(status))
}

func runP22(r *vt.Run) {
	for i := 0; i < r.N(72000, 600000); i++ {
		r.Case(fmt.Sprintf("message/%d", i), messageCase22)
	}
	for i := 0; i < r.N(6000, 20000); i++ {
		r.Case(fmt.Sprintf("malformed/%d", i), malformedCase22)
	}
	for i := 0; i < r.N(7200, 40000); i++ {
		r.Case(fmt.Sprintf("dialog/%d", i), dialogCase22)
	}
	r.Case("codes", func(c *vt.C) {
		for code := 1; code <= 9999; code++ {
			for _, a := range []domain.Acknowledgement{domain.NewMessageAcknowledgement(code, "1,2", "t", []string{"p", "q"}), domain.NewSegmentAcknowledgement(code, "1,2", "t", []string{"p", "q"})} {
				if a.IsSuccess() != (code/1000 == 0) || a.IsWarning() != (code/1000 == 3) || a.IsError() != (code/1000 == 9) {
					c.Fail("class", "code %04d: success %v, warning %v, error %v", code, a.IsSuccess(), a.IsWarning(), a.IsError())
				}
				for _, wrapped := range []domain.StatusAcknowledgement{{Acknowledgement: a}} {
					if wrapped.IsError() != a.IsError() || wrapped.Code != code {
						c.Fail("class", "code %04d: status differs", code)
					}
				}
			}
			c.Count("codes", 1)
		}
		m := domain.NewMessageAcknowledgement(10, "1,2", "t", []string{"p", "q"})
		s := domain.NewSegmentAcknowledgement(10, "1,2", "t", []string{"p", "q"})
		if m.Type != domain.MessageAcknowledgement || s.Type != domain.SegmentAcknowledgement || m.Text != "t" || s.ReferenceDataElement != "1,2" || !reflect.DeepEqual(m.Params, []string{"p", "q"}) || !reflect.DeepEqual(s.Params, m.Params) {
			c.Fail("constructor", "%+v %+v", m, s)
		}
	})
	r.Require("messages", r.N(60000, 500000))
	r.Require("message acknowledgements", 20000)
	r.Require("status entries", 5000)
	r.Require("client status entries", 300)
	r.Require("dialog acknowledgements", 1000)
	r.Require("malformed refused", 900)
	r.Require("codes", 9999)
}
