//go:build p02 || all

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P02",
		rule: "a case is a client or dialog with generated credentials, accounts, texts and dates running its operations against the simulated bank (or a client segment or message marshaled on its own); distinct states are the shapes of the messages judged: kind, version, segment list and length",
		fn:   runP02,
		assumptions: []string{
			"texts are ISO 8859-1 without NUL; numbers are not negative",
		},
	})
}

func runP02(r *vt.Run) {
	for i := 0; i < r.N(300, 20000); i++ {
		r.Case(fmt.Sprintf("client/%d", i), func(c *vt.C) {
			e := newEnv(c.Rng, envOpts{hostile: c.Rng.Intn(8) != 0})
			for round := 0; round < 2; round++ {
				ops := genOps(e)
				c.Rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
				for _, o := range ops {
					_, err, reqs := e.runOp(o)
					if err != nil {
						c.Fail("op:"+o.name, "%s failed against a healthy bank: %v\n%s", o.name, err, e.bank.Trace())
						return
					}
					countRequests(c, e, reqs)
					for _, q := range reqs {
						checkJob(c, e, o, q, "")
					}
				}
			}
			report(c, e, "form")
			if i < 3 {
				c.Sample("%s", b2s(e.bank.Requests[0].Plain))
			}
		})
	}
	for i := 0; i < r.N(800, 20000); i++ {
		r.Case(fmt.Sprintf("dialog/%d", i), func(c *vt.C) { dialogCase(c) })
	}
	for i := 0; i < r.N(3000, 150000); i++ {
		r.Case(fmt.Sprintf("segment/%d", i), func(c *vt.C) { segmentCase(c) })
	}
	for i := 0; i < r.N(1500, 60000); i++ {
		r.Case(fmt.Sprintf("message/%d", i), func(c *vt.C) { messageCase(c) })
	}
	r.Require("request:job", 2000)
	r.Require("request:sync", 100)
	r.Require("request:anon-job", 300)
	r.Require("jobs checked", 2000)
	r.Require("jobs sent again", 150)
	r.Require("segments checked", 2000)
	r.Require("messages checked", 1000)
}

// dialogCase drives the dialog directly, with several jobs in one message and
// histories of setters.
func dialogCase(c *vt.C) {
	e := newBank(c.Rng, envOpts{hostile: true})
	e.bank.AnyJobs = true
	d := e.newDialog()
	hv := segment.SupportedHBCIVersions[e.version]
	var lastMsg message.HBCIMessage
	var lastWant []string
	for k := 0; k < 6; k++ {
		e.bank.BeginOp()
		switch c.Rng.Intn(6) {
		case 0:
			lang := []domain.Language{domain.German, domain.English, domain.French}[c.Rng.Intn(3)]
			d.Language = lang
			e.bank.Language = fmt.Sprint(int(lang))
			if d.ClientSystemID == "0" {
				// The synchronisation always states the standard language.
				e.bank.Language = "1"
				if _, err := d.SyncClientSystemID(); err != nil {
					c.Fail("op", "sync: %v", err)
				}
				e.bank.Language = fmt.Sprint(int(lang))
			}
		case 1:
			saved := e.bank.Language
			e.bank.Language = "1"
			if _, err := d.SyncClientSystemID(); err != nil {
				c.Fail("op", "sync: %v", err)
			}
			e.bank.Language = saved
		case 2:
			if d.ClientSystemID == "0" {
				continue
			}
			if err := d.SyncUserParameterData(); err != nil {
				c.Fail("op", "sync upd: %v", err)
			}
		case 3:
			fn := []string{"999", "1", "900", "a?'"}[c.Rng.Intn(4)]
			d.SetSecurityFunction(fn)
		default:
			if d.ClientSystemID == "0" && e.bank.Language != "1" {
				continue
			}
			segs, want := genJobs(c.Rng, 1+c.Rng.Intn(4))
			msg := message.NewHBCIMessage(hv, segs...)
			if lastMsg != nil && c.Rng.Intn(3) == 0 {
				// The caller sends the same jobs again.
				msg, want = lastMsg, lastWant
				c.Count("jobs sent again", 1)
			}
			lastMsg, lastWant = msg, want
			var err error
			anon := c.Rng.Intn(3) == 0
			if anon {
				_, err = d.SendAnonymousMessage(msg)
			} else {
				_, err = d.SendMessage(msg)
			}
			if err != nil && !strings.Contains(err.Error(), "9160") {
				c.Fail("op", "send: %v\n%s", err, e.bank.Trace())
			}
			for _, q := range e.bank.EndOp() {
				if q.Kind != simbank.Job && q.Kind != simbank.AnonJob {
					continue
				}
				inner := q.Inner
				if q.Kind == simbank.Job {
					inner = inner[1 : len(inner)-1]
				}
				if len(inner) != len(want) {
					c.Fail("jobs", "message carries %d jobs, want %d: %q", len(inner), len(want), q.Plain)
					continue
				}
				for j := range want {
					if got := body(inner[j].Raw); got != want[j] {
						c.Fail("jobs", "job %d is %q, want %q", j, got, want[j])
					}
				}
				c.Count("jobs checked", len(want))
			}
		}
		countRequests(c, e, e.bank.EndOp())
	}
	report(c, e, "form")
	_ = dialog.Config{}
}

func segmentCase(c *vt.C) {
	kind := c.Rng.Intn(jobKinds)
	s, want := genJob(c.Rng, kind)
	n := 1 + c.Rng.Intn(999)
	s.SetPosition(func() int { return n })
	got, err := s.MarshalHBCI()
	if err != nil {
		c.Fail(fmt.Sprintf("marshal:%d", kind), "%v", err)
		return
	}
	segs, err := wire.Parse(got)
	if err != nil || len(segs) != 1 {
		c.Fail(fmt.Sprintf("syntax:%d", kind), "%q parses as %d segments: %v", got, len(segs), err)
		return
	}
	if segs[0].Pos != n {
		c.Fail(fmt.Sprintf("position:%d", kind), "%q: number %d, want %d", got, segs[0].Pos, n)
	}
	if g := body(got); g != want {
		c.Fail(fmt.Sprintf("elements:%d", kind), "marshaled as %q, want %q", g, want)
	}
	again, err := s.MarshalHBCI()
	if err != nil || string(again) != string(got) {
		c.Fail(fmt.Sprintf("repeat:%d", kind), "second time %q, %v, first %q", again, err, got)
	}
	c.Count("segments checked", 1)
	c.State("segment %d %d", kind, len(got))
}

// messageCase marshals messages made with the message package: the size and
// numbers must stay right when header fields change between marshalings.
func messageCase(c *vt.C) {
	version := []int{220, 300}[c.Rng.Intn(2)]
	hv := segment.SupportedHBCIVersions[version]
	segs, want := genJobs(c.Rng, c.Rng.Intn(4))
	msg := message.NewBasicMessage(message.NewHBCIMessage(hv, segs...))
	dlg := genText1(c.Rng, 10)
	num := 1 + c.Rng.Intn(2000)
	msg.Header = segment.NewMessageHeaderSegment(-1, version, dlg, num)
	msg.End = segment.NewMessageEndSegment(-1, num)
	var clientMsg message.ClientMessage = msg
	mode := c.Rng.Intn(3)
	user, bank, sys := genText1(c.Rng, 10), genDigits(c.Rng, 8), genText1(c.Rng, 10)
	pin := genText1(c.Rng, 10)
	key := func(t domain.KeyType) *domain.PinKey {
		return domain.NewPinKey(pin, domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: bank}, user, t))
	}
	switch mode {
	case 0:
		msg.SetSegmentPositions()
	case 1, 2:
		signed, err := msg.Sign(message.NewPinTanSignatureProvider(key(domain.KeyTypeSigning), sys))
		if err != nil {
			c.Fail("sign", "%v", err)
			return
		}
		if mode == 2 {
			enc, err := signed.Encrypt(message.NewPinTanCryptoProvider(key(domain.KeyTypeEncryption), sys))
			if err != nil {
				c.Fail("encrypt", "%v", err)
				return
			}
			clientMsg = enc
		}
	}
	for k := 0; k < 3; k++ {
		got, err := clientMsg.MarshalHBCI()
		if err != nil {
			c.Fail("marshal", "%v", err)
			return
		}
		parsed, err := wire.Parse(got)
		if err != nil || len(parsed) < 2 {
			c.Fail("syntax", "%q: %v", got, err)
			return
		}
		h := parsed[0]
		if h.ID != "HNHBK" || !numeric12(h.Str(0, 0)) || h.Int(0, 0) != len(got) {
			c.Fail("size", "the header states %q, the message has %d bytes: %q", h.Str(0, 0), len(got), got)
		}
		if h.Int(1, 0) != version || h.Str(2, 0) != dlg || h.Int(3, 0) != num {
			c.Fail("header", "header %q, want version %d dialog %q number %d", h.Raw, version, dlg, num)
		}
		inner := parsed[1 : len(parsed)-1]
		if mode == 2 {
			if len(inner) != 2 || inner[0].ID != "HNVSK" || inner[1].ID != "HNVSD" || inner[0].Pos != 998 || inner[1].Pos != 999 {
				c.Fail("envelope", "%q", got)
				return
			}
			inner, err = wire.Parse(inner[1].DEs[0][0].Val)
			if err != nil {
				c.Fail("syntax", "encrypted data of %q: %v", got, err)
				return
			}
		}
		if mode > 0 {
			if len(inner) < 2 || inner[0].ID != "HNSHK" || inner[len(inner)-1].ID != "HNSHA" {
				c.Fail("signature", "%q", got)
				return
			}
		}
		for i, s := range inner {
			if s.Pos != i+2 {
				c.Fail("positions", "segment %d of %q is numbered %d", i+2, got, s.Pos)
			}
		}
		if mode > 0 {
			inner = inner[1 : len(inner)-1]
		}
		for i, s := range inner {
			if i >= len(want) || body(s.Raw) != want[i] {
				c.Fail("jobs", "job %d of %q", i, got)
			}
		}
		if len(inner) != len(want) {
			c.Fail("jobs", "%d jobs in %q, want %d", len(inner), got, len(want))
		}
		c.Count("messages checked", 1)
		c.State("message %d %d %d", mode, version, len(got))
		num = 1 + c.Rng.Intn(100000)
		clientMsg.SetMessageNumber(num)
	}
}

func numeric12(s string) bool {
	if len(s) != 12 {
		return false
	}
	return strings.Trim(s, "0123456789") == ""
}

var _ = time.Now
