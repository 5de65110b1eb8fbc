//go:build p24 || all

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"syscall"

	hbci "github.com/mitch000001/go-hbci"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P24",
		rule: "a case is a sequence of operations of a client against a simulated bank, run once for every way of logging (off, info, debug, both into a full device) with the same bank and arguments, and the outputs, requests and results compared. Distinct states are the way of logging, the version and the history of requests with what the bank said.",
		fn:   runP24,
		assumptions: []string{
			"a synchronisation shows warnings, but not the messages (HIKIM) the bank sends along with it",
			"security headers and signatures differ from run to run (time and random numbers) and are not compared",
		},
	})
}

// modes24 are the ways of logging.
var modes24 = []string{"silent", "info", "debug", "debug only", "full"}

// said24 is something the bank said that must be told to the user.
type said24 struct {
	kind  string // warning, announcement, end
	op    int
	parts []string
}

// run24 is what one run of a case showed.
type run24 struct {
	reqs    []string
	results []string
	outs    []string
	ops     []string
	said    []said24
	seen    [][]*simbank.Request
	shape   string
}

// pageable24 are the jobs with answers in pages.
var pageable24 = map[string]bool{"HKKAZ": true, "HKSAL": true, "HKPRO": true}

var markIn24 = regexp.MustCompile(`Mk\d+zQ`)

// mark24 is a text that occurs nowhere else.
func mark24(n *int) string {
	*n++
	return fmt.Sprintf("Mk%dzQ", *n)
}

func run24once(r *vt.Run, c *vt.C, seed int64, mode string) *run24 {
	rng := rand.New(rand.NewSource(seed))
	e := newBank(rng, envOpts{hostile: rng.Intn(2) == 0, debug: mode != "silent" && mode != "info"})
	out := &run24{}
	arng := rand.New(rand.NewSource(seed + 1))
	marks, opNo, pages := 0, 0, 0
	quiet := arng.Intn(4) == 0
	text := func() string {
		m := mark24(&marks)
		if arng.Intn(2) == 0 {
			return genText1(arng, 8) + m + genText1(arng, 20)
		}
		return m
	}
	say := func(kind string, parts ...string) {
		out.said = append(out.said, said24{kind: kind, op: opNo, parts: parts})
	}
	e.bank.Alter = func(req *simbank.Request, resp *simbank.Resp) {
		end := isEnd(req.Kind)
		warn := func() simbank.Ack {
			a := simbank.Ack{Code: 3000 + arng.Intn(1000), Text: text()}
			for a.Code == 3040 || a.Code == 3920 {
				a.Code = 3000 + arng.Intn(1000)
			}
			if arng.Intn(3) == 0 {
				a.RefDE = "3,1"
			}
			for i := arng.Intn(3); i > 0; i-- {
				a.Params = append(a.Params, genText1(arng, 10))
			}
			return a
		}
		var said []simbank.Ack
		if !quiet {
			for i := arng.Intn(3); i > 0; i-- {
				a := warn()
				said = append(said, a)
				at := arng.Intn(len(resp.MsgAcks) + 1)
				resp.MsgAcks = append(resp.MsgAcks[:at:at], append([]simbank.Ack{a}, resp.MsgAcks[at:]...)...)
			}
			for i := arng.Intn(3); i > 0; i-- {
				sa := simbank.SegAck{Ref: 2 + arng.Intn(4)}
				for j := 1 + arng.Intn(2); j > 0; j-- {
					a := warn()
					said = append(said, a)
					sa.Acks = append(sa.Acks, a)
				}
				if arng.Intn(2) == 0 {
					sa.Acks = append(sa.Acks, simbank.Ack{Code: 20, Text: "ok"})
				}
				resp.SegAcks = append(resp.SegAcks, sa)
			}
		}
		if pages < 3 && pageable24[req.JobSeg.ID] && req.Kind == simbank.Job && arng.Intn(3) == 0 {
			pages++
			a := simbank.Ack{Code: 3040, Text: text(), Params: []string{mark24(&marks)}}
			said = append(said, a)
			resp.SegAcks = append(resp.SegAcks, simbank.SegAck{Ref: req.JobSeg.Pos, Acks: []simbank.Ack{a}})
			c.Count("page to follow", 1)
		}
		var news [][]string
		if (req.Kind == simbank.Init || req.Kind == simbank.AnonInit) && arng.Intn(3) > 0 {
			for i := arng.Intn(4); i > 0; i-- {
				subject, body := text(), text()
				parts := []string{subject, body}
				des := [][]byte{wire.T(subject), wire.T(body)}
				if arng.Intn(5) == 0 {
					parts, des = parts[:1], des[:1]
				}
				news = append(news, parts)
				at := arng.Intn(len(resp.Segs) + 1)
				resp.Segs = append(resp.Segs[:at:at], append([]simbank.Seg{simbank.S("HIKIM", 2, 0, des...)}, resp.Segs[at:]...)...)
			}
		}
		resp.AcksLast = arng.Intn(5) == 0
		understood := true
		if arng.Intn(6) == 0 || end && arng.Intn(3) == 0 {
			switch arng.Intn(6) {
			case 0, 1:
				m := text()
				resp.MsgAcks = append(resp.MsgAcks, simbank.Ack{Code: anyError(arng), Text: m})
				if end {
					say("end", m)
				}
			case 2:
				m := text()
				resp.SegAcks = append(resp.SegAcks, simbank.SegAck{Ref: 2, Acks: []simbank.Ack{{Code: anyError(arng), Text: m}}})
				if end {
					say("end", m)
				}
			case 3:
				m := mark24(&marks)
				resp.Err = errors.New(m)
				understood = false
				if end {
					say("end", m)
				}
			case 4:
				m := mark24(&marks)
				resp.ReadErr, resp.ReadN = errors.New(m), arng.Intn(100)
				understood = false
				if end {
					say("end", m)
				}
			default:
				resp.Body = []byte(mark24(&marks) + " wegen Wartung geschlossen")
				understood = false
				if end {
					say("end")
				}
			}
			if end {
				c.Count("end failed", 1)
			}
		}
		if understood && !end {
			for _, a := range said {
				say("warning", fmt.Sprint(a.Code), a.Text)
			}
			for _, n := range news {
				say("announcement", n...)
			}
		}
	}
	// The logs can be set in any order.
	info := mode != "silent" && mode != "debug only"
	if rng.Intn(2) == 0 {
		hbci.SetInfoLog(info)
		e.connect()
	} else {
		e.connect()
		hbci.SetInfoLog(info)
	}
	defer func() {
		hbci.SetInfoLog(true)
		hbci.SetDebugMode(false)
	}()
	ops := genOps(e)
	var d *dialog.PinTanDialog
	ops = append(ops, op{name: "sync", run: func(e *env) (interface{}, error) {
		if d == nil {
			d = e.newDialog()
		}
		return d.SyncClientSystemID()
	}}, op{name: "open", run: func(e *env) (interface{}, error) {
		if d == nil {
			d = e.newDialog()
		}
		return nil, d.SyncUserParameterData()
	}})
	for i := 1 + rng.Intn(4); i > 0; i-- {
		o := ops[rng.Intn(len(ops))]
		var res interface{}
		var err error
		var reqs []*simbank.Request
		f := func() { res, err, reqs = e.runOp(o) }
		var text, site, msg string
		ok := true
		g := func() { site, msg, ok = vt.Try(f) }
		if mode == "full" {
			withFullStderr(g)
		} else {
			text = captureStd(r, g)
		}
		if !ok {
			c.Fail("panic", "%s with logging %s panics at %s: %s", o.name, mode, site, msg)
			return nil
		}
		if o.name == "communication" {
			res = nil
		}
		js, jerr := json.Marshal(res)
		if jerr != nil {
			js = []byte(fmt.Sprintf("%+v", res))
		}
		if (mode == "silent" || mode == "info") && strings.Contains(text, e.bank.PINMark) {
			c.Fail("silent", "%s with logging %s writes the PIN:\n%s", o.name, mode, text)
		}
		out.results = append(out.results, fmt.Sprintf("%s: %s, error %v", o.name, js, err))
		out.outs = append(out.outs, text)
		out.ops = append(out.ops, o.name)
		out.seen = append(out.seen, reqs)
		for _, q := range reqs {
			s := fmt.Sprintf("op %d %s dialog %q number %d", opNo, q.Kind, q.DialogID, q.Number)
			for _, seg := range q.Inner {
				if seg.ID != "HNSHK" && seg.ID != "HNSHA" {
					s += "\n  " + string(seg.Raw)
				}
			}
			out.reqs = append(out.reqs, s)
		}
		opNo++
	}
	out.shape = e.bank.Shape()
	c.Count("operations with logging "+mode, opNo)
	return out
}

// withFullStderr runs f with all writing to standard error failing.
func withFullStderr(f func()) {
	file, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	saved, err := syscall.Dup(2)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup3(int(file.Fd()), 2, 0); err != nil {
		panic(err)
	}
	defer func() {
		syscall.Dup3(saved, 2, 0)
		syscall.Close(saved)
	}()
	f()
}

func p24exchange(r *vt.Run, c *vt.C, rng *rand.Rand) {
	seed := rng.Int63()
	var base *run24
	for _, mode := range modes24 {
		x := run24once(r, c, seed, mode)
		if x == nil {
			return
		}
		c.State("%s %s", mode, x.shape)
		c.Count("requests", len(x.reqs))
		if base == nil {
			base = x
		}
		p24same(c, mode, "requests", base.reqs, x.reqs)
		p24same(c, mode, "results", base.results, x.results)
		if c.Failed() {
			return
		}
		if mode == "full" {
			continue
		}
		p24said(c, mode, x)
		if mode == "debug" || mode == "debug only" {
			p24debug(c, x)
		}
		if c.Failed() {
			return
		}
	}
}

func p24same(c *vt.C, mode, what string, want, got []string) {
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "nothing", "nothing"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			c.Fail("changes", "the %s change with logging %s, silent:\n%s\nlogging:\n%s", what, mode, a, b)
			return
		}
	}
}

// entries24 are the entries of the log of the library.
func entries24(out string) []string { return strings.Split(out, "go-hbci: ") }

func p24said(c *vt.C, mode string, x *run24) {
	for _, s := range x.said {
		out := x.outs[s.op]
		switch s.kind {
		case "end":
			// reported in any case: in the log or as the error
			all := out + "\x00" + x.results[s.op]
			if len(s.parts) == 0 {
				if mode == "silent" && strings.TrimSpace(out) == "" && strings.HasSuffix(x.results[s.op], "error <nil>") {
					c.Fail("end", "%s with logging %s: that the dialog could not be ended is reported nowhere", x.ops[s.op], mode)
				}
			}
			for _, p := range s.parts {
				if !strings.Contains(all, p) {
					c.Fail("end", "%s with logging %s: that the dialog could not be ended (%q) is reported nowhere:\n%s\n%s", x.ops[s.op], mode, p, x.results[s.op], out)
				}
			}
			c.Count("failed end reported, logging "+mode, 1)
		default:
			found := 0
			for _, entry := range entries24(out) {
				all := true
				for _, p := range s.parts {
					all = all && strings.Contains(entry, p)
				}
				if all {
					found++
				}
			}
			mark := markIn24.FindString(s.parts[len(s.parts)-1])
			switch {
			case mode == "debug only" && strings.Count(out, mark) != 1:
				c.Fail("silent", "%s with the information log off: the %s %q is written %d times, once is the message itself:\n%s", x.ops[s.op], s.kind, s.parts, strings.Count(out, mark), out)
			case mode == "silent" && found > 0:
				c.Fail("silent", "%s: the %s %q is logged although the log is off:\n%s", x.ops[s.op], s.kind, s.parts, out)
			case mode == "info" && found != 1 || mode == "debug" && found == 0:
				c.Fail("told", "%s with logging %s: the %s %q of the bank is logged %d times:\n%s", x.ops[s.op], mode, s.kind, s.parts, found, out)
			}
			c.Count(s.kind+", logging "+mode, 1)
		}
	}
	if mode == "silent" {
		for i, out := range x.outs {
			if strings.Contains(out, "go-hbci: ") {
				c.Fail("silent", "%s writes to the log although it is off:\n%s", x.ops[i], out)
			}
		}
	}
}

// p24debug: every request and answer is in the log, decrypted, in order.
func p24debug(c *vt.C, x *run24) {
	for i, reqs := range x.seen {
		rest := x.outs[i]
		next := func(what string, q *simbank.Request, raw []byte) bool {
			raw = bytes.TrimSuffix(raw, []byte("'"))
			at := strings.Index(rest, string(raw))
			if at < 0 {
				c.Fail("debug", "%s: %s of the %s request is missing in the log, or not in order: %q\n%s", x.ops[i], what, q.Kind, raw, x.outs[i])
				return false
			}
			rest = rest[at+len(raw):]
			c.Count("logged segments", 1)
			return true
		}
		for _, q := range reqs {
			for _, s := range q.Inner {
				if !next("segment "+s.ID, q, s.Raw) {
					return
				}
			}
			r := q.Resp
			switch {
			case r == nil:
				continue
			case r.Err != nil:
				if !next("the failure", q, []byte(r.Err.Error())) {
					return
				}
			case r.ReadErr != nil:
				if !next("the failure", q, []byte(r.ReadErr.Error())) {
					return
				}
			case r.Body != nil:
				if !next("the answer", q, r.Body) {
					return
				}
			default:
				segs, err := wire.Parse(r.Sent)
				if err != nil {
					c.Fail("harness", "answer: %v", err)
					return
				}
				for _, s := range segs {
					inner := []wire.Segment{s}
					switch s.ID {
					case "HNHBK", "HNHBS", "HNVSK":
						continue
					case "HNVSD":
						if inner, err = wire.Parse(s.DEs[0][0].Val); err != nil {
							c.Fail("harness", "answer: %v", err)
							return
						}
					}
					for _, s := range inner {
						if !next("segment "+s.ID+" of the answer", q, s.Raw) {
							return
						}
					}
				}
			}
		}
	}
}

// failing24 is a writer that fails from a certain write on.
type failing24 struct {
	after int
	short bool
	n     int
}

func (f *failing24) Write(p []byte) (int, error) {
	f.n++
	if f.n > f.after {
		if f.short {
			return len(p) / 2, io.ErrShortWrite
		}
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

// p24middleware: the logging middleware with a logger of its own hands on
// what it got, also with a log that can not be written.
func p24middleware(c *vt.C, rng *rand.Rand) {
	crypto := message.NewPinTanCryptoProvider(domain.NewPinKey("12345", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "10000000"}, "user", "V")), "0")
	req, res := genBytes(rng, rng.Intn(200)), genBytes(rng, rng.Intn(200))
	var inReq, inRes []byte
	if rng.Intn(2) == 0 {
		inReq = wire.Seg("HKIDN", 2, 2, 0, wire.T(genText1(rng, 10)))
		req = wire.Seg("HNHBK", 1, 3, 0, wire.Raw("000000000123"), wire.I(300), wire.T("0"), wire.I(1))
		req = append(req, inReq...)
		req = append(req, wire.Seg("HNHBS", 3, 1, 0, wire.I(1))...)
	}
	if rng.Intn(2) == 0 {
		inRes = wire.Seg("HIRMG", 2, 2, 0, wire.G(wire.Raw("0010"), nil, wire.T(genText1(rng, 10))))
		res = wire.Seg("HNHBK", 1, 3, 0, wire.Raw("000000000123"), wire.I(300), wire.T("0"), wire.I(1))
		res = append(res, inRes...)
		res = append(res, wire.Seg("HNHBS", 3, 1, 0, wire.I(1))...)
	}
	fail := rng.Intn(4) == 0
	var seen []byte
	var url string
	inner := transport.Func(func(q *transport.Request) (*transport.Response, error) {
		seen, _ = io.ReadAll(q.Body)
		url = q.URL
		if fail {
			return nil, simbank.ErrTransport
		}
		return &transport.Response{Body: io.NopCloser(bytes.NewReader(res)), Request: q}, nil
	})
	var w io.Writer = &failing24{after: rng.Intn(8), short: rng.Intn(2) == 0}
	logged := &bytes.Buffer{}
	if rng.Intn(3) == 0 {
		w = logged
	}
	t := middleware.Logging(log.New(w, "x", 0), crypto)(inner)
	var got *transport.Response
	var err error
	if site, msg, ok := vt.Try(func() {
		got, err = t.Do(&transport.Request{URL: testURL, Body: io.NopCloser(bytes.NewReader(req))})
	}); !ok {
		c.Fail("panic", "the logging middleware panics at %s: %s (request %q, answer %q)", site, msg, req, res)
		return
	}
	c.Count("middleware", 1)
	c.State("middleware %v %v", fail, len(req))
	if !bytes.Equal(seen, req) || url != testURL {
		c.Fail("changes", "the logging middleware sends %q to %q instead of %q to %q", seen, url, req, testURL)
	}
	if w == io.Writer(logged) {
		for _, raw := range [][]byte{inReq, inRes} {
			if raw = bytes.TrimSuffix(raw, []byte("'")); !fail && !bytes.Contains(logged.Bytes(), raw) {
				c.Fail("debug", "the logger of the middleware got no %q:\n%s", raw, logged)
			}
		}
		c.Count("middleware with a log", 1)
	}
	if fail {
		if err == nil || !strings.Contains(err.Error(), simbank.ErrTransport.Error()) {
			c.Fail("changes", "the logging middleware turns the failure %v into %v", simbank.ErrTransport, err)
		}
		return
	}
	if err != nil || got == nil {
		c.Fail("changes", "the logging middleware fails: %v (request %q, answer %q)", err, req, res)
		return
	}
	if b, err := io.ReadAll(got.Body); err != nil || !bytes.Equal(b, res) {
		c.Fail("changes", "the logging middleware turns the answer %q into %q, %v", res, b, err)
	}
}

func runP24(r *vt.Run) {
	for _, e := range []string{"warning, logging info", "announcement, logging info", "failed end reported, logging silent", "logged segments", "end failed", "middleware"} {
		r.Require(e, 50)
	}
	for i, n := 0, r.N(800, 16000); i < n; i++ {
		r.Case(fmt.Sprintf("exchange/%d", i), func(c *vt.C) { p24exchange(r, c, c.Rng) })
	}
	for i, n := 0, r.N(2000, 100000); i < n; i++ {
		r.Case(fmt.Sprintf("middleware/%d", i), func(c *vt.C) { p24middleware(c, c.Rng) })
	}
}
