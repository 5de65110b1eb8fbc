//go:build p08 || all

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
)

func init() {
	register(&property{
		id:   "P08",
		rule: "a case is an operation whose answer to one request carries a generated mix of acknowledgements; distinct states are version, operation, kind of request, the classes of the acknowledgements per message and segment and the outcome",
		fn:   runP08,
		assumptions: []string{
			"codes 4000 to 8999, which HBCI does not define, are not used",
			"errors in the answer to the end of a dialog are left open",
		},
	})
}

// genAck draws an acknowledgement of the class.
func genAck(rng *rand.Rand, class int, hostile bool) simbank.Ack {
	text := func(n int) string {
		if hostile {
			return genText(rng, n)
		}
		return genWord(rng, n)
	}
	a := simbank.Ack{Text: text(20)}
	switch class {
	case 0: // success
		a.Code = anySuccess(rng)
	case 1: // information
		a.Code = 1000 + rng.Intn(2000)
	case 2: // warning
		for a.Code == 0 || a.Code == 3040 || a.Code == 3920 {
			a.Code = anyWarning(rng)
		}
	default:
		a.Code = anyError(rng)
	}
	if rng.Intn(3) == 0 {
		a.RefDE = fmt.Sprintf("%d,%d", 1+rng.Intn(9), 1+rng.Intn(9))
	}
	if rng.Intn(2) == 0 {
		for i := rng.Intn(10); i >= 0; i-- {
			a.Params = append(a.Params, text(8))
		}
		// An empty parameter at the very end is not sent.
		if n := len(a.Params); a.Params[n-1] == "" {
			a.Params[n-1] = "x"
		}
	}
	return a
}

// genAcks draws a mix; errors tells how many of them are errors.
func genAcks(rng *rand.Rand, r *simbank.Resp, errors int) (errs []simbank.Ack, shape string) {
	hostile := rng.Intn(2) == 0
	var sb strings.Builder
	type slot struct{ seg, n int }
	nmsg, nseg := rng.Intn(4), rng.Intn(4)
	if nmsg+nseg == 0 {
		nmsg = 1
	}
	r.MsgAcks, r.SegAcks = nil, nil
	r.NoMsgAck = nmsg == 0
	var slots []*simbank.Ack
	draw := func() simbank.Ack {
		a := genAck(rng, rng.Intn(3), hostile)
		if errors > 0 && rng.Intn(5) == 0 {
			// The warnings the client acts on hide no error either.
			a.Code = []int{3040, 3920}[rng.Intn(2)]
		}
		return a
	}
	for i := 0; i < nmsg; i++ {
		r.MsgAcks = append(r.MsgAcks, draw())
	}
	for i := 0; i < nseg; i++ {
		sa := simbank.SegAck{Ref: 2 + rng.Intn(6)}
		if rng.Intn(8) == 0 {
			sa.Ref = 0 // the bank left the reference out
		}
		for k := rng.Intn(4); k >= 0; k-- {
			sa.Acks = append(sa.Acks, draw())
		}
		r.SegAcks = append(r.SegAcks, sa)
	}
	for i := range r.MsgAcks {
		slots = append(slots, &r.MsgAcks[i])
	}
	for i := range r.SegAcks {
		for k := range r.SegAcks[i].Acks {
			slots = append(slots, &r.SegAcks[i].Acks[k])
		}
	}
	if errors > len(slots) {
		errors = len(slots)
	}
	for _, i := range rng.Perm(len(slots))[:errors] {
		*slots[i] = genAck(rng, 3, hostile)
		errs = append(errs, *slots[i])
	}
	for _, a := range r.MsgAcks {
		fmt.Fprintf(&sb, "%d", a.Code/1000)
	}
	for _, s := range r.SegAcks {
		sb.WriteByte('/')
		for _, a := range s.Acks {
			fmt.Fprintf(&sb, "%d", a.Code/1000)
		}
	}
	r.AcksLast = rng.Intn(4) == 0
	return errs, sb.String()
}

func isZeroResult(res interface{}) bool {
	if res == nil {
		return true
	}
	v := reflect.ValueOf(res)
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	}
	return v.IsZero()
}

func ackCase(c *vt.C) {
	e := newEnv(c.Rng, envOpts{hostile: c.Rng.Intn(4) == 0})
	e.accts = append(e.accts, acctW{Ver: 4, ID: "7654321", User: e.bank.UserID, Currency: "EUR", Name1: "Muster"})
	e.bank.AnyJobs = true
	d := e.newDialog()
	hv := segment.SupportedHBCIVersions[e.version]
	ops := genOps(e)
	ops = append(ops,
		op{name: "d.sync", run: func(e *env) (interface{}, error) {
			id, err := d.SyncClientSystemID()
			return id != "", err
		}},
		op{name: "d.upd", run: func(e *env) (interface{}, error) { return nil, d.SyncUserParameterData() }},
		op{name: "d.send", job: "HKKIF", run: func(e *env) (interface{}, error) {
			return found(d.SendMessage(message.NewHBCIMessage(hv, segment.NewAccountInformationRequestSegmentV1(e.acct, false))))
		}},
		op{name: "d.anon", run: func(e *env) (interface{}, error) {
			return found(d.SendAnonymousMessage(message.NewHBCIMessage(hv, segment.NewCommunicationAccessRequestSegment(e.acctBank(), e.acctBank(), 1, ""))))
		}})
	o := ops[c.Rng.Intn(len(ops))]
	var want interface{}
	known := c.Rng.Intn(2) == 0
	if known || c.Rng.Intn(2) == 0 {
		res, err, _ := e.runOp(o)
		if err != nil {
			c.Fail("op:"+o.name, "%s failed against a healthy bank: %v\n%s", o.name, err, e.bank.Trace())
			return
		}
		want, known = res, true
	}
	// The answers up to the target get harmless mixes, the target the errors.
	target := c.Rng.Intn(6)
	nerr := 0
	if c.Rng.Intn(2) == 0 {
		nerr = 1 + c.Rng.Intn(3)
	}
	start := len(e.bank.Requests)
	var errs []simbank.Ack
	hit, shape := "", ""
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if len(errs) > 0 {
			return
		}
		if req.Index-start == target && nerr > 0 && !isEnd(req.Kind) {
			errs, shape = genAcks(c.Rng, r, nerr)
			hit = req.Kind
			if c.Rng.Intn(2) == 0 {
				r.Segs = nil
			}
			return
		}
		if isEnd(req.Kind) && c.Rng.Intn(2) == 0 {
			return
		}
		_, s := genAcks(c.Rng, r, 0)
		if req.Index-start == target {
			shape = s
			hit = req.Kind
		}
		c.Count("harmless answers", 1)
	}
	res, err, _ := e.runOp(o)
	what := fmt.Sprintf("%s, %d. request (%s) answered with %s", o.name, target+1, hit, shape)
	if len(errs) > 0 {
		c.Count("errors at "+hit, 1)
		if err == nil {
			c.Fail("lost:"+hit, "%s: no error, though the bank sent %+v\n%s", what, errs, e.bank.Trace())
		} else {
			for _, a := range errs {
				if !strings.Contains(err.Error(), fmt.Sprint(a.Code)) || !strings.Contains(err.Error(), a.Text) {
					c.Fail("incomplete:"+hit, "%s: the error lacks code %d or text %q: %v", what, a.Code, a.Text, err)
				}
				c.Count("error acknowledgements looked for", 1)
			}
			if !isZeroResult(res) {
				c.Fail("result:"+hit, "%s: result %+v besides the error %v", what, res, err)
			}
		}
	} else {
		if err != nil {
			c.Fail("false alarm:"+o.name, "%s: failed without any error acknowledgement: %v\n%s", what, err, e.bank.Trace())
		} else if known && o.name != "communication" && !reflect.DeepEqual(res, want) {
			c.Fail("result differs:"+o.name, "%s: result %+v, without warnings %+v", what, res, want)
		}
		c.Count("harmless operations", 1)
	}
	c.State("%d/%s/%s/%s/%v", e.version, o.name, hit, shape, err == nil)
	if c.Rng.Intn(400) == 0 {
		c.Sample("%s -> %v", what, err)
	}
}

// found keeps what can be compared of a message.
func found(m message.BankMessage, err error) (interface{}, error) {
	if err != nil || m == nil {
		if m != nil {
			return "a message", err
		}
		return nil, err
	}
	content := func(id string) string {
		s := string(m.FindMarshaledSegment(id))
		if i := strings.IndexByte(s, '+'); i >= 0 {
			return id + s[i:]
		}
		return s
	}
	return content("HIKIF") + content("HIKOM"), nil
}

var _ dialog.Dialog = &dialog.PinTanDialog{}

func runP08(r *vt.Run) {
	for i := 0; i < r.N(8000, 400000); i++ {
		r.Case(fmt.Sprintf("op/%d", i), ackCase)
	}
	r.Case("codes", func(c *vt.C) {
		for code := 0; code <= 9999; code++ {
			for _, a := range []domain.Acknowledgement{domain.NewMessageAcknowledgement(code, "", "t", nil), domain.NewSegmentAcknowledgement(code, "1", "t", []string{"p"})} {
				if a.IsError() != (code >= 9000) {
					c.Fail("class", "IsError of code %d is %v", code, a.IsError())
				}
				if code < 4000 && code > 0 && a.IsWarning() != (code >= 3000) {
					c.Fail("class", "IsWarning of code %d is %v", code, a.IsWarning())
				}
				if code > 0 && code < 1000 && !a.IsSuccess() || code >= 3000 && a.IsSuccess() {
					c.Fail("class", "IsSuccess of code %d is %v", code, a.IsSuccess())
				}
			}
			c.Count("codes classified", 1)
		}
	})
	for _, k := range []string{simbank.Sync, simbank.Init, simbank.Job, simbank.AnonInit, simbank.AnonJob} {
		r.Require("errors at "+k, 80)
	}
	r.Require("harmless operations", 2000)
	r.Require("codes classified", 10000)
}
