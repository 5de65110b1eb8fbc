//go:build p06 || all

package main

import (
	"fmt"
	"math/rand"

	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P06",
		rule: "a case is an operation (or a history of operations) of a client or dialog in which the simulated bank injects faults at chosen requests; distinct states are the shapes of the dialog histories seen: version and, per request, its kind, job and how the bank answered",
		fn:   runP06,
		assumptions: []string{
			"the bank names its dialogs uniquely and decides about a dialog in its first answer",
		},
	})
}

// dlgFault is one way in which an answer can go wrong.
type dlgFault struct {
	name string
	// kinds of requests it applies to; nil: all.
	kinds map[string]bool
	// fails: the operation must not succeed if this hits a request other than
	// the end of a dialog.
	fails bool
	do    func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp)
}

var openers = map[string]bool{simbank.Sync: true, simbank.Init: true, simbank.AnonInit: true}

func rejectMsg(rng *rand.Rand, r *simbank.Resp) {
	r.MsgAcks = []simbank.Ack{{Code: anyError(rng), Text: "abgelehnt"}}
	r.SegAcks = nil
}

var dlgFaults = []dlgFault{
	{name: "lost-request", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.Err, r.Unprocessed = simbank.ErrTransport, true
	}},
	{name: "lost-answer", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Err = simbank.ErrTransport }},
	{name: "broken-read", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.ReadErr, r.ReadN = simbank.ErrTransport, rng.Intn(200)
	}},
	{name: "garbage", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Body = []byte("<html>Wartung</html>") }},
	{name: "empty", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Body = []byte{} }},
	{name: "no-base64", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Wire = []byte("!$%&") }},
	{name: "rejected-message", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { rejectMsg(rng, r); r.Segs = nil }},
	{name: "rejected-segment", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.Segs = nil
		r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 3, Acks: []simbank.Ack{{Code: 20, Text: "ok"}, {Code: anyError(rng), Text: "abgelehnt"}}})
	}},
	{name: "rejected-with-data", fails: true, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { rejectMsg(rng, r) }},
	{name: "rejected-dialog-0", fails: true, kinds: openers, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		rejectMsg(rng, r)
		r.Segs = nil
		r.Dialog = "0"
	}},
	{name: "warned", do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.MsgAcks = append(r.MsgAcks, simbank.Ack{Code: anyWarning(rng), Text: "Bitte beachten"})
		r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 4, Acks: []simbank.Ack{{Code: anyWarning(rng), Text: "keine starke Authentifizierung"}}})
	}},
	{name: "without-data", kinds: map[string]bool{simbank.Init: true, simbank.AnonInit: true}, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Segs = nil }},
	{name: "no-system-id", fails: true, kinds: map[string]bool{simbank.Sync: true}, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) { r.Segs = withoutSeg(r.Segs, "HISYN") }},
	{name: "empty-system-id", fails: true, kinds: map[string]bool{simbank.Sync: true}, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		for i := range r.Segs {
			if r.Segs[i].ID == "HISYN" {
				r.Segs[i].DEs = [][]byte{nil}
				if rng.Intn(2) == 0 {
					r.Segs[i].DEs = append(r.Segs[i].DEs, wire.I(3), wire.I(7))
				}
			}
		}
	}},
	{name: "security-function-unknown", fails: true, kinds: map[string]bool{simbank.Sync: true, simbank.Init: true}, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 5, Acks: []simbank.Ack{{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{"987", "988"}}}})
		r.Segs = append(r.Segs, tansW(tanProc{"901", "chipTAN"}, tanProc{"902", "pushTAN"}))
	}},
	{name: "security-function-new", kinds: map[string]bool{simbank.Sync: true, simbank.Init: true}, do: func(rng *rand.Rand, req *simbank.Request, r *simbank.Resp) {
		r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 5, Acks: []simbank.Ack{{Code: 3920, Text: "Zugelassene Verfahren", Params: []string{"902", "901"}}}})
		r.Segs = append(r.Segs, tansW(tanProc{"901", "chipTAN"}, tanProc{"902", "pushTAN"}))
	}},
}

func withoutSeg(segs []simbank.Seg, id string) []simbank.Seg {
	var out []simbank.Seg
	for _, s := range segs {
		if s.ID != id {
			out = append(out, s)
		}
	}
	return out
}

func (f *dlgFault) applies(req *simbank.Request) bool { return f.kinds == nil || f.kinds[req.Kind] }

// pagedJobs lets the jobs come in pages.
func pagedJobs(e *env, pages int) {
	for _, id := range []string{"HKKAZ", "HKPRO"} {
		inner := e.bank.Jobs[id]
		id := id
		e.bank.Jobs[id] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
			inner(req, job, r)
			idx := 5
			if id == "HKPRO" {
				idx = 3
			}
			n := 1
			if cont := job.Str(idx, 0); cont != "" {
				fmt.Sscanf(cont, "page%d", &n)
			}
			if n < pages {
				r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: 3040, Text: "Es liegen weitere Informationen vor", Params: []string{fmt.Sprintf("page%d", n+1)}}}})
			}
		}
	}
}

// judge checks what the result of an operation says about its history.
func judge(c *vt.C, e *env, o op, err error, reqs []*simbank.Request, mustFail string, healthy bool, pages int) {
	accepted := 0
	for _, q := range reqs {
		c.Count("request:"+q.Kind+":"+q.Status, 1)
		if (q.Kind == simbank.Job || q.Kind == simbank.AnonJob) && q.JobSeg.ID == o.job && q.Status == "accepted" {
			accepted++
		}
	}
	if err == nil && o.job != "" {
		want := 1
		if o.job == "HKKAZ" || o.job == "HKPRO" {
			want = pages
		}
		if accepted != want {
			c.Fail("success:"+o.name, "%s succeeded though the bank accepted its job %d times, want %d\n%s", o.name, accepted, want, e.bank.Trace())
		}
	}
	if err == nil && mustFail != "" {
		c.Fail("undetected:"+mustFail, "%s succeeded in spite of %s\n%s", o.name, mustFail, e.bank.Trace())
	}
	if err != nil && healthy {
		c.Fail("unusable:"+o.name, "%s failed against a healthy bank: %v\n%s", o.name, err, e.bank.Trace())
	}
	c.State("%d/%s/%v/%s", e.version, o.name, err == nil, e.bank.Shape())
}

// faultAt injects the fault at the n-th request of the coming operation;
// fired tells the kind of request it hit.
func faultAt(e *env, rng *rand.Rand, f *dlgFault, n int) (fired *string) {
	fired = new(string)
	start := len(e.bank.Requests)
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if req.Index-start == n && f.applies(req) {
			*fired = req.Kind
			f.do(rng, req, r)
		}
	}
	return fired
}

func singleFault(c *vt.C, version int, opIdx int, f *dlgFault, n int, warm bool) {
	e := newEnv(c.Rng, envOpts{version: version, hostile: c.Rng.Intn(3) == 0})
	e.bank.DialogIDs = uniqueDialogs(c.Rng)
	pages := 1 + c.Rng.Intn(3)
	pagedJobs(e, pages)
	ops := genOps(e)
	o := ops[opIdx]
	if warm {
		_, err, reqs := e.runOp(o)
		judge(c, e, o, err, reqs, "", true, pages)
	}
	fired := faultAt(e, c.Rng, f, n)
	_, err, reqs := e.runOp(o)
	e.bank.Alter = nil
	mustFail := ""
	if *fired != "" {
		c.Count("fault:"+f.name, 1)
		c.Count("hit:"+*fired, 1)
		if f.fails && !isEnd(*fired) {
			mustFail = f.name + " at " + *fired
		}
	}
	judge(c, e, o, err, reqs, mustFail, *fired == "" || !f.fails, pages)
	report(c, e, "protocol")
	// Whatever happened, the next operation starts afresh.
	for k := 0; k < 2; k++ {
		o2 := ops[c.Rng.Intn(len(ops))]
		_, err, reqs = e.runOp(o2)
		judge(c, e, o2, err, reqs, "", true, pages)
	}
	report(c, e, "protocol")
}

func uniqueDialogs(rng *rand.Rand) func(n int) string {
	salt := genDigits(rng, 4)
	return func(n int) string { return fmt.Sprintf("D%s.%d", salt, n) }
}

// clientHistory runs several operations with faults at random requests.
func clientHistory(c *vt.C) {
	e := newEnv(c.Rng, envOpts{hostile: c.Rng.Intn(3) == 0})
	e.bank.DialogIDs = uniqueDialogs(c.Rng)
	pages := 1 + c.Rng.Intn(4)
	pagedJobs(e, pages)
	anon := c.Rng.Intn(4) == 0
	for k := 0; k < 8 && !c.Failed(); k++ {
		prob := []int{0, 3, 6}[c.Rng.Intn(3)]
		mustFail, harmless := "", true
		e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
			if prob == 0 || c.Rng.Intn(prob) != 0 {
				return
			}
			f := &dlgFaults[c.Rng.Intn(len(dlgFaults))]
			if !f.applies(req) {
				return
			}
			f.do(c.Rng, req, r)
			c.Count("fault:"+f.name, 1)
			if f.fails {
				harmless = false
				if !isEnd(req.Kind) {
					mustFail = f.name + " at " + req.Kind
				}
			}
		}
		ops := genOps(e)
		o := ops[c.Rng.Intn(len(ops))]
		if anon && c.Rng.Intn(2) == 0 {
			o = ops[len(ops)-1]
		}
		_, err, reqs := e.runOp(o)
		judge(c, e, o, err, reqs, mustFail, harmless, pages)
		report(c, e, "protocol")
	}
	e.bank.Alter = nil
	for _, o := range genOps(e)[:3] {
		_, err, reqs := e.runOp(o)
		judge(c, e, o, err, reqs, "", true, pages)
	}
	report(c, e, "protocol")
}

// dialogHistory drives a dialog directly.
func dialogHistory(c *vt.C) {
	e := newBank(c.Rng, envOpts{hostile: c.Rng.Intn(3) == 0})
	e.bank.DialogIDs = uniqueDialogs(c.Rng)
	e.bank.AnyJobs = true
	d := e.newDialog()
	hv := segment.SupportedHBCIVersions[e.version]
	n := 0
	for k := 0; k < 10 && !c.Failed(); k++ {
		prob := []int{0, 0, 3, 6}[c.Rng.Intn(4)]
		mustFail, harmless := "", true
		e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
			if prob == 0 || c.Rng.Intn(prob) != 0 {
				return
			}
			f := &dlgFaults[c.Rng.Intn(len(dlgFaults))]
			if !f.applies(req) {
				return
			}
			f.do(c.Rng, req, r)
			c.Count("fault:"+f.name, 1)
			if f.fails {
				harmless = false
				if !isEnd(req.Kind) {
					mustFail = f.name + " at " + req.Kind
				}
			}
		}
		var o op
		switch c.Rng.Intn(5) {
		case 0:
			o = op{name: "d.sync", run: func(e *env) (interface{}, error) { return syncChecked(c, e, d) }}
		case 1:
			o = op{name: "d.upd", run: func(e *env) (interface{}, error) { return nil, d.SyncUserParameterData() }}
		case 2:
			o = op{name: "d.anon", job: "HKKOM", anon: true, run: func(e *env) (interface{}, error) {
				n++
				return d.SendAnonymousMessage(message.NewHBCIMessage(hv, segment.NewCommunicationAccessRequestSegment(e.acctBank(), e.acctBank(), n, "")))
			}}
		case 3:
			if c.Rng.Intn(4) != 0 || len(e.bank.SystemIDs) != 1 {
				continue
			}
			// A client system ID kept from before.
			id := genWord(c.Rng, 8)
			d.SetClientSystemID(id)
			e.bank.SystemIDs = map[string]bool{id: true}
			continue
		default:
			o = op{name: "d.send", job: "HKKIF", run: func(e *env) (interface{}, error) {
				acct := e.acct
				n++
				acct.AccountID = fmt.Sprint("A", n)
				return d.SendMessage(message.NewHBCIMessage(hv, segment.NewAccountInformationRequestSegmentV1(acct, false)))
			}}
		}
		_, err, reqs := e.runOp(o)
		judge(c, e, o, err, reqs, mustFail, harmless, 1)
		report(c, e, "protocol")
	}
}

// syncChecked synchronises and compares the result with what the bank said.
func syncChecked(c *vt.C, e *env, d *dialog.PinTanDialog) (interface{}, error) {
	before := len(e.bank.Requests)
	id, err := d.SyncClientSystemID()
	if err == nil {
		var want string
		for _, q := range e.bank.Requests[before:] {
			if q.Kind == simbank.Sync && q.Status == "accepted" {
				want, _ = simbank.Assigned(q.Resp)
			}
		}
		if id != want || id == "" {
			c.Fail("system-id", "synchronisation reports client system ID %q, the bank assigned %q\n%s", id, want, e.bank.Trace())
		}
		if d.ClientSystemID != want {
			c.Fail("system-id", "dialog has client system ID %q, the bank assigned %q", d.ClientSystemID, want)
		}
		c.Count("system ids compared", 1)
	}
	return id, err
}

func runP06(r *vt.Run) {
	reps := r.N(1, 25)
	for rep := 0; rep < reps; rep++ {
		for _, version := range []int{220, 300} {
			for opIdx := 0; opIdx < 8; opIdx++ {
				for fi := range dlgFaults {
					for n := 0; n < 8; n++ {
						for _, warm := range []bool{false, true} {
							f := &dlgFaults[fi]
							r.Case(fmt.Sprintf("single/%d/%d/%s/%d/%v/%d", version, opIdx, f.name, n, warm, rep), func(c *vt.C) {
								singleFault(c, version, opIdx, f, n, warm)
							})
						}
					}
				}
			}
		}
	}
	for i := 0; i < r.N(1200, 60000); i++ {
		r.Case(fmt.Sprintf("client/%d", i), clientHistory)
	}
	for i := 0; i < r.N(1200, 60000); i++ {
		r.Case(fmt.Sprintf("dialog/%d", i), dialogHistory)
	}
	for _, f := range dlgFaults {
		r.Require("fault:"+f.name, 15)
	}
	for _, k := range []string{simbank.Sync, simbank.Init, simbank.Job, simbank.End, simbank.AnonInit, simbank.AnonJob, simbank.AnonEnd} {
		r.Require("hit:"+k, 20)
	}
	r.Require("system ids compared", 200)
}
