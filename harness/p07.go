//go:build p07 || all

package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	hbci "github.com/mitch000001/go-hbci"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P07",
		rule: "a case is a history of client or dialog operations, PIN, security function and client system ID changes and faults with unique marks in the PIN, the requests and the answers; distinct states are the shapes of the histories with the security function and client system ID in use",
		fn:   runP07,
		assumptions: []string{
			"the result of AccountInformation, which it prints, is not counted as logging",
			"the bank never sends the PIN back",
			"the report of a failed end of a dialog, which is always logged, may quote an answer that can not be understood",
		},
	})
}

// traces are the forms in which a mark may show up in some output.
func traces(mark string) []string {
	out := []string{mark}
	for off := 0; off < 3; off++ {
		b := append(make([]byte, off), mark...)
		for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding} {
			s := enc.EncodeToString(b)
			// Leave out what depends on the neighbouring bytes.
			lo, hi := (off*8+5)/6, (off+len(mark))*8/6
			out = append(out, s[lo:hi])
		}
	}
	var dec, hex, hexs []string
	for i := 0; i < len(mark); i++ {
		dec = append(dec, fmt.Sprint(mark[i]))
		hex = append(hex, fmt.Sprintf("%02x", mark[i]))
		hexs = append(hexs, fmt.Sprintf("0x%x", mark[i]))
	}
	out = append(out, strings.Join(dec, " "), strings.Join(dec, ", "), strings.Join(hex, ""), strings.Join(hex, " "), strings.Join(hexs, ", "), strings.ToUpper(strings.Join(hex, "")))
	// Masked output may keep parts.
	rev := []byte(mark)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return append(out, string(rev))
}

func leak(out string, mark string) string {
	if mark == "" {
		return ""
	}
	for _, t := range traces(mark) {
		if strings.Contains(out, t) {
			return t
		}
	}
	return ""
}

// fnPool are the security functions a bank may assign.
var fnPool = []string{"900", "901", "902", "910", "912", "942"}

// secFnAlter announces security functions at times and follows which one the
// client has to use.
func secFnAlter(c *vt.C, e *env, prob int) func(req *simbank.Request, r *simbank.Resp) bool {
	return func(req *simbank.Request, r *simbank.Resp) bool {
		if (req.Kind != simbank.Sync && req.Kind != simbank.Init) || c.Rng.Intn(prob) != 0 {
			return false
		}
		perm := c.Rng.Perm(len(fnPool))
		var params []string
		for _, i := range perm[:1+c.Rng.Intn(4)] {
			params = append(params, fnPool[i])
		}
		var procs []tanProc
		known := map[string]bool{}
		for _, i := range c.Rng.Perm(len(fnPool))[:2+c.Rng.Intn(4)] {
			procs = append(procs, tanProc{fnPool[i], "Verfahren " + genWord(c.Rng, 5)})
			known[fnPool[i]] = true
		}
		var usable []string
		for _, p := range params {
			if known[p] {
				usable = append(usable, p)
			}
		}
		if len(usable) == 0 {
			return false
		}
		code := simbank.Ack{Code: 3920, Text: "Zugelassene Ein- und Zwei-Schritt-Verfahren", Params: params}
		if c.Rng.Intn(2) == 0 {
			r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 4, Acks: []simbank.Ack{code}})
		} else {
			r.SegAcks[len(r.SegAcks)-1].Acks = append(r.SegAcks[len(r.SegAcks)-1].Acks, code)
		}
		tans := tansW(procs...)
		if c.Rng.Intn(2) == 0 {
			r.Segs = append(r.Segs, tans)
		} else {
			r.Segs = append([]simbank.Seg{tans}, r.Segs...)
		}
		for _, u := range usable {
			if e.bank.SecFn[u] {
				c.Count("security function kept", 1)
				return true
			}
		}
		e.bank.SecFn = map[string]bool{usable[0]: true}
		c.Count("security function assigned", 1)
		return true
	}
}

// marks are unique texts of requests and answers that belong into no log.
type marks struct{ req, resp string }

func plantMarks(e *env, rng *rand.Rand) marks {
	m := marks{req: "Qa" + genDigits(rng, 8) + "Zy", resp: "Ra" + genDigits(rng, 8) + "Zx"}
	e.acct.AccountID = m.req
	e.iacct.AccountID = m.req
	e.iacct.IBAN = m.req
	e.accts[0].Name1 = m.resp
	long := m.resp
	if rng.Intn(4) == 0 {
		// long requests and answers
		e.acct.SubAccountCharacteristics = strings.Repeat(genText1(rng, 8), 30+rng.Intn(500))
		e.iacct.SubAccountCharacteristics = e.acct.SubAccountCharacteristics
		long = m.resp + "/" + strings.Repeat("Text", 30+rng.Intn(2000)) + "/" + m.resp
		e.accts[0].Name2 = long
	}
	e.bank.Jobs["HKKAZ"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIKAZ", job.Ver, job.Pos, wire.Bin([]byte(plainMT940("123456", 1000, long)))))
	}
	bal := e.bank.Jobs["HKSAL"]
	e.bank.Jobs["HKSAL"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		bal(req, job, r)
		r.Segs[len(r.Segs)-1].DEs[1] = wire.T(long)
	}
	e.bank.Jobs["HKPRO"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIPRO", job.Ver, job.Pos, wire.G(wire.T("dlg0"), wire.I(2)), wire.I(3), wire.Raw("20261002"), wire.Raw("101112"), simbank.Ack{Code: 20, Text: long}.Wire()))
	}
	return m
}

// checkOutput looks for marks in what the process wrote.
func checkOutput(c *vt.C, e *env, what, out string, m marks, info, clean bool) {
	for _, mark := range append([]string{e.bank.PINMark}, e.bank.OldMarks...) {
		if t := leak(out, mark); t != "" {
			c.Fail("pin in output", "%s: the PIN (%s) shows up in the output: %s", what, t, clip(out))
		}
	}
	if info {
		return
	}
	if t := leak(out, m.req); t != "" {
		c.Fail("request in output", "%s: the request (%s) shows up in the output: %s", what, t, clip(out))
	}
	for _, t := range []string{"HNHBK:1", "HNSHK:2", "HNSHA:", "HNVSD:999", base64.StdEncoding.EncodeToString([]byte("HNHBK:1:3+000000"))[:16]} {
		if strings.Contains(out, t) && clean {
			c.Fail("message in output", "%s: a message (%s) shows up in the output: %s", what, t, clip(out))
		}
	}
	if t := leak(out, m.resp); t != "" && clean {
		c.Fail("answer in output", "%s: the answer (%s) shows up in the output: %s", what, t, clip(out))
	}
	c.Count("outputs searched", 1)
	c.Count("output bytes searched", len(out))
}

// requestWindow is how many bytes in a row make a part of a request.
const requestWindow = 24

// checkRequests looks for parts of the requests, with whatever they contain, in
// what the process wrote. What the answers contain as well does not count.
func checkRequests(c *vt.C, what, out string, reqs []*simbank.Request) {
	have := map[string]bool{}
	for i := 0; i+requestWindow <= len(out); i++ {
		have[out[i:i+requestWindow]] = true
	}
	answered := func(part string) bool {
		for _, q := range reqs {
			if r := q.Resp; r != nil && (strings.Contains(string(r.Sent), part) || strings.Contains(string(r.SentText), part)) {
				return true
			}
		}
		return false
	}
	for _, q := range reqs {
		for _, text := range []string{string(q.Body), string(q.Plain)} {
			for i := 0; i+requestWindow <= len(text); i++ {
				if part := text[i : i+requestWindow]; have[part] && !answered(part) {
					c.Fail("request part in output", "%s: a part %q of the request shows up in the output: %s", what, part, clip(out))
					return
				}
			}
		}
		c.Count("requests searched for", 1)
	}
}

func clip(s string) string {
	if len(s) > 2500 {
		return s[:2500] + "..."
	}
	return s
}

func checkResult(c *vt.C, e *env, what string, res interface{}, err error) {
	js, _ := json.Marshal(res)
	text := fmt.Sprintf("%v %+v %s %s %q", res, res, js, fmt.Sprint(err), fmt.Sprint(err))
	for _, mark := range append([]string{e.bank.PINMark}, e.bank.OldMarks...) {
		if t := leak(text, mark); t != "" {
			c.Fail("pin in result", "%s: the PIN (%s) shows up in the result: %s", what, t, clip(text))
		}
	}
	if err != nil {
		if strings.Contains(err.Error(), "ersion") {
			c.Count("version errors searched", 1)
		}
		c.Count("errors searched", 1)
	}
}

func p07Client(c *vt.C) {
	e := newBank(c.Rng, envOpts{hostile: c.Rng.Intn(3) != 0})
	m := plantMarks(e, c.Rng)
	faults := c.Rng.Intn(2) == 0
	c.Count("histories", 1)
	debugFirst := c.Rng.Intn(3) == 0
	e.bank.SecFn = map[string]bool{"999": true}
	announce := secFnAlter(c, e, 3)
	unsupported := c.Rng.Intn(5) == 0
	if unsupported {
		// The bank offers some jobs not at all or in other versions.
		for _, vers := range []*[]int{&e.salVers, &e.kazVers, &e.proVers} {
			switch c.Rng.Intn(3) {
			case 0:
				*vers = nil
			case 1:
				*vers = []int{1, 99}
			}
		}
	}
	clean, readable := true, true // no fault, no answer that can not be understood
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if announce(req, r) || !faults || c.Rng.Intn(7) != 0 {
			return
		}
		f := &dlgFaults7[c.Rng.Intn(len(dlgFaults7))]
		f.do(c.Rng, r)
		clean = false
		readable = readable && f.readable
		c.Count("fault:"+f.name, 1)
	}
	var out string
	if debugFirst {
		// Debugging was on for another client of the process before.
		out = captureStd(c.R, func() {
			o := newEnv(rand.New(rand.NewSource(1)), envOpts{debug: c.Rng.Intn(2) == 0})
			hbci.SetDebugMode(true)
			if _, err := o.cl.Accounts(); err != nil {
				panic(err)
			}
		})
		if len(out) > 0 {
			c.Count("debug output seen", 1)
		}
	}
	out = captureStd(c.R, func() {
		e.connect()
		if c.Rng.Intn(3) == 0 {
			hbci.SetDebugMode(true)
			hbci.SetDebugMode(false)
		}
	})
	checkOutput(c, e, "client.New", out, m, false, true)
	silent := c.Rng.Intn(4) == 0
	hbci.SetInfoLog(!silent)
	defer hbci.SetInfoLog(true)
	for k := 0; k < 5 && !c.Failed(); k++ {
		ops := genOps(e)
		o := ops[c.Rng.Intn(len(ops))]
		clean, readable = true, true
		var res interface{}
		var err error
		var reqs []*simbank.Request
		out := captureStd(c.R, func() { res, err, reqs = e.runOp(o) })
		checkOutput(c, e, o.name, out, m, o.name == "information", readable)
		if o.name != "information" {
			checkRequests(c, o.name, out, reqs)
		}
		// Failures to end a dialog are reported all the same.
		if silent && strings.Contains(out, "go-hbci: ") {
			c.Fail("log off", "%s: with the info log and debugging off, this is written: %s", o.name, clip(out))
		}
		if silent {
			c.Count("operations with the log off", 1)
		} else if strings.Contains(out, "go-hbci: ") {
			c.Count("operations with info output", 1)
		}
		checkResult(c, e, o.name, res, err)
		if err != nil && clean && !unsupported {
			c.Fail("op:"+o.name, "%s failed against a healthy bank: %v\n%s", o.name, err, e.bank.Trace())
		}
		c.State("%d/%v/%v/%s", e.version, e.bank.SecFn, err == nil, e.bank.Shape())
		report(c, e, "security")
		for _, q := range e.bank.Requests {
			if strings.Contains(q.URL, e.bank.PINMark) {
				c.Fail("pin in url", "URL %q", q.URL)
			}
		}
	}
	c.Count("requests watched", len(e.bank.Requests))
}

type simpleFault struct {
	name     string
	readable bool // what the bank sent can be understood
	do       func(rng *rand.Rand, r *simbank.Resp)
}

var dlgFaults7 = []simpleFault{
	{"lost", true, func(rng *rand.Rand, r *simbank.Resp) { r.Err = simbank.ErrTransport }},
	{"read", false, func(rng *rand.Rand, r *simbank.Resp) { r.ReadErr, r.ReadN = simbank.ErrTransport, rng.Intn(300) }},
	{"garbage", false, func(rng *rand.Rand, r *simbank.Resp) { r.Body = genBytes(rng, rng.Intn(60)) }},
	{"base64", false, func(rng *rand.Rand, r *simbank.Resp) { r.Wire = []byte("=" + genWord(rng, 5)) }},
	{"rejected", true, func(rng *rand.Rand, r *simbank.Resp) {
		r.MsgAcks = []simbank.Ack{{Code: 9050, Text: "Fehler"}}
		r.SegAcks = []simbank.SegAck{{Ref: 3, Acks: []simbank.Ack{{Code: 9942, Text: "PIN ungültig"}}}}
		r.Segs = nil
	}},
	{"locked", true, func(rng *rand.Rand, r *simbank.Resp) {
		r.MsgAcks = []simbank.Ack{{Code: 9930, Text: "PIN gesperrt"}}
		r.SegAcks, r.Segs = nil, nil
	}},
}

// noPin runs operations which need a PIN while the dialog has none.
func noPin(c *vt.C, e *env, d *dialog.PinTanDialog, hv segment.HBCIVersion) {
	before := len(e.bank.Requests)
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		var err error
		what := ""
		switch c.Rng.Intn(3) {
		case 0:
			what = "sync"
			_, err = d.SyncClientSystemID()
		case 1:
			what = "upd"
			err = d.SyncUserParameterData()
		default:
			what = "send"
			_, err = d.SendMessage(message.NewHBCIMessage(hv, segment.NewAccountInformationRequestSegmentV1(e.acct, false)))
		}
		if err == nil || len(e.bank.Requests) != before {
			c.Fail("no pin", "%s in a dialog without PIN returns %v and sends %d requests", what, err, len(e.bank.Requests)-before)
			return
		}
		c.Count("operations without PIN", 1)
	}
}

func p07Dialog(c *vt.C) {
	e := newBank(c.Rng, envOpts{hostile: c.Rng.Intn(3) != 0})
	e.bank.AnyJobs = true
	m := plantMarks(e, c.Rng)
	var d *dialog.PinTanDialog
	out := captureStd(c.R, func() {
		e.connect() // turns debugging off
		d = e.newDialog()
	})
	checkOutput(c, e, "NewPinTanDialog", out, m, false, true)
	hv := segment.SupportedHBCIVersions[e.version]
	if c.Rng.Intn(4) == 0 {
		noPin(c, e, dialog.NewPinTanDialog(e.dialogConfig()), hv)
	}
	e.bank.SecFn = map[string]bool{"999": true}
	announce := secFnAlter(c, e, 2)
	faults := c.Rng.Intn(3) == 0
	clean, readable := true, true // no fault, no answer that can not be understood
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if announce(req, r) || !faults || c.Rng.Intn(8) != 0 {
			return
		}
		f := &dlgFaults7[c.Rng.Intn(len(dlgFaults7))]
		f.do(c.Rng, r)
		clean = false
		readable = readable && f.readable
		c.Count("fault:"+f.name, 1)
	}
	var hist []string
	for k := 0; k < 12 && !c.Failed(); k++ {
		var err error
		var res interface{}
		what := ""
		clean, readable = true, true
		e.bank.BeginOp()
		out := captureStd(c.R, func() {
			switch c.Rng.Intn(9) {
			case 0:
				if c.Rng.Intn(3) == 0 {
					what = "nopin"
					d.SetPin("")
					noPin(c, e, d, hv)
					d.SetPin(e.bank.PIN)
					return
				}
				e.bank.OldMarks = append(e.bank.OldMarks, e.bank.PINMark)
				e.bank.PINMark = "Pq" + genDigits(c.Rng, 8) + "Zk"
				e.bank.PIN = genText(c.Rng, 4) + e.bank.PINMark + genText(c.Rng, 4)
				d.SetPin(e.bank.PIN)
				what = "pin"
				c.Count("PIN changed", 1)
			case 1:
				fn := append([]string{"999", "1", genText1(c.Rng, 3)}, fnPool...)[c.Rng.Intn(9)]
				d.SetSecurityFunction(fn)
				e.bank.SecFn = map[string]bool{fn: true}
				what = "fn"
				c.Count("security function set", 1)
			case 2:
				if c.Rng.Intn(3) != 0 {
					return
				}
				id := genText1(c.Rng, 8)
				d.SetClientSystemID(id)
				e.bank.SystemIDs = map[string]bool{id: true}
				what = "sys"
				c.Count("client system ID set", 1)
			case 3:
				what = "sync"
				res, err = d.SyncClientSystemID()
			case 4:
				what = "upd"
				err = d.SyncUserParameterData()
			case 5, 6:
				what = "anon"
				res, err = d.SendAnonymousMessage(message.NewHBCIMessage(hv, segment.NewCommunicationAccessRequestSegment(e.acctBank(), e.acctBank(), 3, "")))
			default:
				what = "send"
				segs := []segment.ClientSegment{segment.NewAccountInformationRequestSegmentV1(e.acct, false)}
				if c.Rng.Intn(2) == 0 {
					segs = append([]segment.ClientSegment{hv.TanProcess4Request(segment.IdentificationID)}, segs...)
				}
				res, err = d.SendMessage(message.NewHBCIMessage(hv, segs...))
			}
		})
		reqs := e.bank.EndOp()
		hist = append(hist, what)
		checkOutput(c, e, what, out, m, false, readable)
		checkRequests(c, what, out, reqs)
		checkResult(c, e, what, nil, err)
		_ = res
		if err != nil && clean {
			c.Fail("op:"+what, "%s failed against a healthy bank: %v\n%s", what, err, e.bank.Trace())
		}
		if len(reqs) > 0 {
			h := hist
			if len(h) > 3 {
				h = h[len(h)-3:]
			}
			c.State("%d/%v/%s/%s", e.version, e.bank.SecFn, strings.Join(h, ","), e.bank.Shape())
		}
		report(c, e, "security")
	}
	c.Count("requests watched", len(e.bank.Requests))
}

func runP07(r *vt.Run) {
	for i := 0; i < r.N(1500, 100000); i++ {
		r.Case(fmt.Sprintf("client/%d", i), p07Client)
	}
	for i := 0; i < r.N(1500, 100000); i++ {
		r.Case(fmt.Sprintf("dialog/%d", i), p07Dialog)
	}
	r.Require("requests watched", 20000)
	r.Require("outputs searched", 5000)
	r.Require("requests searched for", 10000)
	r.Require("version errors searched", 100)
	r.Require("errors searched", 200)
	r.Require("debug output seen", 100)
	r.Require("PIN changed", 500)
	r.Require("operations without PIN", 500)
	r.Require("operations with the log off", 500)
	r.Require("operations with info output", 500)
	r.Require("security function set", 500)
	r.Require("client system ID set", 100)
	r.Require("security function assigned", 500)
	r.Require("security function kept", 100)
}
