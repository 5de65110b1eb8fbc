//go:build p15 || all

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/iban"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/transport"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:     "P15",
		rule:   "a case is a group of clients working concurrently, after each of them did the same alone; distinct states are the orders in which their requests were made",
		fn:     runP15,
		race:   true,
		shards: coldStarts,
		assumptions: []string{
			"one goroutine per client or dialog; a transport shared by clients is safe for concurrent use itself",
			"schedules are those which occur with injected delays; the race detector judges every pair of conflicting accesses in them",
		},
	})
	if job := os.Getenv(aloneEnv); job != "" {
		aloneProcess(job)
		os.Exit(0)
	}
}

// aloneEnv tells a process to do one job of this property and nothing else.
const aloneEnv = "VERIF_P15_ALONE"

// aloneJob is a client, or the functions, used in a process of their own.
type aloneJob struct {
	Kind, Zone string
	Seed       int64
}

func aloneProcess(text string) {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var job aloneJob
	if err := json.Unmarshal([]byte(text), &job); err != nil {
		panic(err)
	}
	zone, err := time.LoadLocation(job.Zone)
	if err != nil {
		panic(err)
	}
	time.Local = zone
	var lines []string
	if job.Kind == "functions" {
		for _, f := range pureCalls(rand.New(rand.NewSource(job.Seed))) {
			lines = append(lines, f())
		}
	} else {
		a := newActor(job.Seed, nil)
		a.work()
		if a.crash != "" {
			panic(a.crash)
		}
		lines = a.log
	}
	json.NewEncoder(out).Encode(lines)
}

// inOwnProcess does a job in a process that did and does nothing else.
func inOwnProcess(c *vt.C, kind string, seed int64) []string {
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	job, _ := json.Marshal(aloneJob{kind, time.Local.String(), seed})
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), aloneEnv+"="+string(job))
	out, err := cmd.Output()
	var lines []string
	if err != nil || json.Unmarshal(out, &lines) != nil {
		return nil
	}
	c.Count("compared with a process of its own", 1)
	return lines
}

// sameLines reports the first difference.
func sameLines(got, want []string) (string, string, bool) {
	for k := 0; k < len(want) || k < len(got); k++ {
		g, w := "nothing", "nothing"
		if k < len(got) {
			g = got[k]
		}
		if k < len(want) {
			w = want[k]
		}
		if g != w {
			return g, w, false
		}
	}
	return "", "", true
}

// coldStarts is the number of worker processes.
const coldStarts = 6

// actor is one client with its own bank, fully determined by its seed.
type actor struct {
	seed   int64
	e      *env
	ops    []op
	log    []string // what it did, sent and got
	times  []stampedRequest
	crash  string
	debug  bool
	faulty bool
}

type stampedRequest struct {
	at   int64
	kind string
}

// newActor prepares a client. Everything depends on the seed only.
func newActor(seed int64, shared map[string]transport.Transport) *actor {
	rng := rand.New(rand.NewSource(seed))
	a := &actor{seed: seed, e: newBank(rng, envOpts{hostile: rng.Intn(2) == 0})}
	a.debug, a.faulty = rng.Intn(12) == 0, rng.Intn(4) == 0
	e := a.e
	e.cfg.EnableDebugLogging = a.debug
	b := e.bank
	data := rand.New(rand.NewSource(seed + 1))
	b.Jobs["HKKAZ"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		for n := 1 + data.Intn(3); n > 0; n-- {
			text := genWord(data, 20)
			r.Segs = append(r.Segs, simbank.S("HIKAZ", job.Ver, job.Pos, wire.Bin([]byte(plainMT940(genDigits(data, 6), 1+data.Int63n(100000), text)))))
		}
	}
	b.Jobs["HKSAL"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		for n := 1 + data.Intn(3); n > 0; n-- {
			r.Segs = append(r.Segs, e.hisal(job.Ver, data.Int63n(1000000)))
		}
	}
	b.Jobs["HKPRO"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		for n := data.Intn(4); n > 0; n-- {
			r.Segs = append(r.Segs, simbank.S("HIPRO", job.Ver, job.Pos, wire.G(wire.T(genWord(data, 8)), wire.I(data.Intn(9))), wire.I(1+data.Intn(9)), wire.Raw("20261002"), wire.Raw("101112"), simbank.Ack{Code: 20, Text: genText1(data, 20)}.Wire()))
		}
	}
	b.Params = func(req *simbank.Request) []simbank.Seg {
		e.bpdVer, e.updVer = 1+data.Intn(900), 1+data.Intn(900)
		e.salVers, e.kazVers = [][]int{{5, 7}, {6, 7}, {7, 6, 5}, {5, 8}}[data.Intn(4)], [][]int{{5, 7}, {6, 7}, {7, 6, 5}}[data.Intn(3)]
		e.accts = nil
		for n := 1 + data.Intn(3); n > 0; n-- {
			e.accts = append(e.accts, acctW{Ver: 4 + data.Intn(4), ID: genDigits(data, 7), User: b.UserID, Currency: "EUR", Name1: genText1(data, 20), Jobs: []jobW{{ID: "HKSAL", Sigs: 1}}})
		}
		segs := e.params(req.Kind)
		if data.Intn(2) == 0 {
			segs = append(segs, tansW(tanProc{"901", "mobile"}, tanProc{"942", "photo"}))
		}
		return segs
	}
	fault := rand.New(rand.NewSource(seed + 2))
	b.Alter = func(req *simbank.Request, r *simbank.Resp) {
		if _, ok := b.SystemIDs["0"]; ok && req.Kind == simbank.Sync && req.Index == 0 {
			return
		}
		for _, s := range r.Segs {
			if s.ID == "HITANS" {
				r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 3, Acks: []simbank.Ack{{Code: 3920, Text: "Verfahren", Params: []string{[]string{"901", "942"}[fault.Intn(2)]}}}})
			}
		}
		if a.faulty && fault.Intn(5) == 0 {
			switch fault.Intn(3) {
			case 0:
				r.MsgAcks = []simbank.Ack{{Code: 9050, Text: genWord(fault, 10)}}
				r.Segs = nil
			case 1:
				r.Err = simbank.ErrTransport
			case 2:
				r.Undecodable, r.Wire = true, []byte("*"+genWord(fault, 10))
			}
		}
	}
	delay := rand.New(rand.NewSource(seed + 3))
	b.OnRequest = func(req *simbank.Request) {
		a.times = append(a.times, stampedRequest{time.Now().UnixNano(), req.Kind})
		switch delay.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(delay.Intn(1500)) * time.Microsecond)
		}
	}
	if shared != nil {
		e.cfg.URL = fmt.Sprintf("%s/%d", testURL, seed)
		b.URL = e.cfg.URL
		shared[e.cfg.URL] = b
	}
	plan := rand.New(rand.NewSource(seed + 4))
	for n := 6 + plan.Intn(8); n > 0; n-- {
		ops := genOps(e)
		a.ops = append(a.ops, ops[plan.Intn(len(ops))])
	}
	return a
}

// shared is a transport that serves all clients by their URL. It has no lock
// of its own which would order the accesses of the clients.
type sharedTransport map[string]transport.Transport

func (s sharedTransport) Do(r *transport.Request) (*transport.Response, error) {
	t := s[r.URL]
	if t == nil {
		return nil, fmt.Errorf("no bank at %q", r.URL)
	}
	return t.Do(r)
}

// work runs all operations and records everything that does not depend on the
// clock or on chance.
func (a *actor) work() {
	site, msg, ok := vt.Try(func() {
		e := a.e
		e.connect()
		for _, o := range a.ops {
			res, err, reqs := e.runOp(o)
			if o.name == "communication" {
				res = nil // a Go syntax dump with addresses
			}
			out, jerr := json.Marshal(res)
			a.log = append(a.log, fmt.Sprintf("%s -> %s %v %v", o.name, out, jerr, err))
			for _, q := range reqs {
				vvb, _ := q.Find("HKVVB")
				idn, _ := q.Find("HKIDN")
				fn := ""
				for _, s := range q.Inner {
					if s.ID == "HNSHK" {
						fn = s.Str(map[int]int{220: 0, 300: 1}[e.version], 0)
					}
				}
				a.log = append(a.log, fmt.Sprintf("  %s %q %d %q %q %q %s", q.Kind, q.DialogID, q.Number, idn.Raw, vvb.Raw, q.JobSeg.Raw, fn))
			}
		}
	})
	if !ok {
		a.crash = site + ": " + msg
	}
}

// p15clients compares clients that work concurrently with the same ones alone;
// cold: the concurrent ones are the first in this process.
func p15clients(c *vt.C, rng *rand.Rand, cold bool) {
	n := 3 + rng.Intn(6)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = rng.Int63n(1 << 40)
	}
	share := rng.Intn(2) == 0
	own := cold || rng.Intn(8) == 0
	var solo, crew []*actor
	table := sharedTransport{}
	for _, s := range seeds {
		if !cold {
			a := newActor(s, nil)
			a.work()
			solo = append(solo, a)
		}
		var t map[string]transport.Transport
		if share {
			t = table
		}
		b := newActor(s, t)
		if share {
			b.e.cfg.Transport = table
		}
		crew = append(crew, b)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, a := range crew {
		wg.Add(1)
		go func(a *actor) {
			defer wg.Done()
			<-start
			a.work()
		}(a)
	}
	wg.Add(1)
	go func() { // the switch is global, and may be used at any time
		defer wg.Done()
		<-start
		for i := 0; i < 20; i++ {
			client.New(client.Config{BankID: "10020030", URL: "x", HBCIVersion: 300, EnableDebugLogging: false})
			runtime.Gosched()
		}
	}()
	close(start)
	wg.Wait()
	if cold {
		for _, s := range seeds {
			a := newActor(s, nil)
			a.work()
			solo = append(solo, a)
		}
		c.Count("cold starts", 1)
	}
	type ev struct {
		at  int64
		who int
		k   string
	}
	var evs []ev
	for i, a := range crew {
		if a.crash != "" {
			c.Fail("crash", "client %d of %d: %s", i, n, a.crash)
			continue
		}
		if solo[i].crash != "" {
			c.Fail("crash", "client %d alone: %s", i, solo[i].crash)
			continue
		}
		want := solo[i].log
		if g, w, ok := sameLines(a.log, want); !ok {
			c.Fail("differs", "client %d of %d does\n%s\nconcurrently, and alone\n%s", i, n, g, w)
		}
		if own {
			if lines := inOwnProcess(c, "client", seeds[i]); lines != nil {
				if g, w, ok := sameLines(a.log, lines); !ok {
					c.Fail("differs", "client %d of %d does\n%s\nconcurrently, and in a process of its own\n%s", i, n, g, w)
				}
			}
		}
		report(c, a.e, "form", "protocol", "security")
		for _, q := range a.e.bank.Requests {
			for j, o := range crew {
				if j != i && o.e.bank.PINMark != "" && strings.Contains(string(q.Plain), o.e.bank.PINMark) {
					c.Fail("leak", "a request of client %d contains the PIN of client %d", i, j)
				}
			}
		}
		c.Count("operations", len(a.ops))
		c.Count("requests", len(a.times))
		c.Count("lines compared", len(want))
		for _, t := range a.times {
			evs = append(evs, ev{t.at, i, t.kind})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	var order strings.Builder
	switches := 0
	for i, e := range evs {
		fmt.Fprintf(&order, "%d%s ", e.who, e.k)
		if i > 0 && evs[i-1].who != e.who {
			switches++
		}
	}
	c.Count("switches between clients", switches)
	c.State("%s", order.String())
}

// pure are functions of the packages whose results depend on their input only.
func pureCalls(rng *rand.Rand) []func() string {
	statement := []byte(plainMT940(genDigits(rng, 6), 1+rng.Int63n(100000), genWord(rng, 10)))
	e := newBank(rng, envOpts{version: 300})
	var msg []byte
	pos := 2
	for _, s := range append(e.params(simbank.Init), e.hisal(6, 1234)) {
		msg = append(msg, wire.Seg(s.ID, pos, s.Ver, s.Ref, s.DEs...)...)
		pos++
	}
	msg = append(msg, wire.Seg("HIRMG", pos, 2, 0, simbank.Ack{Code: 10, Text: genWord(rng, 5)}.Wire())...)
	var calls []func() string
	add := func(f func() string) { calls = append(calls, f) }
	for i := 0; i < 6; i++ {
		bank, acct := genDigits(rng, 8), genDigits(rng, 10)
		add(func() string {
			i, err := iban.NewGerman(bank, acct)
			return fmt.Sprint(i, err, iban.Print(i), i.Valid())
		})
		add(func() string { return fmt.Sprint(iban.IsValid("DE02" + bank + acct)) })
		known := []string{"10020030", "20041133", "37040044", "50010517", "70150000", bank}[i]
		add(func() string { return fmt.Sprintf("%+v", bankinfo.FindByBankID(known)) })
	}
	add(func() string {
		tx, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(append([]byte(nil), statement...))
		return fmt.Sprint(len(tx), tx, err)
	})
	add(func() string {
		m := swift.NewMT940Messages(append([]byte(nil), statement...))
		return string(swift.MergeMT940Messages(m, m).Data)
	})
	add(func() string {
		bm, err := message.NewDecryptedMessage(segment.NewMessageHeaderSegment(10, 300, "d", 1), nil, append([]byte(nil), msg...))
		if err != nil {
			return err.Error()
		}
		var out []string
		for _, id := range []string{"HIUPD", "HISAL", "HIBPA", "HIUPA"} {
			for _, s := range bm.FindSegments(id) {
				out = append(out, fmt.Sprint(s.Header()))
			}
		}
		return fmt.Sprint(bm.Acknowledgements(), bm.SupportedSegments(), out)
	})
	for _, v := range []int{220, 300} {
		version := segment.SupportedHBCIVersions[v]
		add(func() string {
			raw, err := version.SynchronisationRequest(segment.SyncModeAquireClientID).MarshalHBCI()
			tan, err2 := version.TanProcess4Request("HKIDN").MarshalHBCI()
			return fmt.Sprintf("%q %v %q %v", raw, err, tan, err2)
		})
	}
	sup := []segment.VersionedSegment{{ID: "HISALS", Version: 5}, {ID: "HISALS", Version: 7}, {ID: "HIKAZS", Version: 6}, {ID: "HIKAZS", Version: 7}, {ID: "HIPROS", Version: 3}}
	acct := domain.AccountConnection{AccountID: genDigits(rng, 8), CountryCode: 280, BankID: "10020030"}
	add(func() string {
		b := segment.NewBuilder(sup)
		r, err := b.AccountBalanceRequest(acct, true)
		if err != nil {
			return err.Error()
		}
		raw, err := r.(segment.Marshaler).MarshalHBCI()
		t, err2 := b.AccountTransactionRequest(acct, false)
		raw2, err3 := t.MarshalHBCI()
		return fmt.Sprintf("%q %v %v %q %v", raw, err, err2, raw2, err3)
	})
	for _, id := range []segment.VersionedSegment{{ID: "HISAL", Version: 6}, {ID: "HIUPD", Version: 7}, {ID: "XXXXX", Version: 1}} {
		id := id
		add(func() string {
			u, err := segment.KnownSegments.UnmarshalerForSegment(id)
			return fmt.Sprintf("%T %v %v", u, err, segment.KnownSegments.IsUnmarshaler(id))
		})
	}
	cents := centsFloat(genCents(rng))
	add(func() string {
		b, err := json.Marshal(domain.Timeframe{StartDate: domain.NewShortDate(time.Unix(1e9, 0)), EndDate: domain.NewShortDate(time.Unix(1e9+1e6, 0))})
		return fmt.Sprintf("%s %v %v", b, err, domain.Amount{Amount: cents, Currency: "EUR"})
	})
	return calls
}

func p15functions(c *vt.C, rng *rand.Rand, cold bool) {
	seed := rng.Int63n(1 << 40)
	calls := pureCalls(rand.New(rand.NewSource(seed)))
	want := make([]string, len(calls))
	alone := func() {
		for i, f := range calls {
			want[i] = f()
		}
	}
	if !cold {
		alone()
	}
	const workers = 6
	type diff struct {
		i   int
		got string
	}
	diffs := make([][]diff, workers)
	crashes := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		perm := rng.Perm(len(calls))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			site, m, ok := vt.Try(func() {
				for round := 0; round < 3; round++ {
					for _, i := range perm {
						diffs[w] = append(diffs[w], diff{i, calls[i]()})
					}
				}
			})
			if !ok {
				crashes[w] = site + ": " + m
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if cold {
		alone()
		c.Count("cold starts", 1)
	}
	for w := range diffs {
		if crashes[w] != "" {
			c.Fail("crash", "concurrent calls: %s", crashes[w])
		}
		for _, d := range diffs[w] {
			if d.got == want[d.i] {
				continue
			}
			c.Fail("function", "concurrently the result is\n%s\nalone\n%s", d.got, want[d.i])
		}
	}
	if cold || rng.Intn(8) == 0 {
		if lines := inOwnProcess(c, "functions", seed); lines != nil {
			if g, w, ok := sameLines(want, lines); !ok {
				c.Fail("function", "the result is\n%s\nin a process of its own\n%s", g, w)
			}
		}
	}
	c.Count("concurrent function calls", workers*3*len(calls))
}

func runP15(r *vt.Run) {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // account information is printed there
	}
	// the first case of every worker process uses the library for the first time
	for i := 0; i < coldStarts; i++ {
		r.Case(fmt.Sprintf("cold%d", i), func(c *vt.C) {
			if i%2 == 0 {
				p15functions(c, c.Rng, true)
			} else {
				p15clients(c, c.Rng, true)
			}
		})
	}
	for i, n := 0, r.N(70, 2500); i < n; i++ {
		r.Case(fmt.Sprintf("c%d", i), func(c *vt.C) { p15clients(c, c.Rng, false) })
	}
	for i, n := 0, r.N(48, 1500); i < n; i++ {
		r.Case(fmt.Sprintf("f%d", i), func(c *vt.C) { p15functions(c, c.Rng, false) })
	}
	r.Require("cold starts", coldStarts)
	r.Require("compared with a process of its own", 20)
	r.Require("operations", 1500)
	r.Require("requests", 4000)
	r.Require("switches between clients", 2000)
	r.Require("concurrent function calls", 5000)
}
