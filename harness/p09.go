//go:build p09 || all

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P09",
		rule: "a case is a paged operation with uniquely tagged entries; distinct states are version, operation, job version, number of pages, segments and entries per page and the outcome",
		fn:   runP09,
		assumptions: []string{
			"continuation references differ from the one before and are not empty (others must make the operation fail)",
			"every page of balances or account information has at least one of them",
		},
	})
}

// pager serves the pages of one job.
type pager struct {
	refs  []string // refs[i] leads to page i; refs[0] is the initial one
	pages [][]simbank.Seg
	// breakAt is the page (or -1) that goes wrong in the way of breakAs.
	breakAt  int
	breakAs  string
	served   []int
	problems []string
	// first are the elements of the first request, and afterFirst is called
	// once it was answered.
	first      []string
	afterFirst func()
}

func (p *pager) page(ref string) int {
	for i, r := range p.refs {
		if r == ref {
			return i
		}
	}
	return -1
}

func (p *pager) serve(rng *rand.Rand, o op, e *env) func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
	return func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		want := o.want(e, job.Ver, "")
		got := jobElements(job, len(want))
		idx := len(want) - 1
		ref := ""
		if len(job.DEs) > idx {
			ref = job.Str(idx, 0)
		}
		n := p.page(ref)
		if n < 0 {
			p.problems = append(p.problems, fmt.Sprintf("request with unknown reference %q, announced %q: %q", ref, p.refs, job.Raw))
			r.MsgAcks = []simbank.Ack{{Code: anyError(rng), Text: "Aufsetzpunkt unbekannt"}}
			return
		}
		if len(got) != len(want) {
			p.problems = append(p.problems, fmt.Sprintf("request %q has %d elements, want %d", job.Raw, len(got), len(want)))
		}
		for i := 0; i < idx && i < len(got); i++ {
			if o.job == "HKPRO" && i == 2 {
				continue // the remaining number of entries
			}
			if want[i] != anyElement && got[i] != want[i] {
				p.problems = append(p.problems, fmt.Sprintf("element %d of the request for page %d is %q, want %q: %q", i+1, n, got[i], want[i], job.Raw))
			}
			if p.first != nil && i < len(p.first) && got[i] != p.first[i] {
				p.problems = append(p.problems, fmt.Sprintf("element %d of the request for page %d is %q, but was %q in the first request: %q", i+1, n, got[i], p.first[i], job.Raw))
			}
		}
		if p.first == nil {
			p.first = got
			if p.afterFirst != nil {
				p.afterFirst()
			}
		}
		p.served = append(p.served, n)
		okJob(r, job)
		for _, s := range p.pages[n] {
			s.Ref = job.Pos
			if s.ID != "HIKIF" {
				s.Ver = job.Ver
			}
			r.Segs = append(r.Segs, s)
		}
		if rng.Intn(3) == 0 {
			// Segments of no interest around the page.
			r.Segs = append(r.Segs, simbank.S("HIXYZ", 1, job.Pos, wire.T("?")))
		}
		if n+1 < len(p.pages) {
			more := simbank.Ack{Code: 3040, Text: "Es liegen weitere Informationen vor", Params: []string{p.refs[n+1]}}
			if rng.Intn(4) == 0 {
				more.RefDE = "5"
			}
			switch rng.Intn(4) {
			case 0:
				r.SegAcks = append([]simbank.SegAck{{Ref: job.Pos, Acks: []simbank.Ack{more}}}, r.SegAcks...)
			case 1:
				r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: 3076, Text: "Hinweis", Params: []string{"nichts"}}, more, {Code: 20, Text: "ok"}}})
			default:
				i := len(r.SegAcks) - 1
				r.SegAcks[i].Acks = append(r.SegAcks[i].Acks, more)
			}
		}
		if n == p.breakAt {
			switch p.breakAs {
			case "transport":
				r.Err = simbank.ErrTransport
			case "rejected":
				r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: anyError(rng), Text: "Fehler"}}})
			case "garbage":
				r.Body = genBytes(rng, rng.Intn(40))
			case "no reference":
				for i := range r.SegAcks {
					for k := range r.SegAcks[i].Acks {
						if a := &r.SegAcks[i].Acks[k]; a.Code == 3040 {
							a.Params = nil
						}
					}
				}
			case "same reference":
				for i := range r.SegAcks {
					for k := range r.SegAcks[i].Acks {
						if a := &r.SegAcks[i].Acks[k]; a.Code == 3040 {
							a.Params = []string{p.refs[n]}
						}
					}
				}
			}
		}
	}
}

// entryTags are the unique names of the entries, in order.
func runPaged(c *vt.C) {
	hostile := c.Rng.Intn(2) == 0
	e := newBank(c.Rng, envOpts{hostile: hostile})
	// One version of each job, so that all are used.
	e.kazVers = []int{5 + c.Rng.Intn(2), 7}
	e.proVers = []int{3 + c.Rng.Intn(2)}
	e.salVers = []int{5 + c.Rng.Intn(2), 7 + c.Rng.Intn(2)}
	e.connect()
	rng := c.Rng

	from := genDate(rng)
	to := inZone(rng, from.AddDate(0, 0, rng.Intn(300)))
	from = inZone(rng, from)
	tf := domain.Timeframe{StartDate: domain.NewShortDate(from), EndDate: domain.NewShortDate(to)}
	all := rng.Intn(2) == 0
	start := ""
	kind := []string{"transactions", "sepa-transactions", "balances", "sepa-balances", "status", "information"}[rng.Intn(6)]
	fromDay, toDay, open, midnight := day(from), day(to), false, false
	if strings.HasSuffix(kind, "transactions") && rng.Intn(4) == 0 {
		// Timeframes without an end or a start have one that depends on the
		// day, which is the same in all requests.
		open = true
		which := rng.Intn(3)
		if which != 0 {
			tf.StartDate, fromDay = domain.ShortDate{}, anyElement
		}
		if which != 1 {
			tf.EndDate, toDay = domain.ShortDate{}, anyElement
		}
	}
	if kind != "balances" && kind != "information" && rng.Intn(4) == 0 {
		start = genText1(rng, 12)
	}
	npages := 1 + rng.Intn(4)
	if rng.Intn(8) == 0 {
		npages = 1 + rng.Intn(12)
	}
	if rng.Intn(150) == 0 {
		npages = 30 + rng.Intn(300)
		c.Count("long answers", 1)
	}
	p := &pager{refs: []string{start}, breakAt: -1}
	if open && rng.Intn(2) == 0 {
		// Another day begins between the first request and the next one.
		midnight = true
		defer func(l *time.Location) { time.Local = l }(time.Local)
		time.Local = time.FixedZone("", -12*3600)
		p.afterFirst = func() { time.Local = time.FixedZone("", 14*3600) }
	}
	seen := map[string]bool{start: true, "": true}
	for i := 1; i < npages; i++ {
		ref := genWord(rng, 6)
		if rng.Intn(2) == 0 {
			ref = genText1(rng, 35)
		}
		for seen[ref] {
			ref = genDigits(rng, 8)
		}
		seen[ref] = true
		p.refs = append(p.refs, ref)
	}
	var tags []string
	var perPage []int
	// Entries may repeat, they are to be kept all the same.
	repeats := rng.Intn(3) == 0
	tag := func() string {
		t := fmt.Sprintf("Tag%dX", len(tags)+1)
		if repeats && len(tags) > 0 && rng.Intn(3) == 0 {
			t = tags[len(tags)-1]
			c.Count("repeated entries", 1)
		}
		tags = append(tags, t)
		return t
	}
	var kaz [][]byte
	nkaz := 0
	for i := 0; i < npages; i++ {
		var segs []simbank.Seg
		before := len(tags)
		if repeats && i > 0 && rng.Intn(3) == 0 {
			// A page that looks like the one before.
			segs = append(segs, p.pages[i-1]...)
			tags = append(tags, tags[before-perPage[i-1]:before]...)
			kaz = append(kaz, kaz[len(kaz)-nkaz:]...)
			perPage = append(perPage, perPage[i-1])
			p.pages = append(p.pages, segs)
			c.Count("repeated pages", 1)
			continue
		}
		nkaz = 0
		switch kind {
		case "transactions", "sepa-transactions":
			for k := rng.Intn(3); k > 0; k-- {
				var data []byte
				for m := rng.Intn(3); m > 0; m-- {
					data = append(data, taggedStatement(rng, rng.Intn(4), tag)...)
				}
				kaz = append(kaz, data)
				nkaz++
				seg := simbank.S("HIKAZ", 0, 0, wire.Bin(data))
				if len(data) == 0 {
					seg = simbank.S("HIKAZ", 0, 0, nil)
				}
				if len(data) == 0 || rng.Intn(3) == 0 {
					seg.DEs = append(seg.DEs, wire.Bin([]byte(plainMT940("123456", 777, "vorgemerkt"))))
				}
				segs = append(segs, seg)
			}
		case "balances", "sepa-balances":
			for k := 1 + rng.Intn(3); k > 0; k-- {
				t := tag()
				conn := wire.G(wire.T(t), nil, wire.I(280), wire.T(e.bank.BankID))
				if kind == "sepa-balances" {
					conn = wire.G(wire.T(t), wire.T("BIC"))
				}
				bal := wire.G(wire.Raw("C"), wire.Raw(centsWire(int64(tagNumber(t))*100)), wire.Raw("EUR"), wire.Raw("20261002"))
				segs = append(segs, simbank.S("HISAL", 0, 0, conn, wire.T("Girokonto"), wire.Raw("EUR"), bal))
			}
		case "information":
			for k := 1 + rng.Intn(3); k > 0; k-- {
				segs = append(segs, infoSegment(rng, e, tag()))
			}
		case "status":
			for k := rng.Intn(4); k > 0; k-- {
				t := tag()
				segs = append(segs, simbank.S("HIPRO", 0, 0, wire.G(wire.T("dlg0"), wire.I(2)), wire.I(3), wire.Raw("20261002"), wire.Raw("101112"), simbank.Ack{Code: 20 + tagNumber(t), Text: t}.Wire()))
			}
		}
		perPage = append(perPage, len(tags)-before)
		p.pages = append(p.pages, segs)
	}
	// A statement may itself be spread over pages.
	if strings.HasSuffix(kind, "transactions") && rng.Intn(5) == 0 && npages > 1 {
		var whole []byte
		for _, d := range kaz {
			whole = append(whole, d...)
		}
		if len(whole) > npages {
			for i := range p.pages {
				n := len(whole)
				if i+1 < npages {
					n = 1 + rng.Intn(len(whole)-(npages-i)+1)
				}
				p.pages[i] = []simbank.Seg{simbank.S("HIKAZ", 0, 0, wire.Bin(append([]byte{}, whole[:n]...)))}
				whole = whole[n:]
			}
			c.Count("statements split over pages", 1)
		}
	}
	max := 0
	if kind == "status" && rng.Intn(2) == 0 {
		max = 1 + rng.Intn(12)
	}
	conn := func(ver int) string {
		if ver >= 7 {
			return iacctStr(e.iacct)
		}
		return acctStr(e.acct)
	}
	tx := func(e *env, ver int, cont string) []string {
		return []string{conn(ver), jn(all), fromDay, toDay, "", string(wire.T(cont))}
	}
	bal := func(e *env, ver int, cont string) []string {
		return []string{conn(ver), jn(all), "", string(wire.T(cont))}
	}
	var o op
	switch kind {
	case "transactions":
		o = op{name: kind, job: "HKKAZ", want: tx, run: func(e *env) (interface{}, error) { return e.cl.AccountTransactions(e.acct, tf, all, start) }}
	case "sepa-transactions":
		o = op{name: kind, job: "HKKAZ", want: tx, run: func(e *env) (interface{}, error) {
			return e.cl.SepaAccountTransactions(e.iacct, tf, all, start)
		}}
	case "balances":
		o = op{name: kind, job: "HKSAL", want: bal, run: func(e *env) (interface{}, error) { return e.cl.AccountBalances(e.acct, all) }}
	case "sepa-balances":
		o = op{name: kind, job: "HKSAL", want: bal, run: func(e *env) (interface{}, error) { return e.cl.SepaAccountBalances(e.iacct, all, start) }}
	case "information":
		o = op{name: kind, job: "HKKIF", want: bal, run: func(e *env) (interface{}, error) {
			var err error
			out := captureStd(c.R, func() { err = e.cl.AccountInformation(e.acct, all) })
			return printed(out), err
		}}
	default:
		o = op{name: kind, job: "HKPRO", want: func(e *env, ver int, cont string) []string {
			return []string{day(from), day(to), anyElement, string(wire.T(cont))}
		}, run: func(e *env) (interface{}, error) { return e.cl.Status(from, to, max, start) }}
	}
	breaks := []string{"transport", "rejected", "garbage", "no reference", "same reference"}
	if rng.Intn(4) == 0 {
		p.breakAs = breaks[rng.Intn(len(breaks))]
		p.breakAt = rng.Intn(npages)
		if strings.HasSuffix(p.breakAs, "reference") && p.breakAt == npages-1 {
			p.breakAt--
		}
		if p.breakAs == "same reference" && p.breakAt == 0 && start == "" {
			// An empty reference is a missing one.
			p.breakAs = "no reference"
		}
		max = 0
	}
	e.bank.Jobs[o.job] = p.serve(rng, o, e)
	res, err, reqs := e.runOp(o)
	ver := 0
	for _, q := range reqs {
		if q.Kind == simbank.Job {
			ver = q.JobSeg.Ver
		}
	}
	for _, prob := range p.problems {
		c.Fail("request:"+kind, "%s\n%s", prob, e.bank.Trace())
	}
	var got []string
	switch v := res.(type) {
	case []domain.AccountTransaction:
		for _, t := range v {
			n := tagNumber(t.Purpose)
			if a := math.Abs(t.Amount.Amount); math.Round(a*100) != float64(n*100+n%100) {
				c.Fail("entry:"+kind, "transaction %q has amount %v", t.Purpose, t.Amount)
			}
			got = append(got, t.Purpose)
		}
	case []domain.AccountBalance:
		for _, b := range v {
			n := tagNumber(b.Account.AccountID)
			if b.BookedBalance.Amount.Amount != float64(n) {
				c.Fail("entry:"+kind, "balance of %q is %v", b.Account.AccountID, b.BookedBalance)
			}
			got = append(got, b.Account.AccountID)
		}
	case []domain.SepaAccountBalance:
		for _, b := range v {
			n := tagNumber(b.Account.IBAN)
			if b.BookedBalance.Amount.Amount != float64(n) {
				c.Fail("entry:"+kind, "balance of %q is %v", b.Account.IBAN, b.BookedBalance)
			}
			got = append(got, b.Account.IBAN)
		}
	case printed:
		// The segments are printed as the bank sent them.
		rest := string(v)
		for _, pos := range infoTag.FindAllStringIndex(rest, -1) {
			got = append(got, rest[pos[0]:pos[1]])
		}
		for _, page := range p.pages {
			for _, s := range page {
				if err != nil || p.breakAt >= 0 {
					continue
				}
				raw := bytes.Join(s.DEs, []byte("+"))
				body := string(raw)
				i := strings.Index(rest, body)
				if i < 0 {
					body = wire.UTF8(raw)
					i = strings.Index(rest, body)
				}
				if i < 0 {
					c.Fail("entry:"+kind, "the account information %q is not printed in its place: %q", body, v)
					break
				}
				rest = rest[i+len(body):]
			}
		}
	case []domain.StatusAcknowledgement:
		for _, s := range v {
			n := tagNumber(s.Text)
			if s.Code != 20+n {
				c.Fail("entry:"+kind, "status %q has code %d", s.Text, s.Code)
			}
			got = append(got, s.Text)
		}
	}
	if p.breakAt >= 0 {
		if err == nil {
			c.Fail("broken:"+kind, "%s succeeded with %q though page %d of %d went wrong (%s)\n%s", kind, got, p.breakAt, npages, p.breakAs, e.bank.Trace())
		} else if len(got) != 0 {
			c.Fail("broken:"+kind, "%s returned %q besides the error %v", kind, got, err)
		}
		c.Count("broken pages:"+p.breakAs, 1)
		c.State("%d/%s%d/%d/%d%s", e.version, kind, ver, npages, p.breakAt, p.breakAs)
		return
	}
	if err != nil {
		c.Fail("failed:"+kind, "%s failed: %v\n%s", kind, err, e.bank.Trace())
		return
	}
	want := tags
	wantPages := npages
	if max > 0 {
		// Pages are fetched until there are enough entries.
		n := 0
		for i, k := range perPage {
			n += k
			if n >= max {
				wantPages = i + 1
				break
			}
		}
		if n < len(tags) {
			want = tags[:n]
		}
		if len(got) >= max && len(got) < len(want) {
			want = want[:len(got)]
		}
		c.Count("bounded status requests", 1)
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fail("entries:"+kind, "%s returned %q, the bank sent %q on %d pages (%v)\n%s", kind, got, want, npages, perPage, e.bank.Trace())
	}
	var order []string
	for i, n := range p.served {
		order = append(order, fmt.Sprint(n))
		if i != n {
			c.Fail("pages:"+kind, "pages fetched in the order %v", p.served)
		}
	}
	if len(p.served) != wantPages {
		c.Fail("pages:"+kind, "%d of %d pages were fetched: %v", len(p.served), wantPages, order)
	}
	c.Count("pages", len(p.served))
	c.Count("entries", len(got))
	c.Count("complete:"+kind, 1)
	if open && npages > 1 {
		c.Count("open timeframes", 1)
		if midnight {
			c.Count("another day between pages", 1)
		}
	}
	c.State("%d/%s%d/%v/%d", e.version, kind, ver, perPage, max)
	if rng.Intn(500) == 0 {
		c.Sample("%s version %d: pages of %v entries, references %q", kind, ver, perPage, p.refs)
	}
}

// printed is what an operation wrote to the standard streams.
type printed string

var infoTag = regexp.MustCompile(`Tag[0-9]+X`)

// infoSegment is the information about the account with the number tag.
func infoSegment(rng *rand.Rand, e *env, tag string) simbank.Seg {
	des := [][]byte{wire.G(wire.T(tag), nil, wire.I(280), wire.T(e.bank.BankID)), wire.I(1 + rng.Intn(10)), wire.T(genText1(rng, 20))}
	for rng.Intn(3) > 0 && len(des) < 6 {
		des = append(des, wire.T(genText1(rng, 20)))
	}
	return simbank.S("HIKIF", 1, 0, des...)
}

// tagNumber is the number of a tag, 0 if it is none.
func tagNumber(t string) int {
	n := 0
	fmt.Sscanf(t, "Tag%dX", &n)
	return n
}

// taggedStatement is a MT940 message with n tagged transactions.
func taggedStatement(rng *rand.Rand, n int, tag func() string) []byte {
	var sb strings.Builder
	fmt.Fprintf(&sb, "\r\n:20:STARTUMS\r\n:25:10000000/123456\r\n:28C:%d/1\r\n:60F:C261001EUR100,00", rng.Intn(100))
	for i := 0; i < n; i++ {
		t := tag()
		k := tagNumber(t)
		fmt.Fprintf(&sb, "\r\n:61:2610021002%s%sN024NONREF\r\n:86:177?00Text?109249?20%s", []string{"C", "D"}[k%2], centsWire2(int64(k*100+k%100)), t)
	}
	sb.WriteString("\r\n:62F:C261002EUR90,00\r\n-")
	return []byte(sb.String())
}

func runP09(r *vt.Run) {
	for i := 0; i < r.N(8000, 400000); i++ {
		r.Case(fmt.Sprintf("paged/%d", i), runPaged)
	}
	for _, k := range []string{"transactions", "sepa-transactions", "balances", "sepa-balances", "status", "information"} {
		r.Require("complete:"+k, 500)
	}
	for _, k := range []string{"transport", "rejected", "garbage", "no reference", "same reference"} {
		r.Require("broken pages:"+k, 50)
	}
	r.Require("statements split over pages", 100)
	r.Require("repeated entries", 400)
	r.Require("repeated pages", 300)
	r.Require("long answers", 10)
	r.Require("bounded status requests", 200)
	r.Require("another day between pages", 50)
}
