//go:build p12 || all

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P12",
		rule: "a case is a set of announced versions, in some order and multiplicity; distinct states are job, announced versions and the version requested",
		fn:   runP12,
		assumptions: []string{
			"the library implements balances 5 and 6 (SEPA 7 and 8), transactions 5 and 6 (SEPA 7) and status protocols 3 and 4",
			"when the announcement changes in the dialog of a job itself, its old and its new version are both right",
		},
	})
}

// jobKind is a job with the versions the library implements.
type jobKind struct {
	op, param string
	vers      []int
}

var versionedJobs = []jobKind{
	{"balances", "HISALS", []int{5, 6}},
	{"sepa-balances", "HISALS", []int{7, 8}},
	{"transactions", "HIKAZS", []int{5, 6}},
	{"sepa-transactions", "HIKAZS", []int{7}},
	{"status", "HIPROS", []int{3, 4}},
	{"tan", "HITANS", []int{1, 6}},
}

// best is the highest version both have, or 0.
func (j jobKind) best(announced []int) int {
	b := 0
	for _, a := range announced {
		for _, v := range j.vers {
			if a == v && v > b {
				b = v
			}
		}
	}
	return b
}

// build asks the builder functions of the library for a request.
func (j jobKind) build(versions []int) (int, error) {
	var s segment.Segment
	acct, iacct := domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10020030"}, domain.InternationalAccountConnection{IBAN: "DE1", BIC: "X"}
	switch j.op {
	case "balances":
		f, err := segment.AccountBalanceRequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f(acct, false)
	case "sepa-balances":
		f, err := segment.SepaAccountBalanceRequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f(iacct, false)
	case "transactions":
		f, err := segment.AccountTransactionRequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f(acct, false)
	case "sepa-transactions":
		f, err := segment.SepaAccountTransactionRequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f(iacct, false)
	case "tan":
		f, err := segment.TanProcess4RequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f("HKIDN")
	default:
		f, err := segment.StatusProtocolRequestBuilder(versions)
		if err != nil {
			return 0, err
		}
		s = f(time.Unix(0, 0), time.Unix(0, 0), 1, "")
	}
	return versionOf(s)
}

// buildBy asks a Builder for a request.
func (j jobKind) buildBy(b segment.Builder) (int, error) {
	var s segment.Segment
	var err error
	acct, iacct := domain.AccountConnection{AccountID: "1", CountryCode: 280, BankID: "10020030"}, domain.InternationalAccountConnection{IBAN: "DE1", BIC: "X"}
	switch j.op {
	case "balances":
		s, err = b.AccountBalanceRequest(acct, false)
	case "sepa-balances":
		s, err = b.SepaAccountBalanceRequest(iacct, false)
	case "transactions":
		s, err = b.AccountTransactionRequest(acct, false)
	case "sepa-transactions":
		s, err = b.SepaAccountTransactionRequest(iacct, false)
	default:
		s, err = b.StatusProtocolRequest(time.Unix(0, 0), time.Unix(0, 0), 1, "")
	}
	if err != nil {
		return 0, err
	}
	return versionOf(s)
}

// versionOf is the version in the header of the request as it is sent.
func versionOf(s segment.Segment) (int, error) {
	raw, err := s.(segment.Marshaler).MarshalHBCI()
	if err != nil {
		return 0, fmt.Errorf("marshaling: %v", err)
	}
	segs, err := wire.Parse(raw)
	if err != nil || len(segs) != 1 {
		return 0, fmt.Errorf("request %q: %v", raw, err)
	}
	return segs[0].Ver, nil
}

func (j jobKind) check(c *vt.C, how string, announced []int, got int, err error) {
	want := j.best(announced)
	switch {
	case want == 0 && err == nil:
		c.Fail("version:"+j.op, "%s %s: version %d is used although none of %v is implemented", how, j.op, got, announced)
	case want != 0 && err != nil:
		c.Fail("version:"+j.op, "%s %s: with versions %v announced it fails: %v", how, j.op, announced, err)
	case got != want:
		c.Fail("version:"+j.op, "%s %s: with versions %v announced, version %d is used instead of %d", how, j.op, announced, got, want)
	}
	c.Count("versions chosen", 1)
	if want == 0 {
		c.Count("without a common version", 1)
	}
	s := append([]int(nil), announced...)
	sort.Ints(s)
	c.State("%s %v %d", j.op, s, got)
}

func runP12(r *vt.Run) {
	for ji, j := range versionedJobs {
		for set := 0; set < 1<<10; set++ {
			ji, j, set := ji, j, set
			r.Case(fmt.Sprintf("set/%d/%d", ji, set), func(c *vt.C) {
				var base []int
				for v := 0; v < 10; v++ {
					if set&(1<<v) != 0 {
						base = append(base, v)
					}
				}
				for k := 0; k < 4; k++ {
					vs := append([]int(nil), base...)
					switch k {
					case 1:
						for a, b := 0, len(vs)-1; a < b; a, b = a+1, b-1 {
							vs[a], vs[b] = vs[b], vs[a]
						}
					case 2, 3:
						for _, v := range base {
							if c.Rng.Intn(3) == 0 {
								vs = append(vs, v)
							}
						}
						if c.Rng.Intn(3) == 0 {
							vs = append(vs, []int{10, 15, 57, 999, -5}[c.Rng.Intn(5)])
						}
						c.Rng.Shuffle(len(vs), func(a, b int) { vs[a], vs[b] = vs[b], vs[a] })
					}
					before := append([]int(nil), vs...)
					got, err := j.build(vs)
					if !reflect.DeepEqual(append([]int(nil), vs...), before) {
						c.Fail("list changed", "the list of versions is %v after the call and was %v", vs, before)
					}
					j.check(c, "builder function", before, got, err)
					var segs []segment.VersionedSegment
					for _, v := range before {
						segs = append(segs, segment.VersionedSegment{ID: j.param, Version: v})
					}
					for _, o := range versionedJobs {
						if o.param != j.param {
							segs = append(segs, segment.VersionedSegment{ID: o.param, Version: c.Rng.Intn(10)})
						}
					}
					segs = append(segs, segment.VersionedSegment{ID: j.param[:5], Version: 6}, segment.VersionedSegment{ID: j.param + "S", Version: 6}, segment.VersionedSegment{ID: "DK" + j.param[2:], Version: 5})
					c.Rng.Shuffle(len(segs), func(a, b int) { segs[a], segs[b] = segs[b], segs[a] })
					if j.op == "tan" {
						continue // the Builder makes no TAN requests
					}
					got, err = j.buildBy(segment.NewBuilder(segs))
					j.check(c, "Builder", before, got, err)
				}
			})
		}
	}
	n := r.N(5000, 80000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("client/%d", i), func(c *vt.C) { p12client(c) })
	}
	r.Require("versions chosen", r.N(20000, 20000))
	r.Require("jobs sent in the version expected", r.N(3000, 80000))
	r.Require("operations refused before any job", r.N(500, 10000))
}

// announce draws what the bank announces for each parameter segment.
func announce(rng *rand.Rand) map[string][]int {
	m := map[string][]int{}
	for _, id := range []string{"HISALS", "HIKAZS", "HIPROS"} {
		for k := rng.Intn(7); k > 0; k-- {
			m[id] = append(m[id], []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 57, 3, 4, 5, 6, 7, 8}[rng.Intn(17)])
		}
	}
	return m
}

func p12client(c *vt.C) {
	rng := c.Rng
	e := newBank(rng, envOpts{hostile: rng.Intn(3) == 0})
	cur := announce(rng)
	next, seen := cur, false
	var history []map[string][]int // announcements the client may go by
	e.bank.Params = func(req *simbank.Request) []simbank.Seg {
		cur, seen = next, true
		history = append(history, cur)
		segs := []simbank.Seg{bpdW(e.version, e.bpdVer, e.bank.BankID, "Testbank")}
		var sup []simbank.Seg
		for _, id := range []string{"HISALS", "HIKAZS", "HIPROS"} {
			for _, v := range cur[id] {
				sup = append(sup, supW(id, v))
				if rng.Intn(6) == 0 {
					sup = append(sup, supW(id, v))
				}
			}
			// segments that are none of the announcements
			if rng.Intn(3) == 0 {
				sup = append(sup, supW("DK"+id[2:], 5+rng.Intn(3)))
			}
			if rng.Intn(3) == 0 {
				sup = append(sup, supW(id[:5]+"X", 5+rng.Intn(3)))
			}
		}
		rng.Shuffle(len(sup), func(i, j int) { sup[i], sup[j] = sup[j], sup[i] })
		segs = append(segs, sup...)
		if req.Kind != simbank.AnonInit {
			segs = append(segs, upaW(e.version, e.bank.UserID, e.updVer), e.accts[0].seg(e.bank.BankID))
		}
		return segs
	}
	e.connect()
	for k := 1 + rng.Intn(4); k > 0; k-- {
		j := versionedJobs[rng.Intn(len(versionedJobs)-1)] // all but tan, which no operation sends
		var o op
		for _, x := range genOps(e) {
			if x.name == j.op {
				o = x
			}
		}
		if rng.Intn(3) == 0 {
			next = announce(rng)
		}
		history = history[:0]
		if seen {
			history = append(history, cur)
		}
		_, err, reqs := e.runOp(o)
		ok := map[int]bool{}
		for _, a := range history {
			ok[j.best(a[j.param])] = true
		}
		var sent []int
		for _, q := range reqs {
			if q.Kind == simbank.Job {
				sent = append(sent, q.JobSeg.Ver)
			}
		}
		for _, v := range sent {
			if !ok[v] || v == 0 {
				c.Fail("client version:"+j.op, "%s is sent in version %d; the bank announced %v (at first %v)\n%s", j.op, v, cur[j.param], history[0][j.param], e.bank.Trace())
			} else {
				c.Count("jobs sent in the version expected", 1)
			}
		}
		switch {
		case len(ok) == 1 && ok[0]:
			if err == nil || len(sent) > 0 {
				c.Fail("client without version:"+j.op, "%s reports the error %v and sends %d jobs; the bank announced %v\n%s", j.op, err, len(sent), cur[j.param], e.bank.Trace())
			} else {
				c.Count("operations refused before any job", 1)
			}
		case !ok[0]:
			if err != nil {
				c.Fail("client refused:"+j.op, "%s fails: %v; the bank announced %v\n%s", j.op, err, cur[j.param], e.bank.Trace())
			}
			if len(sent) == 0 {
				c.Fail("client sent nothing:"+j.op, "%s sends no job; the bank announced %v\n%s", j.op, cur[j.param], e.bank.Trace())
			}
		}
		c.State("client %s %v %v", j.op, cur[j.param], sent)
	}
}
