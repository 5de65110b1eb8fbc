//go:build p10 || all

package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P10",
		rule: "a case is a list of balance segments read directly or fetched from the simulated bank; distinct states are segment version, number of segments, the optional elements present and the signs and clock forms",
		fn:   runP10,
		assumptions: []string{
			"dates and times are compared by calendar date and clock, not by time zone",
			"the account connection of versions 7 and 8 has at least the IBAN",
		},
	})
}

func genNum(rng *rand.Rand) num {
	var s string
	switch rng.Intn(8) {
	case 0:
		s = "0,"
	case 1: // sixteen significant digits would not fit a float
		s = fmt.Sprintf("%d,%02d", rng.Int63n(1e12), rng.Intn(100))
	case 2:
		s = fmt.Sprintf("%d,%03d", rng.Int63n(1e6), rng.Intn(1000))
	case 3:
		s = fmt.Sprintf("0,%0*d", 1+rng.Intn(7), rng.Intn(10))
	case 4:
		s = fmt.Sprintf("%d,", rng.Int63n(1e9))
	case 5:
		s = fmt.Sprintf("%d,%d", rng.Intn(1000), rng.Intn(10))
	default:
		s = fmt.Sprintf("%d,%02d", rng.Int63n(1e6), rng.Intn(100))
	}
	f, err := strconv.ParseFloat(strings.Replace(s+"0", ",", ".", 1), 64)
	if err != nil {
		panic(err)
	}
	return num{s, f}
}

type amtW struct {
	num
	cur string
}

func (a amtW) bytes() []byte { return wire.G(wire.Raw(a.wire), wire.Raw(a.cur)) }

type clockW struct{ h, m, s int }

func (c clockW) bytes() []byte { return wire.Raw(fmt.Sprintf("%02d%02d%02d", c.h, c.m, c.s)) }

type balW struct {
	amtW
	debit bool
	date  time.Time
	clock *clockW
	colon bool // the group ends with an empty time
}

func (b balW) bytes() []byte {
	parts := [][]byte{wire.Raw("C"), wire.Raw(b.wire), wire.Raw(b.cur), wire.Raw(day(b.date))}
	if b.debit {
		parts[0] = wire.Raw("D")
	}
	if b.clock != nil {
		parts = append(parts, b.clock.bytes())
	} else if b.colon {
		parts = append(parts, nil)
	}
	return wire.G(parts...)
}

// salW is a balance segment the bank sends.
type salW struct {
	ver       int
	acct      domain.AccountConnection
	iacct     domain.InternationalAccountConnection
	acctParts int
	product   string
	cur       string
	booked    balW
	earmarked *balW
	limit     *amtW
	avail     *amtW
	used      *amtW
	overdraft *amtW
	date      *time.Time
	clock     *clockW
	due       *time.Time
	seizable  *amtW
	trailing  bool // elements left out at the end are sent as empty elements
}

func genSal(rng *rand.Rand, ver int) *salW {
	amt := func() amtW { return amtW{genNum(rng), currencies[rng.Intn(len(currencies))]} }
	clk := func() *clockW {
		h, m, s := genClock(rng)
		return &clockW{h, m, s}
	}
	bal := func() balW {
		b := balW{amtW: amt(), debit: rng.Intn(2) == 0, date: genDate(rng), colon: rng.Intn(2) == 0}
		if rng.Intn(2) == 0 {
			b.clock = clk()
		}
		return b
	}
	opt := func() *amtW {
		if rng.Intn(2) == 0 {
			return nil
		}
		a := amt()
		return &a
	}
	s := &salW{ver: ver, product: genText1(rng, 30), cur: currencies[rng.Intn(len(currencies))], booked: bal(), trailing: rng.Intn(3) == 0}
	s.acct = domain.AccountConnection{AccountID: genText1(rng, 12), CountryCode: 280, BankID: genDigits(rng, 8)}
	if rng.Intn(2) == 0 {
		s.acct.SubAccountCharacteristics = genText1(rng, 5)
	}
	s.iacct = domain.InternationalAccountConnection{IBAN: "DE" + genDigits(rng, 20), BIC: genWord(rng, 11)}
	s.acctParts = 2
	if rng.Intn(2) == 0 {
		s.acctParts = 6
		s.iacct.AccountID = genText1(rng, 12)
		if rng.Intn(2) == 0 {
			s.iacct.SubAccountCharacteristics = genText1(rng, 5)
		}
		s.iacct.BankID = domain.BankID{CountryCode: 280, ID: genDigits(rng, 8)}
	}
	if rng.Intn(2) == 0 {
		b := bal()
		s.earmarked = &b
	}
	s.limit, s.avail, s.used = opt(), opt(), opt()
	if rng.Intn(2) == 0 {
		d := genDate(rng)
		s.date = &d
		if rng.Intn(2) == 0 {
			s.clock = clk()
		}
	}
	if rng.Intn(2) == 0 {
		d := genDate(rng)
		s.due = &d
	}
	if ver >= 6 {
		s.overdraft = opt()
	}
	if ver == 8 {
		s.seizable = opt()
	}
	return s
}

func (s *salW) seg(ref int) simbank.Seg {
	var conn []byte
	if s.ver < 7 {
		conn = wire.G(wire.T(s.acct.AccountID), wire.T(s.acct.SubAccountCharacteristics), wire.I(s.acct.CountryCode), wire.T(s.acct.BankID))
	} else {
		conn = wire.G(wire.T(s.iacct.IBAN), wire.T(s.iacct.BIC))
		if s.acctParts == 6 {
			conn = wire.G(conn, wire.T(s.iacct.AccountID), wire.T(s.iacct.SubAccountCharacteristics), wire.I(s.iacct.BankID.CountryCode), wire.T(s.iacct.BankID.ID))
		}
	}
	des := [][]byte{conn, wire.T(s.product), wire.Raw(s.cur), s.booked.bytes()}
	amt := func(a *amtW) {
		if a == nil {
			des = append(des, nil)
		} else {
			des = append(des, a.bytes())
		}
	}
	date := func(d *time.Time) {
		if d == nil {
			des = append(des, nil)
		} else {
			des = append(des, wire.Raw(day(*d)))
		}
	}
	if s.earmarked == nil {
		des = append(des, nil)
	} else {
		des = append(des, s.earmarked.bytes())
	}
	amt(s.limit)
	amt(s.avail)
	amt(s.used)
	if s.ver == 5 {
		date(s.date)
		if s.clock != nil {
			des = append(des, s.clock.bytes())
		} else {
			des = append(des, nil)
		}
	} else {
		amt(s.overdraft)
		date(s.date)
		if s.clock != nil {
			des[len(des)-1] = wire.G(des[len(des)-1], s.clock.bytes())
		}
	}
	date(s.due)
	if s.ver == 8 {
		amt(s.seizable)
	}
	if !s.trailing {
		for len(des) > 4 && len(des[len(des)-1]) == 0 {
			des = des[:len(des)-1]
		}
	}
	return simbank.S("HISAL", s.ver, ref, des...)
}

func amtStr(a *amtW) string {
	if a == nil {
		return "absent"
	}
	return fmt.Sprintf("%v %s", a.val, a.cur)
}

func amtGot(a *domain.Amount) string {
	if a == nil {
		return "absent"
	}
	return fmt.Sprintf("%v %s", a.Amount, a.Currency)
}

func clockStr(h, m, s int) string { return fmt.Sprintf("%02d:%02d:%02d", h, m, s) }

func (b *balW) String() string {
	if b == nil {
		return "absent"
	}
	v := b.val
	if b.debit {
		v = -v
	}
	if v == 0 {
		v = 0 // no negative zero
	}
	c := "absent"
	if b.clock != nil {
		c = clockStr(b.clock.h, b.clock.m, b.clock.s)
	}
	return fmt.Sprintf("%v %s of %s at %s", v+0, b.cur, day(b.date), c)
}

func balGot(b *domain.Balance) string {
	if b == nil {
		return "absent"
	}
	c := "absent"
	if b.TransmissionTime != nil {
		c = clockStr(b.TransmissionTime.Clock())
	}
	return fmt.Sprintf("%v %s of %s at %s", b.Amount.Amount+0, b.Amount.Currency, day(b.TransmissionDate), c)
}

func dateGot(d *time.Time, clock bool) string {
	if d == nil {
		return "absent"
	}
	if clock {
		return day(*d) + " " + clockStr(d.Clock())
	}
	return day(*d)
}

// want lists what has to be reported.
func (s *salW) want(sepa bool) map[string]string {
	m := map[string]string{
		"product": strconv.Quote(s.product), "currency": s.cur, "booked balance": s.booked.String(), "earmarked balance": s.earmarked.String(),
		"credit limit": amtStr(s.limit), "available amount": amtStr(s.avail), "used amount": amtStr(s.used),
		"booking date": "absent", "due date": "absent",
	}
	if s.date != nil {
		c := clockW{}
		if s.clock != nil {
			c = *s.clock
		}
		m["booking date"] = day(*s.date) + " " + clockStr(c.h, c.m, c.s)
	}
	if s.due != nil {
		m["due date"] = day(*s.due)
	}
	if s.ver < 7 {
		m["account"] = fmt.Sprintf("%+q", []string{s.acct.AccountID, s.acct.SubAccountCharacteristics, s.acct.BankID, "280"})
	} else if sepa {
		m["account"] = iacctKey(s.iacct)
	}
	if sepa {
		m["seizable amount"] = amtStr(s.seizable)
	}
	return m
}

func iacctKey(i domain.InternationalAccountConnection) string {
	return fmt.Sprintf("%+q", []string{i.IBAN, i.BIC, i.AccountID, i.SubAccountCharacteristics, i.BankID.ID, fmt.Sprint(i.BankID.CountryCode)})
}

func acctGot(b domain.AccountBalance) map[string]string {
	return map[string]string{
		"account": fmt.Sprintf("%+q", []string{b.Account.AccountID, b.Account.SubAccountCharacteristics, b.Account.BankID, fmt.Sprint(b.Account.CountryCode)}),
		"product": strconv.Quote(b.ProductName), "currency": b.Currency, "booked balance": balGot(&b.BookedBalance), "earmarked balance": balGot(b.EarmarkedBalance),
		"credit limit": amtGot(b.CreditLimit), "available amount": amtGot(b.AvailableAmount), "used amount": amtGot(b.UsedAmount),
		"booking date": dateGot(b.BookingDate, true), "due date": dateGot(b.DueDate, false),
	}
}

func sepaGot(b domain.SepaAccountBalance) map[string]string {
	return map[string]string{
		"account": iacctKey(b.Account),
		"product": strconv.Quote(b.ProductName), "currency": b.Currency, "booked balance": balGot(&b.BookedBalance), "earmarked balance": balGot(b.EarmarkedBalance),
		"credit limit": amtGot(b.CreditLimit), "available amount": amtGot(b.AvailableAmount), "used amount": amtGot(b.UsedAmount),
		"booking date": dateGot(b.BookingDate, true), "due date": dateGot(b.DueDate, false),
		"seizable amount": amtGot(b.SeizableAfterMonth),
	}
}

func cmpSal(c *vt.C, s *salW, got map[string]string, where string) {
	want := s.want(strings.HasPrefix(where, "sepa"))
	for k, w := range want {
		c.Count("fields compared", 1)
		if w == "absent" {
			c.Count("absent fields compared", 1)
		}
		if got[k] != w {
			c.Fail(fmt.Sprintf("balance field: v%d %s", s.ver, k), "%s: %s is reported as %s, the bank sent %s\nsegment: %s", where, k, got[k], w, b2s(s.lit()))
		}
	}
	st := func(b bool) string { return map[bool]string{true: "1", false: "0"}[b] }
	c.State("v%d %s %s", s.ver, where, st(s.earmarked != nil)+st(s.limit != nil)+st(s.avail != nil)+st(s.used != nil)+st(s.overdraft != nil)+st(s.date != nil)+st(s.clock != nil)+st(s.due != nil)+st(s.seizable != nil)+st(s.booked.debit)+st(s.booked.clock != nil)+st(s.trailing))
}

func (s *salW) lit() []byte {
	g := s.seg(3)
	return wire.Seg(g.ID, 5, g.Ver, g.Ref, g.DEs...)
}

func runP10(r *vt.Run) {
	n := r.N(20000, 200000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("decode/%d", i), func(c *vt.C) {
			s := genSal(c.Rng, 5+c.Rng.Intn(4))
			if s.ver == 5 && s.date == nil && c.Rng.Intn(2) == 0 { // date and time are elements of their own
				s.clock = &clockW{1, 2, 3}
			}
			seg := &segment.AccountBalanceResponseSegment{}
			if err := seg.UnmarshalHBCI(s.lit()); err != nil {
				c.Fail(fmt.Sprintf("balance not decoded: v%d", s.ver), "the balance segment is refused: %v\nsegment: %s", err, b2s(s.lit()))
				return
			}
			c.Count("segments decoded", 1)
			cmpSal(c, s, acctGot(seg.AccountBalance()), "account")
			if s.ver >= 7 {
				b, err := seg.SepaAccountBalance()
				if err != nil {
					c.Fail("no SEPA balance", "the SEPA balance of %s is refused: %v", b2s(s.lit()), err)
					return
				}
				cmpSal(c, s, sepaGot(b), "sepa")
			}
		})
	}
	n = r.N(2500, 60000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("fetch/%d", i), func(c *vt.C) { p10fetch(c) })
	}
	r.Require("segments decoded", r.N(3000, 100000))
	r.Require("balances fetched", r.N(1500, 40000))
	r.Require("absent fields compared", r.N(5000, 100000))
}

// p10fetch asks the bank for balances, which announces the version it answers
// in.
func p10fetch(c *vt.C) {
	rng := c.Rng
	e := newBank(rng, envOpts{})
	ver := 5 + rng.Intn(4)
	e.salVers = []int{ver}
	if rng.Intn(3) == 0 {
		e.salVers = append(e.salVers, []int{1, 2, 3, 4}[rng.Intn(4)])
	}
	var sals []*salW
	for i := 1 + rng.Intn(4); i > 0; i-- {
		sals = append(sals, genSal(rng, ver))
	}
	e.bank.Jobs["HKSAL"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		if job.Ver != ver {
			c.Fail("balance request version", "the bank supports version %d, the client asked in version %d", ver, job.Ver)
		}
		for _, s := range sals {
			r.Segs = append(r.Segs, s.seg(job.Pos))
		}
	}
	e.connect()
	var got []map[string]string
	var err error
	where := "account"
	site, msg, ok := vt.Try(func() {
		if ver >= 7 {
			where = "sepa"
			var bs []domain.SepaAccountBalance
			bs, err = e.cl.SepaAccountBalances(e.iacct, rng.Intn(2) == 0, "")
			for _, b := range bs {
				got = append(got, sepaGot(b))
			}
			return
		}
		var bs []domain.AccountBalance
		bs, err = e.cl.AccountBalances(e.acct, rng.Intn(2) == 0)
		for _, b := range bs {
			got = append(got, acctGot(b))
		}
	})
	if !ok {
		c.Fail("panic at "+site, "fetching balances panics: %s\n%s", msg, e.bank.Trace())
		return
	}
	if err != nil {
		c.Fail(fmt.Sprintf("balances refused: v%d", ver), "fetching %d balances in version %d fails: %v\n%s", len(sals), ver, err, e.bank.Trace())
		return
	}
	if len(got) != len(sals) {
		c.Fail("number of balances", "the bank sent %d balances, %d are reported\n%s", len(sals), len(got), e.bank.Trace())
		return
	}
	c.Count("balances fetched", len(got))
	for i, s := range sals {
		cmpSal(c, s, got[i], where)
	}
}
