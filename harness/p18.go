//go:build p18 || all

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"

	"verif/harness/vt"
)

func init() {
	register(&property{
		id:   "P18",
		rule: "a case is a year of dates, a timeframe, a text that may be a date, or a list of results printed; distinct states are the kind, the verdict and the shape",
		fn:   runP18,
		assumptions: []string{
			"a timeframe with one end only is written to JSON as none and a malformed one read as none, as the tests state",
			"texts in printed tables have no control characters; rows and their columns are compared, not the padding",
		},
	})
}

// ymd is a day without the time package.
type ymd struct{ y, m, d int }

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func (x ymd) valid() bool {
	return x.y >= 0 && x.y <= 9999 && x.m >= 1 && x.m <= 12 && x.d >= 1 && x.d <= monthDays(x.y, x.m)
}
func (x ymd) next() ymd {
	x.d++
	if x.d > monthDays(x.y, x.m) {
		x.d = 1
		x.m++
	}
	if x.m > 12 {
		x.m = 1
		x.y++
	}
	return x
}
func (x ymd) dashed() string  { return fmt.Sprintf("%04d-%02d-%02d", x.y, x.m, x.d) }
func (x ymd) compact() string { return fmt.Sprintf("%04d%02d%02d", x.y, x.m, x.d) }
func (x ymd) isZero() bool    { return x == ymd{1, 1, 1} }
func (x ymd) date() domain.ShortDate {
	return domain.NewShortDate(time.Date(x.y, time.Month(x.m), x.d, 0, 0, 0, 0, time.UTC))
}

// is compares with a date.
func (x ymd) is(s domain.ShortDate) bool {
	y, m, d := s.Time.Date()
	h, mi, se := s.Clock()
	return y == x.y && int(m) == x.m && d == x.d && h == 0 && mi == 0 && se == 0 && s.Nanosecond() == 0
}

// readDate is the verdict on a text, with separators of the length given.
func readDate(s string, sep string) (ymd, bool) {
	if len(s) != 8+2*len(sep) {
		return ymd{}, false
	}
	n := func(t string) int {
		v := 0
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return -1
			}
			v = v*10 + int(t[i]-'0')
		}
		return v
	}
	k := len(sep)
	if s[4:4+k] != sep || s[6+k:6+2*k] != sep {
		return ymd{}, false
	}
	x := ymd{n(s[:4]), n(s[4+k : 6+k]), n(s[6+2*k:])}
	return x, x.valid()
}

func genYMD(rng *rand.Rand) ymd {
	for {
		x := ymd{1 + rng.Intn(9999), 1 + rng.Intn(12), 1 + rng.Intn(31)}
		if rng.Intn(2) == 0 {
			x.y = 1990 + rng.Intn(60)
		}
		if rng.Intn(6) == 0 {
			x.m, x.d = 2, 28+rng.Intn(2)
		}
		if rng.Intn(12) == 0 {
			x = ymd{1, 1, 1}
		}
		if x.valid() {
			return x
		}
	}
}

type dated struct {
	D domain.ShortDate
	P *domain.ShortDate
	T domain.Timeframe
	Q *domain.Timeframe
	S []domain.ShortDate
	M map[domain.ShortDate]domain.Timeframe
	I interface{}
}

func runP18(r *vt.Run) {
	r.Require("dates", r.N(250000, 3000000))
	r.Require("timeframes", r.N(180000, 300000))
	r.Require("texts", r.N(240000, 400000))
	r.Require("texts_rejected", r.N(50000, 50000))
	r.Require("tables", r.N(12000, 20000))
	r.Require("rows below headings", 20000)
	r.Require("rows", r.N(48000, 80000))
	for y := 1; y <= 9999; y++ {
		y := y
		full := r.Tier == "thorough" || y >= 1850 && y < 2150
		if !full && y%37 != 0 && y > 3 && y < 9998 {
			continue
		}
		r.Case(fmt.Sprintf("year/%d", y), func(c *vt.C) {
			for x := (ymd{y, 1, 1}); x.y == y; x = x.next() {
				dateCase(c, x)
			}
			c.State("year %d", y)
		})
	}
	for i := 0; i < r.N(240000, 400000); i++ {
		r.Case(fmt.Sprintf("frame/%d", i), frameCase)
	}
	for i := 0; i < r.N(96000, 200000); i++ {
		r.Case(fmt.Sprintf("text/%d", i), dateTextCase)
	}
	for i := 0; i < r.N(96000, 200000); i++ {
		r.Case(fmt.Sprintf("zone/%d", i), zoneCase)
	}
	for i := 0; i < r.N(180000, 300000); i++ {
		r.Case(fmt.Sprintf("table/%d", i), tableCase)
	}
}

func dateCase(c *vt.C, x ymd) {
	d := x.date()
	c.Count("dates", 1)
	if !x.is(d) {
		c.Fail("date", "%v became %v", x, d)
	}
	if s := d.String(); s != x.dashed() {
		c.Fail("date-text", "%v is written %q", x, s)
	}
	b, err := d.MarshalText()
	var back domain.ShortDate
	if err == nil {
		err = back.UnmarshalText(b)
	}
	if err != nil || string(b) != x.dashed() || !x.is(back) {
		c.Fail("date-text", "%v is written %q and read %v (error %v)", x, b, back, err)
	}
	js, err := json.Marshal(d)
	want := `"` + x.dashed() + `"`
	if x.isZero() {
		want = `""` // no date
	}
	back = domain.Date(2000, 1, 2, time.UTC)
	if err == nil {
		err = json.Unmarshal(js, &back)
	}
	if err != nil || string(js) != want || !x.is(back) {
		c.Fail("date-json", "%v is written %s and read %v (error %v)", x, js, back, err)
	}
	if x.m == 3 || x.d == 1 {
		jp, err := json.Marshal(&d)
		if err != nil || string(jp) != want {
			c.Fail("date-json", "%v is written %s by pointer (error %v)", x, jp, err)
		}
	}
}

func frameCase(c *vt.C) {
	rng := c.Rng
	a, b := genYMD(rng), genYMD(rng)
	tf := domain.Timeframe{StartDate: a.date(), EndDate: b.date()}
	c.Count("timeframes", 1)
	c.State("frame %v %v %v", a.isZero(), b.isZero(), a.y == b.y)
	q := tf.ToQuery()
	if q.Get("from") != a.compact() || q.Get("to") != b.compact() {
		c.Fail("query", "%v to %v is written %v", a, b, q)
	}
	parsed, err := url.ParseQuery(q.Encode())
	if err != nil {
		c.Fail("query", "%v to %v: %v", a, b, err)
	}
	back, err := domain.TimeframeFromQuery(parsed)
	if err != nil || !a.is(back.StartDate) || !b.is(back.EndDate) {
		c.Fail("query", "%v to %v is read from %v as %v (error %v)", a, b, parsed, back, err)
	}
	if tf.IsZero() != (a.isZero() && b.isZero()) {
		c.Fail("zero", "%v to %v is zero: %v", a, b, tf.IsZero())
	}
	if s := tf.String(); !strings.Contains(s, a.dashed()+"-"+b.dashed()) {
		c.Fail("string", "%v to %v is written %q", a, b, s)
	}
	// in JSON, alone and inside other values
	wantA, wantB := a, b
	if a.isZero() || b.isZero() {
		wantA, wantB = ymd{1, 1, 1}, ymd{1, 1, 1}
	}
	same := func(t domain.Timeframe) bool { return wantA.is(t.StartDate) && wantB.is(t.EndDate) }
	p := a.date()
	in := dated{D: b.date(), P: &p, T: tf, Q: &tf, S: []domain.ShortDate{a.date(), b.date()}, M: map[domain.ShortDate]domain.Timeframe{a.date(): tf}, I: tf}
	if rng.Intn(4) == 0 {
		in.P, in.Q, in.M = nil, nil, nil
	}
	var js []byte
	if rng.Intn(2) == 0 {
		js, err = json.Marshal(in)
	} else {
		js, err = json.Marshal(&in)
	}
	if err != nil {
		c.Fail("json", "%v to %v: %v", a, b, err)
		return
	}
	if rng.Intn(3) == 0 { // blanks between the tokens
		js = []byte(strings.ReplaceAll(string(js), `:"`, ": \n\""))
	}
	out := dated{T: domain.Timeframe{StartDate: domain.Date(1999, 1, 2, time.UTC), EndDate: domain.Date(1999, 1, 3, time.UTC)}}
	if err := json.Unmarshal(js, &out); err != nil {
		c.Fail("json", "%s is not read: %v", js, err)
		return
	}
	ok := b.is(out.D) && same(out.T) && len(out.S) == 2 && a.is(out.S[0]) && b.is(out.S[1])
	if in.P != nil {
		ok = ok && out.P != nil && a.is(*out.P) && out.Q != nil && same(*out.Q) && len(out.M) == 1 && same(out.M[a.date()])
	} else {
		ok = ok && out.P == nil && out.Q == nil && out.M == nil
	}
	if !ok {
		c.Fail("json", "%v to %v is written %s and read %+v", a, b, js, out)
	}
	if !same(tf) && !(wantA != a || wantB != b) {
		c.Fail("json", "writing changed the timeframe to %v", tf)
	}
}

// nearDate is a date or something like it.
func nearDate(rng *rand.Rand, sep string) string {
	x := genYMD(rng)
	switch rng.Intn(4) {
	case 0:
		x.d = rng.Intn(34)
	case 1:
		x.m = rng.Intn(15)
	}
	s := fmt.Sprintf("%04d%s%02d%s%02d", x.y, sep, x.m, sep, x.d)
	switch rng.Intn(5) {
	case 0:
		i := rng.Intn(len(s))
		s = s[:i] + string(rune(" 0123456789-+.,:/xTZ\x00٣"[rng.Intn(20)])) + s[i+1:]
	case 1:
		i := rng.Intn(len(s) + 1)
		s = s[:i] + string(rune("0 -1T"[rng.Intn(5)])) + s[i:]
	case 2:
		i := rng.Intn(len(s))
		s = s[:i] + s[i+1:]
	}
	if rng.Intn(30) == 0 {
		s = []string{"", " ", "0", "now", "2006-01-02T00:00:00Z", "Jan 2 2006", "٢٠١٤-٠٢-٠١"}[rng.Intn(7)]
	}
	return s
}

func dateTextCase(c *vt.C) {
	rng := c.Rng
	for i := 0; i < 10; i++ {
		c.Count("texts", 2)
		s := nearDate(rng, "-")
		want, ok := readDate(s, "-")
		if !ok {
			c.Count("texts_rejected", 1)
		}
		var d domain.ShortDate
		err := d.UnmarshalText([]byte(s))
		if (err == nil) != ok || ok && !want.is(d) {
			c.Fail("text", "the text %q is read as %v (error %v)", s, d, err)
		}
		js, _ := json.Marshal(s)
		var e domain.ShortDate
		err = json.Unmarshal(js, &e)
		if s != "" && ((err == nil) != ok || ok && !want.is(e)) {
			c.Fail("text-json", "the JSON text %s is read as %v (error %v)", js, e, err)
		}
		// a timeframe
		t := nearDate(rng, "-")
		want2, ok2 := readDate(t, "-")
		js, _ = json.Marshal(s + "," + t)
		tf := domain.Timeframe{StartDate: domain.Date(1999, 1, 2, time.UTC), EndDate: domain.Date(1999, 1, 3, time.UTC)}
		err = json.Unmarshal(js, &tf)
		switch {
		case ok && ok2 && (err != nil || !want.is(tf.StartDate) || !want2.is(tf.EndDate)):
			c.Fail("text-frame", "the JSON timeframe %s is read as %v (error %v)", js, tf, err)
		case !(ok && ok2) && err == nil && !tf.IsZero():
			c.Fail("text-frame", "the malformed JSON timeframe %s is read as %v", js, tf)
		}
		// a query
		f, g := nearDate(rng, ""), nearDate(rng, "")
		wf, okf := readDate(f, "")
		wg, okg := readDate(g, "")
		q := url.Values{"from": {f}, "to": {g}, "x": {"1"}}
		switch rng.Intn(10) {
		case 0:
			delete(q, "from")
			okf = false
		case 1:
			delete(q, "to")
			okg = false
		case 2:
			q = nil
			okf = false
		}
		tf, err = domain.TimeframeFromQuery(q)
		if okf && okg {
			if err != nil || !wf.is(tf.StartDate) || !wg.is(tf.EndDate) {
				c.Fail("text-query", "the query %v is read as %v (error %v)", q, tf, err)
			}
		} else if err == nil {
			c.Count("texts_rejected", 1)
			c.Fail("text-query", "the query %v is read as %v", q, tf)
		}
		c.State("text %v %v %v %v", ok, ok2, okf, okg)
	}
	for _, js := range []string{"1", "true", "{}", "[]", `["2014-02-01"]`, `{"a":1}`, "20140201"} {
		var d domain.ShortDate
		if err := json.Unmarshal([]byte(js), &d); err == nil {
			c.Fail("text-json", "the JSON value %s is read as the date %v", js, d)
		}
	}
}

var zones = []string{"UTC", "Europe/Berlin", "America/New_York", "Pacific/Apia", "Pacific/Kiritimati", "Asia/Kathmandu", "America/Sao_Paulo", "Africa/Cairo"}

// zoneCase: the day of a time is the one of its own zone.
func zoneCase(c *vt.C) {
	rng := c.Rng
	name := zones[rng.Intn(len(zones))]
	loc, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	if rng.Intn(4) == 0 {
		loc = time.FixedZone("x", (rng.Intn(28*60)-14*60)*60)
	}
	t := time.Unix(rng.Int63n(5000000000)-1000000000, rng.Int63n(1000000000)).In(loc)
	if rng.Intn(2) == 0 { // close to midnight
		y, m, d := t.Date()
		t = time.Date(y, m, d, 0, 0, 0, 0, loc).Add(time.Duration(rng.Intn(5)-2) * time.Second)
	}
	y, m, d := t.Date()
	x := ymd{y, int(m), d}
	c.State("zone %s", name)
	c.Count("dates", 1)
	for _, s := range []domain.ShortDate{domain.NewShortDate(t), domain.Date(y, m, d, loc)} {
		if !x.is(s) || s.String() != x.dashed() {
			c.Fail("zone", "%v is the day %v", t, s)
		}
	}
	if s := domain.Date(y, m, d, time.UTC); !s.Equal(domain.NewShortDate(t).Time) {
		c.Fail("zone", "%v and %v are different days", s, domain.NewShortDate(t))
	}
	before := time.Now().UTC()
	tf := domain.TimeframeFromDate(domain.NewShortDate(t))
	after := time.Now().UTC()
	y1, m1, d1 := before.Date()
	y2, m2, d2 := after.Date()
	if !x.is(tf.StartDate) || !(ymd{y1, int(m1), d1}).is(tf.EndDate) && !(ymd{y2, int(m2), d2}).is(tf.EndDate) {
		c.Fail("zone", "the timeframe from %v is %v, now is %v", t, tf, before)
	}
}

// ---- printed tables

func cellText(rng *rand.Rand) string {
	const letters = "abcdefgXYZ0189äöüß/-.,:&"
	rs := []rune(letters)
	var b strings.Builder
	for i := 0; i < 1+rng.Intn(14); i++ {
		b.WriteRune(rs[rng.Intn(len(rs))])
	}
	if rng.Intn(4) == 0 {
		b.WriteString(" " + b.String())
	}
	return b.String()
}

// amountText has two digits behind the point.
func amountText(cents int64) string {
	sign := ""
	if cents < 0 {
		sign, cents = "-", -cents
	}
	return fmt.Sprintf("%s%d.%02d", sign, cents/100, cents%100)
}

func genAmount(rng *rand.Rand) (domain.Amount, string) {
	n := genCents(rng) % 100000000000
	f := centsFloat(n)
	if rng.Intn(2) == 0 && n != 0 {
		n, f = -n, -f
	}
	cur := currencies[rng.Intn(len(currencies))]
	return domain.Amount{Amount: f, Currency: cur}, amountText(n) + " " + cur
}

// rowHas tells whether the cells come in this order, apart from each other.
func rowHas(row string, cells []string) (string, bool) {
	for _, cell := range cells {
		if cell == "" {
			continue
		}
		i := strings.Index(row, cell)
		for i >= 0 {
			end := i + len(cell)
			if (i == 0 || strings.ContainsAny(row[i-1:i], " \t|(")) && (end == len(row) || strings.ContainsAny(row[end:end+1], " \t|)")) {
				break
			}
			j := strings.Index(row[i+1:], cell)
			if j < 0 {
				i = -1
				break
			}
			i += 1 + j
		}
		if i < 0 {
			return cell, false
		}
		row = row[i+len(cell):]
	}
	return "", true
}

// underHeads tells whether the cells of a row stand below the headings of
// their columns. An additional cell belongs to the amount.
func underHeads(head, row string, names, cells []string) (string, bool) {
	h, r := []rune(head), []rune(row)
	var at []int
	for _, n := range names {
		from := 0
		if len(at) > 0 {
			from = at[len(at)-1] + 1
		}
		i := strings.Index(string(h[from:]), n)
		if i < 0 {
			return n, false
		}
		at = append(at, from+i)
	}
	k := 0
	for i, n := range names {
		end := len(r)
		if i+1 < len(at) && at[i+1] < end {
			end = at[i+1]
		}
		mine := cells[k : k+1]
		if n == "Amount" && len(cells) > len(names) {
			mine = cells[k : k+2]
		}
		k += len(mine)
		if at[i] > end {
			if strings.Join(mine, "") != "" {
				return n, false
			}
			continue
		}
		region := string(r[at[i]:end])
		if _, ok := rowHas(region, mine); !ok {
			return n, false
		}
	}
	return "", true
}

// heads are the headings of the tables.
var heads18 = map[string][]string{
	"transactions":  {"BookingDate", "Booking Text", "Amount", "BankID", "AccountID", "Name", "Purpose"},
	"balances":      {"Product Name", "BankID", "AccountID", "BookingDate", "Amount", "Limit"},
	"sepa balances": {"Product Name", "BIC", "IBAN", "BookingDate", "Amount", "Limit"},
	"balance":       {"BankID", "AccountID", "BookingDate", "Amount"},
	"sepa balance":  {"BIC", "IBAN", "BookingDate", "Amount"},
	"accounts":      {"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"},
	"account":       {"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"},
}

func checkTable(c *vt.C, what, text string, rows [][]string, before, after []string) {
	c.Count("tables", 1)
	c.Count("rows", len(rows))
	c.State("table %s %d", what, len(rows))
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	// the heading of the columns is the line before the rows
	var want [][]string
	for _, b := range before {
		want = append(want, strings.Fields(b))
	}
	want = append(want, nil)
	want = append(want, rows...)
	for _, a := range after {
		want = append(want, strings.Fields(a))
	}
	if len(lines) != len(want) {
		c.Fail("table-rows", "%s: %d lines instead of %d:\n%s", what, len(lines), len(want), text)
		return
	}
	for i, cells := range want {
		if cell, ok := rowHas(lines[i], cells); !ok {
			c.Fail("table-cell", "%s: %q is missing or misplaced in line %d %q of\n%s", what, cell, i, lines[i], text)
			return
		}
		if names := heads18[what]; names != nil && i > len(before) && i <= len(before)+len(rows) {
			if name, ok := underHeads(lines[len(before)], lines[i], names, cells); !ok {
				c.Fail("table-head", "%s: line %d %q does not fit the heading %q of\n%s", what, i, lines[i], name, text)
				return
			}
			c.Count("rows below headings", 1)
		}
	}
}

func tableCase(c *vt.C) {
	rng := c.Rng
	n := rng.Intn(6)
	day := func() (time.Time, string) {
		x := genYMD(rng)
		return time.Date(x.y, time.Month(x.m), x.d, rng.Intn(24), 0, 0, 0, time.UTC), x.dashed()
	}
	var rows [][]string
	switch rng.Intn(5) {
	case 0: // transactions
		var list domain.AccountTransactions
		var before, after []string
		acct := domain.AccountConnection{BankID: genDigits(rng, 8), AccountID: genDigits(rng, 10)}
		for i := 0; i < n; i++ {
			amount, amountStr := genAmount(rng)
			booked, bookedStr := day()
			t := domain.AccountTransaction{Account: acct, Amount: amount, BookingDate: booked, BookingText: cellText(rng), BankID: genDigits(rng, 8), AccountID: genDigits(rng, 9), Name: cellText(rng), Purpose: cellText(rng)}
			ba, bs := genAmount(rng)
			aa, as := genAmount(rng)
			bd, bds := day()
			ad, ads := day()
			t.AccountBalanceBefore = domain.Balance{Amount: ba, TransmissionDate: bd}
			t.AccountBalanceAfter = domain.Balance{Amount: aa, TransmissionDate: ad}
			if i == 0 {
				before = []string{"Transactions for account " + acct.BankID + "/" + acct.AccountID, "Balance at " + bds + ": " + bs}
			}
			after = []string{"Balance at " + ads + ": " + as}
			for again := rng.Intn(4) / 3; again >= 0; again-- { // equal ones are rows of their own
				list = append(list, t)
				rows = append(rows, []string{bookedStr, t.BookingText, amountStr, t.BankID, t.AccountID, t.Name, t.Purpose})
			}
			checkTable(c, "transaction", t.String(), [][]string{{bookedStr, amountStr, t.BankID, t.AccountID, t.Purpose}}, nil, nil)
		}
		checkTable(c, "transactions", list.String(), rows, before, after)
	case 1, 2: // balances
		sepa := rng.Intn(2) == 0
		var list domain.AccountBalances
		var slist domain.SepaAccountBalances
		earmarked := false
		for i := 0; i < n; i++ {
			amount, amountStr := genAmount(rng)
			d, ds := day()
			b := domain.AccountBalance{ProductName: cellText(rng), Account: domain.AccountConnection{BankID: genDigits(rng, 8), AccountID: genDigits(rng, 9)}, BookedBalance: domain.Balance{Amount: amount, TransmissionDate: d}}
			cells := []string{b.ProductName, b.Account.BankID, b.Account.AccountID, ds, amountStr}
			s := domain.SepaAccountBalance{ProductName: b.ProductName, Account: domain.InternationalAccountConnection{BIC: genWord(rng, 11), IBAN: "DE" + genDigits(rng, 20)}, BookedBalance: b.BookedBalance}
			if sepa {
				cells[1], cells[2] = s.Account.BIC, s.Account.IBAN
			}
			single := append([]string(nil), cells[1:]...)
			if rng.Intn(2) == 0 {
				ea, eas := genAmount(rng)
				b.EarmarkedBalance = &domain.Balance{Amount: ea}
				s.EarmarkedBalance = b.EarmarkedBalance
				if ea.Amount != 0 {
					cells = append(cells, eas)
					earmarked = true
				}
			}
			if rng.Intn(2) == 0 {
				la, las := genAmount(rng)
				b.CreditLimit, s.CreditLimit = &la, &la
				cells = append(cells, las)
			} else {
				cells = append(cells, "-")
			}
			for again := rng.Intn(4) / 3; again >= 0; again-- {
				list, slist = append(list, b), append(slist, s)
				rows = append(rows, cells)
			}
			if sepa {
				checkTable(c, "sepa balance", s.String(), [][]string{single}, nil, nil)
			} else {
				checkTable(c, "balance", b.String(), [][]string{single}, nil, nil)
			}
		}
		var after []string
		if earmarked {
			after = []string{"earmarked"}
		}
		if sepa {
			checkTable(c, "sepa balances", unmark(slist.String()), rows, nil, after)
		} else {
			checkTable(c, "balances", unmark(list.String()), rows, nil, after)
		}
	case 3: // accounts
		var list domain.AccountInfos
		for i := 0; i < n; i++ {
			a := domain.AccountInformation{AccountConnection: domain.AccountConnection{BankID: genDigits(rng, 8), AccountID: genDigits(rng, 9)}, UserID: cellText(rng), Currency: "EUR", Name1: cellText(rng), Name2: cellText(rng), ProductID: cellText(rng)}
			cells := []string{a.AccountConnection.BankID, a.AccountConnection.AccountID, a.UserID, a.Currency, a.Name1 + ", " + a.Name2, a.ProductID}
			if rng.Intn(2) == 0 {
				la, las := genAmount(rng)
				a.Limit = &domain.AccountLimit{Kind: "E", Amount: la}
				cells = append(cells, "E: "+las)
			} else {
				cells = append(cells, "-")
			}
			for again := rng.Intn(4) / 3; again >= 0; again-- {
				list = append(list, a)
				rows = append(rows, cells)
			}
			checkTable(c, "account", a.String(), [][]string{cells}, nil, nil)
		}
		checkTable(c, "accounts", list.String(), rows, nil, nil)
	default:
		i := domain.InternationalAccountConnection{IBAN: cellText(rng), BIC: cellText(rng), AccountID: cellText(rng), SubAccountCharacteristics: cellText(rng), BankID: domain.BankID{CountryCode: rng.Intn(999), ID: cellText(rng)}}
		want := domain.AccountConnection{AccountID: i.AccountID, SubAccountCharacteristics: i.SubAccountCharacteristics, CountryCode: i.BankID.CountryCode, BankID: i.BankID.ID}
		if got := i.ToAccountConnection(); !reflect.DeepEqual(got, want) {
			c.Fail("connection", "%+v became %+v", i, got)
		}
		c.State("connection")
	}
}

// unmark takes the mark of earmarked amounts away.
func unmark(s string) string { return strings.ReplaceAll(s, ")*", ") ") }
