//go:build p11 || all

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/swift"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P11",
		rule: "a case is a sequence of statements, read whole, cut off or damaged; distinct states are the tags, indicators, dates and detail fields present and the kind of damage",
		fn:   runP11,
		assumptions: []string{
			"two-digit years belong to this century, booking dates lie within half a year of the valuta date",
			"detail texts contain no question mark and no line starts with a colon or a dash",
			"every field key occurs at most once in the details of a transaction",
		},
	})
}

type mtBal struct {
	kind     string // F or M
	debit    bool
	bankYear bool
	date     time.Time // zero for the first statement of an account
	cur      string
	amt      num
}

func genMTNum(rng *rand.Rand) num {
	switch rng.Intn(5) {
	case 0:
		c := rng.Int63n(1e13)
		return num{fmt.Sprintf("%d,%02d", c/100, c%100), centsFloat(c)}
	case 1:
		n := rng.Int63n(1e6)
		return num{fmt.Sprintf("%d,", n), float64(n)}
	case 2:
		n := rng.Intn(1e5)
		return num{fmt.Sprintf("%d,%d", n/10, n%10), centsFloat(int64(n) * 10)}
	}
	c := genCents(rng)
	return num{fmt.Sprintf("%d,%02d", c/100, c%100), centsFloat(c)}
}

func genMTDate(rng *rand.Rand) time.Time {
	y := 2000 + rng.Intn(100)
	switch rng.Intn(7) {
	case 3:
		return time.Date(y, 3, 1+rng.Intn(2), 0, 0, 0, 0, time.UTC)
	case 0:
		return time.Date(y, 12, 25+rng.Intn(7), 0, 0, 0, 0, time.UTC)
	case 1:
		return time.Date(y, 1, 1+rng.Intn(7), 0, 0, 0, 0, time.UTC)
	case 2:
		return time.Date(y/4*4, 2, 27+rng.Intn(3), 0, 0, 0, 0, time.UTC)
	}
	return time.Date(y, time.Month(1+rng.Intn(12)), 1+rng.Intn(28), 0, 0, 0, 0, time.UTC)
}

// mtDay writes a date. In the calendar of the banks, where each month has 30
// days, the first days of March may be the 29th and 30th of February.
func mtDay(d time.Time, bankYear bool) string {
	if last := time.Date(d.Year(), 3, 0, 0, 0, 0, 0, time.UTC).Day(); bankYear && d.Month() == 3 && last+d.Day() <= 30 {
		return fmt.Sprintf("%s02%02d", d.Format("06"), last+d.Day())
	}
	return d.Format("060102")
}

func genMTBal(rng *rand.Rand) mtBal {
	return mtBal{bankYear: rng.Intn(2) == 0, kind: []string{"F", "F", "M"}[rng.Intn(3)], debit: rng.Intn(2) == 0, date: genMTDate(rng), cur: currencies[rng.Intn(7)], amt: genMTNum(rng)}
}

func (b mtBal) String() string {
	ind, date := "C", "000000"
	if b.debit {
		ind = "D"
	}
	if !b.date.IsZero() {
		date = mtDay(b.date, b.bankYear)
	}
	return ind + date + b.cur + b.amt.wire
}

func (b mtBal) want() string {
	v := b.amt.val
	if b.debit {
		v = -v
	}
	return fmt.Sprintf("%v %s %s", v+0, b.cur, day(b.date))
}

func mtBalGot(b domain.Balance) string {
	return fmt.Sprintf("%v %s %s", b.Amount.Amount+0, b.Amount.Currency, day(b.TransmissionDate))
}

func mtTagGot(b *swift.BalanceTag) string {
	if b == nil {
		return "absent"
	}
	return mtBalGot(b.Balance())
}

type mtDetails struct {
	code   int
	fields map[int]string
	order  []int
	free   []string // unstructured lines
	isFree bool
	wrap   int
}

type mtTx struct {
	valuta, booking time.Time // booking is zero if left out
	ind, kind       string
	bankYear        bool
	amt             num
	key             string
	ref             string
	bankRef, info   string
	details         *mtDetails
}

type mtStmt struct {
	job, ref   string
	bank, acct string
	num, sheet int // sheet < 0 is left out
	start, end mtBal
	txs        []mtTx
	valuta     *mtBal
	future     []mtBal
	custom     *mtDetails
}

const mtChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 /-:().,'+&@=!\"#%*;<>äöüÄÖÜß§éñ"

// mtText draws a text that neither begins nor ends a line badly and has no
// question mark.
func mtText(rng *rand.Rand, n int) string {
	r := []rune(mtChars)
	k := 1 + rng.Intn(n)
	out := make([]rune, k)
	for i := range out {
		out[i] = r[rng.Intn(len(r))]
	}
	return string(out)
}

func mtRef(rng *rand.Rand) string {
	if rng.Intn(3) == 0 {
		return "NONREF"
	}
	return genWord(rng, 16)
}

func genDetails(rng *rand.Rand, kind int) *mtDetails {
	d := &mtDetails{code: rng.Intn(1000), fields: map[int]string{}, wrap: []int{0, 20, 65}[rng.Intn(3)]}
	if kind == 1 { // unstructured
		d.isFree = true
		for i := 1 + rng.Intn(3); i > 0; i-- {
			d.free = append(d.free, "T"+mtText(rng, 60)+[]string{".", ".", " ", ""}[rng.Intn(4)])
		}
		return d
	}
	for _, k := range []int{0, 10, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 60, 61, 62, 63} {
		if rng.Intn(2) == 0 {
			continue
		}
		switch k {
		case 30:
			d.fields[k] = []string{genDigits(rng, 8), genWord(rng, 11)}[rng.Intn(2)]
		case 31:
			d.fields[k] = []string{genDigits(rng, 10), "DE" + genDigits(rng, 20)}[rng.Intn(2)]
		case 33:
			if _, ok := d.fields[32]; ok {
				d.fields[k] = mtText(rng, 27)
			}
		case 34:
			d.fields[k] = fmt.Sprintf("%03d", rng.Intn(1000))
		default:
			d.fields[k] = mtText(rng, 27)
		}
	}
	for k := range d.fields {
		d.order = append(d.order, k)
	}
	sort.Ints(d.order)
	if rng.Intn(3) == 0 {
		rng.Shuffle(len(d.order), func(i, j int) { d.order[i], d.order[j] = d.order[j], d.order[i] })
	}
	return d
}

func (d *mtDetails) bytes() []byte {
	if d.isFree {
		return wire.Latin1(strings.Join(d.free, "\r\n"))
	}
	b := []byte(fmt.Sprintf("%03d", d.code))
	for _, k := range d.order {
		b = append(b, fmt.Sprintf("?%02d", k)...)
		b = append(b, wire.Latin1(d.fields[k])...)
	}
	if d.wrap == 0 {
		return b
	}
	var out []byte
	line := 0
	for i, c := range b {
		if line >= d.wrap && c != ':' && c != '-' && c != '/' && i > 3 {
			out = append(out, '\r', '\n')
			line = 0
		}
		out = append(out, c)
		line++
	}
	return out
}

func (d *mtDetails) join(from, to int) string {
	var parts []string
	for k := from; k <= to; k++ {
		if v, ok := d.fields[k]; ok {
			parts = append(parts, v)
		}
	}
	return strings.Join(parts, " ")
}

func (d *mtDetails) name() string {
	n := d.fields[32]
	if v, ok := d.fields[33]; ok {
		n += " " + v
	}
	return n
}

func genTx(rng *rand.Rand) mtTx {
	t := mtTx{bankYear: rng.Intn(2) == 0, valuta: genMTDate(rng), ind: []string{"C", "D", "RC", "RD"}[rng.Intn(4)], amt: genMTNum(rng), key: genUpper(rng, 3), ref: mtRef(rng)}
	if rng.Intn(5) > 0 {
		t.booking = t.valuta.AddDate(0, 0, []int{0, 1, -1, rng.Intn(14) - 7, rng.Intn(341) - 170}[rng.Intn(5)])
	}
	if rng.Intn(2) == 0 {
		t.kind = string("RDCFPYX"[rng.Intn(7)])
	}
	if rng.Intn(2) == 0 {
		t.bankRef = genWord(rng, 16)
	}
	if rng.Intn(3) == 0 {
		t.info = "OCMT/EUR" + genMTNum(rng).wire + "/"
		if t.bankRef != "" && rng.Intn(2) == 0 {
			t.info += "/CHGS/EUR" + genMTNum(rng).wire + "/"
		}
	}
	switch rng.Intn(8) {
	case 0:
	case 1:
		t.details = genDetails(rng, 1)
	default:
		t.details = genDetails(rng, 0)
	}
	return t
}

func genUpper(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[rng.Intn(36)]
	}
	return string(b)
}

func (t mtTx) bytes() []byte {
	s := ":61:" + mtDay(t.valuta, t.bankYear)
	if !t.booking.IsZero() {
		s += mtDay(t.booking, t.bankYear)[2:]
	}
	s += t.ind + t.kind + t.amt.wire + "N" + t.key + t.ref
	if t.bankRef != "" {
		s += "//" + t.bankRef
	}
	if t.info != "" {
		s += "\r\n/" + t.info
	}
	return []byte(s)
}

func genStmt(rng *rand.Rand, maxTx int) *mtStmt {
	s := &mtStmt{job: genWord(rng, 16), bank: genDigits(rng, 8), acct: genDigits(rng, 10), num: 1 + rng.Intn(99999), sheet: rng.Intn(5) - 1, start: genMTBal(rng), end: genMTBal(rng)}
	if rng.Intn(3) == 0 {
		s.ref = mtRef(rng)
	}
	if rng.Intn(4) == 0 {
		s.bank = genUpper(rng, 8) // a BIC
	}
	if rng.Intn(6) == 0 {
		s.start.date = time.Time{}
	}
	for i := rng.Intn(maxTx + 1); i > 0; i-- {
		if n := len(s.txs); n > 0 && rng.Intn(6) == 0 {
			s.txs = append(s.txs, s.txs[rng.Intn(n)]) // the same again
			continue
		}
		s.txs = append(s.txs, genTx(rng))
	}
	if rng.Intn(3) == 0 {
		b := genMTBal(rng)
		s.valuta = &b
	}
	for i := rng.Intn(5) - 2; i > 0; i-- {
		s.future = append(s.future, genMTBal(rng))
	}
	if rng.Intn(4) == 0 {
		s.custom = genDetails(rng, 1)
	}
	return s
}

// lines are the fields of the statement.
func (s *mtStmt) lines() [][]byte {
	var l [][]byte
	add := func(tag string, v []byte) { l = append(l, append([]byte(tag), v...)) }
	add(":20:", []byte(s.job))
	if s.ref != "" {
		add(":21:", []byte(s.ref))
	}
	add(":25:", []byte(s.bank+"/"+s.acct))
	n := fmt.Sprint(s.num)
	if s.sheet >= 0 {
		n += fmt.Sprintf("/%d", s.sheet)
	}
	add(":28C:", []byte(n))
	add(":60"+s.start.kind+":", []byte(s.start.String()))
	for _, t := range s.txs {
		l = append(l, t.bytes())
		if t.details != nil {
			add(":86:", t.details.bytes())
		}
	}
	add(":62"+s.end.kind+":", []byte(s.end.String()))
	if s.valuta != nil {
		add(":64:", []byte(s.valuta.String()))
	}
	for _, f := range s.future {
		add(":65:", []byte(f.String()))
	}
	if s.custom != nil {
		add(":86:", s.custom.bytes())
	}
	return l
}

func joinLines(l [][]byte) []byte {
	var b []byte
	for _, x := range l {
		b = append(b, '\r', '\n')
		b = append(b, x...)
	}
	return append(b, "\r\n-"...)
}

func (s *mtStmt) bytes() []byte { return joinLines(s.lines()) }

// want are the transactions to be reported.
func (s *mtStmt) want() []map[string]string {
	var out []map[string]string
	for _, t := range s.txs {
		v := t.amt.val
		if t.ind == "D" || t.ind == "RC" {
			v = -v
		}
		m := map[string]string{
			"account": fmt.Sprintf("280 %q %q", s.bank, s.acct), "amount": fmt.Sprintf("%v %s", v+0, s.start.cur),
			"valuta": day(t.valuta), "booking date": day(t.booking), "before": s.start.want(), "after": s.end.want(),
			"booking text": `""`, "bank": `""`, "account of the other": `""`, "name": `""`, "purpose": `""`, "purpose 2": `""`, "code": "0",
		}
		if d := t.details; d != nil && d.isFree {
			m["purpose"] = fmt.Sprintf("%q", strings.Join(d.free, " "))
		} else if d != nil {
			m["booking text"] = fmt.Sprintf("%q", d.fields[0])
			m["bank"] = fmt.Sprintf("%q", d.fields[30])
			m["account of the other"] = fmt.Sprintf("%q", d.fields[31])
			m["name"] = fmt.Sprintf("%q", d.name())
			m["purpose"] = fmt.Sprintf("%q", d.join(20, 29))
			m["purpose 2"] = fmt.Sprintf("%q", d.join(60, 63))
			m["code"] = fmt.Sprint(d.code)
		}
		out = append(out, m)
	}
	return out
}

func txGot(t domain.AccountTransaction) map[string]string {
	return map[string]string{
		"account": fmt.Sprintf("%d %q %q", t.Account.CountryCode, t.Account.BankID, t.Account.AccountID), "amount": fmt.Sprintf("%v %s", t.Amount.Amount+0, t.Amount.Currency),
		"valuta": day(t.ValutaDate), "booking date": day(t.BookingDate), "before": mtBalGot(t.AccountBalanceBefore), "after": mtBalGot(t.AccountBalanceAfter),
		"booking text": fmt.Sprintf("%q", t.BookingText), "bank": fmt.Sprintf("%q", t.BankID), "account of the other": fmt.Sprintf("%q", t.AccountID),
		"name": fmt.Sprintf("%q", t.Name), "purpose": fmt.Sprintf("%q", t.Purpose), "purpose 2": fmt.Sprintf("%q", t.Purpose2), "code": fmt.Sprint(t.TransactionID),
	}
}

// cmpTxs compares the reported transactions with those of the statements.
func cmpTxs(c *vt.C, stmts []*mtStmt, got []domain.AccountTransaction, data []byte) {
	var want []map[string]string
	for _, s := range stmts {
		want = append(want, s.want()...)
	}
	if len(got) != len(want) {
		c.Fail("number of transactions", "%d transactions are reported, the statements have %d\n%s", len(got), len(want), b2s(data))
		return
	}
	c.Count("transactions compared", len(got))
	for i, w := range want {
		g := txGot(got[i])
		for k, v := range w {
			if g[k] != v {
				c.Fail("transaction: "+k, "transaction %d: the %s is reported as %s, the statement says %s\n%s", i, k, g[k], v, b2s(data))
			}
		}
	}
	for _, s := range stmts {
		for _, t := range s.txs {
			d := "none"
			if t.details != nil && t.details.isFree {
				d = "free"
			} else if t.details != nil {
				n := 0
				for k := range t.details.fields {
					n |= 1 << (k / 10)
				}
				d = fmt.Sprint(n, t.details.wrap, sort.IntsAreSorted(t.details.order))
			}
			c.State("%s%v booked %v ref %v %v info %v years %d details %s first %v", t.ind, t.kind != "", !t.booking.IsZero(), t.ref == "NONREF", t.bankRef != "", t.info != "", t.booking.Year()-t.valuta.Year(), d, s.start.date.IsZero())
			if mtDay(t.valuta, t.bankYear) != mtDay(t.valuta, false) {
				c.Count("dates only banks know", 1)
			}
			if !t.booking.IsZero() && t.booking.Year() != t.valuta.Year() {
				c.Count("booked in another year than the valuta date", 1)
			}
		}
	}
}

func runP11(r *vt.Run) {
	n := r.N(48000, 300000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("read/%d", i), func(c *vt.C) { p11read(c) })
	}
	n = r.N(6000, 30000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("cut/%d", i), func(c *vt.C) { p11cut(c) })
	}
	n = r.N(32000, 200000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("damage/%d", i), func(c *vt.C) { p11damage(c) })
	}
	n = r.N(3200, 20000)
	for i := 0; i < n; i++ {
		r.Case(fmt.Sprintf("fetch/%d", i), func(c *vt.C) { p11fetch(c) })
	}
	r.Require("repeated statements", 200)
	r.Require("transactions compared", r.N(40000, 200000))
	r.Require("cut off statements refused", r.N(40000, 200000))
	r.Require("damaged statements refused", r.N(16000, 100000))
	r.Require("dates only banks know", 300)
	r.Require("booked in another year than the valuta date", r.N(1200, 5000))
}

func p11read(c *vt.C) {
	rng := c.Rng
	var stmts []*mtStmt
	var data []byte
	for i := 1 + rng.Intn(3); i > 0; i-- {
		s := genStmt(rng, 5)
		if len(stmts) > 0 && rng.Intn(4) == 0 {
			s = stmts[len(stmts)-1] // the same again
			c.Count("repeated statements", 1)
		}
		stmts = append(stmts, s)
		data = append(data, s.bytes()...)
	}
	got, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(append([]byte(nil), data...))
	if err != nil {
		c.Fail("statement refused", "a valid statement is refused: %v\n%s", err, b2s(data))
		return
	}
	cmpTxs(c, stmts, got, data)
	// the fields of a single statement
	s := stmts[0]
	m := &swift.MT940{}
	if err := m.Unmarshal(s.bytes()); err != nil {
		c.Fail("single statement refused", "a valid statement is refused: %v\n%s", err, b2s(s.bytes()))
		return
	}
	cmpTxs(c, stmts[:1], m.AccountTransactions(), s.bytes())
	eq := func(what, got, want string) {
		if got != want {
			c.Fail("statement: "+what, "the %s is reported as %s, the statement says %s\n%s", what, got, want, b2s(s.bytes()))
		}
	}
	eq("account", m.Account.BankID+"/"+m.Account.AccountID, s.bank+"/"+s.acct)
	if m.JobReference == nil {
		eq("job reference", "absent", s.job)
	} else {
		eq("job reference", m.JobReference.Val(), s.job)
	}
	if (m.Reference == nil) != (s.ref == "") {
		eq("reference", fmt.Sprint(m.Reference), s.ref)
	} else if m.Reference != nil {
		eq("reference", m.Reference.Val(), s.ref)
	}
	sheet := s.sheet
	if sheet < 0 {
		sheet = 0
	}
	if m.StatementNumber == nil {
		eq("statement number", "absent", fmt.Sprint(s.num))
	} else {
		eq("statement number", fmt.Sprint(m.StatementNumber.Number, "/", m.StatementNumber.SheetNumber), fmt.Sprint(s.num, "/", sheet))
	}
	eq("starting balance", mtTagGot(m.StartingBalance), s.start.want())
	eq("closing balance", mtTagGot(m.ClosingBalance), s.end.want())
	if s.valuta != nil {
		eq("valuta balance", mtTagGot(m.CurrentValutaBalance), s.valuta.want())
	} else {
		eq("valuta balance", mtTagGot(m.CurrentValutaBalance), "absent")
	}
	if len(s.future) == 1 {
		eq("future balance", mtTagGot(m.FutureValutaBalance), s.future[0].want())
	} else if len(s.future) == 0 {
		eq("future balance", mtTagGot(m.FutureValutaBalance), "absent")
	}
	for i, t := range s.txs {
		g := m.Transactions[i].Transaction
		eq("reference of a transaction", g.Reference, t.ref)
		eq("bank reference of a transaction", g.BankReference, t.bankRef)
		eq("additional information of a transaction", g.AdditionalInformation, t.info)
		eq("booking key of a transaction", g.BookingKey, t.key)
		eq("indicator of a transaction", g.DebitCreditIndicator+"/"+g.CurrencyKind, t.ind+"/"+t.kind)
		d := m.Transactions[i].Description
		if (d == nil) != (t.details == nil) {
			eq("description of a transaction", fmt.Sprint(d), fmt.Sprint(t.details))
		} else if d != nil && !t.details.isFree {
			eq("primanota number", fmt.Sprintf("%q", d.PrimanotenNumber), fmt.Sprintf("%q", t.details.fields[10]))
			want := 0
			fmt.Sscanf(t.details.fields[34], "%d", &want)
			eq("message key addition", fmt.Sprint(d.MessageKeyAddition), fmt.Sprint(want))
		}
	}
	c.Count("statements read", len(stmts))
}

func p11cut(c *vt.C) {
	rng := c.Rng
	var data []byte
	ends := map[int]bool{0: true}
	k := 1 + rng.Intn(2)
	for i := 0; i < k; i++ {
		data = append(data, genStmt(rng, 3).bytes()...)
		ends[len(data)] = true
	}
	for j := 0; j < 40; j++ {
		at := 1 + rng.Intn(len(data)-1)
		if j < 12 {
			at = len(data) - 1 - j
		}
		if ends[at] {
			continue
		}
		cut := append([]byte(nil), data[:at]...)
		got, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(cut)
		if err == nil {
			c.Fail("cut off statement accepted", "a statement cut off after %d of %d bytes is reported as %d transactions\n%s", at, len(data), len(got), b2s(cut))
			return
		}
		if len(got) != 0 {
			c.Fail("transactions with an error", "%d transactions are reported with the error %v", len(got), err)
		}
		c.Count("cut off statements refused", 1)
		if k == 1 {
			if err := (&swift.MT940{}).Unmarshal(cut); err == nil {
				c.Fail("cut off single statement accepted", "a statement cut off after %d of %d bytes is read\n%s", at, len(data), b2s(cut))
			}
		}
	}
}

// mtDamage are ways a statement is malformed.
var mtDamage = []struct {
	name string
	f    func(rng *rand.Rand, s *mtStmt) [][]byte
}{
	{"no account", func(rng *rand.Rand, s *mtStmt) [][]byte { return dropTag(s.lines(), ":25:") }},
	{"no starting balance", func(rng *rand.Rand, s *mtStmt) [][]byte { return dropTag(s.lines(), ":60") }},
	{"no closing balance", func(rng *rand.Rand, s *mtStmt) [][]byte { return dropTag(s.lines(), ":62") }},
	{"unknown tag", func(rng *rand.Rand, s *mtStmt) [][]byte {
		l := s.lines()
		at := 1 + rng.Intn(len(l))
		return append(append(append([][]byte{}, l[:at]...), []byte(":99:X")), l[at:]...)
	}},
	{"amount with a letter", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire = strings.Replace(t.amt.wire, ",", "x,", 1) })},
	{"amount with a plus", damageTx(func(rng *rand.Rand, t *mtTx) { t.kind, t.amt.wire = "", "+"+t.amt.wire })},
	{"amount with a space", damageTx(func(rng *rand.Rand, t *mtTx) { t.kind, t.amt.wire = "", " "+t.amt.wire })},
	{"amount with a space behind", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire += " " })},
	{"amount with an exponent", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire = "1e3," })},
	{"hexadecimal amount", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire = "0x10" })},
	{"amount with two commas", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire = "1,000,00" })},
	{"amount with a sign", damageTx(func(rng *rand.Rand, t *mtTx) { t.kind, t.amt.wire = "", "-"+t.amt.wire })},
	{"no amount", damageTx(func(rng *rand.Rand, t *mtTx) { t.amt.wire, t.key, t.ref, t.bankRef, t.info = "", "TRF", "X", "", "" })},
	{"no booking key", damageTx(func(rng *rand.Rand, t *mtTx) { t.key, t.ref, t.bankRef, t.info = "", "", "", ""; t.amt.wire += "X" })},
	{"indicator X", damageTx(func(rng *rand.Rand, t *mtTx) { t.ind = "X" })},
	{"no indicator", damageTx(func(rng *rand.Rand, t *mtTx) { t.ind, t.kind = "", "" })},
	{"indicator in small letters", damageTx(func(rng *rand.Rand, t *mtTx) { t.ind, t.kind = "d", "" })},
	{"indicator too long", damageTx(func(rng *rand.Rand, t *mtTx) { t.ind, t.kind = "RDC", "R" })},
	{"month 13", damageLine(":61:", func(l string) string { return l[:6] + "13" + l[8:] })},
	{"month 0", damageLine(":61:", func(l string) string { return l[:6] + "00" + l[8:] })},
	{"day 32", damageLine(":61:", func(l string) string { return l[:8] + "32" + l[10:] })},
	{"letters in a date", damageLine(":61:", func(l string) string { return l[:5] + "x" + l[6:] })},
	{"balance with indicator X", damageLine(":60", func(l string) string { return l[:5] + "X" + l[6:] })},
	{"balance without indicator", damageLine(":62", func(l string) string { return l[:5] + l[6:] })},
	{"balance with month 13", damageLine(":62", func(l string) string { return l[:8] + "13" + l[10:] })},
	{"balance without currency", damageLine(":60", func(l string) string { return l[:12] + l[15:] })},
	{"balance with a short currency", damageLine(":60", func(l string) string { return l[:12] + l[13:] })},
	{"balance with an amount with a sign", damageLine(":62", func(l string) string { return l[:15] + "-" + l[15:] })},
	{"balance with an amount with a plus", damageLine(":60", func(l string) string { return l[:15] + "+" + l[15:] })},
	{"balance with a space", damageLine(":60", func(l string) string { return l[:15] + " " + l[15:] })},
	{"balance with an amount with an underscore", damageLine(":62", func(l string) string { return l[:15] + "1_0" + l[15:] })},
	{"balance with an infinite amount", damageLine(":62", func(l string) string { return l[:15] + "Inf" })},
	{"balance with no number", damageLine(":60", func(l string) string { return l[:15] + "NaN" })},
	{"balance without amount", damageLine(":62", func(l string) string { return l[:15] })},
	{"account without bank", damageLine(":25:", func(l string) string { return strings.Replace(l, "/", "", 1) })},
	{"account with another part", damageLine(":25:", func(l string) string { return l + "/1" })},
	{"statement number without digits", damageLine(":28C:", func(l string) string { return ":28C:" })},
	{"sheet number without digits", damageLine(":28C:", func(l string) string { return ":28C:12/" })},
	{"sheet number with a sheet number", damageLine(":28C:", func(l string) string { return ":28C:1/2/3" })},
	{"statement number with letters", damageLine(":28C:", func(l string) string { return l + "x" })},
	{"tag without colon", damageLine(":61:", func(l string) string { return ":61" + l[4:10] })},
	{"details twice", func(rng *rand.Rand, s *mtStmt) [][]byte {
		if len(s.txs) == 0 {
			return nil
		}
		s.custom = nil
		i := rng.Intn(len(s.txs))
		s.txs[i].details = genDetails(rng, 0)
		var out [][]byte
		n := 0
		for _, l := range s.lines() {
			if strings.HasPrefix(string(l), ":61:") {
				n++
			}
			out = append(out, l)
			if n == i+1 && strings.HasPrefix(string(l), ":86:") {
				out = append(out, []byte(":86:166?00TEXT"))
			}
		}
		return out
	}},
	{"details before the first transaction", func(rng *rand.Rand, s *mtStmt) [][]byte {
		var out [][]byte
		for _, l := range s.lines() {
			out = append(out, l)
			if strings.HasPrefix(string(l), ":60") {
				out = append(out, []byte(":86:166?00TEXT"))
			}
		}
		return out
	}},
}

func dropTag(l [][]byte, tag string) [][]byte {
	var out [][]byte
	for _, x := range l {
		if !strings.HasPrefix(string(x), tag) {
			out = append(out, x)
		}
	}
	return out
}

func damageTx(f func(rng *rand.Rand, t *mtTx)) func(*rand.Rand, *mtStmt) [][]byte {
	return func(rng *rand.Rand, s *mtStmt) [][]byte {
		if len(s.txs) == 0 {
			return nil
		}
		f(rng, &s.txs[rng.Intn(len(s.txs))])
		return s.lines()
	}
}

func damageLine(tag string, f func(string) string) func(*rand.Rand, *mtStmt) [][]byte {
	return func(rng *rand.Rand, s *mtStmt) [][]byte {
		l := s.lines()
		var at []int
		for i, x := range l {
			if strings.HasPrefix(string(x), tag) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return nil
		}
		i := at[rng.Intn(len(at))]
		l[i] = []byte(f(string(l[i])))
		return l
	}
}

func p11damage(c *vt.C) {
	rng := c.Rng
	d := mtDamage[rng.Intn(len(mtDamage))]
	var data []byte
	k := rng.Intn(3)
	bad := rng.Intn(k + 1)
	for i := 0; i <= k; i++ {
		s := genStmt(rng, 3)
		if i != bad {
			data = append(data, s.bytes()...)
			continue
		}
		if s.start.date.IsZero() {
			s.start.date = time.Date(2026, 1, 2, 0, 0, 0, 0, time.UTC)
		}
		l := d.f(rng, s)
		if l == nil {
			return
		}
		data = append(data, joinLines(l)...)
	}
	got, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(append([]byte(nil), data...))
	if err == nil {
		c.Fail("damaged statement accepted: "+d.name, "a statement with %s is reported as %d transactions\n%s", d.name, len(got), b2s(data))
		return
	}
	if len(got) != 0 {
		c.Fail("transactions with an error", "%d transactions are reported with the error %v", len(got), err)
	}
	c.State("damage %s in %d of %d", d.name, bad, k+1)
	c.Count("damaged statements refused", 1)
}

func p11fetch(c *vt.C) {
	rng := c.Rng
	e := newBank(rng, envOpts{})
	var stmts []*mtStmt
	var segs [][]byte
	for i := 1 + rng.Intn(2); i > 0; i-- {
		var data []byte
		for j := 1 + rng.Intn(2); j > 0; j-- {
			s := genStmt(rng, 4)
			if len(stmts) > 0 && rng.Intn(4) == 0 {
				s = stmts[len(stmts)-1]
			}
			stmts = append(stmts, s)
			data = append(data, s.bytes()...)
		}
		segs = append(segs, data)
	}
	damaged := rng.Intn(4) == 0
	if damaged {
		segs[len(segs)-1] = segs[len(segs)-1][:len(segs[len(segs)-1])-1-rng.Intn(20)]
	}
	e.bank.Jobs["HKKAZ"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		for _, d := range segs {
			des := [][]byte{wire.Bin(d)}
			if rng.Intn(3) == 0 {
				des = append(des, wire.Bin([]byte("\r\n:20:MT942\r\n-")))
			}
			r.Segs = append(r.Segs, simbank.S("HIKAZ", job.Ver, job.Pos, des...))
		}
	}
	e.connect()
	o := genOps(e)[1+rng.Intn(2)]
	res, err, _ := e.runOp(o)
	if damaged {
		if err == nil {
			c.Fail("cut off statement fetched", "%s reports %d transactions of a statement that is cut off", o.name, len(res.([]domain.AccountTransaction)))
		} else {
			c.Count("cut off statements refused", 1)
		}
		return
	}
	if err != nil {
		c.Fail("statements refused", "%s fails: %v\n%s", o.name, err, e.bank.Trace())
		return
	}
	cmpTxs(c, stmts, res.([]domain.AccountTransaction), []byte(e.bank.Trace()))
}
