package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

// env is a client talking to a simulated bank.
type env struct {
	rng     *rand.Rand
	version int
	bank    *simbank.Bank
	cfg     client.Config
	cl      *client.Client
	acct    domain.AccountConnection
	iacct   domain.InternationalAccountConnection
	accts   []acctW
	bpdVer  int
	updVer  int
	// versions of the jobs the bank announces
	salVers, kazVers, proVers []int
}

type envOpts struct {
	version int
	hostile bool // texts with syntax characters everywhere
	pin     string
	debug   bool
}

const testURL = "https://bank.example/hbci"

func newEnv(rng *rand.Rand, o envOpts) *env {
	e := newBank(rng, o)
	e.connect()
	return e
}

// newBank sets the bank and the configuration up, without a client.
func newBank(rng *rand.Rand, o envOpts) *env {
	if o.version == 0 {
		o.version = []int{220, 300}[rng.Intn(2)]
	}
	text := func(n int) string {
		if o.hostile {
			return genText1(rng, n)
		}
		return genWord(rng, n)
	}
	e := &env{rng: rng, version: o.version, bpdVer: 1 + rng.Intn(50), updVer: 1 + rng.Intn(50)}
	bankID := genDigits(rng, 8)
	user := text(12)
	pin := o.pin
	mark := ""
	if pin == "" {
		// The mark occurs in no other text and no number.
		mark = "Pq" + genDigits(rng, 8) + "Zk"
		pin = mark
		if o.hostile {
			pin = genText(rng, 5) + mark + genText(rng, 5)
		}
	}
	b := simbank.New(o.version, bankID, user, pin, testURL)
	b.PINMark = mark
	b.Product, b.ProdVer = text(10), text(5)
	e.bank = b
	e.cfg = client.Config{BankID: bankID, AccountID: user, PIN: pin, URL: testURL, HBCIVersion: o.version, Transport: b,
		ProductName: b.Product, ProductVersion: b.ProdVer, EnableDebugLogging: o.debug}
	e.acct = domain.AccountConnection{AccountID: text(10), SubAccountCharacteristics: text(4), CountryCode: 280, BankID: bankID}
	e.iacct = domain.InternationalAccountConnection{IBAN: "DE" + genDigits(rng, 20), BIC: genWord(rng, 11), AccountID: text(10), SubAccountCharacteristics: text(4), BankID: domain.BankID{CountryCode: 280, ID: bankID}}
	if rng.Intn(3) == 0 {
		e.acct.SubAccountCharacteristics, e.iacct.SubAccountCharacteristics = "", ""
	}
	e.salVers, e.kazVers, e.proVers = []int{5, 6, 7}, []int{5, 6, 7}, []int{3, 4}
	e.accts = []acctW{{Ver: 4, ID: "1234567", User: user, Currency: "EUR", Name1: "Muster", Jobs: []jobW{{ID: "HKSAL", Sigs: 1}}}}
	if o.hostile {
		b.DialogIDs = func(n int) string { return fmt.Sprintf("%d%s", n, genText(rand.New(rand.NewSource(int64(n))), 8)) }
		sysRng := rand.New(rand.NewSource(rng.Int63()))
		b.NewID = func(n int) string { return fmt.Sprintf("%d%s", n, genText(sysRng, 10)) }
	}
	b.Params = func(req *simbank.Request) []simbank.Seg { return e.params(req.Kind) }
	enc := rng.Intn(3)
	b.Encrypt = func(req *simbank.Request) bool {
		switch enc {
		case 0:
			return false
		case 1:
			return req.Kind != simbank.AnonInit && req.Kind != simbank.AnonJob && req.Kind != simbank.AnonEnd
		}
		return req.Index%2 == 0
	}
	e.defaultJobs()
	return e
}

func (e *env) connect() {
	cl, err := client.New(e.cfg)
	if err != nil {
		panic(fmt.Sprintf("client.New: %v", err))
	}
	e.cl = cl
}

// params is what the bank sends in answer to an initialisation.
func (e *env) params(kind string) []simbank.Seg {
	segs := []simbank.Seg{bpdW(e.version, e.bpdVer, e.bank.BankID, "Testbank")}
	for _, v := range e.salVers {
		segs = append(segs, supW("HISALS", v))
	}
	for _, v := range e.kazVers {
		segs = append(segs, supW("HIKAZS", v))
	}
	for _, v := range e.proVers {
		segs = append(segs, supW("HIPROS", v))
	}
	if kind == simbank.AnonInit {
		return segs
	}
	segs = append(segs, upaW(e.version, e.bank.UserID, e.updVer))
	for _, a := range e.accts {
		segs = append(segs, a.seg(e.bank.BankID))
	}
	return segs
}

func okJob(r *simbank.Resp, job wire.Segment) {
	r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: 20, Text: "Auftrag ausgeführt."}}})
}

// plainMT940 is a statement with one transaction.
func plainMT940(acct string, cents int64, text string) string {
	return "\r\n:20:STARTUMS\r\n:25:10000000/" + acct + "\r\n:28C:1/1\r\n:60F:C261001EUR100,00\r\n:61:2610021002D" + centsWire2(cents) + "N024NONREF\r\n:86:177?00" + text + "?109249\r\n:62F:C261002EUR90,00\r\n-"
}

// centsWire2 has two digits behind the comma.
func centsWire2(c int64) string { return fmt.Sprintf("%d,%02d", c/100, c%100) }

func (e *env) hisal(ver int, cents int64) simbank.Seg {
	conn := wire.G(wire.T("123"), nil, wire.I(280), wire.T(e.bank.BankID))
	if ver == 7 || ver == 8 {
		conn = wire.G(wire.T(e.iacct.IBAN), wire.T(e.iacct.BIC))
	}
	bal := wire.G(wire.Raw("C"), wire.Raw(centsWire(cents)), wire.Raw("EUR"), wire.Raw("20261002"), wire.Raw("101112"))
	return simbank.S("HISAL", ver, 3, conn, wire.T("Girokonto"), wire.Raw("EUR"), bal)
}

func (e *env) defaultJobs() {
	b := e.bank
	b.Jobs["HKKAZ"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIKAZ", job.Ver, job.Pos, wire.Bin([]byte(plainMT940("123456", 1000, "Text")))))
	}
	b.Jobs["HKSAL"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, e.hisal(job.Ver, 12345))
	}
	b.Jobs["HKPRO"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIPRO", job.Ver, job.Pos, wire.G(wire.T("dlg0"), wire.I(2)), wire.I(3), wire.Raw("20261002"), wire.Raw("101112"), simbank.Ack{Code: 20, Text: "erledigt"}.Wire()))
	}
	b.Jobs["HKKIF"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIKIF", 1, job.Pos, wire.G(wire.T("123"), nil, wire.I(280), wire.T(b.BankID)), wire.I(1)))
	}
	b.Jobs["HKKOM"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		r.Segs = append(r.Segs, simbank.S("HIKOM", 3, job.Pos, wire.G(wire.I(280), wire.T(b.BankID)), wire.I(1), wire.G(wire.I(2), wire.T("bank.example"))))
	}
}

// op is one operation of the client with its arguments.
type op struct {
	name string
	job  string
	anon bool
	// init: the operation opens a dialog of its own besides the
	// synchronisation.
	run func(e *env) (interface{}, error)
	// want are the elements the job must carry for the version.
	want func(e *env, ver int, cont string) []string
}

func jn(b bool) string {
	if b {
		return "J"
	}
	return "N"
}

func acctStr(a domain.AccountConnection) string {
	return string(wire.G(wire.T(a.AccountID), wire.T(a.SubAccountCharacteristics), wire.Raw(fmt.Sprintf("%03d", a.CountryCode)), wire.T(a.BankID)))
}

func iacctStr(a domain.InternationalAccountConnection) string {
	return string(wire.G(wire.T(a.IBAN), wire.T(a.BIC), wire.T(a.AccountID), wire.T(a.SubAccountCharacteristics), wire.Raw(fmt.Sprintf("%03d", a.BankID.CountryCode)), wire.T(a.BankID.ID)))
}

func day(t time.Time) string { return t.Format("20060102") }

// genOps draws every operation with random arguments.
func genOps(e *env) []op {
	rng := e.rng
	all := rng.Intn(2) == 0
	from := genDate(rng)
	to := inZone(rng, from.AddDate(0, 0, rng.Intn(400)))
	from = inZone(rng, from)
	tf := domain.Timeframe{StartDate: domain.NewShortDate(from), EndDate: domain.NewShortDate(to)}
	max := rng.Intn(3) * 7
	conn := func(ver int) string {
		if ver >= 7 {
			return iacctStr(e.iacct)
		}
		return acctStr(e.acct)
	}
	tx := func(e *env, ver int, cont string) []string {
		return []string{conn(ver), jn(all), day(from), day(to), "", string(wire.T(cont))}
	}
	bal := func(e *env, ver int, cont string) []string {
		return []string{conn(ver), jn(all), "", string(wire.T(cont))}
	}
	maxStr := anyElement // how "no limit" is sent is the library's choice
	if max > 0 {
		maxStr = fmt.Sprint(max)
	}
	return []op{
		{name: "accounts", run: func(e *env) (interface{}, error) { return e.cl.Accounts() }},
		{name: "transactions", job: "HKKAZ", want: tx, run: func(e *env) (interface{}, error) { return e.cl.AccountTransactions(e.acct, tf, all, "") }},
		{name: "sepa-transactions", job: "HKKAZ", want: tx, run: func(e *env) (interface{}, error) { return e.cl.SepaAccountTransactions(e.iacct, tf, all, "") }},
		{name: "information", job: "HKKIF", want: func(e *env, ver int, cont string) []string {
			return []string{acctStr(e.acct), jn(all)}
		}, run: func(e *env) (interface{}, error) { return nil, e.cl.AccountInformation(e.acct, all) }},
		{name: "balances", job: "HKSAL", want: bal, run: func(e *env) (interface{}, error) { return e.cl.AccountBalances(e.acct, all) }},
		{name: "sepa-balances", job: "HKSAL", want: bal, run: func(e *env) (interface{}, error) { return e.cl.SepaAccountBalances(e.iacct, all, "") }},
		{name: "status", job: "HKPRO", want: func(e *env, ver int, cont string) []string {
			return []string{day(from), day(to), maxStr, string(wire.T(cont))}
		}, run: func(e *env) (interface{}, error) { return e.cl.Status(from, to, max, "") }},
		{name: "communication", job: "HKKOM", anon: true, want: func(e *env, ver int, cont string) []string {
			return []string{"280:" + string(wire.T(e.cfg.BankID)), "280:" + string(wire.T(e.acct.BankID)), maxStr, ""}
		}, run: func(e *env) (interface{}, error) {
			a := &client.AnonymousClient{Client: e.cl}
			return a.CommunicationAccess(domain.BankID{CountryCode: 280, ID: e.cfg.BankID}, domain.BankID{CountryCode: 280, ID: e.acct.BankID}, max)
		}},
	}
}

// anyElement stands for an element whose value is not checked.
const anyElement = "\x00any"

// jobElements are the elements of the job as they came, padded to n.
func jobElements(s wire.Segment, n int) []string {
	var out []string
	for _, de := range s.DEs {
		var parts [][]byte
		for _, el := range de {
			parts = append(parts, el.Raw)
		}
		out = append(out, string(bytes.Join(parts, []byte(":"))))
	}
	for len(out) < n {
		out = append(out, "")
	}
	return out
}

// runOp runs the operation under observation.
func (e *env) runOp(o op) (res interface{}, err error, reqs []*simbank.Request) {
	e.bank.BeginOp()
	res, err = o.run(e)
	reqs = e.bank.EndOp()
	return
}

// newDialogEnv is a PinTanDialog instead of a client.
func (e *env) newDialog() *dialog.PinTanDialog {
	d := dialog.NewPinTanDialog(e.dialogConfig())
	d.SetPin(e.cfg.PIN)
	return d
}

func (e *env) dialogConfig() dialog.Config {
	return dialog.Config{BankID: domain.BankID{CountryCode: 280, ID: e.cfg.BankID}, HBCIURL: e.cfg.URL, UserID: e.cfg.AccountID,
		HBCIVersion: segment.SupportedHBCIVersions[e.version], ProductName: e.cfg.ProductName, ProductVersion: e.cfg.ProductVersion, Transport: e.bank}
}

// captureStd runs f with the file descriptors of standard output and error
// going to a file, and returns what was written to them.
func captureStd(r *vt.Run, f func()) (out string) {
	file, err := os.CreateTemp(r.Scratch, "std")
	if err != nil {
		panic(err)
	}
	defer os.Remove(file.Name())
	defer file.Close()
	var saved [2]int
	for i := range saved {
		if saved[i], err = syscall.Dup(i + 1); err != nil {
			panic(err)
		}
		if err := syscall.Dup3(int(file.Fd()), i+1, 0); err != nil {
			panic(err)
		}
	}
	func() {
		defer func() {
			for i, fd := range saved {
				syscall.Dup3(fd, i+1, 0)
				syscall.Close(fd)
			}
		}()
		f()
	}()
	b, err := os.ReadFile(file.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func report(c *vt.C, e *env, cats ...string) {
	for _, cat := range cats {
		for _, p := range e.bank.Problems(cat) {
			c.Fail(cat, "%s\n%s", p, e.bank.Trace())
		}
	}
}

func countRequests(c *vt.C, e *env, reqs []*simbank.Request) {
	for _, q := range reqs {
		c.Count("request:"+q.Kind, 1)
		if q.Kind == simbank.Broken {
			c.Count("broken", 1)
		}
		c.State("%s/%d/%s%d/%d", q.Kind, e.version, q.JobSeg.ID, q.JobSeg.Ver, len(q.Plain))
	}
}

func checkJob(c *vt.C, e *env, o op, q *simbank.Request, cont string) {
	if o.want == nil || (q.Kind != simbank.Job && q.Kind != simbank.AnonJob) {
		return
	}
	if q.JobSeg.ID != o.job {
		c.Fail("job:"+o.name, "sent job %q, want %s", q.JobSeg.Raw, o.job)
		return
	}
	want := o.want(e, q.JobSeg.Ver, cont)
	got := jobElements(q.JobSeg, len(want))
	if len(got) != len(want) {
		c.Fail("job:"+o.name, "job %q has %d elements, want %q", q.JobSeg.Raw, len(got), want)
		return
	}
	for i := range want {
		if want[i] != anyElement && got[i] != want[i] {
			c.Fail("job:"+o.name, "element %d of job %q is %q, want %q", i+1, q.JobSeg.Raw, got[i], want[i])
		}
	}
	c.Count("jobs checked", 1)
}

// acctBank is the bank of the account.
func (e *env) acctBank() domain.BankID {
	return domain.BankID{CountryCode: 280, ID: e.acct.BankID}
}

func isEnd(kind string) bool { return kind == simbank.End || kind == simbank.AnonEnd }
