//go:build p23 || all

package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/transport"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P23",
		rule: "a case is one or two runs of the banking command with a home directory of its own, against a simulated bank behind a loopback HTTP server. Distinct states are the command, where its settings come from, the fault and the history of requests.",
		fn:   runP23,
		assumptions: []string{
			"an error in answer to the end of a dialog may fail the command or not",
			"the tables are judged row by row: every text of a result stands in its row, in the order of the columns (P18 judges the layout)",
		},
	})
}

// cli23 is the command, built once per worker, and the server its requests
// go to.
type cli23 struct {
	bin    string
	server *httptest.Server
	mu     sync.Mutex
	bank   *simbank.Bank
	// fault is how a request without an answer fails.
	fault string
	seen  int
}

func newCLI23(r *vt.Run) *cli23 {
	x := &cli23{bin: filepath.Join(r.Scratch, "banking")}
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", x.bin, "./cmd/banking")
	cmd.Dir = os.Getenv("VERIF_REPO")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("the banking command does not build: %v %s", err, out))
	}
	x.server = httptest.NewUnstartedServer(http.HandlerFunc(x.serve))
	x.server.Config.ErrorLog = log.New(io.Discard, "", 0)
	x.server.Start()
	return x
}

var faults23 = []string{"status", "status-empty", "abort", "cut", "garbage", "empty"}

func (x *cli23) serve(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	x.mu.Lock()
	defer x.mu.Unlock()
	at := x.seen
	x.seen++
	if x.bank == nil {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	res, err := x.bank.Do(&transport.Request{URL: "http://" + r.Host + r.URL.RequestURI(), Body: io.NopCloser(bytes.NewReader(body))})
	if err != nil {
		switch x.fault {
		case "status":
			w.WriteHeader([]int{404, 500, 502, 503}[at%4])
			w.Write([]byte("<html><body>Wartungsarbeiten</body></html>"))
			return
		case "status-empty":
			w.WriteHeader(503)
			return
		}
		panic(http.ErrAbortHandler)
	}
	out, err := io.ReadAll(res.Body)
	if err != nil {
		w.Header().Set("Content-Length", fmt.Sprint(2*len(out)+10))
		w.Write(out)
		panic(http.ErrAbortHandler)
	}
	w.Write(out)
}

// alter23 makes the answer to the request fail.
func alter23(fault string, ack simbank.Ack, inSeg bool, req *simbank.Request, r *simbank.Resp) {
	switch fault {
	case "rejected":
		if inSeg {
			r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: 3, Acks: []simbank.Ack{ack}})
		} else {
			r.MsgAcks = append(r.MsgAcks, ack)
		}
		r.Segs = nil
	case "status", "status-empty", "abort":
		r.Err = simbank.ErrTransport
	case "cut":
		r.ReadErr, r.ReadN = io.ErrUnexpectedEOF, 150
	case "garbage":
		r.Wire = []byte(base64.StdEncoding.EncodeToString([]byte("HTTP ist kein HBCI, so viel ist klar.")))
	case "empty":
		r.Wire = []byte{}
	}
}

// result23 is what a run of the command left behind.
type result23 struct {
	code        int
	out, errOut string
	reqs        []*simbank.Request
	hung        bool
}

func (r result23) String() string {
	return fmt.Sprintf("exit %d\nstdout: %s\nstderr: %s", r.code, clip23(r.out), clip23(r.errOut))
}

func clip23(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func (x *cli23) run(home string, env []string, bank *simbank.Bank, args ...string) result23 {
	x.mu.Lock()
	x.bank, x.seen = bank, 0
	x.mu.Unlock()
	if bank != nil {
		bank.BeginOp()
	}
	var out, errOut bytes.Buffer
	cmd := exec.Command(x.bin, args...)
	cmd.Dir = home
	cmd.Env = append([]string{"HOME=" + home, "PATH=/usr/bin:/bin", "NO_PROXY=*"}, env...)
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	res := result23{code: -1}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(60*time.Second, func() { res.hung = true; cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	res.code = cmd.ProcessState.ExitCode()
	res.out, res.errOut = out.String(), errOut.String()
	x.mu.Lock()
	defer x.mu.Unlock()
	if bank != nil {
		res.reqs = bank.EndOp()
	}
	x.bank = nil
	return res
}

// banks23 are bank IDs of the directory with their dialect.
var banks23 = func() func() []string {
	var once sync.Once
	var ids []string
	return func() []string {
		once.Do(func() {
			src, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "bankinfo", "data.go"))
			if err != nil {
				panic(err)
			}
			for _, m := range regexp.MustCompile(`BankID:\s*"(\d{8})"`).FindAllStringSubmatch(string(src), -1) {
				info := bankinfo.FindByBankID(m[1])
				if info.BankID == m[1] && (info.HbciVersion() == 220 || info.HbciVersion() == 300) {
					ids = append(ids, m[1])
				}
			}
			if len(ids) < 100 {
				panic(fmt.Sprintf("only %d usable banks in the directory", len(ids)))
			}
		})
		return ids
	}
}()

// germanIBAN23 computes the IBAN digit by digit.
func germanIBAN23(blz, account string) string {
	bban := blz + strings.Repeat("0", 10-len(account)) + account
	rem := 0
	for _, d := range bban + "131400" {
		rem = (rem*10 + int(d-'0')) % 97
	}
	return fmt.Sprintf("DE%02d%s", 98-rem, bban)
}

func digitsOnly23(s string) bool {
	return strings.Trim(s, "0123456789") == ""
}

// word23 is a text that stands as it is in a table.
func word23(rng *rand.Rand, n int) string {
	parts := []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZäöüÄÖÜß0123456789+:'?@,.-/")
	out := []rune{'Q'}
	for len(out) < n {
		out = append(out, parts[rng.Intn(len(parts))])
	}
	return string(out) + strconv.Itoa(rng.Intn(1e6)) + "z"
}

// mt23 is a word as MT940 may contain it.
func mt23(rng *rand.Rand, n int) string {
	return "Q" + strings.ToLower(genWord(rng, n)) + strconv.Itoa(rng.Intn(1e6)) + "z"
}

func amount23(rng *rand.Rand) int64 { return 1 + rng.Int63n(1e8) }

// printed23 is an amount as the tables show it.
func printed23(cents int64, negative bool, currency string) string {
	s := fmt.Sprintf("%d.%02d %s", cents/100, cents%100, currency)
	if negative && cents != 0 {
		s = "-" + s
	}
	return s
}

// job23 is a command with what it must ask for and print.
type job23 struct {
	args []string
	job  string
	// rows are the texts of each row of the table, in order.
	rows [][]string
	// check judges the job segment.
	check func(c *vt.C, s wire.Segment, from, to string)
	// badAccount: there is no IBAN for the account.
	badAccount bool
	// pages is the number of requests for the job.
	pages int
	days  int
	tz    *time.Location
}

func (j *job23) expectElements(c *vt.C, s wire.Segment, want []string) {
	got := jobElements(s, len(want))
	if len(got) != len(want) {
		c.Fail("job", "job %q has %d elements, want %q", s.Raw, len(got), want)
		return
	}
	for i := range want {
		if want[i] != anyElement && got[i] != want[i] {
			c.Fail("job", "element %d of job %q is %q, want %q", i+1, s.Raw, got[i], want[i])
		}
	}
	c.Count("jobs checked", 1)
}

// command23 draws a command and sets the bank up to answer it.
func command23(rng *rand.Rand, e *env, user, blz string) *job23 {
	j := &job23{pages: 1, tz: time.UTC}
	if rng.Intn(3) == 0 {
		e.accts = nil
		for i := rng.Intn(5); i >= 0; i-- {
			a := acctW{Ver: 4, ID: strconv.Itoa(1e6 + rng.Intn(9e6)), User: word23(rng, 5), Currency: currencies[rng.Intn(len(currencies))], Name1: word23(rng, 8), Product: word23(rng, 8), Jobs: []jobW{{ID: "HKSAL", Sigs: 1}}}
			if e.version == 300 {
				a.Ver = 6
			}
			if rng.Intn(2) == 0 {
				a.Name2 = word23(rng, 4)
			}
			row := []string{blz, a.ID, a.User, a.Currency, a.Name1, a.Name2, a.Product}
			if rng.Intn(2) == 0 {
				a.Limit, a.LimCents = "E", amount23(rng)
				row = append(row, "E: "+printed23(a.LimCents, false, "EUR"))
			}
			e.accts = append(e.accts, a)
			j.rows = append(j.rows, row)
		}
		j.args = []string{"accounts"}
		j.pages = 0
		return j
	}
	account := user
	sepa := rng.Intn(2) == 0
	var args []string
	if !sepa {
		args = append(args, "--disableSepa")
	}
	if rng.Intn(3) > 0 {
		account = genDigits(rng, 1+rng.Intn(10))
		if rng.Intn(10) == 0 {
			account = []string{"12345678901", "12x", "1 2", "+12", "ü"}[rng.Intn(5)]
		}
		args = append(args, "--accountID", account)
	}
	j.badAccount = len(account) > 10 || !digitsOnly23(account)
	bic, ib := "", ""
	if !j.badAccount {
		ib = germanIBAN23(blz, account)
	}
	national := string(wire.G(wire.T(account), nil, wire.Raw("280"), wire.T(blz)))
	conn := func(ver int) string {
		if ver >= 7 {
			return string(wire.G(wire.T(ib), wire.T(bic), wire.T(account), nil, wire.Raw("280"), wire.T(blz)))
		}
		return national
	}
	if rng.Intn(2) == 0 {
		j.job = "HKSAL"
		bic = bankinfo.FindByBankID(blz).BIC
		j.args = append([]string{"balances"}, args...)
		type bal struct {
			product, blz, account, iban, bic, cur string
			cents, earmarked, limit               int64
			debit, hasEarmarked, hasLimit         bool
			date                                  time.Time
		}
		var bals []bal
		for i := rng.Intn(3); i >= 0; i-- {
			b := bal{product: word23(rng, 8), blz: genDigits(rng, 8), account: strconv.Itoa(1e6 + rng.Intn(9e6)), bic: "BIC" + strings.ToUpper(genDigits(rng, 8)), cur: currencies[rng.Intn(len(currencies))], cents: amount23(rng), debit: rng.Intn(3) == 0, date: genDate(rng)}
			b.iban = "DE" + genDigits(rng, 20)
			if rng.Intn(2) == 0 {
				b.hasEarmarked, b.earmarked = true, amount23(rng)
			}
			if rng.Intn(2) == 0 {
				b.hasLimit, b.limit = true, amount23(rng)
			}
			bals = append(bals, b)
		}
		for _, b := range bals {
			row := []string{b.product, b.blz, b.account, b.date.Format("2006-01-02"), printed23(b.cents, b.debit, b.cur)}
			if sepa {
				row = []string{b.product, b.bic, b.iban, b.date.Format("2006-01-02"), printed23(b.cents, b.debit, b.cur)}
			}
			if b.hasEarmarked {
				row = append(row, "("+printed23(b.earmarked, false, b.cur)+")*")
			}
			if b.hasLimit {
				row = append(row, printed23(b.limit, false, b.cur))
			}
			j.rows = append(j.rows, row)
		}
		e.bank.Jobs["HKSAL"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
			okJob(r, job)
			for _, b := range bals {
				c := wire.G(wire.T(b.account), nil, wire.I(280), wire.T(b.blz))
				if job.Ver >= 7 {
					c = wire.G(wire.T(b.iban), wire.T(b.bic))
				}
				amt := func(debit bool, cents int64) []byte {
					sign := "C"
					if debit {
						sign = "D"
					}
					return wire.G(wire.Raw(sign), wire.Raw(centsWire(cents)), wire.Raw(b.cur), wire.Raw(b.date.Format("20060102")), wire.Raw("101112"))
				}
				des := [][]byte{c, wire.T(b.product), wire.Raw(b.cur), amt(b.debit, b.cents), nil, nil}
				if b.hasEarmarked {
					des[4] = amt(false, b.earmarked)
				}
				if b.hasLimit {
					des[5] = wire.G(wire.Raw(centsWire(b.limit)), wire.Raw(b.cur))
				}
				r.Segs = append(r.Segs, simbank.S("HISAL", job.Ver, job.Pos, des...))
			}
		}
		j.check = func(c *vt.C, s wire.Segment, from, to string) {
			if want := 7; sepa && s.Ver != want || !sepa && s.Ver >= want {
				c.Fail("version", "%v sends %q", j.args, s.Raw)
			}
			j.expectElements(c, s, []string{conn(s.Ver), "J", anyElement, ""})
		}
		return j
	}
	j.job = "HKKAZ"
	j.args = append([]string{"transactions"}, args...)
	j.days = 10
	if rng.Intn(3) > 0 {
		j.days = []int{0, 1, 30, 31, 365, rng.Intn(1000)}[rng.Intn(6)]
		j.args = append(j.args, fmt.Sprintf("--daysToFetch=%d", j.days))
	}
	j.pages = 1 + rng.Intn(3)
	var pages []string
	for p := 0; p < j.pages; p++ {
		var sb strings.Builder
		for n := rng.Intn(3); n >= 0; n-- {
			date := genDate(rng).AddDate(0, 0, 0)
			date = time.Date(2001+rng.Intn(60), date.Month(), 1+rng.Intn(28), 0, 0, 0, 0, time.UTC)
			fmt.Fprintf(&sb, "\r\n:20:STARTUMS\r\n:25:%s/%s\r\n:28C:%d/1\r\n:60F:C%sEUR100,00", blz, "123456", p+1, date.Format("060102"))
			for k := 1 + rng.Intn(3); k > 0; k-- {
				cents, debit := amount23(rng), rng.Intn(2) == 0
				text, name, purpose, acct, bank := mt23(rng, 6), mt23(rng, 8), mt23(rng, 8), strconv.Itoa(1e6+rng.Intn(9e6)), genDigits(rng, 8)
				sign := "C"
				if debit {
					sign = "D"
				}
				fmt.Fprintf(&sb, "\r\n:61:%s%s%s%sN024NONREF\r\n:86:177?00%s?109249?20%s?30%s?31%s?32%s", date.Format("060102"), date.Format("0102"), sign, centsWire2(cents), text, purpose, bank, acct, name)
				j.rows = append(j.rows, []string{date.Format("2006-01-02"), text, printed23(cents, debit, "EUR"), bank, acct, name, purpose})
			}
			fmt.Fprintf(&sb, "\r\n:62F:C%sEUR90,00\r\n-", date.Format("060102"))
		}
		pages = append(pages, sb.String())
	}
	marks := make([]string, j.pages)
	for i := 1; i < j.pages; i++ {
		marks[i] = genText1(rng, 20)
	}
	at := 0
	e.bank.Jobs["HKKAZ"] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
		okJob(r, job)
		p := at
		if p >= j.pages {
			p = j.pages - 1
		}
		at++
		if p+1 < j.pages {
			r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: 3040, Text: "Es liegen weitere Informationen vor", Params: []string{marks[p+1]}}}})
		}
		r.Segs = append(r.Segs, simbank.S("HIKAZ", job.Ver, job.Pos, wire.Bin([]byte(wire.Latin1(pages[p])))))
	}
	asked := 0
	j.check = func(c *vt.C, s wire.Segment, from, to string) {
		if want := 7; sepa && s.Ver != want || !sepa && s.Ver >= want {
			c.Fail("version", "%v sends %q", j.args, s.Raw)
		}
		mark := ""
		if asked < len(marks) {
			mark = marks[asked]
		}
		asked++
		// Until today may be said or left open.
		if jobElements(s, 4)[3] == "" {
			to = ""
		}
		// The BIC may be left out or not.
		if want := conn(s.Ver); jobElements(s, 1)[0] != want {
			bic = bankinfo.FindByBankID(blz).BIC
		}
		j.expectElements(c, s, []string{conn(s.Ver), "N", from, to, anyElement, string(wire.T(mark))})
	}
	return j
}

// settings23 is where a run gets its user and bank from.
type settings23 struct {
	args, env []string
	from      string
	missing   bool
}

var odd23 = []string{"0123456", "1e3", "0x1F", "yes", "null", "~", "- a", "a: b", "#c", "12_3", "2026-01-01", "'q'", "\"q\"", "%d", "{}", "ä ö", "007", "0o17", "1.0", " x ", "true"}

func writeYAML23(path string, kv ...string) {
	var sb strings.Builder
	for i := 0; i+1 < len(kv); i += 2 {
		fmt.Fprintf(&sb, "%s: %s\n", kv[i], strconv.Quote(kv[i+1]))
	}
	if err := os.WriteFile(path, []byte(sb.String()), 0600); err != nil {
		panic(err)
	}
}

// provide23 writes user and bank where the command is to find them.
func provide23(rng *rand.Rand, home, user, blz string) settings23 {
	var s settings23
	def := filepath.Join(home, ".banking.yaml")
	// Decoys stand in places of less weight.
	decoyUser, decoyBLZ := "decoy", "10010010"
	switch rng.Intn(7) {
	case 0, 1:
		s.from = "flags"
		s.args = []string{"--userID", user, "--blz", blz}
		if rng.Intn(2) == 0 {
			s.from += " over file"
			writeYAML23(def, "userid", decoyUser, "blz", decoyBLZ)
		}
		if rng.Intn(2) == 0 {
			s.from += " over environment"
			s.env = append(s.env, "USERID="+decoyUser, "BLZ="+decoyBLZ)
		}
	case 2:
		s.from = "home file"
		writeYAML23(def, []string{"userID", "userid"}[rng.Intn(2)], user, "blz", blz)
	case 3:
		s.from = "config file"
		p := filepath.Join(home, "other.yaml")
		writeYAML23(p, "userID", user, "blz", blz)
		if rng.Intn(2) == 0 {
			s.from += " over home file"
			writeYAML23(def, "userID", decoyUser, "blz", decoyBLZ)
		}
		s.args = []string{"--config", p}
	case 4:
		s.from = "environment"
		s.env = []string{"USERID=" + user, "BLZ=" + blz}
		if rng.Intn(2) == 0 {
			s.from += " over file"
			writeYAML23(def, "userid", decoyUser, "blz", decoyBLZ)
		}
	case 5:
		s.from = "flag and file"
		s.args = []string{"--userID", user}
		writeYAML23(def, "blz", blz)
	case 6:
		s.from = "missing"
		s.missing = true
		switch rng.Intn(3) {
		case 0:
			s.args = []string{"--userID", user}
		case 1:
			s.args = []string{"--blz", blz}
		}
	}
	return s
}

// files23 is the content of every file below the directory.
func files23(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[p] = string(b)
		}
		return nil
	})
	return out
}

// env23 is a bank for the command.
func (x *cli23) env23(rng *rand.Rand, user, blz string) *env {
	e := newBank(rng, envOpts{version: bankinfo.FindByBankID(blz).HbciVersion(), hostile: rng.Intn(2) == 0})
	b := e.bank
	b.BankID, b.UserID, b.ClientID = blz, user, user
	b.ClientIDs = map[string]bool{user: true}
	b.AnyProduct = true
	b.URL = x.server.URL + "/" + genDigits(rng, 5)
	e.cfg.BankID, e.cfg.AccountID = blz, user
	return e
}

// rows23 judges the table: exactly the rows, in order.
func rows23(c *vt.C, out string, want [][]string) {
	lines := strings.Split(out, "\n")
	at := 0
	first := -1
	for _, row := range want {
		found := false
		for ; at < len(lines) && !found; at++ {
			rest, ok := lines[at], true
			for _, cell := range row {
				i := strings.Index(rest, cell)
				if i < 0 {
					ok = false
					break
				}
				rest = rest[i+len(cell):]
			}
			found = ok
			if ok && first < 0 {
				first = at
			}
			if !ok && first >= 0 {
				c.Fail("rows", "behind the results so far there is %q instead of %q:\n%s", lines[at], row, clip23(out))
				return
			}
		}
		if !found {
			c.Fail("rows", "no row with %q in\n%s", row, clip23(out))
			return
		}
		c.Count("rows", 1)
	}
	for _, line := range lines[at:] {
		if strings.TrimSpace(line) != "" && !strings.HasPrefix(line, "Balance at") && !strings.HasPrefix(line, "* ") {
			c.Fail("rows", "more behind the results than the bank sent: %q in\n%s", line, clip23(out))
			return
		}
	}
}

// secrets23 looks for the PIN in everything the run left behind.
func secrets23(c *vt.C, e *env, home string, res result23) {
	for name, text := range map[string]string{"standard output": res.out, "standard error": res.errOut} {
		if strings.Contains(text, e.bank.PINMark) {
			c.Fail("pin:"+name, "the PIN is in the %s: %s", name, res)
		}
	}
	for p, text := range files23(home) {
		if strings.Contains(text, e.bank.PINMark) {
			c.Fail("pin:file", "the PIN is in %s:\n%s", filepath.Base(p), text)
		}
	}
	c.Count("outputs searched", 3)
}

func (x *cli23) oneRun(c *vt.C) {
	rng := c.Rng
	home, err := os.MkdirTemp(c.R.Scratch, "home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	ids := banks23()
	blz := ids[rng.Intn(len(ids))]
	user := genDigits(rng, 1+rng.Intn(12))
	switch rng.Intn(4) {
	case 0:
		user = word23(rng, 6)
	case 1:
		user = odd23[rng.Intn(len(odd23))]
	}
	e := x.env23(rng, user, blz)
	j := command23(rng, e, user, blz)
	zones := []string{"UTC", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Berlin"}
	zone := zones[rng.Intn(len(zones))]
	tz, err := time.LoadLocation(zone)
	if err != nil {
		tz, zone = time.UTC, "UTC"
	}
	if _, err := os.Stat("/usr/share/zoneinfo/" + zone); err != nil {
		tz, zone = time.UTC, "UTC"
	}
	s := provide23(rng, home, user, blz)
	twice := s.from == "flags" && rng.Intn(2) == 0
	runs := 1
	if twice {
		runs = 2
	}
	for run := 0; run < runs; run++ {
		if run == 1 {
			// The settings were saved by the first run.
			e = x.env23(rng, user, blz)
			j = command23(rng, e, user, blz)
			s = settings23{from: "saved"}
		}
		args := append(append([]string{}, j.args...), s.args...)
		noPIN := rng.Intn(20) == 0
		if !noPIN {
			args = append(args, "--pin", e.cfg.PIN)
		}
		debug := rng.Intn(15) == 0
		if debug {
			args = append(args, []string{"-d", "--debug"}[rng.Intn(2)])
		}
		url := e.bank.URL
		dead := rng.Intn(25) == 0
		if dead {
			// Nobody listens on a port just closed.
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			url = "http://" + l.Addr().String() + "/"
			l.Close()
		}
		args = append(args, "--hbci.url", url)
		// A fault at one of the requests: those of the synchronisation, the
		// dialogs around each page, and their ends.
		fault, faultAt := "", -1
		ack := simbank.Ack{}
		if rng.Intn(2) == 0 {
			faultAt = rng.Intn(3 + 3*j.pages)
			fault = faults23[rng.Intn(len(faults23))]
			if rng.Intn(2) == 0 {
				fault = "rejected"
				ack = simbank.Ack{Code: anyError(rng), Text: word23(rng, 12)}
			}
			inSeg := rng.Intn(2) == 0
			n := 0
			e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
				if n == faultAt {
					alter23(fault, ack, inSeg, req, r)
				}
				n++
			}
		}
		x.mu.Lock()
		x.fault = fault
		x.mu.Unlock()
		before := files23(home)
		day0 := time.Now().In(tz)
		res := x.run(home, append([]string{"TZ=" + zone}, s.env...), e.bank, args...)
		day1 := time.Now().In(tz)
		ctx := fmt.Sprintf("%q %v settings from %s, fault %q at %d\n%s\n%s", args, s.env, s.from, fault, faultAt, res, e.bank.Trace())
		c.State("%s/%s/%s/%d/%s/%d", j.args[0], s.from, fault, faultAt, e.bank.Shape(), res.code)
		c.Count("runs:"+j.args[0], 1)
		c.Count("requests", len(res.reqs))
		if res.hung {
			c.Fail("hang", "still running after a minute: %s", ctx)
			return
		}
		if res.code != 0 && res.code != 1 {
			c.Fail("exit", "%s", ctx)
			return
		}
		if strings.Contains(res.errOut+res.out, "goroutine ") {
			c.Fail("panic", "%s", ctx)
		}
		if !debug {
			secrets23(c, e, home, res)
		}
		for p, text := range before {
			if got, err := os.ReadFile(p); err != nil || string(got) != text {
				c.Fail("config", "%s was %q, is %q (%v): %s", filepath.Base(p), text, got, err, ctx)
			}
		}
		report(c, e, "form", "protocol", "creds")
		bad := func() bool { return c.Failed() }
		if bad() {
			return
		}
		expect := func(code int) bool {
			if res.code != code {
				c.Fail("exit", "want exit %d: %s", code, ctx)
				return false
			}
			return true
		}
		if noPIN || s.missing || j.badAccount {
			what := "account"
			if noPIN || s.missing {
				what = "missing"
			}
			if j.args[0] == "accounts" && what == "account" {
				panic("accounts need no IBAN")
			}
			if !expect(1) {
				return
			}
			if len(res.reqs) != 0 {
				c.Fail("refuse", "%s: there was a request: %s", what, ctx)
			}
			if strings.TrimSpace(res.out+res.errOut) == "" {
				c.Fail("silent", "%s", ctx)
			}
			if s.missing && !noPIN && !strings.Contains(res.out+res.errOut, "blz") && !strings.Contains(res.out+res.errOut, "userID") {
				c.Fail("refuse:name", "%s", ctx)
			}
			c.Count("refused", 1)
			continue
		}
		failed := -1 // the kind of request that failed
		if dead {
			failed = 0
		} else if faultAt >= 0 && faultAt < len(res.reqs) {
			failed = faultAt
		}
		atEnd := failed >= 0 && !dead && isEnd(res.reqs[failed].Kind)
		switch {
		case dead || failed >= 0 && !atEnd:
			if !expect(1) {
				return
			}
			if strings.TrimSpace(res.out+res.errOut) == "" {
				c.Fail("silent", "%s", ctx)
			}
			if fault == "rejected" && !dead && (!strings.Contains(res.out+res.errOut, fmt.Sprint(ack.Code)) || !strings.Contains(res.out+res.errOut, ack.Text)) {
				c.Fail("error", "the message lacks code %d and text %q of the bank: %s", ack.Code, ack.Text, ctx)
			}
			c.Count("failures reported", 1)
		case atEnd && res.code == 1:
			c.Count("failed at the end", 1)
		default:
			if !expect(0) {
				return
			}
			rows23(c, res.out, j.rows)
			c.Count("results", 1)
			n := 0
			for _, q := range res.reqs {
				if q.Kind == simbank.Job {
					n++
				}
			}
			if n != j.pages {
				c.Fail("pages", "%d jobs instead of %d: %s", n, j.pages, ctx)
			}
			if s.from == "saved" {
				c.Count("saved settings used", 1)
			}
		}
		for _, q := range res.reqs {
			if q.Kind != simbank.Job {
				continue
			}
			if q.JobSeg.ID != j.job {
				c.Fail("job", "sent %q: %s", q.JobSeg.Raw, ctx)
				return
			}
			want := day0.AddDate(0, 0, -j.days)
			if domain.NewShortDate(day0).String() != domain.NewShortDate(day1).String() {
				c.Count("midnight", 1)
				break
			}
			j.check(c, q.JobSeg, want.Format("20060102"), day0.Format("20060102"))
		}
		if c.Failed() {
			c.Fail("context", "%s", ctx)
			return
		}
	}
}

// usage23 runs what must not reach the bank at all.
func (x *cli23) usage23(c *vt.C) {
	rng := c.Rng
	home, err := os.MkdirTemp(c.R.Scratch, "home")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(home)
	blz := banks23()[rng.Intn(len(banks23()))]
	full := func(e *env) []string {
		return []string{"--userID", "1234", "--blz", blz, "--pin", e.cfg.PIN, "--hbci.url", e.bank.URL}
	}
	for _, t := range []struct {
		what string
		args []string
		code int
		full bool
	}{
		{"help", []string{"--help"}, 0, false},
		{"help of a command", []string{"transactions", "--help"}, 0, true},
		{"no command", nil, 0, true},
		{"an unknown command", []string{"transfer"}, 1, true},
		{"an unknown flag", []string{"accounts", "--everything"}, 1, true},
		{"days that are no number", []string{"transactions", "--daysToFetch=ten"}, 1, true},
	} {
		e := x.env23(rng, "1234", blz)
		args := t.args
		if t.full {
			args = append(append([]string{}, args...), full(e)...)
		}
		res := x.run(home, nil, e.bank, args...)
		c.State("usage/%s/%d", t.what, res.code)
		c.Count("usage", 1)
		if res.code != t.code || len(res.reqs) > 0 || strings.TrimSpace(res.out+res.errOut) == "" {
			c.Fail("usage:"+t.what, "%q: %s\n%s", args, res, e.bank.Trace())
		}
		secrets23(c, e, home, res)
	}
	// A bank nobody knows.
	e := x.env23(rng, "1234", blz)
	res := x.run(home, nil, e.bank, "accounts", "--userID", "1234", "--blz", "99999999", "--pin", e.cfg.PIN, "--hbci.url", e.bank.URL)
	if res.code != 1 || strings.TrimSpace(res.out+res.errOut) == "" {
		c.Fail("usage:unknown bank", "%s", res)
	}
	// A settings file that can not be read is not overwritten.
	def := filepath.Join(home, ".banking.yaml")
	for _, content := range []string{"userID: \"1234\n", "userID: 1234\nblz: " + blz + "\n", "\tx", ""} {
		if err := os.WriteFile(def, []byte(content), 0600); err != nil {
			panic(err)
		}
		extra := []string{}
		if rng.Intn(2) == 0 {
			extra = []string{"--config", filepath.Join(home, "missing.yaml")}
		}
		e := x.env23(rng, "5678", blz)
		res := x.run(home, nil, e.bank, append([]string{"accounts", "--userID", "5678", "--blz", blz, "--pin", e.cfg.PIN, "--hbci.url", e.bank.URL}, extra...)...)
		got, err := os.ReadFile(def)
		if err != nil || string(got) != content {
			c.Fail("config", "with %q the settings in the home directory were %q, are %q (%v): %s", extra, content, got, err, res)
		}
		c.Count("settings kept", 1)
	}
}

func runP23(r *vt.Run) {
	r.Require("results", 200)
	r.Require("rows", 500)
	r.Require("failures reported", 100)
	r.Require("refused", 50)
	r.Require("jobs checked", 150)
	r.Require("saved settings used", 5)
	r.Require("settings kept", 20)
	x := newCLI23(r)
	defer x.server.Close()
	for i, n := 0, r.N(5000, 200000); i < n; i++ {
		r.Case(fmt.Sprintf("run/%d", i), x.oneRun)
	}
	for i, n := 0, r.N(16, 400); i < n; i++ {
		r.Case(fmt.Sprintf("usage/%d", i), x.usage23)
	}
}
