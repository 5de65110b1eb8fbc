//go:build p13 || all

package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P13",
		rule: "a case is a history of operations of one client or dialog with a bank whose parameter data change; distinct states are operation, parts of the parameter data in the answers and segment versions",
		fn:   runP13,
		assumptions: []string{
			"bank parameter data are one unit: an answer with new ones replaces jobs, parameters and PIN/TAN transactions together, and the accounts of an answer replace all earlier ones",
			"rejected dialogs carry no parameter data; details of an account the library has no field for (IBAN, type, extensions) are not compared",
		},
	})
}

// known is what a client must know.
type known struct {
	BPD       domain.BankParameterData
	Supported []segment.VersionedSegment
	UPD       domain.UserParameterData
	Accounts  []domain.AccountInformation
	SysID     string
}

// parts is what one answer contains, with its meaning.
type parts struct {
	segs     []simbank.Seg
	bpd      *domain.BankParameterData
	sup      []segment.VersionedSegment
	upd      *domain.UserParameterData
	accts    []domain.AccountInformation
	describe string
}

// shortText is a text of at least one character for a field.
func shortText(rng *rand.Rand, n int) string {
	if rng.Intn(4) == 0 {
		return genWord(rng, n)
	}
	return genText1(rng, n)
}

func optText(rng *rand.Rand, n int) string {
	if rng.Intn(3) == 0 {
		return ""
	}
	return shortText(rng, n)
}

// many is a number below n, now and then one below large.
func many(rng *rand.Rand, n, large int) int {
	if rng.Intn(25) == 0 {
		return rng.Intn(large)
	}
	return rng.Intn(n)
}

func genBPD(rng *rand.Rand, e *env) (simbank.Seg, domain.BankParameterData) {
	bpd := domain.BankParameterData{Version: 1 + rng.Intn(999), BankID: domain.BankID{CountryCode: 280, ID: e.bank.BankID}, BankName: shortText(rng, 60), MaxTransactionsPerMessage: rng.Intn(1000)}
	if rng.Intn(4) == 0 {
		bpd.BankID = domain.BankID{CountryCode: []int{280, 40, 756}[rng.Intn(3)], ID: genDigits(rng, 8)}
	}
	languages := [][]byte{wire.I(1), wire.I(2), wire.I(3)}[:1+rng.Intn(3)]
	versions := [][]byte{wire.I(201), wire.I(210), wire.I(220), wire.I(300)}[rng.Intn(3):]
	des := [][]byte{wire.I(bpd.Version), wire.G(wire.I(bpd.BankID.CountryCode), wire.T(bpd.BankID.ID)), wire.T(bpd.BankName), wire.I(bpd.MaxTransactionsPerMessage), joinC(languages), joinC(versions)}
	ver := 2 + rng.Intn(2)
	opts := rng.Intn(8)
	opt := func(bit int) []byte {
		if opts&bit == 0 {
			return nil
		}
		n := rng.Intn(9999)
		switch bit {
		case 1:
			bpd.MaxMessageSize = n
		case 2:
			bpd.MinTimeout = n
		case 4:
			bpd.MaxTimeout = n
		}
		return wire.I(n)
	}
	des = append(des, opt(1))
	if ver == 3 {
		des = append(des, opt(2), opt(4))
	}
	if rng.Intn(2) == 0 { // an answer may omit empty elements at its end
		for len(des[len(des)-1]) == 0 {
			des = des[:len(des)-1]
		}
	}
	return simbank.S("HIBPA", ver, 4, des...), bpd
}

var parameterIDs = []string{"HISALS", "HIKAZS", "HIPROS", "HICCSS", "HISPAS", "HIDMES", "HIXYZS", "HIUEBS", "HILASS", "HIKOMS"}

func genParts(rng *rand.Rand, e *env, kind string) *parts {
	p := &parts{}
	mask := rng.Intn(8)
	if kind == simbank.Sync && rng.Intn(3) > 0 {
		mask = 7
	}
	if mask&1 != 0 {
		seg, bpd := genBPD(rng, e)
		p.segs, p.describe = append(p.segs, seg), p.describe+fmt.Sprintf("HIBPA%d ", seg.Ver)
		var params []simbank.Seg
		used := map[string]bool{}
		for n := many(rng, 12, 90); n > 0; n-- {
			id, v := parameterIDs[rng.Intn(len(parameterIDs))], 1+rng.Intn(9)
			if used[fmt.Sprint(id, v)] || segment.KnownSegments.IsUnmarshaler(segment.VersionedSegment{ID: id, Version: v}) {
				continue
			}
			used[fmt.Sprint(id, v)] = true
			params = append(params, supW(id, v))
		}
		if rng.Intn(3) > 0 {
			bpd.PinTanBusinessTransactions = map[string]bool{}
			var order []string
			for n := many(rng, 8, 150); n > 0; n-- {
				id := "HK" + strings.ToUpper(genWord(rng, 3)) + "X"
				if _, ok := bpd.PinTanBusinessTransactions[id]; !ok {
					bpd.PinTanBusinessTransactions[id] = rng.Intn(2) == 0
					order = append(order, id)
				}
			}
			if len(order) == 0 {
				bpd.PinTanBusinessTransactions["HKSAL"] = true
				order = []string{"HKSAL"}
			}
			params = append(params, pinsW(bpd.PinTanBusinessTransactions, order))
			p.describe += "HIPINS "
		}
		if rng.Intn(3) == 0 {
			params = append(params, tansW(tanProc{"901", "mobile"}, tanProc{"902", "photo"}))
			params = append(params, supW("HITANS", 5))
		}
		rng.Shuffle(len(params), func(i, j int) { params[i], params[j] = params[j], params[i] })
		for _, s := range params {
			p.sup = append(p.sup, segment.VersionedSegment{ID: s.ID, Version: s.Ver})
		}
		p.segs = append(p.segs, params...)
		p.bpd = &bpd
	}
	if kind == simbank.AnonInit {
		return p
	}
	if mask&2 != 0 {
		u := domain.UserParameterData{UserID: e.bank.UserID, Version: 1 + rng.Intn(999), Usage: rng.Intn(2)}
		if rng.Intn(2) == 0 {
			u.UserID = shortText(rng, 20)
		}
		v := 2 + rng.Intn(3)
		des := [][]byte{wire.T(u.UserID), wire.I(u.Version), wire.I(u.Usage)}
		if v >= 3 {
			u.UserName, u.Additions = optText(rng, 35), optText(rng, 1+many(rng, 40, 2048))
			des = append(des, wire.T(u.UserName), wire.T(u.Additions))
			for rng.Intn(2) == 0 && len(des[len(des)-1]) == 0 {
				des = des[:len(des)-1]
			}
		}
		p.segs, p.upd = append(p.segs, simbank.S("HIUPA", v, 4, des...)), &u
		p.describe += fmt.Sprintf("HIUPA%d ", v)
	}
	if mask&4 != 0 {
		n := many(rng, 6, 120)
		ver := 4 + rng.Intn(4)
		for i := 0; i < n; i++ {
			a := acctW{Ver: ver, ID: fmt.Sprintf("%d%s", i, genDigits(rng, 6)), Sub: optText(rng, 5), IBAN: "DE" + genDigits(rng, 20), User: shortText(rng, 20), Type: rng.Intn(100),
				Currency: currencies[rng.Intn(len(currencies))], Name1: shortText(rng, 27), Name2: optText(rng, 27), Product: optText(rng, 30)}
			if rng.Intn(5) == 0 {
				a.ID = shortText(rng, 20)
			}
			if rng.Intn(8) == 0 {
				a.ID, a.Sub, a.IBAN = "", "", ""
			}
			if rng.Intn(2) == 0 {
				a.Limit, a.LimCents = []string{"E", "T", "W", "M", "Z"}[rng.Intn(5)], genCents(rng)
				if a.Limit == "Z" {
					a.LimDays = 1 + rng.Intn(999)
				}
			}
			for k := many(rng, 6, 110); k > 0; k-- {
				j := jobW{ID: "HK" + strings.ToUpper(genWord(rng, 3)) + "Y", Sigs: rng.Intn(4)}
				if rng.Intn(3) == 0 {
					j.Kind, j.Cents = []string{"E", "T", "W", "M", "Z"}[rng.Intn(5)], genCents(rng)
					if j.Kind == "Z" {
						j.Days = 1 + rng.Intn(999)
					}
				}
				a.Jobs = append(a.Jobs, j)
			}
			p.segs = append(p.segs, a.seg(e.bank.BankID))
			p.accts = append(p.accts, a.meaning(e.bank.BankID))
		}
		p.describe += fmt.Sprintf("%dxHIUPD%d ", n, ver)
	}
	if rng.Intn(3) == 0 { // order within the answer does not matter, except that of accounts
		k := len(p.segs) - len(p.accts)
		head := append([]simbank.Seg{}, p.segs[:k]...)
		p.segs = append(append([]simbank.Seg{}, p.segs[k:]...), head...)
	}
	return p
}

// meaning is the account as the library represents it.
func (a acctW) meaning(bankID string) domain.AccountInformation {
	info := domain.AccountInformation{UserID: a.User, Currency: a.Currency, Name1: a.Name1, Name2: a.Name2, ProductID: a.Product}
	if a.ID != "" {
		info.AccountConnection = domain.AccountConnection{AccountID: a.ID, SubAccountCharacteristics: a.Sub, CountryCode: 280, BankID: bankID}
	}
	if a.Limit != "" {
		info.Limit = &domain.AccountLimit{Kind: a.Limit, Amount: domain.Amount{Amount: centsFloat(a.LimCents), Currency: "EUR"}, Days: a.LimDays}
	}
	for _, j := range a.Jobs {
		t := domain.BusinessTransaction{ID: j.ID, NeededSignatures: j.Sigs}
		if j.Kind != "" {
			t.Limit = &domain.AccountLimit{Kind: j.Kind, Amount: domain.Amount{Amount: centsFloat(j.Cents), Currency: "EUR"}, Days: j.Days}
		}
		info.AllowedBusinessTransactions = append(info.AllowedBusinessTransactions, t)
	}
	return info
}

// show renders accounts with the values behind pointers; empty and missing lists are the same.
func showAccounts(as []domain.AccountInformation) []string {
	out := []string{}
	for _, a := range as {
		s := fmt.Sprintf("%#v %q %q %q %q %q", a.AccountConnection, a.UserID, a.Currency, a.Name1, a.Name2, a.ProductID)
		if a.Limit != nil {
			s += fmt.Sprintf(" limit %#v", *a.Limit)
		}
		for _, t := range a.AllowedBusinessTransactions {
			s += fmt.Sprintf(" %s/%d", t.ID, t.NeededSignatures)
			if t.Limit != nil {
				s += fmt.Sprintf(" %#v", *t.Limit)
			}
		}
		out = append(out, s)
	}
	return out
}

func sortedSup(in []segment.VersionedSegment) []string {
	out := []string{}
	for _, s := range in {
		out = append(out, fmt.Sprintf("%s:%d", s.ID, s.Version))
	}
	sort.Strings(out)
	return out
}

func (k *known) apply(p *parts) {
	if p.bpd != nil {
		k.BPD, k.Supported = *p.bpd, p.sup
	}
	if p.upd != nil {
		k.UPD = *p.upd
	}
	if len(p.accts) > 0 {
		k.Accounts = p.accts
	}
}

func sameBPD(a, b domain.BankParameterData) bool {
	if len(a.PinTanBusinessTransactions) == 0 && len(b.PinTanBusinessTransactions) == 0 {
		a.PinTanBusinessTransactions, b.PinTanBusinessTransactions = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

// checkParams compares the parameters known per job with the announcement.
func checkParams(c *vt.C, when string, d *dialog.PinTanDialog, k *known) {
	var got []string
	for _, p := range d.BankParameterData.SupportedSegmentParameters {
		id := p.VersionedSegment
		got = append(got, fmt.Sprintf("%s:%d", id.ID, id.Version))
		switch {
		case p.Parameters == nil:
			if segment.KnownSegments.IsUnmarshaler(id) {
				c.Fail("parameters", "%s: the parameters of %s version %d are missing", when, id.ID, id.Version)
			}
		case p.Parameters.Header().ID.Val() != id.ID || p.Parameters.Header().Version.Val() != id.Version:
			c.Fail("parameters", "%s: the parameters of %s version %d are those of %v", when, id.ID, id.Version, p.Parameters.Header())
		default:
			c.Count("decoded job parameters", 1)
		}
	}
	sort.Strings(got)
	if want := sortedSup(k.Supported); !reflect.DeepEqual(got, want) && (len(got) > 0 || len(want) > 0) {
		c.Fail("supported", "%s: parameters are known of the segments %v, announced are %v", when, got, want)
	}
}

func checkKnown(c *vt.C, when string, d *dialog.PinTanDialog, k *known) {
	if !sameBPD(d.BankParameterData.BankParameterData, k.BPD) {
		c.Fail("bpd", "%s: bank parameter data are\n%+v, last sent were\n%+v", when, d.BankParameterData.BankParameterData, k.BPD)
	}
	if got, want := sortedSup(d.SupportedSegments()), sortedSup(k.Supported); !reflect.DeepEqual(got, want) {
		c.Fail("supported", "%s: supported segments are %v, announced are %v", when, got, want)
	}
	checkParams(c, when, d, k)
	if d.UserParameterData != k.UPD {
		c.Fail("upd", "%s: user parameter data are\n%+v, last sent were\n%+v", when, d.UserParameterData, k.UPD)
	}
	if got, want := showAccounts(d.Accounts), showAccounts(k.Accounts); !reflect.DeepEqual(got, want) {
		c.Fail("accounts", "%s: accounts are\n%s\nlast sent were\n%s", when, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if d.ClientSystemID != k.SysID {
		c.Fail("system", "%s: client system ID is %q, last assigned was %q", when, d.ClientSystemID, k.SysID)
	}
	if d.BankParameterDataVersion() != k.BPD.Version || d.UserParameterDataVersion() != k.UPD.Version {
		c.Fail("versions", "%s: versions are %d and %d, last sent were %d and %d", when, d.BankParameterDataVersion(), d.UserParameterDataVersion(), k.BPD.Version, k.UPD.Version)
	}
	c.Count("states compared", 1)
}

// history is one bank with changing parameter data.
type history struct {
	c      *vt.C
	rng    *rand.Rand
	e      *env
	k      known
	sent   map[*simbank.Request]*parts
	reject bool
	// late makes the end of the dialog or the job fail.
	late string
	// stated are the versions of the last dialogs
	kept [][]string
	back [][]domain.AccountInformation
}

func newHistory(c *vt.C, rng *rand.Rand) *history {
	h := &history{c: c, rng: rng, e: newBank(rng, envOpts{hostile: rng.Intn(2) == 0}), sent: map[*simbank.Request]*parts{}}
	h.k.SysID = "0"
	b := h.e.bank
	last := ""
	b.NewID = func(n int) string {
		switch id := fmt.Sprintf("%d%s", n, genText(rng, 30)); {
		case last != "" && rng.Intn(6) == 0: // the same again
		case rng.Intn(3) == 0:
			last = fmt.Sprintf("%d%s", n, genDigits(rng, 29-len(fmt.Sprint(n))))
			if rng.Intn(2) == 0 {
				last += "x"
			}
		case len([]rune(id)) <= 30:
			last = id
		default:
			last = string([]rune(id)[:30])
		}
		return last
	}
	b.Params = func(req *simbank.Request) []simbank.Seg {
		p := genParts(rng, h.e, req.Kind)
		h.sent[req] = p
		return p.segs
	}
	b.Alter = func(req *simbank.Request, r *simbank.Resp) {
		switch {
		case h.late == "" || (req.Kind == simbank.Job || req.Kind == simbank.AnonJob) != (h.late == "job"):
		case req.Kind == simbank.Sync || req.Kind == simbank.Init || req.Kind == simbank.AnonInit:
		case h.late == "lost end":
			r.Err = errors.New("connection reset by peer")
			c.Count("failures after the parameter data", 1)
		default:
			r.Segs = nil
			r.MsgAcks = []simbank.Ack{{Code: anyError(rng), Text: "Teilweise fehlerhaft"}}
			c.Count("failures after the parameter data", 1)
		}
		if req.Kind != simbank.Sync && req.Kind != simbank.Init && req.Kind != simbank.AnonInit || !h.reject || rng.Intn(2) == 0 {
			return
		}
		delete(h.sent, req)
		r.Segs = nil
		r.MsgAcks = []simbank.Ack{{Code: anyError(rng), Text: "Teilweise fehlerhaft"}}
	}
	return h
}

// follow brings the model up to date with the answers of an operation and
// checks the versions stated on the way.
func (h *history) follow(name string, reqs []*simbank.Request) {
	for _, q := range reqs {
		vvb, ok := q.Find("HKVVB")
		if !ok {
			continue
		}
		bpd, upd := vvb.Int(0, 0), vvb.Int(1, 0)
		switch {
		case q.Kind == simbank.Sync:
			if bpd != 0 || upd != 0 {
				h.c.Fail("stated", "%s: a synchronisation asks for changes after versions %d and %d instead of everything", name, bpd, upd)
			}
		case bpd != h.k.BPD.Version || upd != h.k.UPD.Version && !(q.Kind == simbank.AnonInit && upd == 0):
			h.c.Fail("stated", "%s: the dialog states versions %d and %d, the last ones received are %d and %d", name, bpd, upd, h.k.BPD.Version, h.k.UPD.Version)
		default:
			h.c.Count("versions stated", 1)
		}
		if idn, ok := q.Find("HKIDN"); ok {
			want := [2]string{h.k.UPD.UserID, h.k.SysID}
			switch {
			case q.Kind == simbank.AnonInit:
				want = [2]string{"9999999999", "0"}
			case q.Kind == simbank.Sync:
				want[1] = "0"
			}
			if want[0] == "" {
				want[0] = h.e.bank.UserID
			}
			if got := [2]string{idn.Str(1, 0), idn.Str(2, 0)}; got != want {
				h.c.Fail("identified", "%s: the dialog (%s) is opened as customer and system %q, the bank assigned %q", name, q.Kind, got, want)
			}
			h.c.Count("identifications compared", 1)
		}
		if p := h.sent[q]; p != nil && q.Status == "accepted" {
			h.k.apply(p)
			if q.Kind == simbank.Sync {
				if id, ok := simbank.Assigned(q.Resp); ok {
					h.k.SysID = id
				}
			}
			h.c.State("%s %s %s", name, q.Kind, p.describe)
			h.c.Count("answers with parameter data", 1)
		}
	}
}

func (h *history) keep(as []domain.AccountInformation) {
	h.back, h.kept = append(h.back, as), append(h.kept, showAccounts(as))
}

func (h *history) checkKept(when string) {
	for i, as := range h.back {
		if got := showAccounts(as); !reflect.DeepEqual(got, h.kept[i]) {
			h.c.Fail("returned", "%s: accounts returned earlier changed from\n%s\nto\n%s", when, strings.Join(h.kept[i], "\n"), strings.Join(got, "\n"))
		}
	}
}

// fails chooses what fails in the next operation, in one of n.
func (h *history) fails(n int) {
	h.reject, h.late = h.rng.Intn(n) == 0, ""
	if h.rng.Intn(n) == 0 {
		h.late = []string{"job", "end", "lost end"}[h.rng.Intn(3)]
	}
}

func p13dialog(c *vt.C, rng *rand.Rand) {
	h := newHistory(c, rng)
	d := h.e.newDialog()
	version := segment.SupportedHBCIVersions[h.e.version]
	for i, n := 0, 2+rng.Intn(7); i < n && !c.Failed(); i++ {
		h.fails(5)
		name := []string{"SyncClientSystemID", "SyncUserParameterData", "SendMessage", "SendAnonymousMessage"}[rng.Intn(4)]
		h.e.bank.BeginOp()
		var err error
		switch name {
		case "SyncClientSystemID":
			var id string
			if id, err = d.SyncClientSystemID(); err == nil && id != d.ClientSystemID {
				c.Fail("system", "SyncClientSystemID returned %q, the dialog uses %q", id, d.ClientSystemID)
			}
		case "SyncUserParameterData":
			err = d.SyncUserParameterData()
		case "SendMessage":
			_, err = d.SendMessage(message.NewHBCIMessage(version, version.TanProcess4Request("HKIDN"), segment.NewAccountInformationRequestSegmentV1(h.e.acct, false)))
		case "SendAnonymousMessage":
			_, err = d.SendAnonymousMessage(message.NewHBCIMessage(version, segment.NewCommunicationAccessRequestSegment(h.e.acctBank(), h.e.acctBank(), 1, "")))
		}
		reqs := h.e.bank.EndOp()
		if err != nil && !h.reject && h.late == "" {
			c.Fail("error", "%s fails: %v\n%s", name, err, h.e.bank.Trace())
			return
		}
		h.follow(name, reqs)
		checkKnown(c, fmt.Sprintf("after operation %d, %s", i+1, name), d, &h.k)
		h.checkKept("after " + name)
		h.keep(d.Accounts)
		c.Count("operations", 1)
	}
}

func p13client(c *vt.C, rng *rand.Rand) {
	h := newHistory(c, rng)
	cl, err := client.New(h.e.cfg)
	if err != nil {
		c.Fail("new", "client.New: %v", err)
		return
	}
	for i, n := 0, 2+rng.Intn(5); i < n && !c.Failed(); i++ {
		h.fails(6)
		h.e.bank.BeginOp()
		as, err := cl.Accounts()
		reqs := h.e.bank.EndOp()
		if err != nil && !h.reject && h.late == "" {
			c.Fail("error", "Accounts fails: %v\n%s", err, h.e.bank.Trace())
			return
		}
		h.follow("Accounts", reqs)
		c.Count("operations", 1)
		if err != nil {
			continue
		}
		if got, want := showAccounts(as), showAccounts(h.k.Accounts); !reflect.DeepEqual(got, want) {
			c.Fail("accounts", "call %d of Accounts returns\n%s\nlast sent were\n%s", i+1, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		h.checkKept(fmt.Sprintf("call %d of Accounts", i+1))
		h.keep(as)
		c.Count("account lists returned", 1)
	}
}

func runP13(r *vt.Run) {
	for i, n := 0, r.N(1500, 30000); i < n; i++ {
		r.Case(fmt.Sprintf("d%d", i), func(c *vt.C) { p13dialog(c, c.Rng) })
	}
	for i, n := 0, r.N(700, 12000); i < n; i++ {
		r.Case(fmt.Sprintf("c%d", i), func(c *vt.C) { p13client(c, c.Rng) })
	}
	r.Require("states compared", 4000)
	r.Require("answers with parameter data", 4000)
	r.Require("versions stated", 3000)
	r.Require("identifications compared", 4000)
	r.Require("decoded job parameters", 500)
	r.Require("account lists returned", 1000)
	r.Require("failures after the parameter data", 300)
}
