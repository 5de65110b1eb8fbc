//go:build p05 || all

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/charset"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/iban"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/token"
	"verif/harness/simbank"
	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P05",
		rule: "No panic, no fatal error, no runaway time or memory while the client and every public decoder are given hostile data. Evaluated per case: one or two operations with a fault at a chosen answer, or one decoder and one input.",
		fn:   runP05,
		assumptions: []string{
			"a decoded value must stand every accessor without arguments as well",
			"a bank that keeps announcing new pages is not a fault",
		},
	})
}

var errFault = errors.New("simulated fault")

// fault breaks the answer in some way and says how.
func fault(rng *rand.Rand, req *simbank.Request, r *simbank.Resp, bank *simbank.Bank) string {
	r.Undecodable = true
	switch k := rng.Intn(20); k {
	case 0:
		r.Body = genBytes(rng, rng.Intn(200))
		return "random"
	case 1:
		r.Body = []byte{}
		return "empty"
	case 2:
		r.Body = mutate(rng, r.Message(req, bank))
		return "mutated"
	case 3:
		m := r.Message(req, bank)
		r.Body = m[:rng.Intn(len(m))]
		return "truncated"
	case 4:
		w := base64.StdEncoding.EncodeToString(r.Message(req, bank))
		switch rng.Intn(4) {
		case 0:
			r.Wire = []byte(w[:rng.Intn(len(w)+1)])
		case 1:
			r.Wire = mutate(rng, []byte(w))
		case 2:
			r.Wire = []byte("<html>Service unavailable</html>")
		default:
			r.Wire = []byte{}
		}
		return "wire"
	case 5:
		r.Err = errFault
		return "transport"
	case 6:
		r.ReadErr, r.ReadN = errFault, rng.Intn(100)
		return "read"
	case 7:
		// the request sent back
		r.Body = append([]byte{}, req.Plain...)
		return "echo"
	case 8:
		// envelope
		msg := treesOf(r.Message(req, bank))
		var out []byte
		for _, t := range msg {
			switch rng.Intn(6) {
			case 0:
				continue
			case 1:
				out = append(out, t.bytes()...)
			case 2:
				t = t.twist(rng, true)
			}
			out = append(out, t.bytes()...)
		}
		r.Body = out
		return "envelope"
	case 9:
		// encrypted data that is something else
		var c []byte
		switch rng.Intn(4) {
		case 0:
			c = wire.Bin(genBytes(rng, rng.Intn(50)))
		case 1:
			c = wire.T("no binary data")
		case 2:
			c = wire.Bin(r.Message(req, bank))
		}
		head := wire.Seg("HNHBK", 1, 3, 0, wire.Raw("000000000123"), wire.I(r.Version), wire.T(r.Dialog), wire.I(r.Number))
		r.Body = append(head, append(append(append([]byte("HNVSK:998:3+998'"), "HNVSD:999:1"...), '+'), c...)...)
		r.Body = append(r.Body, append([]byte{'\''}, wire.Seg("HNHBS", 3, 1, 0, wire.I(1))...)...)
		return "encrypted"
	case 10:
		setInner(r, nil)
		return "nothing"
	case 11:
		r.Encrypted = !r.Encrypted
		r.Dialog = []string{"", "0", "x", genText(rng, 40)}[rng.Intn(4)]
		r.Number = rng.Intn(3)
		r.Version = []int{0, 201, 999, bank.Version}[rng.Intn(4)]
		return "header"
	}
	segs := innerSegs(req, r, bank)
	var out [][]byte
	n := 0
	for _, t := range segs {
		if rng.Intn(len(segs)+1) == 0 {
			for k := 1 + rng.Intn(2); k > 0; k-- {
				t = t.twist(rng, true)
			}
			n++
		}
		if rng.Intn(12) == 0 {
			continue
		}
		out = append(out, t.bytes())
	}
	for k := rng.Intn(4); k > 0 || n == 0; k-- {
		s := corpus(rng)
		if ts := treesOf(s); len(ts) == 1 && rng.Intn(4) > 0 {
			s = ts[0].twist(rng, true).bytes()
		}
		p := rng.Intn(len(out) + 1)
		out = append(out[:p], append([][]byte{s}, out[p:]...)...)
		n++
	}
	setInner(r, out)
	return "structure"
}

// operationCase runs operations against a bank that answers wrongly.
func operationCase(c *vt.C) {
	e := newBank(c.Rng, envOpts{hostile: c.Rng.Intn(3) == 0, debug: c.Rng.Intn(8) == 0})
	at := 1 + c.Rng.Intn(6)
	every := c.Rng.Intn(6) == 0
	seen := 0
	var kinds []string
	e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
		seen++
		if seen == at || every && c.Rng.Intn(2) == 0 {
			k := fault(c.Rng, req, r, e.bank)
			kinds = append(kinds, req.Kind+":"+k)
		}
	}
	if c.Rng.Intn(3) == 0 {
		// limited paging
		pages := c.Rng.Intn(4)
		old := e.bank.Jobs
		e.bank.Jobs = map[string]func(*simbank.Request, wire.Segment, *simbank.Resp){}
		for id, h := range old {
			e.bank.Jobs[id] = func(req *simbank.Request, job wire.Segment, r *simbank.Resp) {
				h(req, job, r)
				if pages > 0 {
					pages--
					r.SegAcks = append(r.SegAcks, simbank.SegAck{Ref: job.Pos, Acks: []simbank.Ack{{Code: 3040, Text: "mehr", Params: []string{fmt.Sprint("p", pages)}}}})
				}
			}
		}
	}
	e.connect()
	names := ""
	if c.Rng.Intn(4) == 0 {
		d := e.newDialog()
		steps := []func() error{
			func() error { _, err := d.SyncClientSystemID(); return err },
			func() error { return d.SyncUserParameterData() },
			func() error {
				_, err := d.SendMessage(message.NewHBCIMessage(segment.SupportedHBCIVersions[e.version], segment.NewAccountInformationRequestSegmentV1(e.acct, true)))
				return err
			},
			func() error {
				_, err := d.SendAnonymousMessage(message.NewHBCIMessage(segment.SupportedHBCIVersions[e.version], segment.NewCommunicationAccessRequestSegment(domain.BankID{CountryCode: 280, ID: "1"}, domain.BankID{CountryCode: 280, ID: "2"}, 3, "")))
				return err
			},
		}
		for n := 1 + c.Rng.Intn(4); n > 0; n-- {
			k := c.Rng.Intn(len(steps))
			names += fmt.Sprint("d", k, " ")
			_ = steps[k]()
			d.SupportedSegments()
			d.BankParameterDataVersion()
			d.UserParameterDataVersion()
			_ = fmt.Sprint(d.Accounts, d.BankParameterData, d.UserParameterData)
			c.Count("operations", 1)
		}
	} else {
		for n := 1 + c.Rng.Intn(3); n > 0; n-- {
			ops := genOps(e)
			o := ops[c.Rng.Intn(len(ops))]
			names += o.name + " "
			res, err, _ := e.runOp(o)
			if err != nil {
				_ = err.Error()
				c.Count("operation errors", 1)
			} else {
				c.Count("operation results", 1)
			}
			_ = fmt.Sprintf("%v", res)
			c.Count("operations", 1)
		}
	}
	for _, k := range kinds {
		c.Count("fault "+k[strings.Index(k, ":")+1:], 1)
		c.State("%s %s", names[:2], k)
	}
	_ = client.Config{}
}

var decodedIDs = []string{"HIRMG", "HIRMS", "HISYN", "HISAL", "HIKAZ", "HIPRO", "HIKIM", "HIUPD", "HIBPA", "HIUPA", "HIPINS", "DIPINS", "HITANS", "HITAN", "HNHBK", "HNHBS", "HNVSK", "HNVSD", "HNSHK", "HNSHA", "HIKOM", "HIKIF", "HISHV", "HIKPV", "HIISA", "HISSP", "HKIDN", "HKVVB", "HKSYN", "HKEND", "HKTAN"}

// poke calls every accessor without arguments.
func poke(v interface{}) {
	rv := reflect.ValueOf(v)
	t := rv.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || strings.HasPrefix(m.Name, "Set") {
			continue
		}
		rv.Method(i).Call(nil)
	}
}

// decode gives the segment to its decoders.
func decode(c *vt.C, seg []byte, id string, ver int) {
	u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: id, Version: ver})
	if err != nil {
		return
	}
	c.Count("segments", 1)
	if err := u.UnmarshalHBCI(seg); err != nil {
		_ = err.Error()
		c.Count("segments refused", 1)
		return
	}
	c.State("%s:%d", id, ver)
	poke(u)
}

func segmentDecodeCase(c *vt.C) {
	s := corpus(c.Rng)
	ts := treesOf(s)
	if len(ts) != 1 {
		panic("corpus")
	}
	id := string(ts[0][0][0])
	var ver int
	fmt.Sscan(string(ts[0][0][2]), &ver)
	decode(c, s, id, ver)
	for k := 0; k < 30; k++ {
		t := ts[0]
		for n := 1 + c.Rng.Intn(3); n > 0; n-- {
			t = t.twist(c.Rng, k%5 == 0)
		}
		b := t.bytes()
		if k%7 == 0 {
			b = mutate(c.Rng, s)
		}
		decode(c, b, id, ver)
		if k%3 == 0 {
			// another kind with this content
			id2, ver2 := decodedIDs[c.Rng.Intn(len(decodedIDs))], 1+c.Rng.Intn(8)
			decode(c, b, id2, ver2)
		}
		un := message.NewUnmarshaler(b)
		if un.Unmarshal() == nil {
			un.SegmentsByID(id)
			un.UnmarshalSegment(id, ver)
		}
	}
}

var elementTypes = []func() element.DataElement{
	func() element.DataElement { return &element.AccountConnectionDataElement{} },
	func() element.DataElement { return &element.AccountLimitDataElement{} },
	func() element.DataElement { return &element.AcknowledgementDataElement{} },
	func() element.DataElement { return &element.AddressDataElement{} },
	func() element.DataElement { return &element.AllowedBusinessTransactionDataElement{} },
	func() element.DataElement { return &element.AllowedBusinessTransactionsDataElement{} },
	func() element.DataElement { return &element.AlphaNumericDataElement{} },
	func() element.DataElement { return &element.AmountDataElement{} },
	func() element.DataElement { return &element.BalanceDataElement{} },
	func() element.DataElement { return &element.BankIdentificationDataElement{} },
	func() element.DataElement { return &element.BinaryDataElement{} },
	func() element.DataElement { return &element.BooleanDataElement{} },
	func() element.DataElement { return &element.CertificateDataElement{} },
	func() element.DataElement { return &element.CodeDataElement{} },
	func() element.DataElement { return &element.CommunicationParameterDataElement{} },
	func() element.DataElement { return &element.CountryCodeDataElement{} },
	func() element.DataElement { return &element.CurrencyDataElement{} },
	func() element.DataElement { return &element.CustomSignatureDataElement{} },
	func() element.DataElement { return &element.DateDataElement{} },
	func() element.DataElement { return &element.DigitDataElement{} },
	func() element.DataElement { return &element.DisposalEligiblePersonDataElement{} },
	func() element.DataElement { return &element.DisposalEligiblePersonsDataElement{} },
	func() element.DataElement { return &element.DtausCharsetDataElement{} },
	func() element.DataElement { return &element.EncryptionAlgorithmDataElement{} },
	func() element.DataElement { return &element.FloatDataElement{} },
	func() element.DataElement { return &element.HashAlgorithmDataElement{} },
	func() element.DataElement { return &element.IdentificationDataElement{} },
	func() element.DataElement { return &element.InternationalAccountConnectionDataElement{} },
	func() element.DataElement { return &element.KeyNameDataElement{} },
	func() element.DataElement { return &element.NumberDataElement{} },
	func() element.DataElement { return &element.ParamsDataElement{} },
	func() element.DataElement { return &element.PinTanBusinessTransactionParameter{} },
	func() element.DataElement { return &element.PinTanBusinessTransactionParameters{} },
	func() element.DataElement { return &element.PinTanDataElement{} },
	func() element.DataElement { return &element.PinTanSpecificParamDataElement{} },
	func() element.DataElement { return &element.PublicKeyDataElement{} },
	func() element.DataElement { return &element.ReferencingMessageDataElement{} },
	func() element.DataElement { return &element.SecurityDateDataElement{} },
	func() element.DataElement { return &element.SecurityIdentificationDataElement{} },
	func() element.DataElement { return &element.SecurityMethodVersionsDataElement{} },
	func() element.DataElement { return &element.SecurityProfileDataElement{} },
	func() element.DataElement { return &element.SegmentHeader{} },
	func() element.DataElement { return &element.SignatureAlgorithmDataElement{} },
	func() element.DataElement { return &element.SupportedCompressionMethodsDataElement{} },
	func() element.DataElement { return &element.SupportedHBCIVersionsDataElement{} },
	func() element.DataElement { return &element.SupportedLanguagesDataElement{} },
	func() element.DataElement { return &element.SupportedSecurityMethodDataElement{} },
	func() element.DataElement { return &element.SwiftMT940DataElement{} },
	func() element.DataElement { return &element.Tan2StepSubmissionParameterV6{} },
	func() element.DataElement { return &element.Tan2StepSubmissionProcessParameterV6{} },
	func() element.DataElement { return &element.Tan2StepSubmissionProcessParametersV6{} },
	func() element.DataElement { return &element.TanChallengeExpiryDate{} },
	func() element.DataElement { return &element.TextDataElement{} },
	func() element.DataElement { return &element.TimeDataElement{} },
	func() element.DataElement { return &element.ValueDataElement{} },
}

func elementCase(c *vt.C, k int) {
	for n := 0; n < 40; n++ {
		e := elementTypes[k]()
		var b []byte
		switch c.Rng.Intn(5) {
		case 0:
			b = genBytes(c.Rng, c.Rng.Intn(30))
		case 1:
			b = hostileElem(c.Rng)
		case 2, 3:
			// a data element of some segment
			ts := treesOf(corpus(c.Rng))
			t := ts[0]
			if c.Rng.Intn(2) == 0 {
				t = t.twist(c.Rng, true)
			}
			b = bytes.Join(t[c.Rng.Intn(len(t))], []byte(":"))
		default:
			var parts [][]byte
			for m := 1 + c.Rng.Intn(25); m > 0; m-- {
				parts = append(parts, hostileElem(c.Rng))
			}
			b = bytes.Join(parts, []byte(":"))
		}
		c.Count("elements", 1)
		u, ok := e.(interface{ UnmarshalHBCI([]byte) error })
		if !ok {
			return
		}
		if u.UnmarshalHBCI(b) != nil {
			c.Count("elements refused", 1)
			continue
		}
		c.State("%T %d", e, bytes.Count(b, []byte(":")))
		poke(e)
	}
}

func mutateStatement(rng *rand.Rand, s string) []byte {
	b := []byte(s)
	switch rng.Intn(6) {
	case 0:
		return mutate(rng, b)
	case 1: // tag dropped or repeated
		tags := strings.SplitAfter(s, "\r\n")
		i := rng.Intn(len(tags))
		if rng.Intn(2) == 0 {
			tags = append(tags[:i:i], tags[i+1:]...)
		} else {
			j := rng.Intn(len(tags))
			tags = append(tags[:i:i], append([]string{tags[j]}, tags[i:]...)...)
		}
		return []byte(strings.Join(tags, ""))
	case 2: // tag content cut
		tags := strings.Split(s, "\r\n")
		i := rng.Intn(len(tags))
		tags[i] = tags[i][:rng.Intn(len(tags[i])+1)]
		return []byte(strings.Join(tags, "\r\n"))
	case 3: // tag renamed
		for _, t := range []string{":20:", ":25:", ":28C:", ":60F:", ":61:", ":86:", ":62F:"} {
			if rng.Intn(4) == 0 {
				b = bytes.Replace(b, []byte(t), []byte([]string{":60M:", ":62M:", ":64:", ":65:", ":99:", ":86:", ":61:", ":", "::", ":NS:", ":61", ":20:"}[rng.Intn(12)]), 1)
			}
		}
		return b
	case 4:
		return b[:rng.Intn(len(b)+1)]
	}
	p := rng.Intn(len(b) + 1)
	if rng.Intn(8) == 0 {
		return append(b[:p:p], append([]byte(limitNumber(rng, len(b))), b[p:]...)...)
	}
	ins := []string{"\r\n", "\r", "\n", "-", ":61:", ":86:", "?", "?20", "//", "/", ",", "C", "\r\n-", "\r\n:", ":", "999999", "\x00", "\xff", "?00?00", "//\r\n/"}[rng.Intn(20)]
	return append(b[:p:p], append([]byte(ins), b[p:]...)...)
}

func swiftCase(c *vt.C) {
	s := genStatement(c.Rng)
	for k := 0; k < 12; k++ {
		b := mutateStatement(c.Rng, s)
		if k > 8 {
			b = mutateStatement(c.Rng, string(b))
		}
		decodeSwift(c, b)
	}
	for n := 0; n < 20; n++ {
		decodeSwift(c, genBytes(c.Rng, c.Rng.Intn(40)))
		line := []byte([]string{":61:", ":86:", ":60F:", ":25:", ":28C:", ":62M:", "", ":20:"}[c.Rng.Intn(8)])
		line = append(line, mutate(c.Rng, []byte([]string{"2610021002DR12,5N024NONREF//x\r\n/y", "177?00a?20b?60c", "C261001EUR12,5", "10020030/123EUR", "1/1", "STARTUMS"}[c.Rng.Intn(6)]))...)
		for _, t := range []interface{ Unmarshal([]byte) error }{&swift.AlphaNumericTag{}, &swift.NumberTag{}, &swift.FloatTag{}, &swift.CustomFieldTag{}, &swift.AccountTag{}, &swift.StatementNumberTag{}, &swift.BalanceTag{}, &swift.TransactionTag{}} {
			if t.Unmarshal(line) == nil {
				poke(t)
			}
			c.Count("swift tags", 1)
		}
	}
}

func decodeSwift(c *vt.C, b []byte) {
	m := &swift.MT940{}
	if m.Unmarshal(b) == nil {
		_ = fmt.Sprintf("%v", m)
		poke(m)
		c.Count("statements read", 1)
	}
	ms := swift.NewMT940Messages(b)
	poke(ms)
	txs, err := swift.NewMT940MessagesUnmarshaler().UnmarshalMT940(b)
	_ = fmt.Sprint(txs, err)
	ex := swift.NewMessageExtractor(b)
	parts, err := ex.Extract()
	if err == nil {
		c.State("swift %d", len(parts))
	}
	l := token.NewSwiftLexer("p05", b)
	for n := 0; l.HasNext(); n++ {
		if l.Next().Type() == token.ERROR {
			break
		}
		if n > 4*len(b)+16 {
			c.Fail("swift:endless", "the lexer gives more than %d tokens for %d bytes", n, len(b))
			break
		}
	}
	c.Count("statements", 1)
}

func miscCase(c *vt.C) {
	for n := 0; n < 50; n++ {
		b := genBytes(c.Rng, c.Rng.Intn(40))
		s := string(b)
		if n%2 == 0 {
			s = genText(c.Rng, 40)
		}
		charset.ToUTF8(b)
		iban.IsValid(s)
		for _, t := range []string{s, "DE" + s, "DE" + genDigits(c.Rng, c.Rng.Intn(24)), string(mutate(c.Rng, []byte("DE89370400440532013000")))} {
			if i, err := iban.From(t); err == nil && len(i) > 12 {
				poke(i)
			}
			i := iban.IBAN(t)
			i.Valid()
			iban.IsValid(t)
		}
		if i, err := iban.New(s, genDigits(c.Rng, 18)); err == nil && len(i) > 12 {
			poke(i)
		}
		if i, err := iban.NewGerman(s, genDigits(c.Rng, c.Rng.Intn(12))); err == nil {
			poke(i)
		}
		bankinfo.FindByBankID(s)
		for _, j := range []string{s, fmt.Sprintf("%q", s), `"20261002"`, `"2026-10-02"`, `"20261002:20261003"`, "null", "1", "{}", `":"`, `"20261002:"`} {
			in := []byte(j)
			if n > 0 {
				in = mutate(c.Rng, in)
			}
			var d domain.ShortDate
			_ = d.UnmarshalJSON(in)
			var tf domain.Timeframe
			_ = tf.UnmarshalJSON(in)
			_ = json.Unmarshal(in, &d)
			_ = json.Unmarshal(in, &tf)
			d.MarshalJSON()
			_ = d.String()
		}
		rows := "Nr.;BLZ;Institut;Ort;RZ;Organisation;HBCI-Zugang DNS;HBCI- Zugang     IP-Adresse;HBCI-Version;DDV;RDH-1;x;PIN/TAN-Zugang URL;Version;Datum letzte Änderung\n"
		for k := c.Rng.Intn(4); k > 0; k-- {
			rows += "1;10020030;Bank;Ort;RZ;Org;;;2.2;;;;;;;;;;;;;;;https://x;FinTS V3.0;;\n"
		}
		in := mutate(c.Rng, []byte(rows))
		bankinfo.ParseBankInfos(bytes.NewReader(in))
		bankinfo.ParseBicData(bytes.NewReader(in))
		bankinfo.ParseBicData(bytes.NewReader(mutate(c.Rng, []byte("Bankleitzahl,Merkmal,Bezeichnung,PLZ,Ort,Kurzbezeichnung,PAN,BIC,x\n10020030,1,Bank,1,Ort,B,1,BICBICXX,0\n"))))
		c.Count("misc", 1)
	}
}

// allocated is what f allocates.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// patterns repeat something that decoders may handle out of proportion.
var patterns = []struct {
	name              string
	head, unit, tail  string
	swift, inner, eod bool
}{
	{name: "elements", head: "HIRMG:2:2", unit: "+0010::x", tail: "'", inner: true},
	{name: "empty elements", head: "HIRMG:2:2+0010::x", unit: "+", tail: "'", inner: true},
	{name: "parts", head: "HIRMS:2:2:3+3040::x", unit: ":p", tail: "'", inner: true},
	{name: "empty parts", head: "HIRMS:2:2:3+3040::x", unit: ":", tail: "'", inner: true},
	{name: "segments", head: "", unit: "HIRMS:2:2:3+0020::x'", tail: "", inner: true},
	{name: "unknown segments", head: "", unit: "HIXYZ:2:2:3+x'", tail: "", inner: true},
	{name: "parameter segments", head: "", unit: "HISALS:2:2:3+1+1'", tail: "", inner: true},
	{name: "accounts", head: "", unit: "HIUPD:2:4:3+1::280:1+u+EUR+n+++HKSAL:1'", tail: "", inner: true},
	{name: "announcements", head: "", unit: "HIKIM:2:2+s+t'", tail: "", inner: true},
	{name: "escapes", head: "HIRMG:2:2+0010::x", unit: "?+", tail: "'", inner: true},
	{name: "digits", head: "HIRMG:2:2+", unit: "1", tail: "'", inner: true},
	{name: "zeros", head: "HIRMG:2:2+", unit: "0", tail: "'", inner: true},
	{name: "binary", head: "HIRMG:2:2+0010::x", unit: ":@1@'", tail: "'", inner: true},
	{name: "text", head: "HIKIM:2:2+s+", unit: "a\r\n", tail: "'", inner: true},
	{name: "umlauts", head: "HIKIM:2:2+s+", unit: "\xe4", tail: "'", inner: true},
	{name: "pins", head: "HIPINS:3:1+1+1+0+5:38:6:u:c", unit: ":HKSAL:J", tail: "'", inner: true},
	{name: "tans", head: "HITANS:3:6+1+1+1+J:N:0", unit: ":900:2:t:::n:6:1:T:999:J:1:N:0:0:N:J:00:0:N:1", tail: "'", inner: true},
	{name: "permitted jobs", head: "HIUPD:4:4:3+1::280:1+u+EUR+n++", unit: "+HKSAL:1", tail: "'", inner: true},
	{name: "transactions", head: "\r\n:20:S\r\n:25:1/1\r\n:28C:1/1\r\n:60F:C261001EUR1,0", unit: "\r\n:61:2610021002D1,00N024NONREF\r\n:86:177?00x", tail: "\r\n:62F:C261002EUR1,00\r\n-", swift: true},
	{name: "statements", head: "", unit: "\r\n:20:S\r\n:25:1/1\r\n:28C:1/1\r\n:60F:C261001EUR1,00\r\n:62F:C261002EUR1,00\r\n-", tail: "", swift: true},
	{name: "purpose", head: "\r\n:20:S\r\n:25:1/1\r\n:28C:1/1\r\n:60F:C261001EUR1,00\r\n:61:2610021002D1,00N024NONREF\r\n:86:177", unit: "?20x\r\n", tail: "\r\n:62F:C261002EUR1,00\r\n-", swift: true},
	{name: "lines", head: "\r\n:20:", unit: "\r\n", tail: "-", swift: true},
	{name: "colons", head: "\r\n:20:", unit: ":", tail: "\r\n-", swift: true},
	{name: "dashes", head: "\r\n:20:S", unit: "\r\n-", tail: "", swift: true},
	{name: "tags", head: "", unit: "\r\n:20:S", tail: "\r\n-", swift: true},
	{name: "slashes", head: "\r\n:20:S\r\n:25:1/1\r\n:28C:1/1\r\n:60F:C261001EUR1,00\r\n:61:2610021002D1,00N024NONREF", unit: "//", tail: "\r\n:62F:C261002EUR1,00\r\n-", swift: true},
}

// proportionCase: four times the input needs at most about four times the
// memory, and the client copes with it.
func proportionCase(c *vt.C, k int) {
	p := patterns[k]
	build := func(n int) []byte {
		return []byte(p.head + strings.Repeat(p.unit, n/len(p.unit)+1) + p.tail)
	}
	f := func(b []byte) func() {
		return func() {
			if p.swift {
				decodeSwift(c, b)
				un := message.NewUnmarshaler(append(wire.Seg("HIKAZ", 3, 5, 3, wire.Bin(b)), '\''))
				_ = un.Unmarshal()
				return
			}
			h := &segment.MessageHeaderSegment{}
			_ = h.UnmarshalHBCI([]byte("HNHBK:1:3+000000000123+300+dlg+2+dlg:2'"))
			if m, err := message.NewDecryptedMessage(h, nil, b); err == nil {
				m.SupportedSegments()
				m.Acknowledgements()
				m.FindSegments("HIRMS")
				c.Count("large messages read", 1)
			} else {
				_ = err.Error()
			}
		}
	}
	small, big := build(40000), build(160000)
	f(small)()
	a1, a2 := allocated(f(small)), allocated(f(big))
	c.Count("proportions", 1)
	if a2 > 9*a1+(4<<20) {
		c.Fail("memory:"+p.name, "%d bytes need %d bytes of memory, %d bytes need %d", len(small), a1, len(big), a2)
	}
	if a2 > uint64(len(big))*20000 {
		c.Fail("memory:"+p.name, "%d bytes need %d bytes of memory", len(big), a2)
	}
	// the supervisor limits processor time
	f(build(1 << 19))()
	if p.inner {
		e := newEnv(c.Rng, envOpts{})
		inner := build(300000)
		e.bank.Alter = func(req *simbank.Request, r *simbank.Resp) {
			if req.Kind == simbank.Job || req.Kind == simbank.Sync && c.Rng.Intn(2) == 0 {
				r.Segs = append(r.Segs, simbank.Seg{Lit: inner})
			}
		}
		for _, o := range genOps(e)[:3] {
			e.runOp(o)
		}
	}
}

func runP05(r *vt.Run) {
	// announcements and faults are logged
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		old := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = old }()
	}
	for i := 0; i < r.N(3500, 150000); i++ {
		r.Case(fmt.Sprintf("operation/%d", i), operationCase)
	}
	for i := 0; i < r.N(3000, 100000); i++ {
		r.Case(fmt.Sprintf("segment/%d", i), segmentDecodeCase)
	}
	for i := 0; i < r.N(40, 1500); i++ {
		for k := range elementTypes {
			r.Case(fmt.Sprintf("element/%d/%d", k, i), func(c *vt.C) { elementCase(c, k) })
		}
	}
	for i := 0; i < r.N(1500, 60000); i++ {
		r.Case(fmt.Sprintf("swift/%d", i), swiftCase)
	}
	for i := 0; i < r.N(300, 6000); i++ {
		r.Case(fmt.Sprintf("misc/%d", i), miscCase)
	}
	for k, p := range patterns {
		r.Case("proportion/"+strings.ReplaceAll(p.name, " ", "-"), func(c *vt.C) { proportionCase(c, k) })
	}
	r.Require("operations", 3000)
	r.Require("operation errors", 1000)
	r.Require("operation results", 500)
	r.Require("segments", 50000)
	r.Require("elements", 50000)
	r.Require("statements", 20000)
	r.Require("statements read", 1000)
	r.Require("proportions", len(patterns))
}
