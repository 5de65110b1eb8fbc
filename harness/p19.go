//go:build p19 || all

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P19",
		rule: "a case is one generated segment of a known kind and version, decoded alone, inside a message and by its version independent type, or with one malformed element; distinct states are (kind, version, set of present elements)",
		fn:   runP19,
		assumptions: []string{
			"the fields of each segment and their order are those of the specification, written down in the harness",
			"an element the bank left out is absent when its field is nil or, for texts, empty",
		},
	})
}

// want19 judges a decoded field: "" when it is right.
type want19 func(v reflect.Value) string

// ctx19 draws the content of a segment; hard counts the elements with a
// format, of which number bad is written malformed.
type ctx19 struct {
	rng  *rand.Rand
	hard int
	bad  int
	what string
}

func (g *ctx19) spoil(kind string, forms ...string) ([]byte, bool) {
	g.hard++
	if g.hard-1 != g.bad {
		return nil, false
	}
	f := forms[g.rng.Intn(len(forms))]
	g.what = kind + " " + f
	return wire.T(f), true
}

// node19 is a data element, or a group of them.
type node19 interface {
	// size is the number of group elements it takes.
	size() int
	gen(g *ctx19) ([][]byte, want19)
}

type leaf19 string

func (leaf19) size() int { return 1 }

func val19(v reflect.Value) (interface{}, bool) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
		return nil, false
	}
	m := v.MethodByName("Val")
	if !m.IsValid() {
		return fmt.Sprintf("%s without Val", v.Type()), true
	}
	return m.Call(nil)[0].Interface(), true
}

func absent19(v reflect.Value) string {
	val, ok := val19(v)
	if !ok {
		return ""
	}
	if s, isText := val.(string); isText && s == "" {
		return ""
	}
	return fmt.Sprintf("left out, but decoded as %v", val)
}

func equals19(want interface{}) want19 {
	return func(v reflect.Value) string {
		val, ok := val19(v)
		if !ok {
			return fmt.Sprintf("%v was sent but is missing", want)
		}
		switch w := want.(type) {
		case []byte:
			if b, ok := val.([]byte); ok && bytes.Equal(b, w) {
				return ""
			}
		case func(interface{}) bool:
			if w(val) {
				return ""
			}
		default:
			if reflect.DeepEqual(val, want) {
				return ""
			}
		}
		return fmt.Sprintf("decoded as %#v instead of %#v", val, want)
	}
}

func (l leaf19) gen(g *ctx19) ([][]byte, want19) {
	one := func(b []byte, w interface{}) ([][]byte, want19) { return [][]byte{b}, equals19(w) }
	rng := g.rng
	switch l {
	case "an", "id", "txt", "code":
		s := genText1(rng, 30)
		return one(wire.T(s), s)
	case "num":
		if b, ok := g.spoil("number", "x", "1x", "1 2", "1,5", "99999999999999999999", "J"); ok {
			return [][]byte{b}, nil
		}
		n := []int{0, 1, 9, 10, 99, 998, 9999, rng.Intn(1e6), int(rng.Int63n(1e12))}[rng.Intn(9)]
		s := fmt.Sprint(n)
		if rng.Intn(4) == 0 {
			s = strings.Repeat("0", rng.Intn(4)) + s
		}
		return one([]byte(s), n)
	case "lang":
		n := 1 + rng.Intn(3)
		return one(wire.I(n), n)
	case "cc":
		if b, ok := g.spoil("country", "DEU", "2x0", "x"); ok {
			return [][]byte{b}, nil
		}
		n := []int{280, 40, 4, 756, rng.Intn(1000)}[rng.Intn(5)]
		return one([]byte(fmt.Sprintf("%03d", n)), n)
	case "dig4":
		if b, ok := g.spoil("code", "x010", "00x1", "1,0"); ok {
			return [][]byte{b}, nil
		}
		n := rng.Intn(10000)
		return one([]byte(fmt.Sprintf("%04d", n)), n)
	case "cur":
		s := currencies[rng.Intn(len(currencies))]
		return one(wire.T(s), s)
	case "iban":
		s := "DE" + genDigits(rng, 20)
		return one(wire.T(s), s)
	case "bool":
		if b, ok := g.spoil("boolean", "X", "JJ", "1", "Ja"); ok {
			return [][]byte{b}, nil
		}
		if rng.Intn(2) == 0 {
			return one([]byte("J"), true)
		}
		return one([]byte("N"), false)
	case "bin":
		b := genBytes(rng, 40)
		if len(b) == 0 {
			b = []byte{'\''}
		}
		return one(wire.Bin(b), b)
	case "mt940":
		b := genBytes(rng, 40)
		if len(b) == 0 {
			b = []byte{'@'}
		}
		return [][]byte{wire.Bin(b)}, func(v reflect.Value) string {
			d, ok := v.Interface().(*element.SwiftMT940DataElement)
			if !ok || d == nil || d.BinaryDataElement == nil {
				return "statement is missing"
			}
			if !bytes.Equal(d.BinaryDataElement.Val(), b) {
				return fmt.Sprintf("decoded as %q instead of %q", d.BinaryDataElement.Val(), b)
			}
			return ""
		}
	case "date":
		if b, ok := g.spoil("date", "x", "20201301", "20200230", "2020010", "2020-01-01", "202001010", "00000000"); ok {
			return [][]byte{b}, nil
		}
		d := genDate(rng)
		return one([]byte(d.Format("20060102")), func(v interface{}) bool {
			t, ok := v.(time.Time)
			return ok && t.Format("20060102") == d.Format("20060102")
		})
	case "time":
		if b, ok := g.spoil("time", "x", "250000", "126000", "1200", "120060", "12:00:00"); ok {
			return [][]byte{b}, nil
		}
		h, m, s := genClock(rng)
		txt := fmt.Sprintf("%02d%02d%02d", h, m, s)
		return one([]byte(txt), func(v interface{}) bool {
			t, ok := v.(time.Time)
			return ok && t.Format("150405") == txt
		})
	case "val":
		if b, ok := g.spoil("amount", "x", "1,5x", "1,2,3", "--1,", "EUR", "NaN", "Inf", "-Infinity", "0x1p4", "1e5"); ok {
			return [][]byte{b}, nil
		}
		c := genCents(rng)
		return one([]byte(centsWire(c)), centsFloat(c))
	}
	panic("unknown kind " + string(l))
}

// field19 is a named part of a group or segment.
type field19 struct {
	name string
	must bool
	node node19
}

// group19 is a data element group.
type group19 []field19

func (gr group19) size() int {
	n := 0
	for _, f := range gr {
		n += f.node.size()
	}
	return n
}

func (gr group19) gen(g *ctx19) ([][]byte, want19) {
	var parts [][]byte
	wants := make([]want19, len(gr))
	full := g.rng.Intn(3) == 0
	some := false
	for !some {
		parts = parts[:0]
		hard := g.hard
		for i, f := range gr {
			if !f.must && !full && g.rng.Intn(2) == 0 {
				parts = append(parts, make([][]byte, f.node.size())...)
				wants[i] = absent19
				if _, leaf := f.node.(leaf19); !leaf {
					wants[i] = absentGroup19
				}
				continue
			}
			p, w := f.node.gen(g)
			for _, b := range p {
				some = some || len(b) > 0
			}
			parts = append(parts, p...)
			wants[i] = w
		}
		if !some {
			g.hard, full = hard, true
		}
	}
	return parts, func(v reflect.Value) string {
		return fields19(v, gr, wants)
	}
}

func absentGroup19(v reflect.Value) string {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || v.IsNil() {
		return ""
	}
	if g, ok := v.Interface().(interface {
		GroupDataElements() []element.DataElement
	}); ok && reflect.Indirect(v).FieldByName("arrayElementGroup").IsValid() {
		if reflect.Indirect(v).FieldByName("arrayElementGroup").IsNil() || len(g.GroupDataElements()) == 0 {
			return ""
		}
	}
	// A group of nothing is as good as none.
	st := reflect.Indirect(v)
	for i := 0; i < st.NumField(); i++ {
		if f := st.Field(i); st.Type().Field(i).PkgPath == "" && !st.Type().Field(i).Anonymous {
			if absent19(f) != "" {
				return "left out, but decoded as something"
			}
		}
	}
	if st.NumField() == 1 {
		return "left out, but decoded as something"
	}
	return ""
}

func fields19(v reflect.Value, fields []field19, wants []want19) string {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
		return "was sent but is missing"
	}
	st := reflect.Indirect(v)
	for i, f := range fields {
		if f.name == "-" || wants[i] == nil {
			continue
		}
		fv := st.FieldByName(f.name)
		if !fv.IsValid() {
			return "no field " + f.name
		}
		if msg := wants[i](fv); msg != "" {
			return f.name + ": " + msg
		}
	}
	return ""
}

// array19 is a repeated element at the end of a group.
type array19 struct {
	node     node19
	min, max int
	// des: every member is a data element of its own, at the end of a segment.
	des bool
}

func (array19) size() int { return 1 }

func (a array19) gen(g *ctx19) ([][]byte, want19) {
	n := a.min
	if a.max > a.min {
		n += g.rng.Intn(a.max - a.min + 1)
	}
	var parts [][]byte
	wants := make([]want19, n)
	for i := range wants {
		p, w := a.node.gen(g)
		wants[i] = w
		if a.des {
			parts = append(parts, join19(p))
		} else {
			parts = append(parts, p...)
		}
	}
	return parts, func(v reflect.Value) string {
		elems := members19(v)
		if len(elems) != n {
			return fmt.Sprintf("%d members instead of %d", len(elems), n)
		}
		for i, e := range elems {
			if wants[i] == nil {
				continue
			}
			if msg := wants[i](reflect.ValueOf(e)); msg != "" {
				return fmt.Sprintf("[%d] %s", i, msg)
			}
		}
		return ""
	}
}

func members19(v reflect.Value) []element.DataElement {
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
		return nil
	}
	st := reflect.Indirect(v)
	if emb := st.FieldByName("arrayElementGroup"); emb.IsValid() && emb.IsNil() {
		return nil
	}
	if g, ok := v.Interface().(interface {
		GroupDataElements() []element.DataElement
	}); ok {
		return g.GroupDataElements()
	}
	if st.Kind() == reflect.Struct {
		if de := st.FieldByName("DataElement"); de.IsValid() && !de.IsNil() {
			if g, ok := de.Interface().(interface {
				GroupDataElements() []element.DataElement
			}); ok {
				return g.GroupDataElements()
			}
		}
	}
	return nil
}

// join19 joins the parts of a group, without empty ones at the end.
func join19(parts [][]byte) []byte {
	n := len(parts)
	for n > 0 && len(parts[n-1]) == 0 {
		n--
	}
	return joinC(parts[:n])
}

// parse19 reads "Name:kind! ..." where kind is a leaf, a named group, kind* for
// a repetition inside a group or kind** for one of data elements.
func parse19(s string) group19 {
	var g group19
	for _, w := range strings.Fields(s) {
		nk := strings.SplitN(w, ":", 2)
		f := field19{name: nk[0]}
		kind := nk[1]
		if strings.HasSuffix(kind, "!") {
			f.must = true
			kind = strings.TrimSuffix(kind, "!")
		}
		des := strings.HasSuffix(kind, "**")
		rep := strings.HasSuffix(kind, "*")
		kind = strings.TrimRight(kind, "*")
		var n node19 = leaf19(kind)
		if def, ok := groups19[kind]; ok {
			n = parse19(def)
		}
		if rep {
			max := 5
			if des {
				max = 7
			}
			n = array19{node: n, min: 1, max: max, des: des}
		}
		f.node = n
		g = append(g, f)
	}
	return g
}

var groups19 = map[string]string{
	"acct":    "AccountID:id SubAccountCharacteristics:id CountryCode:cc! BankID:an!",
	"bank":    "CountryCode:cc! BankID:an!",
	"intl":    "IBAN:iban BIC:an AccountID:id SubAccountCharacteristics:id BankID:bank",
	"amount":  "Amount:val! Currency:cur!",
	"balance": "DebitCreditIndicator:an! Amount:val! Currency:cur! TransmissionDate:date! TransmissionTime:time",
	"stamp":   "Date:date! Time:time",
	"limit":   "Kind:an! Amount:amount Days:num",
	"job":     "BusinessTransactionID:an! NeededSignatures:num! Kind:an Amount:amount Days:num",
	"comm":    "Protocol:num! Address:an! AddressAddition:an FilterFunction:an FilterFunctionVersion:num",
	"msgref":  "DialogID:id! MessageNumber:num!",
	"ack":     "Code:dig4! ReferenceDataElement:an Text:an! Params:an*",
	"secid":   "SecurityHolder:an! CID:bin ClientSystemID:id!",
	"secdate": "DateIdentifier:an! Date:date Time:time",
	"hash":    "Usage:an! Algorithm:an! AlgorithmParamID:an! AlgorithmParamValue:bin",
	"sigalg":  "Usage:an! Algorithm:an! OperationMode:an!",
	"keyname": "Bank:bank! UserID:id! KeyType:an! KeyNumber:num! KeyVersion:num!",
	"cert":    "CertificateType:num! Content:bin!",
	"profile": "SecurityMethod:an! SecurityMethodVersion:num!",
	"encalg":  "Usage:an! OperationMode:an! Algorithm:an! Key:bin! KeyParamID:an! InitializationValueParamID:an! InitializationValue:bin",
	"pintan":  "PIN:an! TAN:an",
	"secmeth": "MethodCode:an! Versions:num*!",
	"pin":     "PinMinLength:num PinMaxLength:num TanMaxLength:num UserIDText:an CustomerIDText:an JobSpecificPinTanInformation:pinjob*!",
	"pinjob":  "SegmentID:an! NeedsTAN:bool!",
	"expiry":  "Date:date! Time:time!",
	"tans":    "OneStepProcessAllowed:bool! MoreThanOneObligatoryTanJobAllowed:bool! JobHashMethod:code! ProcessParameters:process*!",
	"process": "SecurityFunction:code! TanProcess:code! TechnicalIDTanProcess:id! ZKATanProcess:an ZKATanProcessVersion:an TwoStepProcessName:an! TwoStepProcessMaxInputValue:num TwoStepProcessAllowedFormat:code " +
		"TwoStepProcessReturnValueText:an! TwoStepProcessReturnValueTextMaxLength:num! MultiTANAllowed:bool! TanTimeAndDialogReference:code! JobCancellationAllowed:bool! SMSAccountRequired:code! IssuerAccountRequired:code! " +
		"ChallengeClassRequired:bool! ChallengeStructured:bool! InitializationMode:code! TanMediumDescriptionRequired:code! HHD_UCResponseRequired:bool! SupportedActiveTanMedia:num",
}

// spec19 is a segment kind: its fields in the order of the specification.
type spec19 struct {
	id     string
	ver    int
	fields string
	// any decodes the segment whatever its version is.
	any func() segment.Unmarshaler
}

func specs19() []spec19 {
	const (
		sigHead = "SecurityFunction:an! SecurityControlRef:an! SecurityApplicationRange:an! SecuritySupplierRole:an! SecurityID:secid! SecurityRefNumber:num! SecurityDate:secdate! HashAlgorithm:hash! SignatureAlgorithm:sigalg! KeyName:keyname! Certificate:cert"
		encHead = "SecurityFunction:an! SecuritySupplierRole:an! SecurityID:secid! SecurityDate:secdate! EncryptionAlgorithm:encalg! KeyName:keyname! CompressionFunction:an! Certificate:cert"
		bpd     = "BPDVersion:num! BankID:bank! BankName:an! BusinessTransactionCount:num! SupportedLanguages:lang*! SupportedHBCIVersions:num*! MaxMessageSize:num"
		bal     = "AccountProductName:an! AccountCurrency:cur! BookedBalance:balance! EarmarkedBalance:balance CreditLimit:amount AvailableAmount:amount UsedAmount:amount "
		acct5   = "UserID:id! AccountType:num AccountCurrency:cur Name1:an Name2:an AccountProductID:an AccountLimit:limit AllowedBusinessTransactions:job**"
		pro     = "ReferencingMessage:msgref! ReferencingSegment:num Date:date! Time:time! Acknowledgement:ack!"
		syn     = "ClientSystemIDResponse:id MessageNumberResponse:num SignatureIDResponse:num"
		kaz     = "BookedTransactions:mt940 UnbookedTransactions:bin"
	)
	code := func(s string, names ...string) string {
		for _, n := range names {
			s = strings.Replace(s, n+":an", n+":code", 1)
		}
		return s
	}
	acct := func() segment.Unmarshaler { return &segment.AccountInformationSegment{} }
	upa := func() segment.Unmarshaler { return &segment.CommonUserParameterDataSegment{} }
	bpa := func() segment.Unmarshaler { return &segment.CommonBankParameterSegment{} }
	sal := func() segment.Unmarshaler { return &segment.AccountBalanceResponseSegment{} }
	tx := func() segment.Unmarshaler { return &segment.AccountTransactionResponseSegment{} }
	sync := func() segment.Unmarshaler { return &segment.SynchronisationResponseSegment{} }
	stat := func() segment.Unmarshaler { return &segment.StatusProtocolResponseSegment{} }
	sigH := func() segment.Unmarshaler { return &segment.SignatureHeaderSegment{} }
	sigE := func() segment.Unmarshaler { return &segment.SignatureEndSegment{} }
	encH := func() segment.Unmarshaler { return &segment.EncryptionHeaderSegment{} }
	return []spec19{
		{"HNHBK", 3, "Size:num! HBCIVersion:num! DialogID:id! Number:num! Ref:msgref", nil},
		{"HNHBS", 1, "Number:num!", nil},
		{"HNSHK", 3, sigHead, sigH},
		{"HNSHK", 4, "SecurityProfile:profile! " + code(sigHead, "SecurityFunction", "SecurityApplicationRange", "SecuritySupplierRole"), sigH},
		{"HNSHA", 1, "SecurityControlRef:an! Signature:bin PinTan:pintan", sigE},
		{"HNSHA", 2, "SecurityControlRef:an! Signature:bin CustomSignature:pintan", sigE},
		{"HNVSK", 2, encHead, encH},
		{"HNVSK", 3, "SecurityProfile:profile! " + code(encHead, "SecurityFunction", "SecuritySupplierRole", "CompressionFunction"), encH},
		{"HNVSD", 1, "Data:bin!", nil},
		{"HIBPA", 2, bpd, bpa},
		{"HIBPA", 3, bpd + " MinTimeoutValue:num MaxTimeoutValue:num", bpa},
		{"HIUPA", 2, "UserID:id! UPDVersion:num! UPDUsage:num!", upa},
		{"HIUPA", 3, "UserID:id! UPDVersion:num! UPDUsage:num! UserName:an CommonExtensions:an", upa},
		{"HIUPA", 4, "UserID:id! UPDVersion:num! UPDUsage:num! UserName:an CommonExtensions:an", upa},
		{"HIUPD", 4, "AccountConnection:acct " + strings.Replace(acct5, "AccountType:num ", "", 1), acct},
		{"HIUPD", 5, "AccountConnection:acct " + acct5, acct},
		{"HIUPD", 6, "AccountConnection:acct IBAN:an " + acct5, acct},
		{"HIUPD", 7, "AccountConnection:acct IBAN:an " + acct5, acct},
		{"HISAL", 5, "AccountConnection:acct! " + bal + "BookingDate:date BookingTime:time DueDate:date", sal},
		{"HISAL", 6, "AccountConnection:acct! " + bal + "Overdraft:amount BookingTimestamp:stamp DueDate:date", sal},
		{"HISAL", 7, "AccountConnection:intl! " + bal + "Overdraft:amount BookingTimestamp:stamp DueDate:date", sal},
		{"HISAL", 8, "AccountConnection:intl! " + bal + "Overdraft:amount BookingTimestamp:stamp DueDate:date SeizableAfterMonth:amount", sal},
		{"HIKAZ", 5, kaz, tx},
		{"HIKAZ", 6, kaz, tx},
		{"HIKAZ", 7, kaz, tx},
		{"HISYN", 3, syn, sync},
		{"HISYN", 4, syn, sync},
		{"HIPRO", 3, pro, stat},
		{"HIPRO", 4, pro, stat},
		{"HIKIM", 2, "Subject:an! Body:txt!", nil},
		{"HIKIF", 1, "AccountConnection:acct! AccountKind:num Name1:an! Name2:an AccountProductID:an! AccountCurrency:cur! OpeningDate:date DebitInterest:val CreditInterest:val OverDebitInterest:val CreditLimit:amount " +
			"ReferenceAccount:acct AccountStatementShippingType:num AccountStatementShippingRotation:num AdditionalInformation:txt DisposalEligiblePersons:an**", nil},
		{"HIKOM", 3, "BankID:bank! StandardLanguage:num! CommunicationParams:comm!", nil},
		{"HIKPV", 1, "SupportedCompressionMethods:an*!", nil},
		{"HISHV", 2, "MixAllowed:bool! SupportedMethods:secmeth!", nil},
		{"HIPINS", 1, "MaxJobs:num! MinSignatures:num! XXX_Unknown:num PinTanSpecificParams:pin!", func() segment.Unmarshaler { return &segment.PinTanBankParameterSegment{} }},
		{"HITANS", 6, "MaxJobs:num! MinSignatures:num! SecurityClass:code! Tan2StepSubmissionParameter:tans!", func() segment.Unmarshaler { return &segment.TanBankParameterSegment{} }},
		{"HITAN", 6, "TANProcess:an! JobHash:bin JobReference:an Challenge:an ChallengeHHD_UC:bin TANMediumDescription:an ChallengeExpiryDate:expiry", func() segment.Unmarshaler { return &segment.TanResponseSegment{} }},
	}
}

// draw19 writes one segment.
func (s spec19) draw(g *ctx19, fields group19, pos, ref int) (raw []byte, shape string, want want19) {
	var des [][]byte
	wants := make([]want19, len(fields))
	density := g.rng.Intn(4)
	for i, f := range fields {
		if !f.must && g.rng.Intn(4) >= density {
			if a, ok := f.node.(array19); !ok || !a.des {
				des = append(des, nil)
			} else if i < len(fields)-1 {
				des = append(des, nil)
			}
			wants[i] = absent19
			if _, leaf := f.node.(leaf19); !leaf {
				wants[i] = absentGroup19
			}
			shape += "-"
			continue
		}
		parts, w := f.node.gen(g)
		if a, ok := f.node.(array19); ok && a.des {
			des = append(des, parts...)
		} else {
			des = append(des, join19(parts))
		}
		wants[i] = w
		shape += "x"
	}
	for len(des) > 0 && len(des[len(des)-1]) == 0 {
		des = des[:len(des)-1]
	}
	// A bank may support more than one method or access, each an element of
	// its own. The library keeps the first.
	switch f := fields[len(fields)-1]; f.name {
	case "CommunicationParams", "SupportedMethods":
		for g.bad < 0 && g.rng.Intn(3) == 0 {
			parts, _ := f.node.gen(g)
			des = append(des, join19(parts))
			shape += "+"
		}
	case "SupportedCompressionMethods":
		if g.rng.Intn(2) == 0 {
			var all [][]byte
			parts, w := f.node.gen(g)
			all = append(all, des[:len(des)-1]...)
			des, wants[len(fields)-1] = append(all, parts...), w
		}
	}
	return wire.Seg(s.id, pos, s.ver, ref, des...), shape, func(v reflect.Value) string {
		return fields19(v, fields, wants)
	}
}

// persons19 are the people of HIKIF: groups of texts.
type persons19 struct{}

func (persons19) size() int { return 1 }

func (persons19) gen(g *ctx19) ([][]byte, want19) {
	n := 1 + g.rng.Intn(4)
	var parts [][]byte
	var texts []string
	for i := 0; i < n; i++ {
		t := genText1(g.rng, 12)
		texts = append(texts, t)
		parts = append(parts, wire.T(t))
	}
	return parts, func(v reflect.Value) string {
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		m := members19(v)
		if len(m) != n {
			return fmt.Sprintf("%d parts of a person instead of %d", len(m), n)
		}
		for i, e := range m {
			if msg := equals19(texts[i])(reflect.ValueOf(e)); msg != "" {
				return msg
			}
		}
		return ""
	}
}

func runP19(r *vt.Run) {
	specs := specs19()
	trees := make([]group19, len(specs))
	for i, s := range specs {
		trees[i] = parse19(s.fields)
		for j, f := range trees[i] {
			if f.name == "DisposalEligiblePersons" {
				trees[i][j].node = array19{node: persons19{}, min: 1, max: 4, des: true}
			}
		}
	}
	for i := range specs {
		s, tree := specs[i], trees[i]
		for n := 0; n < r.N(6000, 40000); n++ {
			r.Case(fmt.Sprintf("%s:%d/%d", s.id, s.ver, n), func(c *vt.C) { oneSegment19(c, s, tree) })
		}
		for n := 0; n < r.N(2500, 15000); n++ {
			r.Case(fmt.Sprintf("%s:%d/malformed/%d", s.id, s.ver, n), func(c *vt.C) { malformed19(c, s, tree) })
		}
	}
	for n := 0; n < r.N(12500, 60000); n++ {
		r.Case(fmt.Sprintf("message/%d", n), func(c *vt.C) { message19(c, specs, trees) })
	}
	r.Case("registry", func(c *vt.C) {
		var missing []string
		for _, s := range specs {
			if !segment.KnownSegments.IsUnmarshaler(segment.VersionedSegment{ID: s.id, Version: s.ver}) {
				missing = append(missing, fmt.Sprintf("%s:%d", s.id, s.ver))
			}
			// Versions the library has no type for must not be taken for others.
			for v := 0; v < 100; v++ {
				lookup19(c, segment.VersionedSegment{ID: s.id, Version: v})
			}
			for _, like := range []string{s.id + "S", s.id[:len(s.id)-1], strings.ToLower(s.id), " " + s.id, ""} {
				lookup19(c, segment.VersionedSegment{ID: like, Version: s.ver})
			}
		}
		sort.Strings(missing)
		if len(missing) > 0 {
			c.Fail("registry-missing", "segments without a decoder: %v", missing)
		}
		c.Count("kinds", len(specs))
	})
	r.Require("fields", 1000)
	r.Require("malformed", 500)
	r.Require("messages", 50)
	r.Require("kinds without decoder", 100)
	r.Require("kinds with decoder", 20)
}

// lookup19 checks that everyone asked about one kind and version of a segment
// gives the same answer, and that a decoder is for that version and is new.
func lookup19(c *vt.C, id segment.VersionedSegment) {
	u, err := segment.KnownSegments.UnmarshalerForSegment(id)
	if can := segment.KnownSegments.IsUnmarshaler(id); can != (err == nil) || can && !segment.KnownSegments.IsIndexed(id) {
		c.Fail("registry-lookup", "%v: can be decoded: %v, indexed: %v, decoder: %v", id, can, segment.KnownSegments.IsIndexed(id), err)
	}
	if err != nil {
		c.Count("kinds without decoder", 1)
		return
	}
	if vs, ok := u.(interface{ Version() int }); ok && vs.Version() != id.Version {
		c.Fail("registry-version", "%v is decoded by a type for version %d", id, vs.Version())
	}
	if again, _ := segment.KnownSegments.UnmarshalerForSegment(id); again == u {
		c.Fail("registry-shared", "%v is decoded twice into the same object", id)
	}
	c.Count("kinds with decoder", 1)
}

func header19(c *vt.C, s spec19, seg segment.Segment, pos, ref int, raw []byte) {
	h := seg.Header()
	if h == nil {
		c.Fail("no-header", "%s", b2s(raw))
		return
	}
	wantRef := ref
	if ref < 0 {
		wantRef = -1
	}
	if h.ID.Val() != s.id || h.Version.Val() != s.ver || h.Position.Val() != pos || h.ReferencingSegment() != wantRef {
		c.Fail("header:"+s.id, "%s: header decoded as %s:%d:%d ref %d, want %s:%d:%d ref %d", b2s(raw), h.ID.Val(), h.Position.Val(), h.Version.Val(), h.ReferencingSegment(), s.id, pos, s.ver, wantRef)
	}
}

func oneSegment19(c *vt.C, s spec19, tree group19) {
	pos, ref := 1+c.Rng.Intn(30), -1
	if c.Rng.Intn(2) == 0 {
		ref = 1 + c.Rng.Intn(20)
	}
	g := &ctx19{rng: c.Rng, bad: -1}
	raw, shape, want := s.draw(g, tree, pos, ref)
	c.State("%s:%d %s", s.id, s.ver, shape)
	c.Count("fields", strings.Count(shape, "x"))
	c.Count("left_out", strings.Count(shape, "-"))
	if c.Rng.Intn(40) == 0 {
		c.Sample("%s", b2s(raw))
	}
	u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: s.id, Version: s.ver})
	if err != nil {
		c.Fail("unknown:"+s.id, "%v", err)
		return
	}
	in := append([]byte(nil), raw...)
	site, msg, ok := vt.Try(func() { err = u.UnmarshalHBCI(in) })
	if !ok {
		c.Fail("panic:"+site, "%s: %s", b2s(raw), msg)
		return
	}
	if err != nil {
		c.Fail(fmt.Sprintf("rejected:%s:%d", s.id, s.ver), "%s: %v", b2s(raw), err)
		return
	}
	if !bytes.Equal(in, raw) {
		c.Fail("input-changed:"+s.id, "%s became %s", b2s(raw), b2s(in))
	}
	if msg := want(reflect.ValueOf(u)); msg != "" {
		c.Fail(fmt.Sprintf("field:%s:%d:%s", s.id, s.ver, strings.SplitN(msg, ":", 2)[0]), "%s: %s", b2s(raw), msg)
		return
	}
	seg, ok := u.(segment.Segment)
	if !ok {
		c.Fail("no-segment:"+s.id, "%T is no segment", u)
		return
	}
	header19(c, s, seg, pos, ref, raw)

	// Decoding again into the same and after others must not mix.
	raw2, _, want2 := s.draw(&ctx19{rng: c.Rng, bad: -1}, tree, pos, ref)
	u2, _ := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: s.id, Version: s.ver})
	if err := u2.UnmarshalHBCI(raw2); err != nil {
		c.Fail(fmt.Sprintf("rejected:%s:%d", s.id, s.ver), "%s: %v", b2s(raw2), err)
		return
	}
	if msg := want2(reflect.ValueOf(u2)); msg != "" {
		c.Fail(fmt.Sprintf("field:%s:%d:%s", s.id, s.ver, strings.SplitN(msg, ":", 2)[0]), "%s: %s", b2s(raw2), msg)
		return
	}
	if msg := want(reflect.ValueOf(u)); msg != "" {
		c.Fail("shared:"+s.id, "%s changed by decoding %s: %s", b2s(raw), b2s(raw2), msg)
		return
	}

	// What was decoded, encoded again, says the same.
	if m, ok := seg.(segment.Marshaler); ok {
		var out []byte
		site, msg, ok = vt.Try(func() { out, err = m.MarshalHBCI() })
		if !ok {
			c.Fail("panic:"+site, "encoding decoded %s: %s", b2s(raw), msg)
			return
		}
		if err != nil {
			c.Fail("reencode:"+s.id, "%s: %v", b2s(raw), err)
			return
		}
		if msg := again19(s, out, want); msg != "" {
			c.Fail(fmt.Sprintf("reencode:%s:%d:%s", s.id, s.ver, strings.SplitN(msg, ":", 2)[0]), "%s encoded as %s: %s", b2s(raw), b2s(out), msg)
			return
		}
		c.Count("encoded_again", 1)
	}

	if s.any == nil {
		return
	}
	a := s.any()
	site, msg, ok = vt.Try(func() { err = a.UnmarshalHBCI(raw) })
	if !ok {
		c.Fail("panic:"+site, "%T %s: %s", a, b2s(raw), msg)
		return
	}
	if err != nil {
		c.Fail(fmt.Sprintf("any-rejected:%s:%d", s.id, s.ver), "%T %s: %v", a, b2s(raw), err)
		return
	}
	as, ok := a.(segment.Segment)
	if !ok {
		c.Fail("no-segment:"+s.id, "%T is no segment", a)
		return
	}
	header19(c, s, as, pos, ref, raw)
	var one, all string
	site, msg, ok = vt.Try(func() { one, all = seg.String(), as.String() })
	if !ok {
		c.Fail("panic:"+site, "printing decoded %s: %s", b2s(raw), msg)
		return
	}
	if one != all {
		c.Fail(fmt.Sprintf("any-field:%s:%d", s.id, s.ver), "%s is %s for %T but %s for %T", b2s(raw), one, u, all, a)
		return
	}
	c.Count("version_independent", 1)
}

// again19 decodes what the library encoded; the wire form itself is the
// business of P01 and P02.
func again19(s spec19, out []byte, want want19) string {
	segs, err := wire.Parse(out)
	if err != nil || len(segs) != 1 {
		return fmt.Sprintf("malformed segment: %v", err)
	}
	u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: s.id, Version: s.ver})
	if err != nil {
		return err.Error()
	}
	if err := u.UnmarshalHBCI(out); err != nil {
		return err.Error()
	}
	return want(reflect.ValueOf(u))
}

func malformed19(c *vt.C, s spec19, tree group19) {
	seed := c.Rng.Int63()
	g := &ctx19{rng: rand.New(rand.NewSource(seed)), bad: -1}
	s.draw(g, tree, 3, 2)
	if g.hard == 0 {
		return
	}
	g = &ctx19{rng: rand.New(rand.NewSource(seed)), bad: c.Rng.Intn(g.hard)}
	raw, _, _ := s.draw(g, tree, 3, 2)
	if g.what == "" {
		return
	}
	u, err := segment.KnownSegments.UnmarshalerForSegment(segment.VersionedSegment{ID: s.id, Version: s.ver})
	if err != nil {
		c.Fail("unknown:"+s.id, "%v", err)
		return
	}
	c.Count("malformed", 1)
	site, msg, ok := vt.Try(func() { err = u.UnmarshalHBCI(raw) })
	if !ok {
		c.Fail("panic:"+site, "%s: %s", b2s(raw), msg)
		return
	}
	if err == nil {
		c.Fail(fmt.Sprintf("malformed:%s:%d:%s", s.id, s.ver, strings.Fields(g.what)[0]), "%s with a malformed %s is accepted", b2s(raw), g.what)
	}
}

// message19 decodes several segments of one message.
func message19(c *vt.C, specs []spec19, trees []group19) {
	type part struct {
		spec19
		raw      []byte
		pos, ref int
		want     want19
	}
	var parts []part
	var msg []byte
	add := func(i, pos int) {
		ref := -1
		if c.Rng.Intn(3) == 0 {
			ref = 1 + c.Rng.Intn(9)
		}
		raw, _, want := specs[i].draw(&ctx19{rng: c.Rng, bad: -1}, trees[i], pos, ref)
		parts = append(parts, part{specs[i], raw, pos, ref, want})
		msg = append(msg, raw...)
	}
	n := 1 + c.Rng.Intn(12)
	for p := 1; p <= n; p++ {
		add(c.Rng.Intn(len(specs)), p)
		if c.Rng.Intn(6) == 0 {
			// a neighbour the library knows nothing about
			msg = append(msg, wire.Seg("HY"+strings.ToUpper(genWord(c.Rng, 3)), 50+p, 1+c.Rng.Intn(3), -1, wire.T(genText(c.Rng, 20)), wire.Bin(genBytes(c.Rng, 20)))...)
		}
	}
	c.Count("messages", 1)
	un := message.NewUnmarshaler(msg)
	var err error
	site, m, ok := vt.Try(func() { err = un.Unmarshal() })
	if !ok {
		c.Fail("panic:"+site, "%s: %s", b2s(msg), m)
		return
	}
	if err != nil {
		c.Fail("message-rejected", "%s: %v", b2s(msg), err)
		return
	}
	seen := map[string]int{}
	for _, p := range parts {
		segs := un.SegmentsByID(p.id)
		i := seen[p.id]
		seen[p.id]++
		if i >= len(segs) {
			c.Fail("message-lost", "%s: only %d of %s", b2s(msg), len(segs), p.id)
			return
		}
		if m := p.want(reflect.ValueOf(segs[i])); m != "" {
			c.Fail("message-field:"+p.id, "%s in %s: %s", b2s(p.raw), b2s(msg), m)
			return
		}
		header19(c, p.spec19, segs[i], p.pos, p.ref, p.raw)
	}
	c.Count("message_segments", len(parts))
}
