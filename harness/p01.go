//go:build p01 || all

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/element"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P01",
		rule: "a case is one generated value of one element kind, encoded and decoded through the real code; distinct states are (kind, wire form) pairs with a non-empty wire form",
		fn:   runP01,
		assumptions: []string{
			"text is ISO 8859-1 without NUL; values outside that repertoire have no wire form",
		},
	})
}

// codec is one data element kind with an independent idea of its wire form.
type codec struct {
	name string
	// gen returns the value, the element the code builds for it, and the
	// wire form the specification prescribes.
	gen func(rng *rand.Rand) (val interface{}, de element.DataElement, wireForm []byte)
	// dec decodes with the real code.
	dec func(b []byte) (interface{}, element.DataElement, error)
	// lenientForm: the wire form is compared by decoding it with the
	// independent parser rather than byte by byte.
	same func(a, b interface{}) bool
}

func floatWire(b []byte) (float64, bool) {
	s := string(b)
	if strings.Count(s, ",") != 1 || strings.ContainsAny(s, ".eE ") {
		return 0, false
	}
	f, err := strconv.ParseFloat(strings.Replace(strings.TrimSuffix(s, ","), ",", ".", 1), 64)
	return f, err == nil
}

func dayOf(t time.Time) string   { return t.Format("2006-01-02") }
func clockOf(t time.Time) string { return t.Format("15:04:05") }

func scalarCodecs() []codec {
	return []codec{
		{
			name: "alphanumeric",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				s := genText(rng, 40)
				return s, element.NewAlphaNumeric(s, 99), wire.T(s)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AlphaNumericDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "text",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				s := genText(rng, 60)
				return s, element.NewText(s, 2048), wire.T(s)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.TextDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "identification",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				s := genText(rng, 30)
				return s, element.NewIdentification(s), wire.T(s)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.IdentificationDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "code",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				s := []string{"0", "1", "2", "999", "HBCI", "a?b"}[rng.Intn(6)]
				return s, element.NewCode(s, 4, []string{"0", "1", "2", "999", "HBCI", "a?b"}), wire.T(s)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.CodeDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "currency",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				s := []string{"EUR", "USD", "CHF", "GBP"}[rng.Intn(4)]
				return s, element.NewCurrency(s), wire.T(s)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.CurrencyDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "number",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				n := genNumber(rng)
				return n, element.NewNumber(n, 12), wire.I(n)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.NumberDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "digit",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				w := 1 + rng.Intn(12)
				max := 1
				for i := 0; i < w; i++ {
					max *= 10
				}
				n := rng.Intn(max)
				if rng.Intn(2) == 0 {
					n %= 10
				}
				return n, element.NewDigit(n, w), []byte(fmt.Sprintf("%0*d", w, n))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.DigitDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "countrycode",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				n := []int{280, 40, 4, 756, 0, rng.Intn(1000)}[rng.Intn(6)]
				return n, element.NewCountryCode(n), []byte(fmt.Sprintf("%03d", n))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.CountryCodeDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "float",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				c := genCents(rng)
				return centsFloat(c), element.NewFloat(centsFloat(c), 15), []byte(centsWire(c))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.FloatDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "value",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				c := genCents(rng)
				return centsFloat(c), element.NewValue(centsFloat(c)), []byte(centsWire(c))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.ValueDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "binary",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				b := genBytes(rng, 60)
				return b, element.NewBinary(b, 99999), wire.Bin(b)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.BinaryDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
			same: func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) },
		},
		{
			name: "dtaus",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				b := genBytes(rng, 60)
				return b, element.NewDtausCharset(b, 99999), wire.Bin(b)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.DtausCharsetDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
			same: func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) },
		},
		{
			name: "boolean",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				if rng.Intn(2) == 0 {
					return true, element.NewBoolean(true), []byte("J")
				}
				return false, element.NewBoolean(false), []byte("N")
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.BooleanDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "date",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				d := inZone(rng, genDate(rng))
				return dayOf(d), element.NewDate(d), []byte(d.Format("20060102"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.DateDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return dayOf(d.Val()), d, nil
			},
		},
		{
			name: "time",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				h, m, s := genClock(rng)
				d := inZone(rng, time.Date(2020, 2, 3, h, m, s, 0, time.UTC))
				return clockOf(d), element.NewTime(d), []byte(d.Format("150405"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.TimeDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return clockOf(d.Val()), d, nil
			},
		},
	}
}

func genNumber(rng *rand.Rand) int {
	switch rng.Intn(4) {
	case 0:
		return rng.Intn(10)
	case 1:
		return rng.Intn(1000)
	case 2:
		return int(rng.Int63n(1e12))
	}
	return []int{0, 1, 9, 10, 99, 100, 998, 999, 9999, 65535}[rng.Intn(10)]
}

func genAccount(rng *rand.Rand) domain.AccountConnection {
	a := domain.AccountConnection{AccountID: genText(rng, 20), SubAccountCharacteristics: genText(rng, 8), CountryCode: rng.Intn(1000), BankID: genText(rng, 12)}
	if rng.Intn(2) == 0 {
		a = domain.AccountConnection{AccountID: genDigits(rng, 10), CountryCode: 280, BankID: genDigits(rng, 8)}
	}
	return a
}

func accountWire(a domain.AccountConnection) []byte {
	return wire.G(wire.T(a.AccountID), wire.T(a.SubAccountCharacteristics), []byte(fmt.Sprintf("%03d", a.CountryCode)), wire.T(a.BankID))
}

func genIntlAccount(rng *rand.Rand) domain.InternationalAccountConnection {
	a := domain.InternationalAccountConnection{IBAN: "DE" + genDigits(rng, 20), BIC: strings.ToUpper(genWord(rng, 11))}
	if rng.Intn(2) == 0 {
		a.AccountID = genText1(rng, 20)
		a.SubAccountCharacteristics = genText(rng, 8)
		a.BankID = domain.BankID{CountryCode: 280, ID: genText1(rng, 10)}
	}
	return a
}

func groupCodecs() []codec {
	return []codec{
		{
			name: "amount",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				c := genCents(rng)
				return domain.Amount{Amount: centsFloat(c), Currency: "EUR"}, element.NewAmount(centsFloat(c), "EUR"), []byte(centsWire(c) + ":EUR")
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AmountDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "bankidentification",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.BankID{CountryCode: rng.Intn(1000), ID: genText1(rng, 30)}
				return v, element.NewBankIdentification(v), wire.G([]byte(fmt.Sprintf("%03d", v.CountryCode)), wire.T(v.ID))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.BankIdentificationDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "accountconnection",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := genAccount(rng)
				if v.BankID == "" {
					v.BankID = "1"
				}
				return v, element.NewAccountConnection(v), accountWire(v)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AccountConnectionDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "internationalaccountconnection",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := genIntlAccount(rng)
				v.BankID = domain.BankID{CountryCode: 280, ID: genText1(rng, 10)}
				return v, element.NewInternationalAccountConnection(v), wire.G(wire.T(v.IBAN), wire.T(v.BIC), wire.T(v.AccountID), wire.T(v.SubAccountCharacteristics), []byte("280"), wire.T(v.BankID.ID))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.InternationalAccountConnectionDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "balance",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				c := genCents(rng)
				neg := rng.Intn(2) == 0
				f, ind := centsFloat(c), "C"
				if neg && c != 0 {
					f, ind = -f, "D"
				}
				day := genDate(rng)
				h, m, s := genClock(rng)
				ts := inZone(rng, time.Date(day.Year(), day.Month(), day.Day(), h, m, s, 0, time.UTC))
				withTime := rng.Intn(2) == 0
				val := balanceVal{f, "EUR", dayOf(ts), "-"}
				w := [][]byte{[]byte(ind), []byte(centsWire(c)), []byte("EUR"), []byte(ts.Format("20060102"))}
				if withTime {
					val.clock = clockOf(ts)
					w = append(w, []byte(ts.Format("150405")))
				}
				return val, element.NewBalance(domain.Amount{Amount: f, Currency: "EUR"}, ts, withTime), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.BalanceDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				v := d.Balance()
				out := balanceVal{v.Amount.Amount, v.Amount.Currency, dayOf(v.TransmissionDate), "-"}
				if v.TransmissionTime != nil {
					out.clock = clockOf(*v.TransmissionTime)
				}
				return out, d, nil
			},
		},
		{
			name: "acknowledgement",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.Acknowledgement{Code: rng.Intn(10000), ReferenceDataElement: genText(rng, 7), Text: genText1(rng, 60)}
				w := [][]byte{[]byte(fmt.Sprintf("%04d", v.Code)), wire.T(v.ReferenceDataElement), wire.T(v.Text)}
				v.Params = []string{}
				for i, n := 0, rng.Intn(5); i < n; i++ {
					p := genText1(rng, 30)
					v.Params = append(v.Params, p)
					w = append(w, wire.T(p))
				}
				return v, element.NewAcknowledgement(v), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AcknowledgementDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				v := d.Val()
				if v.Params == nil {
					v.Params = []string{}
				}
				return v, d, nil
			},
		},
		{
			name: "referencingmessage",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.MessageReference{DialogID: genText1(rng, 30), MessageNumber: rng.Intn(10000)}
				return v, element.NewReferencingMessage(v.DialogID, v.MessageNumber), wire.G(wire.T(v.DialogID), wire.I(v.MessageNumber))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.ReferencingMessageDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "segmentheader",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				id := []string{"HNHBK", "HKSAL", "HISALS", "DIPINS"}[rng.Intn(4)]
				p, v, ref := 1+rng.Intn(999), 1+rng.Intn(9), rng.Intn(20)
				if ref == 0 {
					return headerVal{id, p, v, -1}, element.NewSegmentHeader(id, p, v), []byte(fmt.Sprintf("%s:%d:%d", id, p, v))
				}
				return headerVal{id, p, v, ref}, element.NewReferencingSegmentHeader(id, p, v, ref), []byte(fmt.Sprintf("%s:%d:%d:%d", id, p, v, ref))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SegmentHeader{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return headerVal{d.ID.Val(), d.Position.Val(), d.Version.Val(), d.ReferencingSegment()}, d, nil
			},
		},
		{
			name: "keyname",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.KeyName{BankID: domain.BankID{CountryCode: rng.Intn(1000), ID: genText1(rng, 12)}, UserID: genText1(rng, 20), KeyType: domain.KeyTypeSigning, KeyNumber: rng.Intn(1000), KeyVersion: rng.Intn(1000)}
				if rng.Intn(2) == 0 {
					v.KeyType = domain.KeyTypeEncryption
				}
				return v, element.NewKeyName(v), wire.G([]byte(fmt.Sprintf("%03d", v.BankID.CountryCode)), wire.T(v.BankID.ID), wire.T(v.UserID), wire.T(string(v.KeyType)), wire.I(v.KeyNumber), wire.I(v.KeyVersion))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.KeyNameDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "pintan",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				pin, tan := genText1(rng, 20), genText1(rng, 10)
				return pin + "\x00" + tan, element.NewCustomSignature(pin, tan), wire.G(wire.T(pin), wire.T(tan))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.PinTanDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.PIN.Val() + "\x00" + d.TAN.Val(), d, nil
			},
		},
		{
			name: "accountlimit",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				c := genCents(rng)
				v := domain.AccountLimit{Kind: []string{"E", "T", "W", "M", "Z"}[rng.Intn(5)], Amount: domain.Amount{Amount: centsFloat(c), Currency: "EUR"}, Days: rng.Intn(1000)}
				return v, element.NewAccountLimit(v.Kind, v.Amount.Amount, "EUR", v.Days), wire.G(wire.T(v.Kind), []byte(centsWire(c)), []byte("EUR"), wire.I(v.Days))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AccountLimitDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
		{
			name: "allowedbusinesstransaction",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.BusinessTransaction{ID: []string{"HKSAL", "HKKAZ", "DKPAE"}[rng.Intn(3)], NeededSignatures: rng.Intn(4)}
				w := [][]byte{wire.T(v.ID), wire.I(v.NeededSignatures)}
				if rng.Intn(2) == 0 {
					c := genCents(rng)
					v.Limit = &domain.AccountLimit{Kind: "T", Amount: domain.Amount{Amount: centsFloat(c), Currency: "EUR"}, Days: rng.Intn(100)}
					w = append(w, []byte("T"), []byte(centsWire(c)), []byte("EUR"), wire.I(v.Limit.Days))
				}
				return fmt.Sprintf("%s %d %+v", v.ID, v.NeededSignatures, v.Limit), element.NewAllowedBusinessTransaction(v), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AllowedBusinessTransactionDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				v := d.Val()
				return fmt.Sprintf("%s %d %+v", v.ID, v.NeededSignatures, v.Limit), d, nil
			},
		},
		{
			name: "address",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.Address{Name1: genText(rng, 35), Name2: genText(rng, 35), Street: genText(rng, 20), PLZ: genDigits(rng, 5), City: genText(rng, 20), CountryCode: rng.Intn(1000), Phone: genText(rng, 10), Fax: genText(rng, 10), Email: genText1(rng, 20)}
				return v, element.NewAddress(v), wire.G(wire.T(v.Name1), wire.T(v.Name2), wire.T(v.Street), wire.T(v.PLZ), wire.T(v.City), []byte(fmt.Sprintf("%03d", v.CountryCode)), wire.T(v.Phone), wire.T(v.Fax), wire.T(v.Email))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AddressDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Address(), d, nil
			},
		},
		{
			name: "communicationparameter",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := domain.CommunicationParameter{Protocol: rng.Intn(10), Address: genText(rng, 40), AddressAddition: genText(rng, 10), FilterFunction: []string{"MIM", "UUE", "a:b"}[rng.Intn(3)], FilterFunctionVersion: rng.Intn(1000)}
				return v, element.NewCommunicationParameter(v), wire.G(wire.I(v.Protocol), wire.T(v.Address), wire.T(v.AddressAddition), wire.T(v.FilterFunction), wire.I(v.FilterFunctionVersion))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.CommunicationParameterDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return domain.CommunicationParameter{Protocol: d.Protocol.Val(), Address: d.Address.Val(), AddressAddition: d.AddressAddition.Val(), FilterFunction: d.FilterFunction.Val(), FilterFunctionVersion: d.FilterFunctionVersion.Val()}, d, nil
			},
		},
		{
			name: "certificate",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				t, b := 1+rng.Intn(3), genBytes(rng, 60)
				return fmt.Sprintf("%d %x", t, b), element.NewCertificate(t, b), wire.G(wire.I(t), wire.Bin(b))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.CertificateDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return fmt.Sprintf("%d %x", d.CertificateType.Val(), d.Content.Val()), d, nil
			},
		},
		{
			name: "publickey",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				typ, mod := []string{"5", "6"}[rng.Intn(2)], append(genBytes(rng, 96), 1)
				k := &domain.PublicKey{Type: typ, Modulus: mod, Exponent: []byte("65537")}
				return fmt.Sprintf("%s %x %s", typ, mod, k.Exponent), element.NewPublicKey(k), wire.G(wire.T(typ), wire.T("16"), wire.T("10"), wire.Bin(mod), wire.T("12"), wire.Bin(k.Exponent), wire.T("13"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.PublicKeyDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				k := d.Val()
				return fmt.Sprintf("%s %x %s", k.Type, k.Modulus, k.Exponent), d, nil
			},
		},
		{
			name: "securityprofile",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				v := rng.Intn(1000)
				return fmt.Sprint("PIN ", v), element.NewPinTanSecurityProfile(v), wire.G(wire.T("PIN"), wire.I(v))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SecurityProfileDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return fmt.Sprint(d.SecurityMethod.Val(), " ", d.SecurityMethodVersion.Val()), d, nil
			},
		},
		{
			name: "encryptionalgorithm",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				key, kind := genBytes(rng, 32), "6"
				de := element.NewRDHEncryptionAlgorithm(key)
				if rng.Intn(2) == 0 {
					key, kind = make([]byte, 8), "5"
					de = element.NewPinTanEncryptionAlgorithm()
				}
				return fmt.Sprintf("2 2 13 %x %s 1", key, kind), de, wire.G(wire.T("2"), wire.T("2"), wire.T("13"), wire.Bin(key), wire.T(kind), wire.T("1"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.EncryptionAlgorithmDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return fmt.Sprintf("%s %s %s %x %s %s", d.Usage.Val(), d.OperationMode.Val(), d.Algorithm.Val(), d.Key.Val(), d.KeyParamID.Val(), d.InitializationValueParamID.Val()), d, nil
			},
		},
		{
			name: "securityidentification",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				sys := genText1(rng, 30)
				holder, code := element.SecurityHolderMessageSender, "1"
				if rng.Intn(2) == 0 {
					holder, code = element.SecurityHolderMessageReceiver, "2"
				}
				return code + " " + sys, element.NewRDHSecurityIdentification(holder, sys), wire.G(wire.T(code), nil, wire.T(sys))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SecurityIdentificationDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.SecurityHolder.Val() + " " + d.ClientSystemID.Val(), d, nil
			},
		},
		{
			name: "supportedsecuritymethod",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				m := []string{"DDV", "RDH", "PIN"}[rng.Intn(3)]
				var vs []int
				w := [][]byte{wire.T(m)}
				for i, n := 0, 1+rng.Intn(9); i < n; i++ {
					vs = append(vs, rng.Intn(1000))
					w = append(w, wire.I(vs[i]))
				}
				return fmt.Sprint(m, " ", vs), element.NewSupportedSecurityMethod(m, vs...), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SupportedSecurityMethodDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				var vs []int
				for _, v := range d.Versions.Versions() {
					vs = append(vs, v.Val())
				}
				return fmt.Sprint(d.MethodCode.Val(), " ", vs), d, nil
			},
		},
		{
			name: "supportedversions",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var vs []int
				var w [][]byte
				for i, n := 0, 1+rng.Intn(4); i < n; i++ {
					vs = append(vs, []int{201, 210, 220, 300}[rng.Intn(4)])
					w = append(w, wire.I(vs[i]))
				}
				return fmt.Sprint(vs), element.NewSupportedHBCIVersions(vs...), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SupportedHBCIVersionsDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				var vs []int
				for _, v := range d.GroupDataElements() {
					vs = append(vs, v.(*element.NumberDataElement).Val())
				}
				return fmt.Sprint(vs), d, nil
			},
		},
		{
			name: "supportedlanguages",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var vs []int
				var w [][]byte
				for i, n := 0, 1+rng.Intn(3); i < n; i++ {
					vs = append(vs, 1+rng.Intn(3))
					w = append(w, wire.I(vs[i]))
				}
				return fmt.Sprint(vs), element.NewSupportedLanguages(vs...), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SupportedLanguagesDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				var vs []int
				for _, v := range d.Languages() {
					vs = append(vs, v.Val())
				}
				return fmt.Sprint(vs), d, nil
			},
		},
		{
			name: "allowedbusinesstransactions",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var w [][]byte
				var v []domain.BusinessTransaction
				s := ""
				for i, n := 0, 1+rng.Intn(6); i < n; i++ {
					id, sig, kind := genText1(rng, 6), rng.Intn(4), genText1(rng, 3)
					cur, days, cents := []string{"EUR", "CHF"}[rng.Intn(2)], rng.Intn(1000), genCents(rng)
					part := [][]byte{wire.T(id), wire.I(sig)}
					s += fmt.Sprintf("|%s %d", id, sig)
					bt := domain.BusinessTransaction{ID: id, NeededSignatures: sig}
					if rng.Intn(2) == 0 {
						part = append(part, wire.T(kind), []byte(centsWire(cents)), []byte(cur), wire.I(days))
						s += fmt.Sprintf(" %s %.2f %s %d", kind, centsFloat(cents), cur, days)
						bt.Limit = &domain.AccountLimit{Kind: kind, Amount: domain.Amount{Amount: centsFloat(cents), Currency: cur}, Days: days}
					}
					v = append(v, bt)
					w = append(w, wire.G(part...))
				}
				return s, element.NewAllowedBusinessTransactions(v...), bytes.Join(w, []byte("+"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.AllowedBusinessTransactionsDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				s := ""
				for _, t := range d.AllowedBusinessTransactions() {
					s += fmt.Sprintf("|%s %d", t.ID, t.NeededSignatures)
					if t.Limit != nil {
						s += fmt.Sprintf(" %s %.2f %s %d", t.Limit.Kind, t.Limit.Amount.Amount, t.Limit.Amount.Currency, t.Limit.Days)
					}
				}
				return s, d, nil
			},
		},
		{
			name: "securitydate",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				day := genDate(rng)
				h, m, s := genClock(rng)
				ts := inZone(rng, time.Date(day.Year(), day.Month(), day.Day(), h, m, s, 0, time.UTC))
				kind, code := element.SecurityTimestamp, "1"
				if rng.Intn(2) == 0 {
					kind, code = element.CertificateRevocationTime, "6"
				}
				return code + ts.Format(" 20060102 150405"), element.NewSecurityDate(kind, ts), []byte(code + ":" + ts.Format("20060102:150405"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SecurityDateDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.DateIdentifier.Val() + " " + d.Date.Val().Format("20060102") + " " + d.Time.Val().Format("150405"), d, nil
			},
		},
		{
			name: "timestamp",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				day := genDate(rng)
				h, m, s := genClock(rng)
				ts := inZone(rng, time.Date(day.Year(), day.Month(), day.Day(), h, m, s, 0, time.UTC))
				if rng.Intn(2) == 0 {
					return ts.Format("20060102 000000"), element.NewTimestamp(ts, false), []byte(ts.Format("20060102"))
				}
				return ts.Format("20060102 150405"), element.NewTimestamp(ts, true), []byte(ts.Format("20060102:150405"))
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.TimestampDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val().Format("20060102 150405"), d, nil
			},
		},
		{
			name: "params",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var vs []string
				var w [][]byte
				for i, n := 0, 1+rng.Intn(10); i < n; i++ {
					vs = append(vs, genText1(rng, 30))
					w = append(w, wire.T(vs[i]))
				}
				return fmt.Sprintf("%q", vs), element.NewParams(0, 10, vs...), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.ParamsDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return fmt.Sprintf("%q", d.Val()), d, nil
			},
		},
		{
			name: "securitymethodversions",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var vs []int
				var w [][]byte
				for i, n := 0, 1+rng.Intn(9); i < n; i++ {
					vs = append(vs, rng.Intn(1000))
					w = append(w, wire.I(vs[i]))
				}
				return fmt.Sprint(vs), element.NewSecurityMethodVersions(1, 9, vs...), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SecurityMethodVersionsDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				var vs []int
				for _, v := range d.Versions() {
					vs = append(vs, v.Val())
				}
				return fmt.Sprint(vs), d, nil
			},
		},
		{
			name: "hashalgorithm",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				d, v, w := element.NewDefaultHashAlgorithm(), "1 999 1", []byte("1:999:1")
				if rng.Intn(2) == 0 {
					b := genBytes(rng, 60)
					if len(b) == 0 {
						b = []byte{0}
					}
					d.AlgorithmParamValue = element.NewBinary(b, 512)
					v += fmt.Sprintf(" %x", b)
					w = wire.G(w, wire.Bin(b))
				}
				return v, d, w
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.HashAlgorithmDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				v := fmt.Sprintf("%s %s %s", d.Usage.Val(), d.Algorithm.Val(), d.AlgorithmParamID.Val())
				if d.AlgorithmParamValue != nil {
					v += fmt.Sprintf(" %x", d.AlgorithmParamValue.Val())
				}
				return v, d, nil
			},
		},
		{
			name: "signaturealgorithm",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				return "6 10 16", element.NewRDHSignatureAlgorithm(), []byte("6:10:16")
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.SignatureAlgorithmDataElement{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return fmt.Sprintf("%s %s %s", d.Usage.Val(), d.Algorithm.Val(), d.OperationMode.Val()), d, nil
			},
		},
		{
			name: "pintanbusinesstransactions",
			gen: func(rng *rand.Rand) (interface{}, element.DataElement, []byte) {
				var v []domain.PinTanBusinessTransaction
				var w [][]byte
				for i, n := 0, 1+rng.Intn(5); i < n; i++ {
					t := domain.PinTanBusinessTransaction{SegmentID: []string{"HKSAL", "HKKAZ", "DKPAE", "HKCCS"}[rng.Intn(4)], NeedsTan: rng.Intn(2) == 0}
					v = append(v, t)
					w = append(w, wire.T(t.SegmentID), []byte(map[bool]string{true: "J", false: "N"}[t.NeedsTan]))
				}
				return v, element.NewPinTanBusinessTransactionParameters(v), wire.G(w...)
			},
			dec: func(b []byte) (interface{}, element.DataElement, error) {
				d := &element.PinTanBusinessTransactionParameters{}
				if err := d.UnmarshalHBCI(b); err != nil {
					return nil, nil, err
				}
				return d.Val(), d, nil
			},
		},
	}
}

type balanceVal struct {
	amount   float64
	currency string
	day      string
	clock    string
}

type headerVal struct {
	id       string
	pos, ver int
	ref      int
}

func same(cd codec, a, b interface{}) bool {
	if cd.same != nil {
		return cd.same(a, b)
	}
	if fa, ok := a.(float64); ok {
		fb, ok := b.(float64)
		return ok && (fa == fb || math.Abs(fa-fb) < 1e-9)
	}
	return reflect.DeepEqual(a, b)
}

// sameWire compares an encoded element with the prescribed form; decimal
// numbers may differ in trailing zeros.
func sameWire(got, want []byte) bool {
	if bytes.Equal(got, want) {
		return true
	}
	g, _, err := wire.ParseRaw(append(append([]byte{}, got...), '\''))
	if err != nil {
		return false
	}
	w, _, err := wire.ParseRaw(append(append([]byte{}, want...), '\''))
	if err != nil || len(g) != 1 || len(w) != 1 || len(g[0]) != len(w[0]) {
		return false
	}
	for i := range w[0] {
		if len(w[0][i]) != len(g[0][i]) {
			return false
		}
		for j := range w[0][i] {
			a, b := g[0][i][j], w[0][i][j]
			if a.Bin != b.Bin {
				return false
			}
			if bytes.Equal(a.Val, b.Val) {
				continue
			}
			fa, oka := floatWire(a.Val)
			fb, okb := floatWire(b.Val)
			if !oka || !okb || fa != fb {
				return false
			}
		}
	}
	return true
}

func runP01(r *vt.Run) {
	r.Require("encoded", 1000)
	r.Require("decoded", 1000)
	r.Require("in-message", 500)
	all := append(scalarCodecs(), groupCodecs()...)
	n := r.N(15000, 40000)
	for _, cd := range all {
		cd := cd
		for i := 0; i < n; i++ {
			r.Case(fmt.Sprintf("%s/%d", cd.name, i), func(c *vt.C) { p01Case(c, cd) })
		}
	}
	// Groups and segments put several elements side by side: nothing may leak
	// from one into its neighbour.
	for i := 0; i < r.N(40000, 100000); i++ {
		r.Case(fmt.Sprintf("neighbours/%d", i), p01Neighbours)
	}
	for i := 0; i < r.N(30000, 60000); i++ {
		r.Case(fmt.Sprintf("segment/%d", i), p01Segment)
	}
	// A known finding keeps these texts out of all other cases.
	for i := 0; i < 5; i++ {
		txt := []string{"01,5", "00,", "0123,45", "007,7", "01,"}[i]
		r.Case("leading-zero-decimal/"+txt, func(c *vt.C) {
			els, err := segment.ExtractElements(append(append([]byte("HIXXX:3:1+"), wire.T(txt)...), '\''))
			c.Count("leading-zero-decimal", 1)
			if err != nil || len(els) != 2 || string(els[1]) != txt {
				c.Fail("leading-zero-decimal", "a segment with the text %q is extracted as %q, %v", txt, els, err)
			}
		})
	}
	for i := 0; i < r.N(2000, 2000); i++ {
		r.Case(fmt.Sprintf("validset/%d", i), p01Code)
	}
}

func p01Case(c *vt.C, cd codec) {
	val, de, want := cd.gen(c.Rng)
	if de == nil {
		// Only ever sent by the bank.
		p01Decode(c, cd, val, want, want)
		return
	}
	got, err := de.MarshalHBCI()
	if err != nil {
		c.Fail(cd.name+":encode", "encoding %#v failed: %v", val, err)
		return
	}
	c.Count("encoded", 1)
	if !sameWire(got, want) {
		c.Fail(cd.name+":wire-form", "value %#v encoded as %s, the specification says %s", val, b2s(got), b2s(want))
		return
	}
	again, err := de.MarshalHBCI()
	if err != nil || !bytes.Equal(again, got) {
		c.Fail(cd.name+":unstable", "second encoding differs: %s then %s (%v)", b2s(got), b2s(again), err)
		return
	}
	if len(got) > 0 {
		c.State("%s %x", cd.name, got)
	}
	if cd.dec == nil || (len(want) == 0 && cd.name != "alphanumeric" && cd.name != "text") {
		return
	}
	p01Decode(c, cd, val, want, got)
}

func p01Decode(c *vt.C, cd codec, val interface{}, want, got []byte) {
	// Give the decoder a slice with spare room behind it: bytes that belong
	// to the caller must not change.
	for _, in := range [][]byte{want, got} {
		buf := append(append([]byte{}, in...), "CALLER"...)
		back, de2, err := cd.dec(buf[:len(in)])
		if err != nil {
			c.Fail(cd.name+":decode", "decoding %s of %#v failed: %v", b2s(in), val, err)
			return
		}
		c.Count("decoded", 1)
		if !bytes.Equal(buf[len(in):], []byte("CALLER")) || !bytes.Equal(buf[:len(in)], in) {
			c.Fail(cd.name+":clobber", "decoding %s changed the caller's buffer to %s", b2s(in), b2s(buf))
			return
		}
		// The value must not change with the buffer later on.
		for i := range buf {
			buf[i] = '#'
		}
		if !same(cd, val, back) {
			c.Fail(cd.name+":roundtrip", "value %#v went over the wire as %s and came back as %#v", val, b2s(in), back)
			return
		}
		if de2 == nil {
			continue
		}
		re, err := de2.MarshalHBCI()
		if err != nil || !sameWire(re, want) {
			// A decoded digit keeps its wire width, so the forms agree.
			c.Fail(cd.name+":reencode", "decoded from %s, encoded again as %s (%v)", b2s(in), b2s(re), err)
			return
		}
	}
}

// p01Neighbours builds a message from arbitrary texts and binaries with the
// independent writer and reads it back with the real extractors.
func p01Neighbours(c *vt.C) {
	rng := c.Rng
	type el struct {
		raw []byte
		txt string
		bin []byte
		isB bool
	}
	var want [][]el
	var des [][]byte
	for i, n := 0, 1+rng.Intn(4); i < n; i++ {
		var group []el
		var parts [][]byte
		for j, m := 0, 1+rng.Intn(4); j < m; j++ {
			var e el
			if rng.Intn(4) == 0 {
				e.bin, e.isB = genBytes(rng, 20), true
				e.raw = wire.Bin(e.bin)
			} else {
				e.txt = genText(rng, 12)
				e.raw = wire.T(e.txt)
			}
			group = append(group, e)
			parts = append(parts, e.raw)
		}
		want = append(want, group)
		des = append(des, bytes.Join(parts, []byte(":")))
	}
	// End on something visible so that no element is a trailing blank.
	want = append(want, []el{{raw: []byte("E"), txt: "E"}})
	des = append(des, []byte("E"))
	seg := append([]byte("HIXXX:3:1+"), append(bytes.Join(des, []byte("+")), '\'')...)
	msg := append(append([]byte{}, seg...), "HNHBS:4:1+1'"...)
	segs, err := message.NewSegmentExtractor(msg).Extract()
	if err != nil || len(segs) != 2 || !bytes.Equal(segs[0], seg) {
		c.Fail("neighbours:segments", "message %s extracted as %q, %v", b2s(msg), segs, err)
		return
	}
	els, err := segment.ExtractElements(segs[0])
	if err != nil || len(els) != len(des)+1 {
		c.Fail("neighbours:elements", "segment %s has %d elements, extracted %d: %q %v", b2s(seg), len(des)+1, len(els), els, err)
		return
	}
	c.Count("in-message", 1)
	for i, d := range des {
		if !bytes.Equal(els[i+1], d) {
			c.Fail("neighbours:element", "element %d of %s is %s, extracted %s", i+1, b2s(seg), b2s(d), b2s(els[i+1]))
			return
		}
		parts, err := element.ExtractElements(els[i+1])
		if err != nil || len(parts) != len(want[i]) {
			c.Fail("neighbours:group", "group %s has %d elements, extracted %q, %v", b2s(d), len(want[i]), parts, err)
			return
		}
		for j, e := range want[i] {
			if !bytes.Equal(parts[j], e.raw) {
				c.Fail("neighbours:group-element", "group %s: element %d is %s, extracted %s", b2s(d), j, b2s(e.raw), b2s(parts[j]))
				return
			}
			if e.isB {
				b := &element.BinaryDataElement{}
				if err := b.UnmarshalHBCI(parts[j]); err != nil || !bytes.Equal(b.Val(), e.bin) {
					c.Fail("neighbours:binary", "binary %s came back wrong (%v)", b2s(e.bin), err)
					return
				}
			} else {
				t := &element.AlphaNumericDataElement{}
				if err := t.UnmarshalHBCI(parts[j]); err != nil || t.Val() != e.txt {
					c.Fail("neighbours:text", "text %q came back wrong (%v)", e.txt, err)
					return
				}
			}
			if len(e.raw) > 0 {
				c.State("n %x", e.raw)
			}
		}
	}
}

// p01Segment marshals real client segments around hostile texts and reads
// them with the independent parser.
func p01Segment(c *vt.C) {
	rng := c.Rng
	check := func(seg segment.ClientSegment, want func(s wire.Segment) error) {
		b, err := seg.MarshalHBCI()
		if err != nil {
			c.Fail("segment:encode", "%T: %v", seg, err)
			return
		}
		p, err := wire.Parse(b)
		if err != nil || len(p) != 1 {
			c.Fail("segment:syntax", "%T encoded as %s, which is not one segment: %d, %v", seg, b2s(b), len(p), err)
			return
		}
		c.Count("segment-encoded", 1)
		c.State("s %x", b)
		if err := want(p[0]); err != nil {
			c.Fail("segment:value", "%T encoded as %s: %v", seg, b2s(b), err)
		}
	}
	eq := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("%s is %q on the wire, want %q", what, got, want)
		}
		return nil
	}
	switch rng.Intn(6) {
	case 0:
		id := genText1(rng, 30)
		check(segment.NewDialogEndSegment(id), func(s wire.Segment) error { return eq("dialog id", s.Str(0, 0), id) })
	case 1:
		acc := genAccount(rng)
		ref := genText1(rng, 35)
		f, ok := []func(domain.AccountConnection, bool) *segment.AccountTransactionRequestSegment{segment.NewAccountTransactionRequestSegmentV5, segment.NewAccountTransactionRequestSegmentV6}[rng.Intn(2)], true
		_ = ok
		req := f(acc, rng.Intn(2) == 0)
		req.SetContinuationReference(ref)
		check(req, func(s wire.Segment) error {
			if len(s.DEs) == 0 {
				return fmt.Errorf("no elements")
			}
			if err := eq("continuation reference", s.Str(len(s.DEs)-1, 0), ref); err != nil {
				return err
			}
			return eq("account", s.Str(0, 0), acc.AccountID)
		})
	case 2:
		acc := genIntlAccount(rng)
		ref := genText1(rng, 35)
		req := segment.NewAccountTransactionRequestSegmentV7(acc, false)
		req.SetContinuationReference(ref)
		check(req, func(s wire.Segment) error {
			if err := eq("continuation reference", s.Str(len(s.DEs)-1, 0), ref); err != nil {
				return err
			}
			return eq("IBAN", s.Str(0, 0), acc.IBAN)
		})
	case 3:
		bank := domain.BankID{CountryCode: 280, ID: genText1(rng, 12)}
		user, sys := genText1(rng, 30), genText1(rng, 30)
		check(segment.NewIdentificationSegment(bank, user, sys, true), func(s wire.Segment) error {
			if err := eq("bank", s.Str(0, 1), bank.ID); err != nil {
				return err
			}
			if err := eq("user", s.Str(1, 0), user); err != nil {
				return err
			}
			return eq("system id", s.Str(2, 0), sys)
		})
	case 4:
		name, ver := genText1(rng, 25), genText1(rng, 5)
		bpd, upd := rng.Intn(1000), rng.Intn(1000)
		check(segment.NewProcessingPreparationSegmentV3(bpd, upd, domain.German, name, ver), func(s wire.Segment) error {
			if s.Int(0, 0) != bpd || s.Int(1, 0) != upd {
				return fmt.Errorf("versions %d %d, want %d %d", s.Int(0, 0), s.Int(1, 0), bpd, upd)
			}
			if err := eq("product", s.Str(3, 0), name); err != nil {
				return err
			}
			return eq("product version", s.Str(4, 0), ver)
		})
	case 5:
		data := genBytes(rng, 80)
		check(segment.NewEncryptedDataSegment(data), func(s wire.Segment) error {
			if len(s.DEs) != 1 || len(s.DEs[0]) != 1 || !s.DEs[0][0].Bin || !bytes.Equal(s.DEs[0][0].Val, data) {
				return fmt.Errorf("data differ, want %s", b2s(data))
			}
			return nil
		})
	}
}

// p01Code: a code is valid exactly if it is in its set, and building one does
// not touch the caller's set.
func p01Code(c *vt.C) {
	rng := c.Rng
	pool := []string{"0", "1", "10", "2", "999", "A", "B", "Z", "J", "N"}
	rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	k := 1 + rng.Intn(len(pool)-1)
	set := append([]string{}, pool[:k]...)
	given := append([]string{}, set...)
	for i, v := range pool {
		code := element.NewCode(v, 3, given)
		if got, want := code.IsValid(), i < k; got != want {
			c.Fail("code:validity", "code %q with valid set %q: IsValid=%v", v, set, got)
			return
		}
		c.Count("codes", 1)
	}
	if !reflect.DeepEqual(set, given) {
		c.Fail("code:clobber", "NewCode reordered the caller's set %q to %q", set, given)
	}
	c.State("code %q", set)
}
