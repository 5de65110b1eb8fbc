//go:build p02 || p21 || all

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/wire"
)

// body is a marshaled segment without its number.
func body(raw []byte) string {
	s := string(raw)
	i := strings.IndexByte(s, ':')
	j := strings.IndexByte(s[i+1:], ':')
	if i < 0 || j < 0 {
		return s
	}
	return s[:i] + s[i+1+j:]
}

func natConn(rng *rand.Rand) domain.AccountConnection {
	return domain.AccountConnection{AccountID: genText1(rng, 12), SubAccountCharacteristics: genText(rng, 4), CountryCode: 1 + rng.Intn(999), BankID: genText1(rng, 10)}
}

func intConn(rng *rand.Rand) domain.InternationalAccountConnection {
	return domain.InternationalAccountConnection{IBAN: genText1(rng, 24), BIC: genText1(rng, 11), AccountID: genText1(rng, 12), SubAccountCharacteristics: genText(rng, 4), BankID: domain.BankID{CountryCode: 1 + rng.Intn(999), ID: genText1(rng, 10)}}
}

func segW(id string, ver int, des ...string) string {
	for len(des) > 0 && des[len(des)-1] == "" {
		des = des[:len(des)-1]
	}
	return fmt.Sprintf("%s:%d+%s'", id, ver, strings.Join(des, "+"))
}

// genJob is a client segment and what it must look like, without its number.
func genJob(rng *rand.Rand, kind int) (segment.ClientSegment, string) {
	all := rng.Intn(2) == 0
	nc, ic := natConn(rng), intConn(rng)
	from, to := genDate(rng), genDate(rng)
	if to.Before(from) {
		from, to = to, from
	}
	cont := ""
	if rng.Intn(2) == 0 {
		cont = genText1(rng, 35)
	}
	max := 1 + rng.Intn(9999)
	ms := fmt.Sprint(max)
	ct := string(wire.T(cont))
	kn := domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: genText1(rng, 8)}, UserID: genText1(rng, 10), KeyType: domain.KeyTypeSigning, KeyNumber: rng.Intn(1000), KeyVersion: rng.Intn(1000)}
	kns := fmt.Sprintf("280:%s:%s:S:%d:%d", wire.T(kn.BankID.ID), wire.T(kn.UserID), kn.KeyNumber, kn.KeyVersion)
	switch kind {
	case 0, 1, 2, 3:
		var s segment.AccountBalanceRequest
		ver := 5 + kind
		acct := acctStr(nc)
		switch ver {
		case 5:
			s = segment.NewAccountBalanceRequestV5(nc, all)
		case 6:
			s = segment.NewAccountBalanceRequestV6(nc, all)
		case 7:
			s, acct = segment.NewAccountBalanceRequestV7(ic, all), iacctStr(ic)
		case 8:
			s, acct = segment.NewAccountBalanceRequestV8(ic, all), iacctStr(ic)
		}
		if cont != "" {
			s.SetContinuationMark(cont)
		}
		return s, segW("HKSAL", ver, acct, jn(all), "", ct)
	case 4, 5, 6:
		var s *segment.AccountTransactionRequestSegment
		acct := acctStr(nc)
		ver := kind + 1
		switch ver {
		case 5:
			s = segment.NewAccountTransactionRequestSegmentV5(nc, all)
		case 6:
			s = segment.NewAccountTransactionRequestSegmentV6(nc, all)
		case 7:
			s, acct = segment.NewAccountTransactionRequestSegmentV7(ic, all), iacctStr(ic)
		}
		tf := domain.Timeframe{StartDate: domain.NewShortDate(from), EndDate: domain.NewShortDate(to)}
		if rng.Intn(4) == 0 {
			// Left out days mean a month until today.
			now := time.Now()
			k := rng.Intn(3)
			if k != 0 {
				tf.StartDate, from = domain.ShortDate{}, now.AddDate(0, -1, 0)
			}
			if k != 1 {
				tf.EndDate, to = domain.ShortDate{}, now
			}
			s.SetTransactionRange(tf)
			if day(time.Now()) != day(now) {
				return genJob(rng, kind) // midnight has passed
			}
		} else {
			s.SetTransactionRange(tf)
		}
		if cont != "" {
			s.SetContinuationReference(cont)
		}
		return s, segW("HKKAZ", ver, acct, jn(all), day(from), day(to), "", ct)
	case 7:
		return segment.NewStatusProtocolRequestV3(from, to, max, cont), segW("HKPRO", 3, day(from), day(to), ms, ct)
	case 8:
		return segment.NewStatusProtocolRequestV4(from, to, max, cont), segW("HKPRO", 4, day(from), day(to), ms, ct)
	case 9:
		a, b := domain.BankID{CountryCode: 280, ID: genText1(rng, 8)}, domain.BankID{CountryCode: 40, ID: genText1(rng, 8)}
		return segment.NewCommunicationAccessRequestSegment(a, b, max, cont), segW("HKKOM", 3, "280:"+string(wire.T(a.ID)), "040:"+string(wire.T(b.ID)), fmt.Sprint(max), ct)
	case 10:
		return segment.NewAccountInformationRequestSegmentV1(nc, all), segW("HKKIF", 1, acctStr(nc), jn(all))
	case 11:
		return segment.NewAccountInformationRequestSegmentV2(nc, all), segW("HKKIF", 2, acctStr(nc), jn(all))
	case 12:
		return segment.NewAccountInformationRequestSegmentV3(ic, all), segW("HKKIF", 3, iacctStr(ic), jn(all))
	case 13:
		return segment.NewAccountInformationRequestSegmentV4(ic, all), segW("HKKIF", 4, iacctStr(ic), jn(all))
	case 14:
		return segment.NewAccountInformationRequestSegmentV5(ic, all), segW("HKKIF", 5, iacctStr(ic), jn(all))
	case 15:
		return segment.NewAccountInformationRequestSegmentV6(ic, all), segW("HKKIF", 6, iacctStr(ic), jn(all))
	case 16:
		return segment.NewPublicKeyRequestSegment(1, kn), segW("HKISA", 2, "2", "124", kns)
	case 17:
		ref := genText1(rng, 20)
		return segment.NewTanRequestProcess2(ref, all), segW("HKTAN", 1, "2", "", string(wire.T(ref)), "", jn(all))
	case 18:
		ref := genText1(rng, 6)
		return segment.NewTanProcess4RequestSegmentV6(ref), segW("HKTAN", 6, "4", string(wire.T(ref)))
	case 19:
		return segment.NewTanProcess4RequestSegmentV1(""), segW("HKTAN", 1, "4")
	case 20:
		id := genText1(rng, 20)
		return segment.NewDialogEndSegment(id), segW("HKEND", 1, string(wire.T(id)))
	case 21:
		b := domain.BankID{CountryCode: 280, ID: genText1(rng, 8)}
		cid, sid := genText1(rng, 12), genText1(rng, 12)
		st := "0"
		if all {
			st = "1"
		}
		return segment.NewIdentificationSegment(b, cid, sid, all), segW("HKIDN", 2, "280:"+string(wire.T(b.ID)), string(wire.T(cid)), string(wire.T(sid)), st)
	case 22:
		n, v := genText1(rng, 12), genText1(rng, 5)
		bp, up := rng.Intn(1000), rng.Intn(1000)
		return segment.NewProcessingPreparationSegmentV3(bp, up, domain.French, n, v), segW("HKVVB", 3, fmt.Sprint(bp), fmt.Sprint(up), "3", string(wire.T(n)), string(wire.T(v)))
	case 23:
		return segment.NewSynchronisationSegmentV2(segment.SyncModeAquireClientID), segW("HKSYN", 2, "0")
	case 24:
		return segment.NewSynchronisationSegmentV3(segment.SyncModeAquireClientID), segW("HKSYN", 3, "0")
	default:
		n, v := genText1(rng, 12), genText1(rng, 5)
		return segment.NewProcessingPreparationSegmentV2(7, 8, domain.English, n, v), segW("HKVVB", 2, "7", "8", "2", string(wire.T(n)), string(wire.T(v)))
	}
}

const jobKinds = 26

func genJobs(rng *rand.Rand, n int) ([]segment.ClientSegment, []string) {
	var segs []segment.ClientSegment
	var want []string
	for i := 0; i < n; i++ {
		s, w := genJob(rng, rng.Intn(20))
		segs, want = append(segs, s), append(want, w)
	}
	return segs, want
}
