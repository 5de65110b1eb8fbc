//go:build p05 || p06 || p08 || p07 || p15 || all

package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"verif/harness/simbank"
	"verif/harness/wire"
)

// tree is a segment as raw data element groups, header first.
type tree [][][]byte

func treeOf(s []wire.DE) tree {
	var t tree
	for _, de := range s {
		var g [][]byte
		for _, e := range de {
			g = append(g, e.Raw)
		}
		t = append(t, g)
	}
	return t
}

func (t tree) bytes() []byte {
	var des [][]byte
	for _, g := range t {
		des = append(des, bytes.Join(g, []byte(":")))
	}
	return append(bytes.Join(des, []byte("+")), '\'')
}

func treesOf(msg []byte) []tree {
	segs, _, err := wire.ParseRaw(msg)
	if err != nil {
		return nil
	}
	var out []tree
	for _, s := range segs {
		out = append(out, treeOf(s))
	}
	return out
}

var hostileElems = []string{"", "0", "1", "-1", "99999999999999999999", "2147483648", "J", "N", "X", "@0@", "@3@abc", "@2@+'", "00", "000", "0010", "9999", "3040", "3920", "20261002", "20261399", "20260230", "235960", "101112",
	"1,", "0,", "12,50", "1,2,3", "C", "D", "RC", "EUR", "280", "??", "?+", "a?'b", "E", "Z", "\xe4\xf6", "\x00", "text with blanks ", "\r\n", "900", "999", "HKSAL", "4", "6", "300", "220"}

func hostileElem(rng *rand.Rand) []byte {
	switch rng.Intn(13) {
	case 12:
		n := limitNumber(rng, 300)
		switch rng.Intn(4) {
		case 0:
			n = "@" + n + "@x"
		case 1:
			n = "-" + n
		case 2:
			n += ",5"
		}
		return []byte(n)
	case 0:
		return wire.Bin(genBytes(rng, rng.Intn(40)))
	case 1:
		return wire.T(genText(rng, rng.Intn(60)))
	case 2:
		return []byte(genDigits(rng, 1+rng.Intn(30)))
	case 3:
		return bytes.Repeat([]byte("A"), 1+rng.Intn(300))
	}
	return []byte(hostileElems[rng.Intn(len(hostileElems))])
}

// twist changes the structure of a segment.
func (t tree) twist(rng *rand.Rand, header bool) tree {
	out := make(tree, len(t))
	for i, g := range t {
		out[i] = append([][]byte{}, g...)
	}
	lo := 1
	if header && rng.Intn(4) == 0 {
		lo = 0
	}
	if len(out) <= lo {
		return append(out, [][]byte{hostileElem(rng)})
	}
	i := lo + rng.Intn(len(out)-lo)
	g := out[i]
	switch rng.Intn(14) {
	case 0: // element missing
		out = append(out[:i], out[i+1:]...)
	case 1: // element empty
		out[i] = [][]byte{nil}
	case 2: // cut off
		out = out[:i]
	case 3: // repeated
		out = append(out[:i], append(tree{append([][]byte{}, g...)}, out[i:]...)...)
	case 4: // exchanged
		j := lo + rng.Intn(len(out)-lo)
		out[i], out[j] = out[j], out[i]
	case 5: // part missing
		j := rng.Intn(len(g))
		out[i] = append(append([][]byte{}, g[:j]...), g[j+1:]...)
	case 6: // part empty
		g[rng.Intn(len(g))] = nil
	case 7: // group cut off
		out[i] = g[:rng.Intn(len(g)+1)]
	case 8: // part added
		j := rng.Intn(len(g) + 1)
		out[i] = append(append(append([][]byte{}, g[:j]...), hostileElem(rng)), g[j:]...)
	case 9: // element added
		out = append(out[:i], append(tree{[][]byte{hostileElem(rng)}}, out[i:]...)...)
	case 10: // many elements
		for n := rng.Intn(40); n > 0; n-- {
			out = append(out, [][]byte{hostileElem(rng)})
		}
	case 11: // many parts
		for n := rng.Intn(60); n > 0; n-- {
			out[i] = append(out[i], hostileElem(rng))
		}
	default: // other value
		g[rng.Intn(len(g))] = hostileElem(rng)
	}
	if len(out) == 0 {
		out = tree{[][]byte{nil}}
	}
	for i := range out {
		if len(out[i]) == 0 {
			out[i] = [][]byte{nil}
		}
	}
	return out
}

// innerSegs is the answer's content as literal segments.
func innerSegs(req *simbank.Request, r *simbank.Resp, bank *simbank.Bank) []tree {
	enc := r.Encrypted
	r.Encrypted = false
	msg := r.Message(req, bank)
	r.Encrypted = enc
	t := treesOf(msg)
	if len(t) < 2 {
		return nil
	}
	return t[1 : len(t)-1]
}

// setInner makes the segments the whole content of the answer.
func setInner(r *simbank.Resp, segs [][]byte) {
	r.NoMsgAck, r.MsgAcks, r.SegAcks, r.Segs = true, nil, nil, nil
	for _, s := range segs {
		r.Segs = append(r.Segs, simbank.Seg{Lit: s})
	}
}

// corpus are valid segments of every kind the library decodes, and some it
// does not.
func corpus(rng *rand.Rand) []byte {
	conn := wire.G(wire.T("1234567"), nil, wire.I(280), wire.T("10020030"))
	iconn := wire.G(wire.T("DE12345"), wire.T("BICBICXX"), wire.T("123"), nil, wire.I(280), wire.T("10020030"))
	bal := func(v string) []byte {
		return wire.G(wire.Raw("C"), wire.Raw(v), wire.Raw("EUR"), wire.Raw("20261002"), wire.Raw("101112"))
	}
	amt := wire.G(wire.Raw("12,5"), wire.Raw("EUR"))
	kn := wire.G(wire.I(280), wire.T("10020030"), wire.T("user"), wire.Raw("S"), wire.I(1), wire.I(1))
	pos := 1 + rng.Intn(9)
	switch rng.Intn(27) {
	case 0:
		return wire.Seg("HIRMG", pos, 2, 0, wire.G(wire.Raw("0010"), nil, wire.T("ok")), wire.G(wire.Raw("3060"), wire.Raw("1,2"), wire.T("Hinweis"), wire.T("p")))
	case 1:
		return wire.Seg("HIRMS", pos, 2, 3, wire.G(wire.Raw("0020"), nil, wire.T("ok")), wire.G(wire.Raw("3040"), nil, wire.T("mehr"), wire.T("ref")))
	case 2:
		return wire.Seg("HIRMS", pos, 2, 3, wire.G(wire.Raw("3920"), nil, wire.T("TAN"), wire.T("900"), wire.T("942")))
	case 3:
		return wire.Seg("HISYN", pos, 3+rng.Intn(2), 4, wire.T("sys1"), wire.I(3), wire.I(4))
	case 4, 5:
		v := 5 + rng.Intn(4)
		c := conn
		if v > 6 {
			c = iconn
		}
		return wire.Seg("HISAL", pos, v, 3, c, wire.T("Giro"), wire.Raw("EUR"), bal("12,5"), bal("1,"), amt, amt, amt, wire.G(wire.Raw("20261002"), wire.Raw("101112")), wire.Raw("20261003"))
	case 6, 7:
		return wire.Seg("HIKAZ", pos, 5+rng.Intn(3), 3, wire.Bin([]byte(genStatement(rng))), wire.Bin([]byte(genStatement(rng))))
	case 8:
		return wire.Seg("HIPRO", pos, 3+rng.Intn(2), 3, wire.G(wire.T("dlg"), wire.I(2)), wire.I(3), wire.Raw("20261002"), wire.Raw("101112"), wire.G(wire.Raw("0020"), nil, wire.T("ok")))
	case 9:
		return wire.Seg("HIKIM", pos, 2, 0, wire.T("Betreff"), wire.T("Text"))
	case 10, 11:
		a := acctW{Ver: 4 + rng.Intn(4), ID: "123", IBAN: "DE1", User: "u", Type: 1, Currency: "EUR", Name1: "n1", Name2: "n2", Product: "p", Limit: "Z", LimCents: 100, LimDays: 3, Jobs: []jobW{{ID: "HKSAL", Sigs: 1}, {ID: "HKKAZ", Sigs: 2, Kind: "Z", Cents: 100, Days: 7}}, Ext: "ext"}
		s := a.seg("10020030")
		return wire.Seg(s.ID, pos, s.Ver, 4, s.DEs...)
	case 12:
		s := bpdW([]int{220, 300}[rng.Intn(2)], 12, "10020030", "Bank")
		return wire.Seg(s.ID, pos, s.Ver, 4, s.DEs...)
	case 13:
		return wire.Seg("HIUPA", pos, 2+rng.Intn(3), 4, wire.T("user"), wire.I(5), wire.I(0), wire.T("name"), wire.T("ext"))
	case 14:
		s := pinsW(map[string]bool{"HKSAL": true}, []string{"HKSAL", "HKKAZ", "HKPRO"})
		return wire.Seg(s.ID, pos, s.Ver, 4, s.DEs...)
	case 15, 16:
		s := tansW(tanProc{"900", "iTAN"}, tanProc{"942", "mTAN"})
		return wire.Seg(s.ID, pos, s.Ver, 4, s.DEs...)
	case 17:
		return wire.Seg("HITAN", pos, 6, 4, wire.I(4), nil, wire.T("ref"), wire.T("challenge"), wire.Bin([]byte("hhd")), wire.G(wire.Raw("20261002"), wire.Raw("101112")), wire.T("medium"))
	case 18:
		return wire.Seg("HNHBK", pos, 3, 0, wire.Raw("000000000120"), wire.I(300), wire.T("dlg"), wire.I(2), wire.G(wire.T("dlg"), wire.I(2)))
	case 19:
		return wire.Seg("HNHBS", pos, 1, 0, wire.I(2))
	case 20:
		des := [][]byte{wire.I(998), wire.I(1), wire.G(wire.I(2), nil, wire.T("sys")), wire.G(wire.I(1), wire.Raw("20261002"), wire.Raw("101112")),
			wire.G(wire.I(2), wire.I(2), wire.I(13), wire.Bin(make([]byte, 8)), wire.I(5), wire.I(1)), kn, wire.I(0), wire.G(wire.I(1), wire.I(2), wire.Bin([]byte("cert")))}
		v := 2 + rng.Intn(2)
		if v == 3 {
			des = append([][]byte{wire.Raw("PIN:1")}, des...)
		}
		return wire.Seg("HNVSK", pos, v, 0, des...)
	case 21:
		return wire.Seg("HNVSD", pos, 1, 0, wire.Bin([]byte("HIRMG:2:2+0010::ok'")))
	case 22:
		v := 3 + rng.Intn(2)
		des := [][]byte{wire.I(999), wire.T("ref"), wire.I(1), wire.I(1), wire.G(wire.I(1), nil, wire.T("sys")), wire.I(1), wire.G(wire.I(1), wire.Raw("20261002"), wire.Raw("101112")),
			wire.G(wire.I(1), wire.I(999), wire.I(1)), wire.G(wire.I(6), wire.I(10), wire.I(16)), kn}
		if v == 4 {
			des = append([][]byte{wire.Raw("PIN:1")}, des...)
		}
		return wire.Seg("HNSHK", pos, v, 0, des...)
	case 23:
		return wire.Seg("HNSHA", pos, 1+rng.Intn(2), 0, wire.T("ref"), nil, wire.G(wire.T("12345"), wire.T("tan")))
	case 24:
		return wire.Seg("HIKOM", pos, 3, 3, wire.G(wire.I(280), wire.T("10020030")), wire.I(1), wire.G(wire.I(2), wire.T("host"), wire.T("s"), wire.Raw("MIM"), wire.I(1)))
	case 25:
		return wire.Seg("HIKIF", pos, 1+rng.Intn(6), 3, conn, wire.I(1), wire.Raw("EUR"), wire.Raw("20261002"))
	}
	return wire.Seg([]string{"HISALS", "HIKAZS", "HIPROS", "DIKKUS", "HISHV", "HIXYZ"}[rng.Intn(6)], pos, 1+rng.Intn(7), 4, wire.I(1), wire.I(1), wire.Raw("J"))
}

// genStatement is a plausible MT940 message.
func genStatement(rng *rand.Rand) string {
	var b bytes.Buffer
	for n := 1 + rng.Intn(2); n > 0; n-- {
		fmt.Fprintf(&b, "\r\n:20:STARTUMS\r\n:21:NONREF\r\n:25:10020030/%s\r\n:28C:%d/%d\r\n:60F:C261001EUR%d,%02d", genDigits(rng, 9), rng.Intn(1000), rng.Intn(100), rng.Intn(10000), rng.Intn(100))
		for k := rng.Intn(4); k > 0; k-- {
			fmt.Fprintf(&b, "\r\n:61:26100%d100%d%s%d,%02dN024NONREF//BANKREF\r\n/OCMT/EUR1,00/CHGS/EUR0,10/", 1+rng.Intn(9), 1+rng.Intn(9), []string{"C", "D", "RC", "RD", "CR", "DR"}[rng.Intn(6)], rng.Intn(10000), rng.Intn(100))
			fmt.Fprintf(&b, "\r\n:86:177?00SEPA?109249?20Zeile 1?21Zeile\r\n 2?30BIC?31IBAN?32Name?33Name2?34000?60mehr")
		}
		fmt.Fprintf(&b, "\r\n:62F:C261002EUR%d,%02d\r\n:64:C261002EUR1,00\r\n-", rng.Intn(10000), rng.Intn(100))
	}
	return b.String()
}
