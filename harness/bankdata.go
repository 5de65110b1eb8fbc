package main

import (
	"fmt"

	"verif/harness/simbank"
	"verif/harness/wire"
)

// acctW is an account as the bank announces it.
type acctW struct {
	Ver      int
	ID, Sub  string
	IBAN     string
	User     string
	Type     int
	Currency string
	Name1    string
	Name2    string
	Product  string
	Limit    string // kind E,T,W,M,Z or empty
	LimCents int64
	LimDays  int
	Jobs     []jobW
	Ext      string
}

type jobW struct {
	ID    string
	Sigs  int
	Kind  string
	Cents int64
	Days  int
}

func limitW(kind string, cents int64, days int) []byte {
	if kind == "" {
		return nil
	}
	parts := [][]byte{wire.T(kind), wire.Raw(centsWire(cents)), wire.T("EUR")}
	if kind == "Z" {
		parts = append(parts, wire.I(days))
	}
	return wire.G(parts...)
}

// seg is the HIUPD segment of the account.
func (a acctW) seg(bankID string) simbank.Seg {
	conn := wire.G(wire.T(a.ID), wire.T(a.Sub), wire.I(280), wire.T(bankID))
	if a.ID == "" {
		conn = nil
	}
	des := [][]byte{conn}
	if a.Ver >= 6 {
		des = append(des, wire.T(a.IBAN))
	}
	des = append(des, wire.T(a.User))
	if a.Ver >= 5 {
		if a.Type > 0 {
			des = append(des, wire.I(a.Type))
		} else {
			des = append(des, nil)
		}
	}
	des = append(des, wire.T(a.Currency), wire.T(a.Name1), wire.T(a.Name2), wire.T(a.Product), limitW(a.Limit, a.LimCents, a.LimDays))
	for _, j := range a.Jobs {
		g := [][]byte{wire.T(j.ID), wire.I(j.Sigs)}
		if j.Kind != "" {
			g = append(g, wire.T(j.Kind), wire.Raw(centsWire(j.Cents)), wire.T("EUR"))
			if j.Kind == "Z" {
				g = append(g, wire.I(j.Days))
			}
		}
		des = append(des, wire.G(g...))
	}
	if a.Ext != "" && a.Ver >= 6 {
		des = append(des, wire.T(a.Ext))
	}
	return simbank.S("HIUPD", a.Ver, 4, des...)
}

// bpdW is the common bank parameter segment.
func bpdW(version, ver int, bankID, name string) simbank.Seg {
	des := [][]byte{wire.I(ver), wire.G(wire.I(280), wire.T(bankID)), wire.T(name), wire.I(3), wire.Raw("1"), wire.Raw("201:210:220:300"), wire.I(9999)}
	v := 2
	if version == 300 {
		v = 3
	}
	return simbank.S("HIBPA", v, 4, des...)
}

// upaW is the common user parameter segment.
func upaW(version int, user string, ver int) simbank.Seg {
	if version == 300 {
		return simbank.S("HIUPA", 4, 4, wire.T(user), wire.I(ver), wire.I(0))
	}
	return simbank.S("HIUPA", 2, 4, wire.T(user), wire.I(ver), wire.I(0))
}

// supW announces a job and version.
func supW(id string, ver int) simbank.Seg {
	return simbank.S(id, ver, 4, wire.I(1), wire.I(1))
}

func pinsW(jobs map[string]bool, order []string) simbank.Seg {
	g := [][]byte{wire.I(5), wire.I(38), wire.I(6), wire.T("USERID"), wire.T("CUSTID")}
	for _, id := range order {
		yn := "N"
		if jobs[id] {
			yn = "J"
		}
		g = append(g, wire.T(id), wire.Raw(yn))
	}
	return simbank.S("HIPINS", 1, 4, wire.I(1), wire.I(1), wire.I(0), joinC(g))
}

func joinC(parts [][]byte) []byte {
	var out []byte
	for i, p := range parts {
		if i > 0 {
			out = append(out, ':')
		}
		out = append(out, p...)
	}
	return out
}

// tanProc is one two step process of HITANS version 6.
type tanProc struct {
	Fn, Name string
}

func tansW(procs ...tanProc) simbank.Seg {
	g := [][]byte{wire.Raw("J"), wire.Raw("N"), wire.I(0)}
	for i, p := range procs {
		g = append(g, wire.T(p.Fn), wire.I(2), wire.T(fmt.Sprintf("tech%d", i)), nil, nil, wire.T(p.Name), wire.I(6), wire.I(1), wire.T("TAN"), wire.I(999), wire.Raw("J"),
			wire.I(1), wire.Raw("N"), wire.I(0), wire.I(0), wire.Raw("N"), wire.Raw("J"), wire.Raw("00"), wire.I(0), wire.Raw("N"), wire.I(1))
	}
	return simbank.S("HITANS", 6, 4, wire.I(1), wire.I(1), wire.I(1), joinC(g))
}
