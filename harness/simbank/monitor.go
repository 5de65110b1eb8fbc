package simbank

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"

	"verif/harness/wire"
)

var (
	sizeRe = regexp.MustCompile(`^[0-9]{12}$`)
	dateRe = regexp.MustCompile(`^[0-9]{8}$`)
	timeRe = regexp.MustCompile(`^[0-9]{6}$`)
	numRe  = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)
)

// parse reads the request and runs the monitor for the form of messages.
func (b *Bank) parse(req *Request) {
	req.Kind = Broken
	form := func(format string, args ...interface{}) {
		b.Problem("form", "request %d: %s\n%q", req.Index, fmt.Sprintf(format, args...), req.Plain)
	}
	if b.URL != "" && req.URL != b.URL {
		form("sent to %q instead of %q", req.URL, b.URL)
	}
	plain, err := base64.StdEncoding.Strict().DecodeString(string(req.Body))
	if err != nil {
		req.Plain = req.Body
		form("body is not Base64: %v", err)
		return
	}
	req.Plain = plain
	outer, err := wire.Parse(plain)
	if err != nil {
		form("not HBCI syntax: %v", err)
		return
	}
	req.Outer = outer
	if len(outer) < 3 {
		form("message of %d segments", len(outer))
		return
	}
	head, tail := outer[0], outer[len(outer)-1]
	if head.ID != "HNHBK" || head.Ver != 3 || head.Pos != 1 || head.Ref != 0 || len(head.Head) != 3 {
		form("bad message header %q", head.Raw)
		return
	}
	if len(head.DEs) != 4 {
		form("message header has %d elements, want 4", len(head.DEs))
		return
	}
	for i, de := range head.DEs {
		if len(de) != 1 || de[0].Bin {
			form("element %d of the message header is a group or binary", i)
		}
	}
	if !sizeRe.MatchString(head.Str(0, 0)) {
		form("message size %q is not of 12 digits", head.Str(0, 0))
	} else if head.Int(0, 0) != len(plain) {
		form("message size %d, the message has %d bytes", head.Int(0, 0), len(plain))
	}
	if head.Int(1, 0) != b.Version {
		form("HBCI version %q, configured %d", head.Str(1, 0), b.Version)
	}
	req.DialogID = head.Str(2, 0)
	req.Number = head.Int(3, 0)
	if !numRe.MatchString(head.Str(3, 0)) {
		form("message number %q", head.Str(3, 0))
	}
	if tail.ID != "HNHBS" || tail.Ver != 1 || tail.Ref != 0 || len(tail.DEs) != 1 || len(tail.DEs[0]) != 1 {
		form("bad message end %q", tail.Raw)
	} else if tail.Str(0, 0) != head.Str(3, 0) {
		form("message end has number %q, header %q", tail.Str(0, 0), head.Str(3, 0))
	}
	encrypted := outer[1].ID == "HNVSK"
	if encrypted {
		if len(outer) != 4 || outer[2].ID != "HNVSD" {
			form("encrypted message of segments %s", ids(outer))
			return
		}
		want := 2
		if b.Version == 300 {
			want = 3
		}
		if outer[1].Pos != 998 || outer[1].Ver != want || outer[1].Ref != 0 {
			form("bad encryption header %q", outer[1].Raw)
		}
		if outer[2].Pos != 999 || outer[2].Ver != 1 || outer[2].Ref != 0 || len(outer[2].DEs) != 1 || len(outer[2].DEs[0]) != 1 || !outer[2].DEs[0][0].Bin {
			form("bad encrypted data segment")
			return
		}
		inner, err := wire.Parse(outer[2].DEs[0][0].Val)
		if err != nil {
			form("the encrypted data is not HBCI syntax: %v", err)
			return
		}
		req.Inner = inner
		b.checkEncryptionHeader(req, outer[1], form)
	} else {
		req.Inner = outer[1 : len(outer)-1]
	}
	if len(req.Inner) == 0 {
		form("no segments")
		return
	}
	for i, s := range req.Inner {
		if s.Pos != i+2 {
			form("segment %s at place %d is numbered %d", s.ID, i+2, s.Pos)
		}
		if s.Ref != 0 || len(s.Head) != 3 {
			form("segment %s has a reference in its header", s.ID)
		}
	}
	if tail.Pos != len(req.Inner)+2 {
		form("message end is numbered %d, want %d", tail.Pos, len(req.Inner)+2)
	}
	signed := req.Inner[0].ID == "HNSHK"
	if signed != encrypted {
		form("signed %v but encrypted %v", signed, encrypted)
	}
	core := req.Inner
	if signed {
		last := core[len(core)-1]
		if last.ID != "HNSHA" {
			form("signed message does not end with HNSHA: %s", ids(core))
			return
		}
		b.checkSignature(req, core[0], last, form)
		core = core[1 : len(core)-1]
	}
	for _, s := range core {
		if strings.HasPrefix(s.ID, "HN") || strings.HasPrefix(s.ID, "HI") {
			form("unexpected segment %s", s.ID)
		}
	}
	b.classify(req, core, signed, form)
}

func ids(segs []wire.Segment) string {
	var l []string
	for _, s := range segs {
		l = append(l, s.ID)
	}
	return strings.Join(l, ",")
}

func (b *Bank) classify(req *Request, core []wire.Segment, signed bool, form func(string, ...interface{})) {
	list := ids(core)
	anon := ""
	if !signed {
		anon = "anon-"
	}
	switch {
	case signed && list == "HKIDN,HKVVB,HKTAN,HKSYN":
		req.Kind = Sync
		want := 2
		if b.Version == 300 {
			want = 3
		}
		s := core[3]
		if s.Ver != want || len(s.DEs) != 1 || s.Str(0, 0) != "0" {
			form("synchronisation request %q, want version %d and mode 0", s.Raw, want)
		}
		b.checkPrep(req, core, true, form)
	case signed && list == "HKIDN,HKVVB,HKTAN", !signed && list == "HKIDN,HKVVB":
		req.Kind = anon + Init
		b.checkPrep(req, core, signed, form)
	case list == "HKEND":
		req.Kind = anon + End
		if s := core[0]; s.Ver != 1 || len(s.DEs) != 1 || len(s.DEs[0]) != 1 {
			form("bad dialog end %q", s.Raw)
		}
	case b.AnyJobs && len(core) > 0 && core[0].ID != "HKIDN":
		req.Kind = anon + Job
		req.JobSeg = core[len(core)-1]
	case signed && len(core) == 2 && core[0].ID == "HKTAN":
		req.Kind = Job
		req.JobSeg = core[1]
		b.checkTan(core[0], form)
	case !signed && len(core) == 1:
		req.Kind = AnonJob
		req.JobSeg = core[0]
	default:
		form("unexpected segments %s", list)
	}
}

func (b *Bank) checkTan(s wire.Segment, form func(string, ...interface{})) {
	if s.Ver != 6 {
		form("HKTAN version %d, want 6", s.Ver)
	}
	if s.Str(0, 0) != "4" {
		form("HKTAN process %q, want 4", s.Str(0, 0))
	}
}

// checkPrep checks HKIDN, HKVVB and HKTAN of an opening message.
func (b *Bank) checkPrep(req *Request, core []wire.Segment, signed bool, form func(string, ...interface{})) {
	idn, vvb := core[0], core[1]
	if idn.Ver != 2 || len(idn.DEs) != 4 || len(idn.DEs[0]) != 2 || len(idn.DEs[1]) != 1 || len(idn.DEs[2]) != 1 || len(idn.DEs[3]) != 1 {
		form("bad identification %q", idn.Raw)
		return
	}
	if idn.Str(0, 0) != "280" || idn.Str(0, 1) != b.BankID {
		form("identification names bank %q:%q instead of %q", idn.Str(0, 0), idn.Str(0, 1), b.BankID)
	}
	if vvb.Ver != 3 || len(vvb.DEs) != 5 {
		form("bad processing preparation %q", vvb.Raw)
		return
	}
	for i := range vvb.DEs {
		if len(vvb.DEs[i]) != 1 {
			form("element %d of the processing preparation is a group: %q", i, vvb.Raw)
		}
	}
	if !numRe.MatchString(vvb.Str(0, 0)) || !numRe.MatchString(vvb.Str(1, 0)) {
		form("bad parameter data versions %q", vvb.Raw)
	}
	if vvb.Str(2, 0) != b.Language {
		form("language %q, want %q", vvb.Str(2, 0), b.Language)
	}
	if !b.AnyProduct && (vvb.Str(3, 0) != b.Product || vvb.Str(4, 0) != b.ProdVer) {
		form("product %q version %q, configured %q version %q", vvb.Str(3, 0), vvb.Str(4, 0), b.Product, b.ProdVer)
	}
	if signed {
		b.checkTan(core[2], form)
		if core[2].Str(1, 0) != "HKIDN" {
			form("HKTAN refers to %q, want HKIDN", core[2].Str(1, 0))
		}
		if idn.Str(3, 0) != "1" {
			form("client system status %q, want 1", idn.Str(3, 0))
		}
	} else {
		if idn.Str(1, 0) != "9999999999" || idn.Str(2, 0) != "0" || idn.Str(3, 0) != "0" {
			form("anonymous identification %q", idn.Raw)
		}
	}
}

func (b *Bank) keyName(seg wire.Segment, i int, kind string, form func(string, ...interface{})) {
	if i >= len(seg.DEs) || len(seg.DEs[i]) != 6 {
		form("%s: key name is not a group of 6: %q", seg.ID, seg.Raw)
		return
	}
	for j, want := range []string{"280", b.BankID, b.UserID, kind, "0", "0"} {
		if seg.Str(i, j) != want {
			form("%s: element %d of the key name is %q, want %q", seg.ID, j, seg.Str(i, j), want)
			b.Problem("security", "%s: element %d of the key name is %q, want %q", seg.ID, j, seg.Str(i, j), want)
		}
	}
}

func stamp(seg wire.Segment, i int, form func(string, ...interface{})) {
	if i >= len(seg.DEs) || len(seg.DEs[i]) != 3 || seg.Str(i, 0) != "1" || !dateRe.MatchString(seg.Str(i, 1)) || !timeRe.MatchString(seg.Str(i, 2)) {
		form("%s: bad time stamp %q", seg.ID, seg.Raw)
	}
}

func (b *Bank) checkEncryptionHeader(req *Request, s wire.Segment, form func(string, ...interface{})) {
	off := 0
	if b.Version == 300 {
		off = 1
		if len(s.DEs) < 1 || len(s.DEs[0]) != 2 || s.Str(0, 0) != "PIN" {
			form("encryption header: bad security profile %q", s.Raw)
		}
	}
	if n := len(s.DEs) - off; n != 7 {
		form("encryption header has %d elements, want 7: %q", n, s.Raw)
		return
	}
	if s.Str(off, 0) != "998" {
		form("encryption header: security function %q, want 998", s.Str(off, 0))
	}
	stamp(s, off+3, form)
	b.keyName(s, off+5, "V", form)
}

func (b *Bank) checkSignature(req *Request, s, e wire.Segment, form func(string, ...interface{})) {
	off, ver, ever := 0, 3, 1
	if b.Version == 300 {
		off, ver, ever = 1, 4, 2
		if len(s.DEs) < 1 || len(s.DEs[0]) != 2 || s.Str(0, 0) != "PIN" {
			form("signature header: bad security profile %q", s.Raw)
		}
	}
	if s.Ver != ver || e.Ver != ever {
		form("signature segments of version %d and %d, want %d and %d", s.Ver, e.Ver, ver, ever)
	}
	if n := len(s.DEs) - off; n != 10 {
		form("signature header has %d elements, want 10: %q", n, s.Raw)
		return
	}
	if len(e.DEs) != 3 || len(e.DEs[0]) != 1 || len(e.DEs[1]) != 1 || len(e.DEs[2]) > 2 {
		form("bad signature end %q", e.Raw)
		return
	}
	if s.Str(off+1, 0) == "" || s.Str(off+1, 0) != e.Str(0, 0) {
		form("control reference %q in the header, %q in the end", s.Str(off+1, 0), e.Str(0, 0))
	}
	if e.Has(1, 0) {
		form("signature end has a signature besides PIN and TAN: %q", e.Raw)
	}
	stamp(s, off+6, form)
	b.keyName(s, off+9, "S", form)
}

// checkSecurity is the monitor for credentials.
func (b *Bank) checkSecurity(req *Request) {
	sec := func(format string, args ...interface{}) {
		b.Problem("security", "request %d (%s): %s\n%q", req.Index, req.Kind, fmt.Sprintf(format, args...), req.Plain)
	}
	// Where does the PIN occur?
	if b.PIN != "" {
		for si, list := range [][]wire.Segment{req.Outer, req.Inner} {
			for _, s := range list {
				for i, de := range append([]wire.DE{s.Head}, s.DEs...) {
					for j, e := range de {
						if si == 0 && s.ID == "HNVSD" {
							continue // its content is looked at as inner segments
						}
						if s.ID == "HNSHA" && si == 1 && i == 3 && j == 0 {
							if wire.UTF8(e.Val) != b.PIN {
								sec("signature carries PIN %q instead of %q", e.Val, b.PIN)
							}
							continue
						}
						for _, mark := range append([]string{b.PINMark}, b.OldMarks...) {
							if mark != "" && strings.Contains(wire.UTF8(e.Val), mark) {
								sec("the PIN occurs in element %d,%d of %s", i, j, s.ID)
							}
						}
					}
				}
			}
		}
	}
	var hs, he wire.Segment
	var signed bool
	if len(req.Inner) > 1 && req.Inner[0].ID == "HNSHK" {
		signed = true
		hs, he = req.Inner[0], req.Inner[len(req.Inner)-1]
	}
	if !signed {
		for _, mark := range append([]string{b.PINMark}, b.OldMarks...) {
			if mark != "" && strings.Contains(wire.UTF8(req.Plain), mark) {
				sec("the PIN occurs in an unsigned message")
			}
		}
		return
	}
	if len(he.DEs) < 3 || len(he.DEs[2]) < 1 {
		sec("the signature carries no PIN")
	}
	if he.Has(2, 1) {
		sec("the signature carries a TAN %q nobody gave", he.Str(2, 1))
	}
	off := 0
	if b.Version == 300 {
		off = 1
	}
	fn := hs.Str(off, 0)
	sys := hs.Str(off+4, 2)
	ek := req.Outer[1]
	esys := ek.Str(off+2, 2)
	if sys != esys {
		sec("client system ID %q in the signature, %q in the encryption header", sys, esys)
	}
	if b.SecFn != nil && !b.SecFn[fn] {
		sec("security function %q, expected one of %v", fn, b.SecFn)
	}
	if b.Version == 300 {
		want := "2"
		if fn == "999" {
			want = "1"
		}
		if p := hs.Str(0, 1); p != want {
			sec("security profile PIN:%s with security function %s", p, fn)
		}
		if p := ek.Str(0, 1); p != want {
			sec("encryption profile PIN:%s with security function %s", p, fn)
		}
	}
	if idn, ok := req.Find("HKIDN"); ok {
		if idn.Str(2, 0) != sys {
			sec("client system ID %q in the identification, %q in the signature", idn.Str(2, 0), sys)
		}
		if !b.ClientIDs[idn.Str(1, 0)] {
			sec("client ID %q, the bank knows %q", idn.Str(1, 0), b.ClientIDs)
		}
	}
	switch req.Kind {
	case Sync:
		if sys != "0" {
			sec("synchronisation with client system ID %q instead of 0", sys)
		}
	case Init, Job:
		if !b.SystemIDs[sys] {
			sec("client system ID %q, the bank assigned %q", sys, b.SystemIDs)
		}
	case End:
		if !b.SystemIDs[sys] && !(sys == "0" && b.cur != nil && b.cur.kind == Sync) {
			sec("client system ID %q, the bank assigned %q", sys, b.SystemIDs)
		}
	}
}
