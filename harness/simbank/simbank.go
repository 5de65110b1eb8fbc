// Package simbank is a simulated bank behind the library's Transport
// interface. It reads every request with the independent parser of package
// wire, answers it like a bank (or, when told to, like a broken or malicious
// one) and judges what it sees with three online monitors: the form of the
// messages, the protocol of the dialogs and the use of the credentials.
package simbank

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"strings"
	"sync"

	"github.com/mitch000001/go-hbci/transport"

	"verif/harness/wire"
)

// Kinds of requests.
const (
	Sync     = "sync"
	Init     = "init"
	Job      = "job"
	End      = "end"
	AnonInit = "anon-init"
	AnonJob  = "anon-job"
	AnonEnd  = "anon-end"
	Broken   = "broken"
)

// Request is one request as the bank understood it.
type Request struct {
	Index    int
	URL      string
	Body     []byte
	Plain    []byte
	Outer    []wire.Segment
	Inner    []wire.Segment // the jobs with the signature, without header and end
	Kind     string
	JobSeg   wire.Segment
	DialogID string
	Number   int
	Resp     *Resp
	Status   string // how the bank answered: accepted, rejected, unknown
}

// Find returns the first inner segment with the id.
func (r *Request) Find(id string) (wire.Segment, bool) {
	for _, s := range r.Inner {
		if s.ID == id {
			return s, true
		}
	}
	return wire.Segment{}, false
}

// Ack is one acknowledgement.
type Ack struct {
	Code   int
	RefDE  string
	Text   string
	Params []string
}

// Wire is the wire form of the acknowledgement.
func (a Ack) Wire() []byte {
	parts := [][]byte{[]byte(fmt.Sprintf("%04d", a.Code)), wire.T(a.RefDE), wire.T(a.Text)}
	for _, p := range a.Params {
		parts = append(parts, wire.T(p))
	}
	return bytes.Join(parts, []byte(":"))
}

// SegAck are the acknowledgements for one segment.
type SegAck struct {
	Ref  int
	Acks []Ack
}

// Seg is a segment of an answer.
type Seg struct {
	ID  string
	Ver int
	Ref int
	DEs [][]byte
	// Lit replaces the segment literally ("%d" is not expanded).
	Lit []byte
}

// S builds a segment.
func S(id string, ver, ref int, des ...[]byte) Seg { return Seg{ID: id, Ver: ver, Ref: ref, DEs: des} }

// Resp is the answer to one request.
type Resp struct {
	Dialog    string
	Number    int
	Version   int
	MsgAcks   []Ack
	NoMsgAck  bool
	SegAcks   []SegAck
	Segs      []Seg
	Encrypted bool
	// Last lets HIRMG and HIRMS come after the other segments.
	AcksLast bool
	// Body replaces the message, Wire the Base64 text.
	Body []byte
	Wire []byte
	// Sent is the message sent in the end, SentText its Base64 text.
	Sent, SentText []byte
	Err            error
	// ReadErr fails reading the body after ReadN bytes.
	ReadErr error
	ReadN   int
	// Unprocessed: the request never reached the bank.
	Unprocessed bool
	// Undecodable: the client can not be expected to understand the answer.
	Undecodable bool
	// Uncertain: the answer is understood, but whether the client keeps the
	// data in it is left open.
	Uncertain bool
}

// ErrTransport is the error of a failing transport.
var ErrTransport = errors.New("simulated transport failure")

// Rejected tells whether the answer contains an error acknowledgement.
func (r *Resp) Rejected() bool {
	for _, a := range r.MsgAcks {
		if a.Code >= 9000 {
			return true
		}
	}
	for _, s := range r.SegAcks {
		for _, a := range s.Acks {
			if a.Code >= 9000 {
				return true
			}
		}
	}
	return false
}

// Message is the message of the answer.
func (r *Resp) Message(req *Request, bank *Bank) []byte {
	if r.Body != nil {
		return r.Body
	}
	var segs []Seg
	var acks []Seg
	if !r.NoMsgAck {
		var des [][]byte
		for _, a := range r.MsgAcks {
			des = append(des, a.Wire())
		}
		acks = append(acks, S("HIRMG", 2, 0, des...))
	}
	for _, sa := range r.SegAcks {
		var des [][]byte
		for _, a := range sa.Acks {
			des = append(des, a.Wire())
		}
		acks = append(acks, S("HIRMS", 2, sa.Ref, des...))
	}
	if r.AcksLast {
		segs = append(append(segs, r.Segs...), acks...)
	} else {
		segs = append(append(segs, acks...), r.Segs...)
	}
	pos := 1
	if r.Encrypted {
		pos = 2
	}
	var inner []byte
	for _, s := range segs {
		if r.Encrypted || pos == 1 {
			if pos == 1 {
				pos = 2
			}
		}
		if s.Lit != nil {
			inner = append(inner, s.Lit...)
		} else {
			inner = append(inner, wire.Seg(s.ID, pos, s.Ver, s.Ref, s.DEs...)...)
		}
		pos++
	}
	var middle []byte
	if r.Encrypted {
		hver := 2
		profile := [][]byte{}
		if bank.Version == 300 {
			hver = 3
			profile = append(profile, wire.Raw("PIN:1"))
		}
		des := append(profile, wire.I(998), wire.I(1), wire.G(wire.I(2), nil, wire.T(bank.SystemID)), wire.Raw("1:20261119:101112"),
			wire.G(wire.I(2), wire.I(2), wire.I(13), wire.Bin(make([]byte, 8)), wire.I(5), wire.I(1)),
			wire.G(wire.I(280), wire.T(bank.BankID), wire.T(bank.UserID), wire.Raw("V"), wire.I(0), wire.I(0)), wire.I(0))
		middle = append(wire.Seg("HNVSK", 998, hver, 0, des...), wire.Seg("HNVSD", 999, 1, 0, wire.Bin(inner))...)
	} else {
		middle = inner
	}
	tail := wire.Seg("HNHBS", pos, 1, 0, wire.I(r.Number))
	head := func(size int) []byte {
		return wire.Seg("HNHBK", 1, 3, 0, wire.Raw(fmt.Sprintf("%012d", size)), wire.I(r.Version), wire.T(r.Dialog), wire.I(r.Number), wire.G(wire.T(req.DialogID), wire.I(req.Number)))
	}
	size := len(head(0)) + len(middle) + len(tail)
	return append(append(head(size), middle...), tail...)
}

// Bank is the simulated bank, for one client.
type Bank struct {
	Version  int
	BankID   string
	UserID   string // login the client is configured with
	ClientID string // user id of the UPD, once sent
	PIN      string
	URL      string
	Product  string
	ProdVer  string
	Language string
	SystemID string // the one assigned last
	// SystemIDs and ClientIDs are what the client may state now.
	SystemIDs, ClientIDs map[string]bool
	// PINMark is a part of the PIN that occurs nowhere else.
	PINMark string
	// OldMarks are those of earlier PINs.
	OldMarks []string
	// AnyProduct leaves the name and version of the product open.
	AnyProduct bool
	// AnyJobs accepts messages of several jobs.
	AnyJobs bool
	NewID   func(n int) string
	Encrypt func(req *Request) bool
	// Params are the bank and user parameter segments sent in answer to a
	// synchronisation or initialisation.
	Params func(req *Request) []Seg
	// Jobs answer the job segments by ID.
	Jobs map[string]func(req *Request, job wire.Segment, r *Resp)
	// Alter changes the answer, as the last step.
	Alter func(req *Request, r *Resp)
	// DialogIDs names dialogs.
	DialogIDs func(n int) string
	// SecFn is the set of security functions the client may state now (nil: any).
	SecFn map[string]bool
	// Chunk makes the body arrive in pieces of this size.
	Chunk int
	// OnRequest is called without the lock for delays.
	OnRequest func(req *Request)

	mu       sync.Mutex
	Requests []*Request
	problems map[string][]string
	dialogs  int
	systems  int
	cur      *dialogState
	opStart  int
	open     []*dialogState
}

type dialogState struct {
	id       string
	kind     string
	opener   *Request
	accepted string // accepted, rejected, unknown
	next     int
	ended    int
	jobs     []string
	systemID string
	pinOK    bool
}

// New returns a bank.
func New(version int, bankID, userID, pin, url string) *Bank {
	return &Bank{Version: version, BankID: bankID, UserID: userID, ClientID: userID, PIN: pin, URL: url, SystemID: "0",
		SystemIDs: map[string]bool{"0": true}, ClientIDs: map[string]bool{userID: true},
		Product: "product", ProdVer: "1.0", Language: "1", Jobs: map[string]func(*Request, wire.Segment, *Resp){}, problems: map[string][]string{}}
}

// Problem records a finding of a monitor.
func (b *Bank) Problem(cat, format string, args ...interface{}) {
	if len(b.problems[cat]) < 20 {
		b.problems[cat] = append(b.problems[cat], fmt.Sprintf(format, args...))
	}
}

// Problems returns what the monitors of the category found so far.
func (b *Bank) Problems(cat string) []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]string{}, b.problems[cat]...)
}

// Trace is a readable trace of the requests since the operation began.
func (b *Bank) Trace() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var sb strings.Builder
	for _, r := range b.Requests[b.opStart:] {
		fmt.Fprintf(&sb, "%d:%s dialog %q number %d %s", r.Index, r.Kind, r.DialogID, r.Number, r.JobSeg.ID)
		if r.Resp != nil {
			fmt.Fprintf(&sb, " -> %s", r.Status)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// Shape is the trace without the assigned values, for counting histories.
func (b *Bank) Shape() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var sb strings.Builder
	for _, r := range b.Requests[b.opStart:] {
		fmt.Fprintf(&sb, "%s%s>%s ", r.Kind, r.JobSeg.ID, r.Status)
	}
	return sb.String()
}

type chunkReader struct {
	b     []byte
	n     int
	err   error
	after int
	read  int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.err != nil && c.read >= c.after {
		return 0, c.err
	}
	if len(c.b) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if c.n > 0 && n > c.n {
		n = c.n
	}
	if c.err != nil && n > c.after-c.read {
		n = c.after - c.read
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	c.read += n
	return n, nil
}

// Do implements transport.Transport.
func (b *Bank) Do(treq *transport.Request) (*transport.Response, error) {
	body, err := io.ReadAll(treq.Body)
	b.mu.Lock()
	req := &Request{Index: len(b.Requests), URL: treq.URL, Body: body}
	b.Requests = append(b.Requests, req)
	if err != nil {
		b.Problem("form", "reading the request body failed: %v", err)
	}
	b.parse(req)
	b.mu.Unlock()
	if b.OnRequest != nil {
		b.OnRequest(req)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.checkSecurity(req)
	d := b.enterDialog(req)
	r := b.answer(req, d)
	req.Resp = r
	switch {
	case r.Err != nil || r.ReadErr != nil || r.Undecodable || r.Wire != nil || r.Body != nil:
		req.Status = "unknown"
	case r.Rejected():
		req.Status = "rejected"
	default:
		req.Status = "accepted"
	}
	if d != nil && d.opener == req {
		d.accepted = req.Status
		d.id = r.Dialog
		b.learn(req, r)
	}
	if r.Err != nil {
		return nil, r.Err
	}
	out := r.Wire
	if out == nil {
		r.Sent = r.Message(req, b)
		out = []byte(base64.StdEncoding.EncodeToString(r.Sent))
	}
	r.SentText = out
	return &transport.Response{Body: io.NopCloser(&chunkReader{b: out, n: b.Chunk, err: r.ReadErr, after: r.ReadN}), Request: treq}, nil
}

// enterDialog runs the dialog automaton.
func (b *Bank) enterDialog(req *Request) *dialogState {
	switch req.Kind {
	case Sync, Init, AnonInit:
		if req.DialogID != "0" {
			b.Problem("protocol", "request %d (%s) opens a dialog with dialog ID %q instead of 0", req.Index, req.Kind, req.DialogID)
		}
		if req.Number != 1 {
			b.Problem("protocol", "request %d (%s) opens a dialog with message number %d instead of 1", req.Index, req.Kind, req.Number)
		}
		if b.cur != nil && b.cur.accepted == "accepted" && b.cur.ended == 0 {
			b.Problem("protocol", "request %d (%s) opens a dialog while dialog %q is still open", req.Index, req.Kind, b.cur.id)
		}
		b.cur = &dialogState{kind: req.Kind, opener: req, next: 2}
		b.open = append(b.open, b.cur)
		return b.cur
	case Job, End, AnonJob, AnonEnd:
		d := b.cur
		if d == nil {
			b.Problem("protocol", "request %d (%s) outside of any dialog", req.Index, req.Kind)
			return nil
		}
		if strings.HasPrefix(req.Kind, "anon") != (d.kind == AnonInit) {
			b.Problem("protocol", "request %d (%s) in a dialog opened by %s", req.Index, req.Kind, d.kind)
		}
		if req.DialogID != d.id {
			b.Problem("protocol", "request %d (%s) carries dialog ID %q, the bank assigned %q", req.Index, req.Kind, req.DialogID, d.id)
		}
		if req.Number != d.next {
			b.Problem("protocol", "request %d (%s) has message number %d, want %d", req.Index, req.Kind, req.Number, d.next)
		}
		d.next = req.Number + 1
		if d.ended > 0 {
			b.Problem("protocol", "request %d (%s) after the end of its dialog", req.Index, req.Kind)
		}
		if req.Kind == End || req.Kind == AnonEnd {
			d.ended++
			if s, ok := req.Find("HKEND"); !ok || s.Str(0, 0) != req.DialogID || len(s.DEs) != 1 {
				b.Problem("protocol", "request %d ends dialog %q, its header says %q", req.Index, s.Str(0, 0), req.DialogID)
			}
			return d
		}
		if d.kind == Sync {
			b.Problem("protocol", "request %d sends a job in a synchronisation dialog", req.Index)
		}
		if d.accepted != "accepted" {
			b.Problem("protocol", "request %d sends a job though the dialog was %s", req.Index, d.accepted)
		}
		if len(d.jobs) > 0 {
			b.Problem("protocol", "request %d sends a second job in its dialog", req.Index)
		}
		// Within one operation the very same job must not be sent again.
		content := jobContent(req.JobSeg)
		for _, o := range b.open {
			for _, j := range o.jobs {
				if j == content {
					b.Problem("protocol", "request %d repeats the job %q", req.Index, content)
				}
			}
		}
		d.jobs = append(d.jobs, content)
		return d
	}
	return nil
}

func jobContent(s wire.Segment) string {
	i := bytes.IndexByte(s.Raw, '+')
	if i < 0 {
		i = 0
	}
	return fmt.Sprintf("%s:%d%s", s.ID, s.Ver, s.Raw[i:])
}

// BeginOp starts the observation of one operation.
func (b *Bank) BeginOp() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.opStart = len(b.Requests)
	b.open = nil
	b.cur = nil
}

// EndOp checks what must hold once the operation has returned, and returns
// the requests of the operation.
func (b *Bank) EndOp() []*Request {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, d := range b.open {
		switch {
		case d.ended > 1:
			b.Problem("protocol", "dialog %q was ended %d times", d.id, d.ended)
		case d.accepted == "accepted" && d.ended == 0:
			b.Problem("protocol", "dialog %q (%s), accepted by the bank, was not ended by its operation", d.id, d.kind)
		}
	}
	return append([]*Request{}, b.Requests[b.opStart:]...)
}

// Dialogs is the number of dialogs opened by the operation.
func (b *Bank) Dialogs() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.open) }

func (b *Bank) answer(req *Request, d *dialogState) *Resp {
	r := &Resp{Version: b.Version, Number: req.Number, Dialog: req.DialogID}
	if b.Encrypt != nil {
		r.Encrypted = b.Encrypt(req)
	}
	ok := Ack{Code: 10, Text: "Nachricht entgegengenommen."}
	switch req.Kind {
	case Broken:
		r.MsgAcks = []Ack{{Code: 9010, Text: "Verarbeitung nicht möglich"}}
	case Sync, Init, AnonInit:
		b.dialogs++
		r.Dialog = fmt.Sprintf("dlg%d", b.dialogs)
		if b.DialogIDs != nil {
			r.Dialog = b.DialogIDs(b.dialogs)
		}
		r.MsgAcks = []Ack{ok}
		hkvvb := 0
		for _, s := range req.Inner {
			if s.ID == "HKVVB" {
				hkvvb = s.Pos
			}
		}
		r.SegAcks = []SegAck{{Ref: hkvvb, Acks: []Ack{{Code: 20, Text: "Auftrag ausgeführt."}}}}
		if b.Params != nil {
			r.Segs = append(r.Segs, b.Params(req)...)
		}
		if req.Kind == Sync {
			b.systems++
			id := fmt.Sprintf("sys%d", b.systems)
			if b.NewID != nil {
				id = b.NewID(b.systems)
			}
			ver := 3
			if b.Version == 300 {
				ver = 4
			}
			r.Segs = append(r.Segs, S("HISYN", ver, 0, wire.T(id)))
		}
	case Job, AnonJob:
		r.MsgAcks = []Ack{ok}
		if h := b.Jobs[req.JobSeg.ID]; h != nil {
			h(req, req.JobSeg, r)
		} else {
			r.MsgAcks = []Ack{{Code: 9050, Text: "Teilweise fehlerhaft"}}
			r.SegAcks = []SegAck{{Ref: req.JobSeg.Pos, Acks: []Ack{{Code: 9160, Text: "Auftrag unbekannt"}}}}
		}
	case End, AnonEnd:
		r.MsgAcks = []Ack{{Code: 100, Text: "Dialog beendet."}}
	}
	if b.Alter != nil {
		b.Alter(req, r)
	}
	return r
}

// learn follows what the client must know after the answer.
func (b *Bank) learn(req *Request, r *Resp) {
	if r.Err != nil || req.Status == "rejected" {
		return
	}
	sure := req.Status == "accepted" && !r.Uncertain
	take := func(set *map[string]bool, v string) {
		if sure {
			*set = map[string]bool{v: true}
			return
		}
		m := map[string]bool{v: true}
		for k := range *set {
			m[k] = true
		}
		*set = m
	}
	if id, ok := Assigned(r); ok && req.Kind == Sync && id != "" {
		take(&b.SystemIDs, id)
		if sure {
			b.SystemID = id
		}
	}
	for _, s := range r.Segs {
		if s.ID == "HIUPA" && len(s.DEs) > 0 {
			id := unesc(s.DEs[0])
			take(&b.ClientIDs, id)
			if sure {
				b.ClientID = id
			}
		}
	}
}

// Assigned is the client system ID a synchronisation answer assigned, if any.
func Assigned(r *Resp) (string, bool) {
	for _, s := range r.Segs {
		if s.ID == "HISYN" && len(s.DEs) > 0 && len(s.DEs[0]) > 0 {
			return unesc(s.DEs[0]), true
		}
	}
	return "", false
}

func unesc(b []byte) string {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] == '?' && i+1 < len(b) {
			i++
		}
		out = append(out, b[i])
	}
	return wire.UTF8(out)
}

func crcHex(parts ...string) string {
	return fmt.Sprintf("%x", crc32.ChecksumIEEE([]byte(strings.Join(parts, ""))))
}
