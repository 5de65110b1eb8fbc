//go:build p16 || all

package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	middleware "github.com/mitch000001/go-hbci/transport/middleware"
	"golang.org/x/text/encoding/charmap"

	"verif/harness/simbank"
	"verif/harness/vt"
)

func init() {
	register(&property{
		id:   "P16",
		rule: "a case is a message sent over HTTP, through a chain of middleware, or by a client; distinct states are the way it takes, its size, how it is split and the fault",
		fn:   runP16,
		assumptions: []string{
			"Base64 may contain line breaks; whether Base64 with padding in the middle is read on or an error is left open",
			"the body of an answer that is not 200 OK is handed on as it is by the transport",
		},
	})
}

// ---- an HTTP server that answers as scripted

type httpScript struct {
	status  int
	body    []byte
	chunks  []int // how the body is split into writes; nil: with a content length
	cut     int   // close the connection after that many bytes of the body; -1: no
	early   bool  // close without an answer
	closing bool  // Connection: close
}

type httpSeen struct {
	method, path string
	body         []byte
	err          error
}

type httpBank struct {
	*httptest.Server
	mu     sync.Mutex
	script httpScript
	seen   []httpSeen
	// handler instead of the script
	handle func(body []byte) httpScript
	active map[net.Conn]bool
}

func newHTTPBank() *httpBank {
	h := &httpBank{active: map[net.Conn]bool{}}
	h.Server = httptest.NewUnstartedServer(h)
	h.Server.Config.ErrorLog = log.New(io.Discard, "", 0)
	h.Server.Config.ConnState = func(c net.Conn, s http.ConnState) {
		h.mu.Lock()
		defer h.mu.Unlock()
		if s == http.StateClosed || s == http.StateHijacked {
			delete(h.active, c)
		} else {
			h.active[c] = true
		}
	}
	h.Server.Start()
	return h
}

func (h *httpBank) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	h.mu.Lock()
	h.seen = append(h.seen, httpSeen{r.Method, r.URL.RequestURI(), body, err})
	s := h.script
	if h.handle != nil {
		s = h.handle(body)
	}
	h.mu.Unlock()
	abort := func() { panic(http.ErrAbortHandler) }
	if s.early {
		abort()
	}
	if s.closing {
		w.Header().Set("Connection", "close")
	}
	if s.chunks == nil {
		w.Header().Set("Content-Length", fmt.Sprint(len(s.body)))
	}
	w.WriteHeader(s.status)
	rest := s.body
	if s.cut >= 0 {
		rest = rest[:s.cut]
	}
	for i := 0; len(rest) > 0; i++ {
		n := len(rest)
		if s.chunks != nil && s.chunks[i%len(s.chunks)] < n {
			n = s.chunks[i%len(s.chunks)]
		}
		w.Write(rest[:n])
		rest = rest[n:]
		if i < 50 {
			w.(http.Flusher).Flush()
		}
	}
	if s.cut >= 0 {
		abort()
	}
}

func (h *httpBank) activeConns() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.active)
}

// ---- readers

// pieces hands the bytes out in random pieces, then the error.
type pieces struct {
	rng    *rand.Rand
	b      []byte
	err    error
	mode   int // 0 all that fits, 1 single bytes, 2 random, 3 the error together with the last bytes
	closed *int
}

func (p *pieces) Read(out []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.err
	}
	n := len(out)
	switch {
	case n == 0:
		return 0, nil
	case p.mode == 1 && len(p.b) < 1<<18:
		n = 1
	case p.mode == 2:
		n = p.rng.Intn(n + 1)
	}
	n = copy(out[:n], p.b)
	p.b = p.b[n:]
	if p.mode == 3 && len(p.b) == 0 {
		return n, p.err
	}
	return n, nil
}

func (p *pieces) Close() error {
	if p.closed != nil {
		*p.closed++
	}
	return nil
}

// msgBytes is a message or any bytes, of sizes around the limits of buffers.
func msgBytes(rng *rand.Rand) []byte {
	var n int
	switch rng.Intn(8) {
	case 0:
		n = rng.Intn(8)
	case 1:
		n = []int{510, 512, 766, 768, 1022, 1024, 1536, 4095, 4096, 4097, 32767, 32768, 65536}[rng.Intn(13)] + rng.Intn(3) - 1
	case 2:
		n = rng.Intn(200000)
	default:
		n = rng.Intn(3000)
	}
	b := make([]byte, n)
	switch rng.Intn(3) {
	case 0:
		rng.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(32 + rng.Intn(95))
		}
	default:
		b = b[:0]
		for len(b) < n {
			b = append(b, genText1(rng, 12)...)
			b = append(b, "+:'?@"[rng.Intn(5)])
		}
	}
	return b
}

// malformed64 is no Base64.
func malformed64(rng *rand.Rand, s string) (string, string) {
	switch {
	case len(s) == 0 || rng.Intn(4) == 0:
		i := rng.Intn(len(s) + 1)
		return s[:i] + string("!'+-_%\x00\xe4"[4:][rng.Intn(4)]) + s[i:], "insert"
	case rng.Intn(3) == 0:
		return s[:max(0, len(s)-1-rng.Intn(3))], "truncate"
	case rng.Intn(3) == 0:
		return s + string("ABCDE"[:1+rng.Intn(3)]), "append"
	default:
		i := rng.Intn(len(s))
		return s[:i] + string("!' .,-_%\x00\x7f"[rng.Intn(10)]) + s[i+1:], "replace"
	}
}

func wrap64(rng *rand.Rand, s string) string {
	var b strings.Builder
	nl := []string{"\n", "\r\n"}[rng.Intn(2)]
	w := []int{64, 76, 1, 5}[rng.Intn(4)]
	for len(s) > w {
		b.WriteString(s[:w] + nl)
		s = s[w:]
	}
	b.WriteString(s)
	if rng.Intn(2) == 0 {
		b.WriteString(nl)
	}
	return b.String()
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 16:
		return "tiny"
	case n < 1024:
		return "small"
	case n < 32768:
		return "medium"
	}
	return "large"
}

func diffAt(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	cut := func(x []byte) []byte {
		x = x[n:]
		if len(x) > 40 {
			x = x[:40]
		}
		return x
	}
	return fmt.Sprintf("%d and %d bytes, the same up to %d, then %q and %q", len(a), len(b), n, cut(a), cut(b))
}

func runP16(r *vt.Run) {
	h := newHTTPBank()
	defer h.Close()
	r.Require("http_exchanges", r.N(2000, 10000))
	r.Require("http_faults", r.N(400, 2000))
	r.Require("http_status with Base64", r.N(40, 200))
	r.Require("chains", r.N(8000, 100000))
	r.Require("chain_faults", r.N(1000, 10000))
	r.Require("client_operations", r.N(200, 1000))
	r.Require("bodies_closed", r.N(600, 3000))
	for i := 0; i < r.N(6000, 60000); i++ {
		r.Case(fmt.Sprintf("http/%d", i), func(c *vt.C) { httpCase(c, h) })
	}
	for i := 0; i < r.N(18000, 300000); i++ {
		r.Case(fmt.Sprintf("chain/%d", i), chainCase)
	}
	for i := 0; i < r.N(3000, 40000); i++ {
		r.Case(fmt.Sprintf("response/%d", i), responseCase)
	}
	for i := 0; i < r.N(600, 5000); i++ {
		r.Case(fmt.Sprintf("client/%d", i), func(c *vt.C) { clientHTTPCase(c, h) })
	}
	for i := 0; i < r.N(800, 8000); i++ {
		r.Case(fmt.Sprintf("close/%d", i), closeCase)
	}
}

// httpCase sends one message over HTTP.
func httpCase(c *vt.C, h *httpBank) {
	rng := c.Rng
	msg, answer := msgBytes(rng), msgBytes(rng)
	if rng.Intn(120) == 0 { // more than any limit one would set
		big := make([]byte, 1<<(20+rng.Intn(4))+rng.Intn(100))
		rng.Read(big)
		if rng.Intn(3) == 0 {
			msg = big
		} else {
			answer = big
		}
		c.Count("http_exchanges of megabytes", 1)
	}
	way := []string{"plain", "nondefault", "base64", "middleware"}[rng.Intn(4)]
	b64 := way == "base64" || way == "middleware"
	s := httpScript{status: 200, cut: -1, closing: rng.Intn(6) == 0}
	switch rng.Intn(3) {
	case 0:
		for i := 0; i <= rng.Intn(4); i++ {
			s.chunks = append(s.chunks, 1+rng.Intn(2000))
		}
	case 1:
		s.chunks = []int{1 + rng.Intn(5)}
	}
	s.body = answer
	if b64 {
		s.body = []byte(base64.StdEncoding.EncodeToString(answer))
		if rng.Intn(4) == 0 {
			s.body = []byte(wrap64(rng, string(s.body)))
		}
	}
	fault := "none"
	switch rng.Intn(8) {
	case 0:
		fault = "early"
		s.early = true
	case 1:
		if len(s.body) > 0 {
			fault = "cut"
			s.cut = rng.Intn(len(s.body))
			if s.cut > 0 && rng.Intn(2) == 0 {
				s.cut = s.cut / 4 * 4 // at the border of a Base64 quantum
			}
		}
	case 2:
		if b64 {
			bad, how := malformed64(rng, string(s.body))
			s.body = []byte(bad)
			if plain, ok := dec64(stdAlphabet, true)(s.body); ok {
				answer = plain // only a line break changed
			} else {
				fault = "malformed-" + how
			}
		}
	case 3:
		if rng.Intn(3) == 0 {
			s.status = []int{400, 401, 404, 429, 500, 502, 503, 201, 202, 203, 206, 226}[rng.Intn(12)]
			s.body = []byte("<html>Wartungsarbeiten: +'@</html>")
			fault = "status"
			if way != "middleware" && rng.Intn(2) == 0 {
				// A text that could be read as Base64.
				s.body = []byte([]string{"Wartung1", "gesperrt", "503\nabcde", base64.StdEncoding.EncodeToString(answer)}[rng.Intn(4)])
				c.Count("http_status with Base64", 1)
			}
		}
	}
	for i := range s.chunks {
		if least := len(s.body) / 2000; len(s.body) > 1<<20 && s.chunks[i] < least {
			s.chunks[i] = least
		}
	}
	path := "/" + genWord(rng, 8)
	if rng.Intn(2) == 0 {
		path += "?" + genWord(rng, 5) + "=%2B"
	}
	h.mu.Lock()
	h.script, h.seen, h.handle = s, nil, nil
	h.mu.Unlock()
	var t transport.Transport
	switch way {
	case "plain":
		t = https.New()
	case "nondefault":
		t = https.NewNonDefault(&http.Client{Timeout: 5 * time.Minute})
	case "base64":
		t = https.NewBase64()
	default:
		t = middleware.Base64Encoding(base64.StdEncoding)(https.New())
	}
	req := &transport.Request{URL: h.URL + path, Body: &pieces{rng: rng, b: append([]byte(nil), msg...), err: io.EOF, mode: rng.Intn(4)}}
	resp, err := t.Do(req)
	var got []byte
	var readErr error
	if err == nil {
		got, readErr = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	h.mu.Lock()
	seen := h.seen
	h.mu.Unlock()
	c.Count("http_exchanges", 1)
	if fault != "none" {
		c.Count("http_faults", 1)
	}
	c.State("http %s %s %s %v %v %s", way, sizeClass(len(msg)), sizeClass(len(answer)), s.chunks != nil, s.closing, fault)
	want := msg
	if b64 {
		want = []byte(base64.StdEncoding.EncodeToString(msg))
	}
	if len(seen) != 1 && !(fault == "early" && len(seen) > 0) {
		c.Fail("http-count", "%s, %s: the bank received %d requests (error %v)", way, fault, len(seen), err)
	}
	for _, q := range seen {
		if q.method != "POST" || q.path != path {
			c.Fail("http-url", "%s: %s %s instead of POST %s", way, q.method, q.path, path)
		}
		if q.err != nil || !bytes.Equal(q.body, want) {
			c.Fail("http-request", "%s: the bank read (error %v) other bytes than sent: %s", way, q.err, diffAt(q.body, want))
		}
	}
	switch fault {
	case "none":
		if err != nil || readErr != nil {
			c.Fail("http-error", "%s: the exchange failed: %v, %v", way, err, readErr)
		} else if !bytes.Equal(got, answer) {
			c.Fail("http-response", "%s: other bytes read than the bank sent: %s", way, diffAt(got, answer))
		}
	case "status":
		if way != "middleware" && (err != nil || readErr != nil || !bytes.Equal(got, s.body)) && !(err != nil || readErr != nil) {
			c.Fail("http-status", "%s, status %d: %q instead of the body %q", way, s.status, got, s.body)
		}
		if way == "middleware" && err == nil && readErr == nil {
			c.Fail("http-status", "%s, status %d: the page %q was read as Base64: %q", way, s.status, s.body, got)
		}
	default:
		if err == nil && readErr == nil {
			c.Fail("http-fault", "%s, %s: no error, %d bytes read of an answer of %d", way, fault, len(got), len(answer))
		}
		if fault == "cut" && len(got) > 0 && !bytes.HasPrefix(answer, got) {
			c.Fail("http-response", "%s, cut: bytes read the bank did not send: %s", way, diffAt(got, answer))
		}
	}
}

// ---- chains of middleware over a transport in memory

type link struct {
	name string
	mw   transport.Middleware
	enc  func([]byte) ([]byte, bool)
	dec  func([]byte) ([]byte, bool)
}

func latin1Bytes(b []byte) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(b); {
		switch {
		case b[i] < 0x80:
			out = append(out, b[i])
			i++
		case (b[i] == 0xc2 || b[i] == 0xc3) && i+1 < len(b) && b[i+1]&0xc0 == 0x80:
			out = append(out, b[i]<<6|b[i+1]&0x3f)
			i += 2
		default:
			return nil, false
		}
	}
	return out, true
}

func utf8Bytes(b []byte) ([]byte, bool) {
	var out []byte
	for _, x := range b {
		if x < 0x80 {
			out = append(out, x)
		} else {
			out = append(out, 0xc0|x>>6, 0x80|x&0x3f)
		}
	}
	return out, true
}

const (
	stdAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	urlAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
)

// enc64 is Base64 written down from its definition.
func enc64(alphabet string, pad bool) func([]byte) ([]byte, bool) {
	return func(b []byte) ([]byte, bool) {
		var out []byte
		for len(b) > 0 {
			n := len(b)
			if n > 3 {
				n = 3
			}
			v := 0
			for i := 0; i < 3; i++ {
				v <<= 8
				if i < n {
					v |= int(b[i])
				}
			}
			for i := 0; i <= n; i++ {
				out = append(out, alphabet[v>>(18-6*i)&63])
			}
			for i := n; i < 3 && pad; i++ {
				out = append(out, '=')
			}
			b = b[n:]
		}
		return out, true
	}
}

func dec64(alphabet string, pad bool) func([]byte) ([]byte, bool) {
	return func(b []byte) ([]byte, bool) {
		var clean []byte
		for _, x := range b {
			if x != '\n' && x != '\r' {
				clean = append(clean, x)
			}
		}
		if pad {
			if len(clean)%4 != 0 {
				return nil, false
			}
			for i := 0; i < 2 && len(clean) > 0 && clean[len(clean)-1] == '='; i++ {
				clean = clean[:len(clean)-1]
			}
		}
		if len(clean)%4 == 1 {
			return nil, false
		}
		var out []byte
		v, bits := 0, 0
		for _, x := range clean {
			d := strings.IndexByte(alphabet, x)
			if d < 0 {
				return nil, false
			}
			v = v<<6 | d
			bits += 6
			if bits >= 8 {
				bits -= 8
				out = append(out, byte(v>>bits))
				v &= 1<<bits - 1
			}
		}
		return out, true
	}
}

func genLink(rng *rand.Rand, logs *bytes.Buffer) link {
	b64 := func(name string, e *base64.Encoding, alphabet string, pad bool) link {
		return link{name, middleware.Base64Encoding(e), enc64(alphabet, pad), dec64(alphabet, pad)}
	}
	same := func(b []byte) ([]byte, bool) { return b, true }
	switch rng.Intn(8) {
	case 0, 1, 2:
		return b64("std", base64.StdEncoding, stdAlphabet, true)
	case 3:
		return b64("url", base64.URLEncoding, urlAlphabet, true)
	case 4:
		return b64("raw", base64.RawStdEncoding, stdAlphabet, false)
	case 5, 6:
		return link{"latin1", middleware.UTF8Encoding(charmap.ISO8859_1), latin1Bytes, utf8Bytes}
	default:
		key := domain.NewPinKey("12345", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "1"}, "u", "V"))
		var lg *log.Logger
		if rng.Intn(3) > 0 {
			lg = log.New(logs, "", 0)
		}
		return link{"log", middleware.Logging(lg, message.NewPinTanCryptoProvider(key, "0")), same, same}
	}
}

var errSentinel = errors.New("the line is dead")

func chainCase(c *vt.C) {
	rng := c.Rng
	var logs bytes.Buffer
	var links []link
	var names []string
	for i := 0; i <= rng.Intn(4); i++ {
		l := genLink(rng, &logs)
		links = append(links, l)
		names = append(names, l.name)
	}
	chain := strings.Join(names, ">")
	msg := msgBytes(rng)
	if rng.Intn(5) > 0 || len(links) > 2 {
		msg = msg[:rng.Intn(1+min(len(msg), 4000))]
	}
	if rng.Intn(4) > 0 { // text that Latin 1 can hold
		msg, _ = utf8Bytes(msg)
		if rng.Intn(10) == 0 && len(msg) > 0 {
			msg = msg[:len(msg)-1]
		}
	}
	// what the bank has to see
	want, ok := append([]byte(nil), msg...), true
	for _, l := range links {
		if ok {
			want, ok = l.enc(want)
		}
	}
	// the answer of the bank and what has to be read
	plain := msgBytes(rng)
	plain = plain[:rng.Intn(1+min(len(plain), 4000))]
	answer := append([]byte(nil), plain...)
	for _, l := range links {
		if l.name == "latin1" {
			if b, good := latin1Bytes(answer); good {
				answer = b
			}
			continue
		}
		answer, _ = l.enc(answer)
	}
	fault := "none"
	innerErr, readErr, reqErr := error(nil), io.EOF, io.EOF
	badText := false
	switch rng.Intn(8) {
	case 0:
		fault, innerErr = "transport", errSentinel
	case 1:
		fault, readErr = "reading", errSentinel
		answer = answer[:rng.Intn(len(answer)+1)]
	case 2:
		fault, reqErr = "request", errSentinel
	case 3:
		b, how := malformed64(rng, string(answer))
		answer, fault, badText = []byte(b), "malformed-"+how, true
	}
	result, resultOK := append([]byte(nil), answer...), true
	for i := len(links) - 1; i >= 0; i-- {
		if resultOK {
			result, resultOK = links[i].dec(result)
		}
	}
	if !badText && readErr == io.EOF && !resultOK {
		panic("the model can not read its own answer")
	}
	calls := 0
	var seen []byte
	var seenErr error
	var seenURL string
	closed := 0
	var t transport.Transport = transport.Func(func(q *transport.Request) (*transport.Response, error) {
		calls++
		seenURL = q.URL
		seen, seenErr = io.ReadAll(q.Body)
		if innerErr != nil {
			return nil, innerErr
		}
		return &transport.Response{Request: q, Body: &pieces{rng: rng, b: append([]byte(nil), answer...), err: readErr, mode: rng.Intn(4), closed: &closed}}, nil
	})
	for i := len(links) - 1; i >= 0; i-- {
		t = links[i].mw(t)
	}
	req := &transport.Request{URL: "https://bank.example/" + genWord(rng, 5), Body: &pieces{rng: rng, b: append([]byte(nil), msg...), err: reqErr, mode: rng.Intn(4)}}
	url := req.URL
	resp, err := t.Do(req)
	var got []byte
	var rerr error
	if err == nil {
		got, rerr = io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	c.Count("chains", 1)
	if fault != "none" {
		c.Count("chain_faults", 1)
	}
	c.State("chain %s %s %s %v", chain, sizeClass(len(msg)), fault, ok)
	if fault == "request" {
		if calls > 0 && seenErr == nil {
			c.Fail("request-error", "%s: a request that can not be read was sent on: %q", chain, b2s(seen))
		}
		if calls == 0 && ok && !errors.Is(err, errSentinel) {
			c.Fail("request-error", "%s: error reading the request: %v instead of %v", chain, err, errSentinel)
		}
		if err == nil && calls == 0 {
			c.Fail("request-error", "%s: no error for a request that can not be read", chain)
		}
		return
	}
	if !ok {
		if err == nil || calls > 0 {
			c.Fail("unencodable", "%s: the message %q can not be encoded, but %d times sent (error %v): %q", chain, b2s(msg), calls, err, b2s(seen))
		}
		c.Count("unencodable", 1)
		return
	}
	if calls != 1 || seenErr != nil || seenURL != url {
		c.Fail("request-count", "%s: transport called %d times with %s (reading: %v), Do: %v", chain, calls, seenURL, seenErr, err)
		return
	}
	if !bytes.Equal(seen, want) {
		c.Fail("request", "%s: the transport got other bytes: %s", chain, diffAt(seen, want))
	}
	switch fault {
	case "transport":
		if err != errSentinel {
			c.Fail("transport-error", "%s: error %v instead of %v", chain, err, errSentinel)
		}
		return
	case "reading":
		e := err
		if e == nil {
			e = rerr
		}
		if !errors.Is(e, errSentinel) && resultOK {
			c.Fail("reading-error", "%s: error %v instead of %v", chain, e, errSentinel)
		}
		if e == nil {
			c.Fail("reading-error", "%s: no error for an answer that can not be read", chain)
		}
	default:
		e := err
		if e == nil {
			e = rerr
		}
		switch {
		case resultOK && e != nil:
			c.Fail("response-error", "%s, %s: error %v reading %q", chain, fault, e, b2s(answer))
		case resultOK && !bytes.Equal(got, result):
			c.Fail("response", "%s, %s: other bytes read: %s", chain, fault, diffAt(got, result))
		case !resultOK && e == nil && !paddedTwice(links, answer):
			c.Fail("malformed", "%s, %s: malformed answer %q read without error as %q", chain, fault, b2s(answer), b2s(got))
		}
		if resultOK && rng.Intn(4) > 0 && resp != nil && resp.Request == nil {
			c.Fail("response", "%s: the response lost its request", chain)
		}
	}
	if closed == 0 {
		c.Fail("close", "%s, %s: the body of the transport's response is not closed", chain, fault)
	} else {
		c.Count("bodies_closed", 1)
	}
}

// paddedTwice tells whether some layer may see padding before the end.
func paddedTwice(links []link, answer []byte) bool {
	b := bytes.TrimRight(answer, "=\r\n")
	return bytes.IndexByte(b, '=') >= 0 && len(links) > 0
}

// responseCase reads a message as the dialog does.
func responseCase(c *vt.C) {
	rng := c.Rng
	b := corpusMessage(rng)
	fail := rng.Intn(4) == 0
	in := &pieces{rng: rng, b: append([]byte(nil), b...), err: io.EOF, mode: rng.Intn(4)}
	if fail {
		in.b = in.b[:rng.Intn(len(in.b)+1)]
		in.err = errSentinel
	}
	q := &transport.Request{URL: "x"}
	resp, err := transport.ReadResponse(bufio.NewReaderSize(in, 16+rng.Intn(5000)), q)
	c.Count("responses_read", 1)
	c.State("response %s %v", sizeClass(len(b)), fail)
	if fail {
		if !errors.Is(err, errSentinel) {
			c.Fail("response-read", "error %v instead of %v", err, errSentinel)
		}
		return
	}
	if err != nil {
		c.Fail("response-read", "%q: %v", b2s(b), err)
		return
	}
	if !bytes.Equal(resp.MarshaledResponse, b) {
		c.Fail("response-read", "other bytes: %s", diffAt(resp.MarshaledResponse, b))
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil || !bytes.Equal(body, b) {
		c.Fail("response-read", "body (error %v): %s", err, diffAt(body, b))
	}
	if resp.Request != q {
		c.Fail("response-read", "the request is another one")
	}
	if enc := bytes.HasPrefix(b, []byte("HNHBK")) && bytes.Contains(b, []byte("'HNVSK:998:")); resp.IsEncrypted() != enc {
		c.Fail("response-encrypted", "encrypted: %v, %q", resp.IsEncrypted(), b2s(b))
	}
}

// corpusMessage is an answer of a bank.
func corpusMessage(rng *rand.Rand) []byte {
	e := newBank(rng, envOpts{hostile: true})
	req := &simbank.Request{Kind: simbank.Init, Number: 1, DialogID: "0"}
	resp := &simbank.Resp{Dialog: "d1", Number: 1, Version: e.version, MsgAcks: []simbank.Ack{{Code: 20, Text: genText(rng, 20)}}, Segs: e.params(simbank.Init), Encrypted: rng.Intn(2) == 0}
	return resp.Message(req, e.bank)
}

// clientHTTPCase runs operations of a client over HTTP.
func clientHTTPCase(c *vt.C, h *httpBank) {
	rng := c.Rng
	e := newBank(rng, envOpts{hostile: rng.Intn(2) == 0})
	path := "/" + genWord(rng, 6)
	e.cfg.URL = h.URL + path
	e.bank.URL = e.cfg.URL
	way := []string{"default", "transport"}[rng.Intn(2)]
	e.cfg.Transport = nil
	if way == "transport" {
		e.cfg.Transport = https.NewNonDefault(&http.Client{Timeout: 5 * time.Minute})
	}
	fault := ""
	faultAt := -1
	if rng.Intn(2) == 0 {
		faultAt = 1 + rng.Intn(5)
		fault = []string{"early", "cut", "malformed", "html", "empty"}[rng.Intn(5)]
	}
	n := 0
	inner := e.bank
	hit := false
	handle := func(body []byte) httpScript {
		n++
		resp, err := inner.Do(&transport.Request{URL: e.cfg.URL, Body: io.NopCloser(bytes.NewReader(body))})
		if err != nil {
			return httpScript{status: 500, cut: -1}
		}
		text, _ := io.ReadAll(resp.Body)
		s := httpScript{status: 200, body: text, cut: -1}
		switch rng.Intn(3) {
		case 0:
			s.chunks = []int{1 + rng.Intn(300)}
		case 1:
			s.body = []byte(wrap64(rng, string(text)))
		}
		if n == faultAt {
			hit = true
			switch fault {
			case "early":
				s.early = true
			case "cut":
				s.cut = rng.Intn(len(s.body))
			case "malformed":
				b, _ := malformed64(rng, string(s.body)+string(s.body))
				s.body = []byte(strings.Repeat("!", 5000) + b)
			case "html":
				s.status, s.body = 503, []byte("<html>"+strings.Repeat("Wartung ", 1000)+"</html>")
			case "empty":
				s.body = nil
			}
		}
		return s
	}
	h.mu.Lock()
	h.handle, h.seen = handle, nil
	h.mu.Unlock()
	e.connect()
	ops := genOps(e)
	for i := 0; i < 3; i++ {
		o := ops[rng.Intn(len(ops))]
		h.mu.Lock()
		before := n
		wasHit := hit
		h.mu.Unlock()
		var err error
		captured(c.R, func() { _, err, _ = e.runOp(o) })
		h.mu.Lock()
		isHit := hit && !wasHit
		seen := h.seen
		h.seen = nil
		count := n - before
		h.mu.Unlock()
		c.Count("client_operations", 1)
		c.State("client %s %s %s %v", way, o.name, fault, isHit)
		for _, q := range seen {
			if q.path != path || q.method != "POST" {
				c.Fail("client-url", "%s: %s %s instead of POST %s", o.name, q.method, q.path, path)
			}
		}
		if !isHit && err != nil {
			c.Fail("client-error", "%s, %s failed over HTTP: %v\n%s", way, o.name, err, e.bank.Trace())
		}
		// The end of a dialog may fail unnoticed.
		if isHit && err == nil && !(fault == "early" && count > 0) && !isEnd(e.bank.Requests[faultAt-1].Kind) {
			c.Fail("client-fault", "%s, %s: no error although answer %d (%s) was spoiled: %s\n%s", way, o.name, faultAt, e.bank.Requests[faultAt-1].Kind, fault, e.bank.Trace())
		}
	}
	report(c, e, "form")
	// Every connection is given back: none is left when the idle ones are
	// closed.
	for i := 0; ; i++ {
		http.DefaultClient.CloseIdleConnections()
		if h.activeConns() == 0 {
			break
		}
		if i > 200 {
			c.Fail("connection", "%s, %s: %d connections are still in use after the operations", way, fault, h.activeConns())
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	h.mu.Lock()
	h.handle = nil
	h.mu.Unlock()
}

// captured keeps what operations print away.
func captured(r *vt.Run, f func()) { captureStd(r, f) }

// closeCase runs operations on a transport in memory that counts the bodies
// handed out and closed.
func closeCase(c *vt.C) {
	rng := c.Rng
	e := newBank(rng, envOpts{})
	opened, closed := 0, 0
	faultAt := 1 + rng.Intn(8)
	fault := []string{"none", "garbage", "malformed", "read"}[rng.Intn(4)]
	var bodies []*int
	t := transport.Func(func(q *transport.Request) (*transport.Response, error) {
		resp, err := e.bank.Do(q)
		if err != nil {
			return nil, err
		}
		text, _ := io.ReadAll(resp.Body)
		p := &pieces{rng: rng, b: text, err: io.EOF, mode: rng.Intn(4), closed: new(int)}
		opened++
		if opened == faultAt {
			switch fault {
			case "garbage":
				p.b = []byte(base64.StdEncoding.EncodeToString([]byte("garbage '+:@")))
			case "malformed":
				p.b = []byte(strings.Repeat("!", 4000))
			case "read":
				p.b, p.err = p.b[:rng.Intn(len(p.b))], errSentinel
			}
		}
		bodies = append(bodies, p.closed)
		return &transport.Response{Request: q, Body: p}, nil
	})
	e.cfg.Transport = t
	e.connect()
	ops := genOps(e)
	var names []string
	for i := 0; i < 3; i++ {
		o := ops[rng.Intn(len(ops))]
		names = append(names, o.name)
		captured(c.R, func() { e.runOp(o) })
	}
	if rng.Intn(3) == 0 {
		d := dialog.NewPinTanDialog(dialog.Config{BankID: domain.BankID{CountryCode: 280, ID: e.cfg.BankID}, HBCIURL: e.cfg.URL, UserID: e.cfg.AccountID,
			HBCIVersion: segment.SupportedHBCIVersions[e.version], Transport: t})
		d.SetPin(e.cfg.PIN)
		d.SyncClientSystemID()
		names = append(names, "sync")
	}
	for i, n := range bodies {
		if *n > 0 {
			closed++
			c.Count("bodies_closed", 1)
		} else if i+1 == faultAt {
			c.Fail("close-operation", "%v: the body of answer %d (fault %s) is never closed", names, i+1, fault)
		} else {
			c.Fail("close-operation", "%v: the body of answer %d is never closed", names, i+1)
		}
	}
	c.State("close %v %s", names, fault)
}

var _ = client.Config{}
