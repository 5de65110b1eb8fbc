//go:build p21 || all

package main

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/crypto"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/segment"

	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P21",
		rule: "Signing: what a recording provider is given equals the bytes between message header and signature end of the message then sent and the bytes then encrypted, for generated messages and providers. Keys: results are compared with math/big, crypto/rsa, a reference padding of ISO 9796-1 and a reference RIPEMD-160; distinct states are the shapes of messages, keys and blocks.",
		fn:   runP21,
		assumptions: []string{
			"math/big and crypto/rsa compute what they state",
			"a changed signature is accepted by chance with negligible probability: changes are tried on keys of 256 bits and more only",
			"a raw RSA result is compared as a number: the engine returns decrypted blocks without leading zeros",
		},
	})
}

// recSigner records what it is asked to sign.
type recSigner struct {
	signed   [][]byte
	sig      []byte
	err      error
	ref      string
	fn, sys  string
	key      domain.KeyName
	id       int
	pin, tan string
}

func (r *recSigner) SetSecurityFunction(fn string) { r.fn = fn }
func (r *recSigner) SetClientSystemID(id string)   { r.sys = id }
func (r *recSigner) Sign(m []byte) ([]byte, error) {
	r.signed = append(r.signed, append([]byte{}, m...))
	return r.sig, r.err
}
func (r *recSigner) WriteSignatureHeader(h segment.SignatureHeader) {
	h.SetSecurityFunction(r.fn)
	h.SetClientSystemID(r.sys)
	h.SetSigningKeyName(r.key)
	h.SetSignatureID(r.id)
	h.SetControlReference(r.ref)
}
func (r *recSigner) WriteSignature(end segment.SignatureEnd, sig []byte) {
	end.SetControlReference(r.ref)
	end.SetSignature(sig)
	if r.pin != "" {
		end.SetPinTan(r.pin, r.tan)
	}
}

// recCipher records what it is asked to encrypt, which it turns around.
type recCipher struct {
	plain [][]byte
	err   error
	sys   string
	fn    string
	key   domain.KeyName
}

func flip(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[len(b)-1-i] ^ 0x5a
	}
	return out
}

func (r *recCipher) SetClientSystemID(id string)   { r.sys = id }
func (r *recCipher) SetSecurityFunction(fn string) { r.fn = fn }
func (r *recCipher) Encrypt(m []byte) ([]byte, error) {
	r.plain = append(r.plain, append([]byte{}, m...))
	return flip(m), r.err
}
func (r *recCipher) Decrypt(m []byte) ([]byte, error) { return flip(m), r.err }
func (r *recCipher) WriteEncryptionHeader(h segment.EncryptionHeader) {
	h.SetClientSystemID(r.sys)
	h.SetSecurityProfile(r.fn)
	h.SetEncryptionKeyName(r.key)
}

func keyName21(rng *mrand.Rand, t domain.KeyType) domain.KeyName {
	return domain.KeyName{BankID: domain.BankID{CountryCode: 280, ID: genText1(rng, 10)}, UserID: genText1(rng, 12), KeyType: t, KeyNumber: rng.Intn(1000), KeyVersion: rng.Intn(1000)}
}

// nilJob is a job left out.
func nilJob(rng *mrand.Rand) segment.ClientSegment {
	if rng.Intn(2) == 0 {
		return (*segment.IdentificationSegment)(nil)
	}
	return (*segment.DialogEndSegment)(nil)
}

// newMessage21 builds a message, its dialog ID and its number.
func newMessage21(rng *mrand.Rand, version int) (*message.BasicMessage, []string, string, int) {
	segs, want := genJobs(rng, rng.Intn(5))
	for n := rng.Intn(3) * rng.Intn(2); n > 0; n-- {
		i := rng.Intn(len(segs) + 1)
		segs = append(segs[:i:i], append([]segment.ClientSegment{nilJob(rng)}, segs[i:]...)...)
	}
	m := message.NewBasicMessage(message.NewHBCIMessage(segment.SupportedHBCIVersions[version], segs...))
	dlg, num := genText1(rng, 10), 1+rng.Intn(9999)
	m.Header = segment.NewMessageHeaderSegment(-1, version, dlg, num)
	m.End = segment.NewMessageEndSegment(-1, num)
	return m, want, dlg, num
}

// parts21 are the signed part, the signature end of a marshaled message, and
// all segments.
func parts21(raw []byte) (signed, end []byte, segs []wire.Segment, err error) {
	segs, err = wire.Parse(raw)
	if err != nil {
		return
	}
	if len(segs) < 4 || segs[0].ID != "HNHBK" || segs[1].ID != "HNSHK" || segs[len(segs)-2].ID != "HNSHA" || segs[len(segs)-1].ID != "HNHBS" {
		err = fmt.Errorf("no signed message")
		return
	}
	for _, s := range segs[1 : len(segs)-2] {
		signed = append(signed, s.Raw...)
	}
	return signed, segs[len(segs)-2].Raw, segs, nil
}

func signCase(c *vt.C) {
	rng := c.Rng
	version := []int{220, 300}[rng.Intn(2)]
	m, want, _, _ := newMessage21(rng, version)
	p := &recSigner{sig: genBytes(rng, 512), ref: genText1(rng, 14), fn: []string{"999", "1", "900"}[rng.Intn(3)], sys: genText1(rng, 20), key: keyName21(rng, domain.KeyTypeSigning), id: rng.Intn(10000)}
	if rng.Intn(3) == 0 {
		p.pin, p.tan = genText1(rng, 10), genText(rng, 8)
	}
	if rng.Intn(10) == 0 {
		p.err = errors.New("no key")
		s, err := m.Sign(p)
		if err == nil || !strings.Contains(err.Error(), "no key") || s != nil {
			c.Fail("sign error", "signing gave %v, %v though the provider failed", s, err)
		}
		c.Count("provider errors", 1)
		return
	}
	var signed *message.BasicSignedMessage
	rounds := 1 + rng.Intn(2) // a message may be signed again
	for i := 0; i < rounds; i++ {
		var err error
		if signed, err = m.Sign(p); err != nil {
			c.Fail("sign", "%v", err)
			return
		}
	}
	if len(p.signed) != rounds {
		c.Fail("calls", "the provider was asked %d times for %d signatures", len(p.signed), rounds)
		return
	}
	over := p.signed[rounds-1]
	check := func(what string) bool {
		raw, err := signed.MarshalHBCI()
		if err != nil {
			c.Fail("marshal", "%s: %v", what, err)
			return false
		}
		part, end, segs, err := parts21(raw)
		if err != nil {
			c.Fail("form", "%s: %v: %s", what, err, b2s(raw))
			return false
		}
		if !bytes.Equal(part, over) {
			c.Fail("covers", "%s: the signature was made over %q, sent is %q", what, over, part)
			return false
		}
		if len(segs) != len(want)+4 {
			c.Fail("segments", "%s: %d segments sent for %d jobs: %s", what, len(segs), len(want), b2s(raw))
			return false
		}
		for i, s := range segs {
			if s.Pos != i+1 {
				c.Fail("positions", "%s: segment %d has number %d: %s", what, i+1, s.Pos, b2s(raw))
			}
			if i >= 2 && i < len(segs)-2 && body(s.Raw) != want[i-2] {
				c.Fail("content", "%s: segment %q, want %q", what, s.Raw, want[i-2])
			}
		}
		hk, ha := segs[1], segs[len(segs)-2]
		if got := ha.Str(0, 0); got != p.ref {
			c.Fail("reference", "%s: control reference %q, want %q", what, got, p.ref)
		}
		if len(ha.DEs) < 2 || !bytes.Equal(ha.DEs[1][0].Val, p.sig) {
			c.Fail("signature", "%s: signature %q sent, the provider gave %q", what, end, p.sig)
		}
		n := 0
		for _, de := range hk.DEs {
			for _, el := range de {
				if string(el.Val) == string(wire.Latin1(p.ref)) {
					n++
				}
			}
		}
		if n == 0 {
			c.Fail("reference", "%s: signature header %q lacks the control reference %q", what, hk.Raw, p.ref)
		}
		return header21(c, what, hk.Raw, sigHeader21(version, p.fn, p.ref, p.sys, p.id, p.key))
	}
	if !check("signed") {
		return
	}
	c.Count("signed messages", 1)
	if rng.Intn(2) == 0 {
		// The message number is no part of what is signed.
		m.SetMessageNumber(1 + rng.Intn(9999))
		if !check("numbered anew") {
			return
		}
	}
	ci := &recCipher{sys: p.sys, fn: p.fn, key: keyName21(rng, domain.KeyTypeEncryption)}
	if rng.Intn(10) == 0 {
		ci.err = errors.New("no cipher")
		if e, err := signed.Encrypt(ci); err == nil || !strings.Contains(err.Error(), "no cipher") || e != nil {
			c.Fail("encrypt error", "encryption gave %v, %v though the provider failed", e, err)
		}
		c.Count("provider errors", 1)
		return
	}
	enc, err := signed.Encrypt(ci)
	if err != nil {
		c.Fail("encrypt", "%v", err)
		return
	}
	raw, err := signed.MarshalHBCI()
	if err != nil {
		c.Fail("marshal", "after encryption: %v", err)
		return
	}
	part, end, _, err := parts21(raw)
	if err != nil {
		c.Fail("form", "%v: %s", err, b2s(raw))
		return
	}
	if len(ci.plain) != 1 || !bytes.Equal(ci.plain[0], append(append([]byte{}, over...), end...)) || !bytes.Equal(part, over) {
		c.Fail("encrypted", "encrypted was %q, signed %q with signature end %q", ci.plain, over, end)
		return
	}
	sent, err := enc.MarshalHBCI()
	if err != nil {
		c.Fail("marshal", "encrypted: %v", err)
		return
	}
	segs, err := wire.Parse(sent)
	if err != nil || len(segs) != 4 || segs[1].ID != "HNVSK" || segs[2].ID != "HNVSD" || len(segs[2].DEs) != 1 {
		c.Fail("form", "encrypted message %s: %v", b2s(sent), err)
		return
	}
	if !bytes.Equal(segs[2].DEs[0][0].Val, flip(ci.plain[0])) {
		c.Fail("data", "the provider encrypted to %q, sent is %s", flip(ci.plain[0]), b2s(sent))
		return
	}
	if !header21(c, "encrypted", segs[1].Raw, encHeader21(version, p.fn, p.sys, nil, ci.key)) {
		return
	}
	c.Count("encrypted messages", 1)
	c.State("sign/%d/%d/%d/%v", version, len(want), len(p.sig)/64, p.pin != "")
	if rng.Intn(300) == 0 {
		c.Sample("signed %s", b2s(over))
	}
	decryptCase(c, enc)
}

// anyTime21 stands for the date and time a header was made.
const anyTime21 = "1:{now}"

func keyGroup21(k domain.KeyName) []byte {
	return wire.G(wire.I(k.BankID.CountryCode), wire.T(k.BankID.ID), wire.T(k.UserID), wire.T(string(k.KeyType)), wire.I(k.KeyNumber), wire.I(k.KeyVersion))
}

func profile21(fn string) []byte {
	if fn == "999" {
		return wire.Raw("PIN:1")
	}
	return wire.Raw("PIN:2")
}

// sigHeader21 are the elements of a signature header.
func sigHeader21(version int, fn, ref, sys string, id int, key domain.KeyName) []string {
	des := [][]byte{wire.T(fn), wire.T(ref), wire.I(1), wire.I(1), wire.G(wire.I(1), nil, wire.T(sys)), wire.I(id), wire.Raw(anyTime21), wire.Raw("1:999:1"), wire.Raw("6:10:16"), keyGroup21(key)}
	head := "HNSHK:2:3"
	if version == 300 {
		head = "HNSHK:2:4"
		des = append([][]byte{profile21(fn)}, des...)
	}
	return strs21(head, des)
}

// encHeader21 are the elements of an encryption header, for PIN and TAN
// without a key.
func encHeader21(version int, fn, sys string, rsa []byte, key domain.KeyName) []string {
	secFn, alg := "998", wire.G(wire.I(2), wire.I(2), wire.I(13), wire.Bin(make([]byte, 8)), wire.I(5), wire.I(1))
	if rsa != nil {
		secFn, alg = "4", wire.G(wire.I(2), wire.I(2), wire.I(13), wire.Bin(rsa), wire.I(6), wire.I(1))
	}
	des := [][]byte{wire.Raw(secFn), wire.I(1), wire.G(wire.I(1), nil, wire.T(sys)), wire.Raw(anyTime21), alg, keyGroup21(key), wire.I(0)}
	head := "HNVSK:998:2"
	if version == 300 {
		head = "HNVSK:998:3"
		des = append([][]byte{profile21(fn)}, des...)
	}
	return strs21(head, des)
}

func strs21(head string, des [][]byte) []string {
	out := []string{head}
	for _, d := range des {
		out = append(out, string(d))
	}
	return out
}

// header21 compares a header with the elements it should have, none of them
// left out; its time may be any of the last minutes.
func header21(c *vt.C, what string, raw []byte, want []string) bool {
	des, _, err := wire.ParseRaw(raw)
	if err != nil || len(des) != 1 || len(des[0]) != len(want) {
		c.Fail("header", "%s: %q, want elements %q (%v)", what, raw, want, err)
		return false
	}
	for i, de := range des[0] {
		var parts [][]byte
		for _, e := range de {
			parts = append(parts, e.Raw)
		}
		got := string(bytes.Join(parts, []byte(":")))
		if want[i] == anyTime21 {
			at, err := time.ParseInLocation("20060102:150405", strings.TrimPrefix(got, "1:"), time.Local)
			if d := time.Since(at); err != nil || d < -2*time.Second || d > 10*time.Minute {
				c.Fail("header time", "%s: time %q in %q: %v", what, got, raw, err)
				return false
			}
			continue
		}
		if got != want[i] {
			c.Fail("header", "%s: element %d is %q, want %q: %q", what, i+1, got, want[i], raw)
			return false
		}
	}
	c.Count("headers", 1)
	return true
}

// headersCase makes the headers of both versions with the constructors for
// each kind of key.
func headersCase(c *vt.C) {
	rng := c.Rng
	version := []int{220, 300}[rng.Intn(2)]
	v := segment.SupportedHBCIVersions[version]
	ref, sys, id, key := genText1(rng, 14), genText1(rng, 20), rng.Intn(10000), keyName21(rng, domain.KeyTypeSigning)
	type made struct {
		what string
		s    segment.ClientSegment
		want []string
	}
	all := []made{{"PIN signature header", v.PinTanSignatureHeader(ref, sys, key), sigHeader21(version, "999", ref, sys, 0, key)}}
	rsa := genBytes(rng, 100)
	all = append(all, made{"PIN encryption header", v.PinTanEncryptionHeader(sys, key), encHeader21(version, "999", sys, nil, key)})
	if version == 220 {
		all = append(all,
			made{"RDH signature header", v.RDHSignatureHeader(ref, id, sys, key), sigHeader21(version, "1", ref, sys, id, key)},
			made{"RDH encryption header", v.RDHEncryptionHeader(sys, key, rsa), encHeader21(version, "4", sys, append([]byte{}, rsa...), key)})
	}
	for _, m := range all {
		raw, err := m.s.MarshalHBCI()
		if err != nil {
			c.Fail("header", "%s: %v", m.what, err)
			continue
		}
		if !header21(c, m.what, raw, m.want) {
			return
		}
	}
	c.Count("headers made", len(all))
}

// decryptCase puts an answer of the bank into the message: decrypting gives
// what the bank encrypted.
func decryptCase(c *vt.C, enc *message.EncryptedMessage) {
	text := genText1(c.Rng, 40)
	plain := append(wire.Seg("HIRMG", 2, 2, 0, wire.G(wire.Raw("0010"), nil, wire.T(text))), wire.Seg("HIXYZ", 3, 1, 2, wire.Bin(genBytes(c.Rng, 200)))...)
	ci := &recCipher{}
	enc.EncryptedData = segment.NewEncryptedDataSegment(flip(plain))
	m, err := enc.Decrypt(ci)
	if err != nil {
		c.Fail("decrypt", "%q: %v", plain, err)
		return
	}
	if a := m.Acknowledgements(); len(a) != 1 || a[0].Text != text {
		c.Fail("decrypt", "%q decrypted to acknowledgements %v", plain, a)
	}
	if x := m.FindMarshaledSegment("HIXYZ"); !bytes.HasSuffix(plain, x) || len(x) == 0 {
		c.Fail("decrypt", "%q decrypted to %q", plain, x)
	}
	ci.err = errors.New("bad key")
	if m, err := enc.Decrypt(ci); err == nil || m != nil {
		c.Fail("decrypt error", "decryption gave %v, %v though the provider failed", m, err)
	}
	c.Count("decrypted messages", 1)
}

// rsaKeys21 are keys of several sizes, made once per process.
var rsaKeys21 = map[int]*rsa.PrivateKey{}

// key21 makes an RSA key of any size from primes.
func key21(rng *mrand.Rand, bits int) *rsa.PrivateKey {
	for {
		p, err := rand.Prime(rand.Reader, bits/2)
		if err != nil {
			panic(err)
		}
		q, err := rand.Prime(rand.Reader, bits-bits/2)
		if err != nil {
			panic(err)
		}
		n := new(big.Int).Mul(p, q)
		if n.BitLen() != bits || p.Cmp(q) == 0 {
			continue
		}
		one := big.NewInt(1)
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		e := []int64{3, 17, 257, 65537}[rng.Intn(4)]
		d := new(big.Int).ModInverse(big.NewInt(e), phi)
		if d == nil {
			continue
		}
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: int(e)}, D: d, Primes: []*big.Int{p, q}}
	}
}

// params21 are the parameters of the key for the engine.
func params21(k *rsa.PrivateKey, crt bool) (pub, priv crypto.RSAKeyParameters) {
	e := big.NewInt(int64(k.E))
	pub = crypto.NewRSAKeyParameters(false, k.N, e)
	if !crt {
		return pub, crypto.NewRSAKeyParameters(true, k.N, k.D)
	}
	p, q := k.Primes[0], k.Primes[1]
	one := big.NewInt(1)
	dp := new(big.Int).Mod(k.D, new(big.Int).Sub(p, one))
	dq := new(big.Int).Mod(k.D, new(big.Int).Sub(q, one))
	return pub, crypto.NewRSAPrivateCrtKeyParameters(k.N, e, k.D, p, q, dp, dq, new(big.Int).ModInverse(q, p))
}

func bits21(rng *mrand.Rand) int {
	switch rng.Intn(4) {
	case 0:
		return []int{512, 768, 1024, 1536}[rng.Intn(4)]
	case 1:
		return 256 + rng.Intn(64)
	case 2:
		return 24 + rng.Intn(100)
	}
	return 128 + rng.Intn(512)
}

// rsaCase: the engine against math/big, both ways, with both kinds of key.
func rsaCase(c *vt.C) {
	rng := c.Rng
	bits := bits21(rng)
	k := key21(rng, bits)
	pub, priv := params21(k, rng.Intn(2) == 0)
	if pub.Private() || !priv.Private() || pub.Modulus().Cmp(k.N) != 0 || priv.Exponent().Cmp(k.D) != 0 || priv.Modulus().Cmp(k.N) != 0 {
		c.Fail("parameters", "parameters of the key differ")
	}
	encKey, decKey := pub, priv
	encExp, decExp := big.NewInt(int64(k.E)), k.D
	if rng.Intn(2) == 0 {
		encKey, decKey, encExp, decExp = decKey, encKey, decExp, encExp
	}
	enc, dec := &crypto.RSAEngine{}, &crypto.RSAEngine{}
	enc.Init(true, encKey)
	dec.Init(false, decKey)
	size := (bits + 7) / 8
	if enc.InputBlockSize() != size-1 || enc.OutputBlockSize() != size || dec.InputBlockSize() != size || dec.OutputBlockSize() != size-1 {
		c.Fail("block sizes", "key of %d bits: %d %d %d %d", bits, enc.InputBlockSize(), enc.OutputBlockSize(), dec.InputBlockSize(), dec.OutputBlockSize())
	}
	for i := 0; i < 6; i++ {
		n := 1 + rng.Intn(size-1)
		if rng.Intn(3) == 0 {
			n = size - 1
		}
		msg := make([]byte, n)
		rng.Read(msg)
		switch rng.Intn(5) {
		case 0:
			msg = bytes.Repeat([]byte{0xff}, n)
		case 1:
			msg = make([]byte, n)
			msg[n-1] = byte(rng.Intn(3))
		}
		// The message lies anywhere in a buffer.
		off := rng.Intn(3)
		buf := append(append(make([]byte, off), msg...), make([]byte, rng.Intn(3))...)
		keep := append([]byte{}, buf...)
		out := enc.ProcessBlock(buf, off, len(msg))
		m := new(big.Int).SetBytes(msg)
		want := new(big.Int).Exp(m, encExp, k.N)
		if len(out) != size || new(big.Int).SetBytes(out).Cmp(want) != 0 {
			c.Fail("encrypt", "%d bits, %x: got %x, want %x", bits, msg, out, want)
			return
		}
		back := dec.ProcessBlock(out, 0, len(out))
		if new(big.Int).SetBytes(back).Cmp(m) != 0 {
			c.Fail("decrypt", "%d bits: %x came back as %x", bits, msg, back)
			return
		}
		if x := new(big.Int).Exp(want, decExp, k.N); x.Cmp(m) != 0 {
			panic("key")
		}
		if !bytes.Equal(buf, keep) {
			c.Fail("buffer", "the engine changed its input")
		}
		c.Count("rsa blocks", 1)
	}
	c.State("rsa/%d/%v", bits, encKey == priv)
}

// tapEngine lets the padded blocks through and keeps them.
type tapEngine struct {
	key   crypto.RSAKeyParameters
	block []byte
}

func (t *tapEngine) Init(enc bool, key crypto.RSAKeyParameters) { t.key = key }
func (t *tapEngine) ProcessBlock(in []byte, off, n int) []byte {
	t.block = append([]byte{}, in[off:off+n]...)
	return t.block
}
func (t *tapEngine) InputBlockSize() int  { return (t.key.Modulus().BitLen() + 7) / 8 }
func (t *tapEngine) OutputBlockSize() int { return (t.key.Modulus().BitLen() + 7) / 8 }

var shadow21 = [16]byte{0xe, 3, 5, 8, 9, 4, 2, 0xf, 0, 0xd, 0xb, 6, 7, 0xa, 0xc, 1}

// pad21 is the integer IR of ISO 9796-1 for the message: extension with
// redundancy, truncation to the bits of the modulus but one, forcing.
func pad21(msg []byte, padBits, bits int) *big.Int {
	ks := bits - 1
	t := (ks - 1 + 15) / 16
	z := len(msg)
	mr := make([]byte, 2*t) // little end first
	for i := 0; i < t; i++ {
		b := msg[z-1-i%z]
		mr[2*i] = b
		mr[2*i+1] = shadow21[b>>4]<<4 | shadow21[b&15]
	}
	mr[2*z-1] ^= byte(padBits + 1)
	ir := new(big.Int)
	for i := len(mr) - 1; i >= 0; i-- {
		ir.Lsh(ir, 8).Or(ir, big.NewInt(int64(mr[i])))
	}
	one := big.NewInt(1)
	mask := new(big.Int).Sub(new(big.Int).Lsh(one, uint(ks-1)), one)
	ir.And(ir, mask).Or(ir, new(big.Int).Lsh(one, uint(ks-1)))
	// The last byte: its low half in front, 6 behind.
	low := int64(mr[0]&15)<<4 | 6
	ir.AndNot(ir, big.NewInt(255)).Or(ir, big.NewInt(low))
	return ir
}

func isoCase(c *vt.C) {
	rng := c.Rng
	bits := bits21(rng)
	if bits < 40 {
		bits += 40
	}
	k := key21(rng, bits)
	pub, priv := params21(k, rng.Intn(2) == 0)
	t := (bits + 13) / 16
	tap := &tapEngine{}
	padder := crypto.NewISO9796d1Encoding(tap)
	padder.Init(true, priv)
	sign := crypto.NewISO9796d1Encoding(&crypto.RSAEngine{})
	sign.Init(true, priv)
	verify := crypto.NewISO9796d1Encoding(&crypto.RSAEngine{})
	verify.Init(false, pub)
	if padder.GetUnderlyingCipher() != tap {
		c.Fail("engine", "another engine than the given one")
	}
	for i := 0; i < 4; i++ {
		max := (bits + 2) / 16
		z := 1 + rng.Intn(max)
		if rng.Intn(3) == 0 {
			z = max
		}
		pad := rng.Intn(8)
		if z == t && bits%16 != 2 {
			pad = 0
		}
		msg := make([]byte, z)
		rng.Read(msg)
		switch rng.Intn(4) {
		case 0:
			msg[0] = 0
		case 1:
			for j := range msg {
				msg[j] = byte(rng.Intn(2) * 255)
			}
		}
		off := rng.Intn(3)
		buf := append(append(make([]byte, off), msg...), make([]byte, rng.Intn(3))...)
		padder.SetPadBits(pad)
		if _, err := padder.ProcessBlock(buf, off, z); err != nil {
			c.Fail("encode", "%d bits, %x: %v", bits, msg, err)
			return
		}
		want := pad21(msg, pad, bits)
		if got := new(big.Int).SetBytes(tap.block); got.Cmp(want) != 0 {
			c.Fail("padding", "%d bits, %x with %d pad bits: padded to %x, want %x", bits, msg, pad, got, want)
			return
		}
		c.Count("iso paddings", 1)
		sign.SetPadBits(pad)
		sig, err := sign.ProcessBlock(buf, off, z)
		if err != nil {
			c.Fail("sign", "%v", err)
			return
		}
		if x := new(big.Int).Exp(want, k.D, k.N); new(big.Int).SetBytes(sig).Cmp(x) != 0 || len(sig) != (bits+7)/8 {
			c.Fail("sign", "%d bits, %x: signature %x, want %x", bits, msg, sig, x)
			return
		}
		got, err := verify.ProcessBlock(sig, 0, len(sig))
		if err != nil || !bytes.Equal(got, msg) || verify.PadBits() != pad {
			c.Fail("verify", "%d bits: %x with %d pad bits came back as %x with %d, %v", bits, msg, pad, got, verify.PadBits(), err)
			return
		}
		// The other root is the same signature.
		other := new(big.Int).Sub(k.N, new(big.Int).SetBytes(sig)).Bytes()
		got, err = verify.ProcessBlock(other, 0, len(other))
		if err != nil || !bytes.Equal(got, msg) || verify.PadBits() != pad {
			c.Fail("verify", "%d bits: the complement of the signature gave %x, %v", bits, got, err)
			return
		}
		c.Count("iso signatures", 1)
		if bits < 256 {
			continue
		}
		bad := append([]byte{}, sig...)
		bad[rng.Intn(len(bad))] ^= 1 << uint(rng.Intn(8))
		if new(big.Int).SetBytes(bad).Cmp(k.N) < 0 {
			if got, err := verify.ProcessBlock(bad, 0, len(bad)); err == nil {
				c.Fail("forged", "%d bits: a changed signature is accepted as %x", bits, got)
			}
			c.Count("iso changed signatures", 1)
		}
		wrong := key21(rng, bits)
		wpub, _ := params21(wrong, false)
		if wrong.N.Cmp(new(big.Int).SetBytes(sig)) > 0 && rng.Intn(4) == 0 {
			w := crypto.NewISO9796d1Encoding(&crypto.RSAEngine{})
			w.Init(false, wpub)
			if got, err := w.ProcessBlock(sig, 0, len(sig)); err == nil {
				c.Fail("forged", "%d bits: another key accepts the signature as %x", bits, got)
			}
			c.Count("iso other keys", 1)
		}
	}
	// Any block is either refused or read, without panic.
	for i := 0; i < 4; i++ {
		b := new(big.Int).Rand(rng, k.N)
		switch rng.Intn(3) {
		case 0:
			b.AndNot(b, big.NewInt(15)).Or(b, big.NewInt(6))
			b.Mod(b, k.N)
			b.Exp(b, k.D, k.N)
		case 1:
			x := pad21([]byte{byte(rng.Intn(256)), byte(rng.Intn(256))}, rng.Intn(8), bits)
			x.Xor(x, new(big.Int).Lsh(big.NewInt(1+rng.Int63n(15)), uint(rng.Intn(bits-4))))
			b.Exp(x.Mod(x, k.N), k.D, k.N)
		}
		verify.ProcessBlock(b.Bytes(), 0, len(b.Bytes()))
		c.Count("iso hostile blocks", 1)
	}
	c.State("iso/%d", bits)
}

// keyCase: domain keys.
func keyCase(c *vt.C) {
	rng := c.Rng
	bits := []int{512, 768, 1024, 1024 + rng.Intn(64)}[rng.Intn(4)]
	k := rsaKeys21[bits]
	if k == nil {
		k = key21(rng, bits)
		rsaKeys21[bits] = k
	}
	mod, exp := k.N.Bytes(), big.NewInt(int64(k.E)).Bytes()
	if rng.Intn(2) == 0 {
		mod, exp = append(make([]byte, rng.Intn(4)), mod...), append(make([]byte, rng.Intn(3)), exp...)
	}
	wm, we := append([]byte{}, mod...), append([]byte{}, exp...)
	pub := domain.NewEncryptionKey(mod, exp)
	for i := range mod { // the caller's buffer is the caller's
		mod[i] ^= 0xff
	}
	if !bytes.Equal(pub.Modulus, wm) || !bytes.Equal(pub.Exponent, we) || pub.Type != "V" {
		c.Fail("encryption key", "modulus %x exponent %x type %q, want %x %x", pub.Modulus, pub.Exponent, pub.Type, wm, we)
		return
	}
	kn := keyName21(rng, domain.KeyTypeEncryption)
	key := domain.NewRSAKey(pub, &kn)
	if !key.CanEncrypt() || key.CanSign() {
		c.Fail("abilities", "encryption key: encrypt %v sign %v", key.CanEncrypt(), key.CanSign())
	}
	msg := genBytes(rng, (bits+7)/8-11)
	ct, err := key.Encrypt(msg)
	if err != nil {
		c.Fail("encrypt", "%d bits, %x: %v", bits, msg, err)
		return
	}
	d := new(big.Int).Exp(new(big.Int).SetBytes(ct), k.D, k.N).FillBytes(make([]byte, (bits+7)/8))
	i := bytes.IndexByte(d[2:], 0)
	if d[0] != 0 || d[1] != 2 || i < 8 || !bytes.Equal(d[3+i:], msg) {
		c.Fail("encrypt", "%d bits: %x decrypts to %x", bits, msg, d)
	}
	checkNames21(c, key, kn)
	pin := genText1(rng, 10)
	pk := keyName21(rng, domain.KeyTypeSigning)
	pinKey := domain.NewPinKey(pin, &pk)
	checkNames21(c, pinKey, pk)
	m := genBytes(rng, 300)
	keep := append([]byte{}, m...)
	e, err1 := pinKey.Encrypt(m)
	dd, err2 := pinKey.Decrypt(e)
	if err1 != nil || err2 != nil || !bytes.Equal(e, keep) || !bytes.Equal(dd, keep) {
		c.Fail("pin key", "%q became %q and %q, %v %v", keep, e, dd, err1, err2)
	}
	if len(m) > 0 {
		e[0] ^= 1
		if m[0] != keep[0] || dd[0] != keep[0] {
			c.Fail("pin key", "results share memory")
		}
		dd[0] ^= 1
		if m[0] != keep[0] || e[0] != keep[0]^1 {
			c.Fail("pin key", "results share memory")
		}
	}
	if s, err := pinKey.Sign(m); err != nil || string(s) != pin || pinKey.Pin() != pin || !pinKey.CanSign() || !pinKey.CanEncrypt() {
		c.Fail("pin key", "signature %q, %v of the PIN %q", s, err, pin)
	}
	c.Count("keys", 1)
	c.State("key/%d/%d", bits, len(msg))
}

func checkNames21(c *vt.C, k domain.Key, want domain.KeyName) {
	if got := k.KeyName(); !reflect.DeepEqual(got, want) {
		c.Fail("key name", "%+v, want %+v", got, want)
	}
	before := k.KeyName()
	n, v := c.Rng.Intn(1000), c.Rng.Intn(1000)
	k.SetKeyNumber(n)
	k.SetKeyVersion(v)
	want.KeyNumber, want.KeyVersion = n, v
	got := k.KeyName()
	if !reflect.DeepEqual(got, want) || got.IsInitial() != (n == 999 && v == 999) {
		c.Fail("key name", "%+v, want %+v", got, want)
	}
	got.SetInitial()
	if !got.IsInitial() || !reflect.DeepEqual(k.KeyName(), want) || (before.KeyNumber == 999) != before.IsInitial() && before.KeyVersion == 999 {
		c.Fail("key name", "initial %+v, key %+v", got, k.KeyName())
	}
	i := domain.NewInitialKeyName(want.BankID.CountryCode, want.BankID.ID, want.UserID, want.KeyType)
	want.SetInitial()
	if !reflect.DeepEqual(*i, want) {
		c.Fail("key name", "initial %+v, want %+v", *i, want)
	}
	p := domain.NewPinTanKeyName(want.BankID, want.UserID, want.KeyType)
	want.KeyNumber, want.KeyVersion = 0, 0
	if !reflect.DeepEqual(*p, want) || p.IsInitial() {
		c.Fail("key name", "PIN/TAN %+v, want %+v", *p, want)
	}
}

// rdhCase signs messages with an RSA key.
func rdhCase(c *vt.C) {
	rng := c.Rng
	pk, err := domain.GenerateSigningKey()
	if err != nil {
		c.Fail("generate", "%v", err)
		return
	}
	std := pk.SigningKey()
	if std == nil || !bytes.Equal(pk.Modulus, std.N.Bytes()) || new(big.Int).SetBytes(pk.Exponent).Cmp(big.NewInt(int64(std.E))) != 0 || std.N.BitLen() != 768 || pk.Type != "S" {
		c.Fail("generate", "key %+v differs from its parts", pk)
		return
	}
	kn := keyName21(rng, domain.KeyTypeSigning)
	key := domain.NewRSAKey(pk, &kn)
	if !key.CanSign() || key.CanEncrypt() {
		c.Fail("abilities", "signing key: sign %v encrypt %v", key.CanSign(), key.CanEncrypt())
	}
	id := rng.Intn(100000)
	p := message.NewRDHSignatureProvider(key, id)
	for i := 0; i < 6; i++ {
		version := []int{220, 300}[rng.Intn(2)]
		sys := genText1(rng, 20)
		p.SetClientSystemID(sys)
		m, _, _, _ := newMessage21(rng, version)
		signed, err := m.Sign(p)
		if err != nil {
			c.Fail("rdh", "%v", err)
			return
		}
		raw, err := signed.MarshalHBCI()
		if err != nil {
			c.Fail("rdh", "%v", err)
			return
		}
		part, _, segs, err := parts21(raw)
		if err != nil {
			c.Fail("form", "%v: %s", err, b2s(raw))
			return
		}
		ha := segs[len(segs)-2]
		if len(ha.DEs) < 2 {
			c.Fail("rdh", "no signature in %q", ha.Raw)
			return
		}
		sig := ha.DEs[1][0].Val
		if err := rsa.VerifyPKCS1v15(&std.PublicKey, 0, ripemd160(part), sig); err != nil {
			c.Fail("rdh", "the signature of %q does not verify: %v", part, err)
			return
		}
		// Any change is noticed.
		bad := append([]byte{}, part...)
		bad[rng.Intn(len(bad))] ^= 1 << uint(rng.Intn(8))
		if rsa.VerifyPKCS1v15(&std.PublicKey, 0, message.HashSum(string(bad)), sig) == nil {
			c.Fail("forged", "the signature also verifies %q", bad)
		}
		hk := segs[1]
		found := map[string]bool{}
		for _, de := range hk.DEs {
			for _, el := range de {
				found[string(el.Val)] = true
			}
		}
		for _, w := range []string{fmt.Sprint(id), string(wire.Latin1(sys)), string(wire.Latin1(kn.UserID)), string(wire.Latin1(kn.BankID.ID))} {
			if !found[w] {
				c.Fail("rdh header", "signature header %q lacks %q", hk.Raw, w)
			}
		}
		if hk.Str(0, 0) != "1" && version == 220 {
			c.Fail("rdh header", "security function of %q", hk.Raw)
		}
		h := genBytes(rng, 20)
		s2, err := message.SignMessageHash(h, std)
		if err != nil || rsa.VerifyPKCS1v15(&std.PublicKey, 0, h, s2) != nil {
			c.Fail("rdh", "signature of hash %x: %v", h, err)
		}
		c.Count("rdh signatures", 1)
	}
	c.State("rdh/%d", std.N.Bit(0))
}

// ripemd160 is the reference of the hash.
func ripemd160(msg []byte) []byte {
	r1 := [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	r2 := [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	s1 := [80]uint{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	s2 := [80]uint{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	k1 := [5]uint32{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}
	k2 := [5]uint32{0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}
	f := func(j int, x, y, z uint32) uint32 {
		switch j / 16 {
		case 0:
			return x ^ y ^ z
		case 1:
			return x&y | ^x&z
		case 2:
			return (x | ^y) ^ z
		case 3:
			return x&z | y&^z
		}
		return x ^ (y | ^z)
	}
	rol := func(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }
	h := [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}
	data := append(append([]byte{}, msg...), 0x80)
	for len(data)%64 != 56 {
		data = append(data, 0)
	}
	n := uint64(len(msg)) * 8
	for i := 0; i < 8; i++ {
		data = append(data, byte(n>>(8*uint(i))))
	}
	for ; len(data) > 0; data = data[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = uint32(data[4*i]) | uint32(data[4*i+1])<<8 | uint32(data[4*i+2])<<16 | uint32(data[4*i+3])<<24
		}
		a, b, cc, d, e := h[0], h[1], h[2], h[3], h[4]
		a2, b2, c2, d2, e2 := h[0], h[1], h[2], h[3], h[4]
		for j := 0; j < 80; j++ {
			t := rol(a+f(j, b, cc, d)+x[r1[j]]+k1[j/16], s1[j]) + e
			a, e, d, cc, b = e, d, rol(cc, 10), b, t
			t = rol(a2+f(79-j, b2, c2, d2)+x[r2[j]]+k2[j/16], s2[j]) + e2
			a2, e2, d2, c2, b2 = e2, d2, rol(c2, 10), b2, t
		}
		t := h[1] + cc + d2
		h[1] = h[2] + d + e2
		h[2] = h[3] + e + a2
		h[3] = h[4] + a + b2
		h[4] = h[0] + b + c2
		h[0] = t
	}
	var out []byte
	for _, v := range h {
		out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return out
}

func runP21(r *vt.Run) {
	for i := 0; i < r.N(6000, 300000); i++ {
		r.Case(fmt.Sprintf("sign/%d", i), signCase)
	}
	for i := 0; i < r.N(2000, 60000); i++ {
		r.Case(fmt.Sprintf("headers/%d", i), headersCase)
	}
	for i := 0; i < r.N(600, 20000); i++ {
		r.Case(fmt.Sprintf("rsa/%d", i), rsaCase)
	}
	for i := 0; i < r.N(600, 20000); i++ {
		r.Case(fmt.Sprintf("iso/%d", i), isoCase)
	}
	for i := 0; i < r.N(400, 10000); i++ {
		r.Case(fmt.Sprintf("key/%d", i), keyCase)
	}
	for i := 0; i < r.N(40, 1500); i++ {
		r.Case(fmt.Sprintf("rdh/%d", i), rdhCase)
	}
	r.Case("hash", func(c *vt.C) {
		for i := 0; i < 640; i++ {
			n := i
			if i >= 600 { // and some of any size
				n = c.Rng.Intn(1 << (10 + i%10))
			}
			m := make([]byte, n)
			c.Rng.Read(m)
			if got, want := message.HashSum(string(m)), ripemd160(m); !bytes.Equal(got, want) {
				c.Fail("hash", "hash of %d bytes %.300x is %x, want %x", n, m, got, want)
				return
			}
			c.Count("hashes", 1)
		}
	})
	r.Case("message keys", func(c *vt.C) {
		seen := map[string]bool{}
		for i := 0; i < 2000; i++ {
			k, err := message.GenerateMessageKey()
			if err != nil || len(k) != 16 || seen[string(k)] {
				c.Fail("message key", "key %d: %x, %v, seen before: %v", i, k, err, seen[string(k)])
				return
			}
			seen[string(k)] = true
			c.Count("message keys", 1)
		}
	})
	r.Require("signed messages", 4500)
	r.Require("encrypted messages", 4000)
	r.Require("headers", 10000)
	r.Require("headers made", 4000)
	r.Require("decrypted messages", 4000)
	r.Require("provider errors", 400)
	r.Require("rsa blocks", 2000)
	r.Require("iso paddings", 1000)
	r.Require("iso signatures", 1000)
	r.Require("iso changed signatures", 400)
	r.Require("iso other keys", 50)
	r.Require("keys", 300)
	r.Require("rdh signatures", 200)
	r.Require("hashes", 600)
	r.Require("message keys", 2000)
}
