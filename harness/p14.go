//go:build p14 || all

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mitch000001/go-hbci/iban"

	"verif/harness/vt"
)

func init() {
	register(&property{
		id:   "P14",
		rule: "a case is an IBAN, a malformed one or a German account; distinct states are country, kind of change and the verdict",
		fn:   runP14,
		assumptions: []string{
			"countries the IBAN registry (2017) does not list have up to 34 characters and no fixed length",
			"letters may be lower case, blanks are no part of an IBAN except in print",
		},
	})
}

// registry is the length per country of the IBAN registry.
var registry = func() map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(`NO15 BE16 DK18 FO18 FI18 GL18 NL18 MK19 SI19 AT20 BA20 EE20 KZ20 XK20 LT20 LU20
		HR21 LV21 LI21 CH21 BH22 BG22 CR22 DE22 GE22 GB22 IE22 ME22 RS22 GI23 IQ23 IL23 TL23 AE23
		AD24 VG24 MD24 PK24 RO24 SA24 SE24 SK24 ES24 CZ24 TN24 PT25 ST25 IS26 TR26 FR27 GR27 IT27 MR27 MC27 SM27
		AL28 AZ28 DO28 SV28 GT28 LB28 PL28 HU28 BY28 CY28 BR29 QA29 PS29 UA29 JO30 KW30 MU30 MT31 SC31 LC32`) {
		n := 0
		fmt.Sscanf(f[2:], "%d", &n)
		m[f[:2]] = n
	}
	return m
}()

var registryCountries = func() []string {
	var out []string
	for c := range registry {
		out = append(out, c)
	}
	// in a fixed order
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}()

// mod97 is the remainder of the characters, letters counting 10 to 35; -1 if
// there is another character.
func mod97(s string) int {
	r := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			r = (r*10 + int(c-'0')) % 97
		case c >= 'A' && c <= 'Z':
			r = (r*100 + int(c-'A') + 10) % 97
		case c >= 'a' && c <= 'z':
			r = (r*100 + int(c-'a') + 10) % 97
		default:
			return -1
		}
	}
	return r
}

func isLetters(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; c < 'a' || c > 'z' {
			return false
		}
	}
	return true
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// lengthOK tells whether a BBAN of that length fits the country.
func lengthOK(country string, n int) bool {
	if l, ok := registry[strings.ToUpper(country)]; ok {
		return n == l-4
	}
	return n > 0 && n <= 30
}

// wellFormed is the verdict by the standard.
func wellFormed(s string) bool {
	if len(s) < 5 || !isLetters(s[:2]) || !isDigits(s[2:4]) || mod97(s[4:]) < 0 || !lengthOK(s[:2], len(s)-4) {
		return false
	}
	return mod97(s[4:]+s[:4]) == 1 && s[2:4] >= "02" && s[2:4] <= "98"
}

func checkDigits(country, bban string) string {
	return fmt.Sprintf("%02d", 98-mod97(bban+country+"00"))
}

func genIBAN(rng *rand.Rand) string {
	country := registryCountries[rng.Intn(len(registryCountries))]
	if rng.Intn(4) == 0 {
		country = "DE"
	}
	n := registry[country] - 4
	if rng.Intn(12) == 0 {
		country = []string{"ZZ", "XX", "US", "QQ"}[rng.Intn(4)]
		n = 1 + rng.Intn(30)
	}
	b := make([]byte, n)
	for i := range b {
		if country == "DE" || rng.Intn(3) > 0 {
			b[i] = "0123456789"[rng.Intn(10)]
		} else {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[rng.Intn(26)]
		}
	}
	if rng.Intn(5) == 0 {
		for i := range b[:rng.Intn(n)] {
			b[i] = '0'
		}
	}
	bban := string(b)
	return country + checkDigits(country, bban) + bban
}

// verdict compares every way to validate s with the standard.
func verdict(c *vt.C, kind, s string) {
	want := wellFormed(s)
	site, msg, ok := vt.Try(func() {
		if got := iban.IsValid(s); got != want {
			c.Fail("isvalid", "IsValid(%q) is %v (%s)", s, got, kind)
		}
		if got := iban.IBAN(s).Valid(); got != want {
			c.Fail("valid", "IBAN(%q).Valid() is %v (%s)", s, got, kind)
		}
		got, err := iban.From(s)
		if (err == nil) != want {
			c.Fail("from", "From(%q): %v (%s)", s, err, kind)
		} else if want && string(got) != strings.ToUpper(s) {
			c.Fail("from", "From(%q) is %q", s, got)
		}
	})
	if !ok {
		c.Fail("panic:"+site, "%q (%s): %s", s, kind, msg)
	}
	country := ""
	if len(s) >= 2 && isLetters(s[:2]) {
		country = strings.ToUpper(s[:2])
	}
	c.State("%s %s %v", kind, country, want)
	c.Count("verdicts", 1)
	if want {
		c.Count("valid", 1)
	} else {
		c.Count("invalid", 1)
	}
}

func p14iban(c *vt.C, rng *rand.Rand) {
	s := genIBAN(rng)
	verdict(c, "valid", s)
	verdict(c, "lower case", strings.ToLower(s))
	verdict(c, "mixed case", s[:1]+strings.ToLower(s[1:2])+s[2:])
	country, bban := s[:2], s[4:]
	i, err := iban.New(country, bban)
	if err != nil || string(i) != s {
		c.Fail("new", "New(%q, %q) is %q, %v instead of %q", country, bban, i, err, s)
		return
	}
	if j, err := iban.New(strings.ToLower(country), strings.ToLower(bban)); err != nil || string(j) != s {
		c.Fail("new", "New of %q in lower case is %q, %v", s, j, err)
	}
	if i.CountryCode() != country || i.ProofNumber() != s[2:4] || i.BBAN() != bban || i.String() != s {
		c.Fail("parts", "parts of %q are %q, %q, %q; String is %q", s, i.CountryCode(), i.ProofNumber(), i.BBAN(), i.String())
	}
	printed := iban.Print(i)
	if strings.ReplaceAll(printed, " ", "") != s {
		c.Fail("print", "%q is printed as %q", s, printed)
	}
	for k, g := range strings.Split(printed, " ") {
		if len(g) != 4 && k != (len(s)-1)/4 || len(g) == 0 || len(g) > 4 {
			c.Fail("print", "%q is printed as %q", s, printed)
		}
	}
	const chars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabz-. \x00\xe4:"
	for k := range s {
		for n := 0; n < 4; n++ {
			b := []byte(s)
			b[k] = chars[rng.Intn(len(chars))]
			verdict(c, "substitution", string(b))
		}
		if k > 0 {
			b := []byte(s)
			b[k], b[k-1] = b[k-1], b[k]
			verdict(c, "transposition", string(b))
			verdict(c, "truncation", s[:k])
			verdict(c, "cut at the front", s[k:])
		}
		b := chars[rng.Intn(len(chars))]
		verdict(c, "insertion", s[:k]+string([]byte{b})+s[k:])
		verdict(c, "omission", s[:k]+s[k+1:])
	}
	for n := 0; n < 6; n++ { // other lengths, with matching check digits
		bb := bban + genDigits(rng, 14)
		bb = bb[:rng.Intn(len(bb)+1)]
		verdict(c, "other length", country+checkDigits(country, bb)+bb)
		j, err := iban.New(country, bb)
		if (err == nil) != lengthOK(country, len(bb)) {
			c.Fail("new", "New(%q, %q): %q, %v", country, bb, j, err)
		}
	}
	n := (98 - mod97(bban+country+"00")) % 97
	for _, d := range []int{n, n + 97, (n + 1) % 97} {
		if d < 100 {
			verdict(c, "congruent check digits", fmt.Sprintf("%s%02d%s", country, d, bban))
		}
	}
	verdict(c, "printed", printed)
	verdict(c, "other country", registryCountries[rng.Intn(len(registryCountries))]+s[2:])
	lookalike14(c, rng, country, bban)
	junk := string(mutate(rng, []byte(s)))
	verdict(c, "mutated", junk)
	if a, b := genAnyText(rng, 3), genAnyText(rng, 20); true {
		site, msg, ok := vt.Try(func() {
			i, err := iban.New(a, b)
			good := len(a) == 2 && isLetters(a) && mod97(b) >= 0 && lengthOK(a, len(b))
			if (err == nil) != good || good && !wellFormed(string(i)) {
				c.Fail("new", "New(%q, %q): %q, %v", a, b, i, err)
			}
		})
		if !ok {
			c.Fail("panic:"+site, "New(%q, %q): %s", a, b, msg)
		}
	}
}

// lookalikes14 are characters that turn into letters or digits when their
// case is changed, or that count as letters or digits elsewhere.
var lookalikes14 = []struct {
	char  string
	ascii string
}{{"\u0131", "I"}, {"\u017f", "S"}, {"\u212a", "K"}, {"\uff15", "5"}, {"\u0665", "5"}, {"\u00b2", "2"}, {"\u0410", "A"}, {"\u00e4", "A"}}

// lookalike14 has one character of the account replaced by one that is no
// letter or digit, with the check digits of what it looks like and the length
// right in bytes or in characters.
func lookalike14(c *vt.C, rng *rand.Rand, country, bban string) {
	l := lookalikes14[rng.Intn(len(lookalikes14))]
	if rng.Intn(3) == 0 {
		country = "XX"
	}
	k := rng.Intn(len(bban))
	for _, cut := range []int{0, len(l.char) - 1} {
		rest := bban[k+1:]
		if cut > len(rest) {
			continue
		}
		rest = rest[cut:]
		looks := bban[:k] + l.ascii + rest
		is := bban[:k] + l.char + rest
		verdict(c, "look-alike", country+checkDigits(country, looks)+is)
		if i, err := iban.New(country, is); err == nil {
			c.Fail("new", "New(%q, %q) is %q", country, is, i)
		}
		if k == 0 && len(l.char) == 2 {
			if i, err := iban.New(l.char, looks); err == nil {
				c.Fail("new", "New(%q, %q) is %q", l.char, looks, i)
			}
		}
	}
}

func p14german(c *vt.C, rng *rand.Rand) {
	for k := 0; k < 20; k++ {
		bank, acct := genDigits(rng, 8), genDigits(rng, 1+rng.Intn(10))
		if rng.Intn(6) == 0 {
			acct = strings.Repeat("0", rng.Intn(len(acct)+1)) + acct
			if len(acct) > 10 {
				acct = acct[:10]
			}
		}
		bban := bank + fmt.Sprintf("%010s", acct)
		if len(acct) < 10 {
			bban = bank + strings.Repeat("0", 10-len(acct)) + acct
		}
		want := "DE" + checkDigits("DE", bban) + bban
		i, err := iban.NewGerman(bank, acct)
		if err != nil || string(i) != want {
			c.Fail("german", "NewGerman(%q, %q) is %q, %v instead of %q", bank, acct, i, err, want)
			continue
		}
		if i.BankID() != bank || i.AccountID() != strings.TrimLeft(acct, "0") {
			c.Fail("parts", "IBAN %q of bank %q and account %q names bank %q and account %q", i, bank, acct, i.BankID(), i.AccountID())
		}
		verdict(c, "german", string(i))
		c.Count("german accounts", 1)
		c.State("german %d", len(acct))
		// malformed ones
		for _, m := range [][2]string{{bank[1:], acct}, {bank + "1", acct}, {bank, acct + "00000000000"}, {bank, ""}, {string(mutate(rng, []byte(bank))), acct}, {bank, string(mutate(rng, []byte(acct)))}} {
			good := len(m[0]) == 8 && isDigits(m[0]) && len(m[1]) > 0 && len(m[1]) <= 10 && isDigits(m[1])
			site, msg, ok := vt.Try(func() {
				if i, err := iban.NewGerman(m[0], m[1]); (err == nil) != good {
					c.Fail("german", "NewGerman(%q, %q) is %q, %v", m[0], m[1], i, err)
				}
			})
			if !ok {
				c.Fail("panic:"+site, "NewGerman(%q, %q): %s", m[0], m[1], msg)
			}
		}
	}
}

func runP14(r *vt.Run) {
	for i, n := 0, r.N(8000, 60000); i < n; i++ {
		r.Case(fmt.Sprintf("i%d", i), func(c *vt.C) { p14iban(c, c.Rng) })
		r.Case(fmt.Sprintf("g%d", i), func(c *vt.C) { p14german(c, c.Rng) })
	}
	r.Require("verdicts", 100000)
	r.Require("valid", 5000)
	r.Require("german accounts", 5000)
}
