package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"
)

// latin1 alphabets the workloads draw from. The text generators are biased to
// the characters that mean something on the wire.
const syntaxChars = "?@':+"

// genText draws a Latin-1 text (never containing NUL) of up to n runes.
//
// Texts which read as a decimal with a leading zero ("01,5") are left out: the
// lexer rejects them (an existing test demands it), which is a known finding
// that P01 observes with a case of its own.
func genText(rng *rand.Rand, n int) string {
	for {
		if s := genAnyText(rng, n); !leadingZeroDecimal(s) {
			return s
		}
	}
}

func leadingZeroDecimal(s string) bool {
	if len(s) < 3 || s[0] != '0' || strings.Count(s, ",") != 1 || s[1] == ',' {
		return false
	}
	return strings.Trim(s, "0123456789,") == ""
}

func genAnyText(rng *rand.Rand, n int) string {
	k := rng.Intn(n + 1)
	var sb strings.Builder
	mode := rng.Intn(6)
	for i := 0; i < k; i++ {
		switch mode {
		case 0: // plain
			sb.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -./,"[rng.Intn(67)])
		case 1: // syntax heavy
			if rng.Intn(2) == 0 {
				sb.WriteByte(syntaxChars[rng.Intn(len(syntaxChars))])
			} else {
				sb.WriteByte("ab01 ,"[rng.Intn(6)])
			}
		case 2: // digits first
			sb.WriteByte("0123456789,+"[rng.Intn(12)])
		case 3: // high half
			sb.WriteRune(rune(0xA0 + rng.Intn(0x60)))
		case 4: // lines
			sb.WriteByte("ab\r\n:'+ "[rng.Intn(8)])
		default: // anything
			sb.WriteRune(rune(1 + rng.Intn(255)))
		}
	}
	return sb.String()
}

// genText1 is genText, never empty.
func genText1(rng *rand.Rand, n int) string {
	for {
		if s := genText(rng, n); s != "" {
			return s
		}
	}
}

// genWord is an unproblematic token.
func genWord(rng *rand.Rand, n int) string {
	k := 1 + rng.Intn(n)
	b := make([]byte, k)
	for i := range b {
		b[i] = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnpqrstuvwxyz"[rng.Intn(47)]
	}
	return string(b)
}

// genDigits is a string of n digits, first one not zero.
func genDigits(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + rng.Intn(10))
	}
	if n > 0 && b[0] == '0' {
		b[0] = byte('1' + rng.Intn(9))
	}
	return string(b)
}

// genBytes draws binary content with delimiters in it.
func genBytes(rng *rand.Rand, n int) []byte {
	k := rng.Intn(n + 1)
	b := make([]byte, k)
	for i := range b {
		switch rng.Intn(3) {
		case 0:
			b[i] = syntaxChars[rng.Intn(len(syntaxChars))]
		case 1:
			b[i] = byte(rng.Intn(256))
		default:
			b[i] = "0123456789@'+"[rng.Intn(13)]
		}
	}
	return b
}

// genCents draws an amount in cents up to 10^12, biased to edge values.
func genCents(rng *rand.Rand) int64 {
	switch rng.Intn(6) {
	case 0:
		return int64(rng.Intn(100))
	case 1:
		return int64(rng.Intn(10)) * 100
	case 2:
		return int64(rng.Intn(1000)) * 10
	case 3:
		return rng.Int63n(1e12)
	default:
		return rng.Int63n(1e7)
	}
}

// centsWire is the HBCI form of an amount, with a decimal comma.
func centsWire(c int64) string {
	s := fmt.Sprintf("%d,%02d", c/100, c%100)
	return strings.TrimRight(s, "0")
}

// centsFloat is the value the client has to report for the amount.
func centsFloat(c int64) float64 {
	var f float64
	fmt.Sscanf(fmt.Sprintf("%d.%02d", c/100, c%100), "%g", &f)
	return f
}

// genDate draws a date between 1990 and 2069, biased to month and year ends.
func genDate(rng *rand.Rand) time.Time {
	y := 1990 + rng.Intn(80)
	switch rng.Intn(5) {
	case 0:
		return time.Date(y, 12, 31, 0, 0, 0, 0, time.UTC)
	case 1:
		return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
	case 2:
		return time.Date(y, 2, 28+rng.Intn(2), 0, 0, 0, 0, time.UTC)
	}
	return time.Date(y, time.Month(1+rng.Intn(12)), 1+rng.Intn(28), 0, 0, 0, 0, time.UTC)
}

// inZone is the same day and time of day in some time zone.
func inZone(rng *rand.Rand, t time.Time) time.Time {
	if rng.Intn(2) == 0 {
		return t
	}
	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.FixedZone("zone", 900*(rng.Intn(105)-48)))
}

// genClock draws a time of day.
func genClock(rng *rand.Rand) (h, m, s int) {
	switch rng.Intn(5) {
	case 0:
		return 0, 0, 0
	case 1:
		return 23, 59, 59
	}
	return rng.Intn(24), rng.Intn(60), rng.Intn(60)
}

func b2s(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// mutate changes some bytes of b.
func mutate(rng *rand.Rand, b []byte) []byte {
	out := append([]byte(nil), b...)
	for n := 1 + rng.Intn(4); n > 0; n-- {
		if len(out) == 0 {
			return append(out, "+:'?@"[rng.Intn(5)])
		}
		p := rng.Intn(len(out))
		switch rng.Intn(7) {
		case 6:
			// a number at the limits of computing, in place of another or as
			// the length of binary data
			q := p
			for q < len(out) && '0' <= out[q] && out[q] <= '9' {
				q++
			}
			n := limitNumber(rng, len(out))
			if q == p {
				n = "@" + n + "@"
			}
			out = append(out[:p:p], append([]byte(n), out[q:]...)...)
		case 0:
			out = out[:p]
		case 1:
			out = append(out[:p], out[p+1:]...)
		case 2:
			out[p] = byte(rng.Intn(256))
		case 3:
			out[p] = "+:'?@,0123456789\r\n"[rng.Intn(18)]
		case 4:
			out = append(out[:p], append([]byte{"+:'?@,019AZ"[rng.Intn(11)]}, out[p:]...)...)
		case 5:
			q := p + rng.Intn(len(out)-p)
			out = append(out, out[p:q]...)
		}
	}
	return out
}

// limitNumber is a number near one of those where computing with integers
// overflows, or one that does so together with a position in size bytes.
func limitNumber(rng *rand.Rand, size int) string {
	n := new(big.Int).Lsh(big.NewInt(1), []uint{7, 8, 15, 16, 31, 32, 53, 62, 63, 63, 63, 64, 65}[rng.Intn(13)])
	switch rng.Intn(4) {
	case 0:
		n.Sub(n, big.NewInt(1))
	case 1:
		n.Sub(n, big.NewInt(int64(1+rng.Intn(size+20))))
	case 2:
		n.Add(n, big.NewInt(int64(rng.Intn(size+20))))
	}
	return n.String()
}

// num is a number as it is written on the wire.
type num struct {
	wire string
	val  float64
}

var currencies = []string{"EUR", "USD", "CHF", "GBP", "DEM", "JPY", "XAU", "eur"}

// errorCodes are the ones banks use most; no one of them may be treated in a
// way of its own.
var errorCodes = []int{9000, 9010, 9030, 9040, 9050, 9070, 9075, 9080, 9110, 9120, 9130, 9140, 9150, 9155, 9160, 9170, 9180, 9185, 9190, 9210, 9215, 9300, 9310, 9320, 9330, 9340, 9360, 9380, 9390, 9391, 9400, 9600, 9800, 9900, 9910, 9920, 9930, 9931, 9932, 9933, 9935, 9936, 9937, 9938, 9939, 9940, 9941, 9942, 9943, 9944, 9945, 9951, 9955, 9956, 9957, 9958, 9959, 9960, 9990, 9991, 9999}

func anyError(rng *rand.Rand) int {
	if rng.Intn(4) == 0 {
		return 9000 + rng.Intn(1000)
	}
	return errorCodes[rng.Intn(len(errorCodes))]
}

// anyWarning is one that does not ask the client to do something.
func anyWarning(rng *rand.Rand) int {
	for {
		if w := []int{3010, 3050, 3060, 3070, 3072, 3075, 3076, 3077, 3078, 3079, 3090, 3091, 3300, 3310, 3320, 3330, 3340, 3800, 3900, 3910, 3931, 3935, 3936, 3956, 3957, 3999, 3000 + rng.Intn(1000)}[rng.Intn(27)]; w != 3040 && w != 3920 {
			return w
		}
	}
}

// anySuccess is a success or an information.
func anySuccess(rng *rand.Rand) int {
	return []int{10, 11, 20, 21, 30, 40, 50, 60, 90, 100, 110, 200, 300, 400, 500, 800, 900, 901, 999, 1000, 1010, 1040, 1999, 2000, 2999, 1 + rng.Intn(2999)}[rng.Intn(26)]
}
