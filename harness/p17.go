//go:build p17 || all

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/transport"

	"verif/harness/vt"
	"verif/harness/wire"
)

func init() {
	register(&property{
		id:   "P17",
		rule: "a case is a range of bank IDs looked up, a generated directory file or a client configured by its bank ID; distinct states are kind, the entry found and the shape of the file",
		fn:   runP17,
		assumptions: []string{
			"the directory is read from the composite literals of the package's source as a second opinion; when it is kept elsewhere only the bank ID of what is found is judged",
			"where the directory has several branches under one bank ID, any of them may be returned that has access data if one has",
		},
	})
}

// directory reads the entries of the bank directory from the source.
func directory() []bankinfo.BankInfo {
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_REPO"), "bankinfo", "*.go"))
	var out []bankinfo.BankInfo
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			lit, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			var e bankinfo.BankInfo
			v := reflect.ValueOf(&e).Elem()
			for _, el := range lit.Elts {
				kv, ok := el.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				k, ok1 := kv.Key.(*ast.Ident)
				val, ok2 := kv.Value.(*ast.BasicLit)
				if !ok1 || !ok2 || val.Kind != token.STRING || !v.FieldByName(k.Name).IsValid() {
					return true
				}
				s, _ := strconv.Unquote(val.Value)
				v.FieldByName(k.Name).SetString(s)
			}
			if e.BankID != "" {
				out = append(out, e)
			}
			return false
		})
	}
	return out
}

type dirModel struct {
	byID map[string][]bankinfo.BankInfo
	ids  []string
}

func newDirModel(entries []bankinfo.BankInfo) *dirModel {
	m := &dirModel{byID: map[string][]bankinfo.BankInfo{}}
	for _, e := range entries {
		if m.byID[e.BankID] == nil {
			m.ids = append(m.ids, e.BankID)
		}
		m.byID[e.BankID] = append(m.byID[e.BankID], e)
	}
	sort.Strings(m.ids)
	return m
}

// allowed tells whether e may be found for id.
func (m *dirModel) allowed(id string, e bankinfo.BankInfo) bool {
	list := m.byID[id]
	if len(list) == 0 {
		return e == (bankinfo.BankInfo{})
	}
	access := false
	for _, x := range list {
		access = access || x.URL != ""
	}
	for _, x := range list {
		if x == e && (e.URL != "" || !access) {
			return true
		}
	}
	return false
}

func runP17(r *vt.Run) {
	dir := newDirModel(directory())
	known := len(dir.ids) > 0
	lookup := func(c *vt.C, id string) {
		e := bankinfo.FindByBankID(id)
		if e != (bankinfo.BankInfo{}) {
			c.Count("found", 1)
			if e.BankID != id {
				c.Fail("lookup", "looking up %q found %q: %+v", id, e.BankID, e)
			}
		}
		if known && !dir.allowed(id, e) {
			c.Fail("lookup", "looking up %q found %+v, but the directory says %+v", id, e, dir.byID[id])
		}
		c.Count("lookups", 1)
	}
	if known {
		r.Require("found", 2*len(dir.ids)*9/10)
		r.Require("clients", 500)
	}
	r.Require("lookups", r.N(200000, 80000000))
	r.Require("files", r.N(4500, 30000))
	r.Require("malformed_files", r.N(900, 5000))
	r.Require("tool_entries", r.N(300, 1000))
	r.Require("tool_entries of repeated banks", 20)
	const step = 100
	for i := 0; i < len(dir.ids); i += step {
		ids := dir.ids[i:min(i+step, len(dir.ids))]
		r.Case("entries/"+ids[0], func(c *vt.C) {
			for _, id := range ids {
				n, _ := strconv.Atoi(id)
				for _, x := range []string{id, strconv.Itoa(n - 1), strconv.Itoa(n + 1), id[:7], id[1:], id + "0", "0" + id, " " + id, id + " ", id[:4], "DE" + id,
					id[:c.Rng.Intn(8)] + string(rune('0'+c.Rng.Intn(10))) + id[1:], id + "\x00", strings.ToLower(dir.byID[id][0].BIC), id} {
					lookup(c, x)
				}
				c.State("entry %s", id)
				e := bankinfo.FindByBankID(id)
				if e.HbciVersion() > 0 && e.URL != "" {
					clientOf(c, e)
				}
			}
		})
	}
	r.Case("lookup/odd", func(c *vt.C) {
		for _, x := range []string{"", " ", "0", "00000000", "\x00", "99999999", "BankID", "%", "*", "1002?890", ".*", "\xff"} {
			lookup(c, x)
		}
		for i := 0; i < 2000; i++ {
			lookup(c, genText(c.Rng, 12))
		}
	})
	// every bank ID there can be, or a sample
	if r.Tier == "thorough" {
		for i := 10000000; i < 100000000; i += 100000 {
			i := i
			r.Case(fmt.Sprintf("all/%d", i), func(c *vt.C) {
				for n := i; n < i+100000; n++ {
					lookup(c, strconv.Itoa(n))
				}
				c.State("all %d", i)
			})
		}
	} else {
		for i := 0; i < 40; i++ {
			r.Case(fmt.Sprintf("sample/%d", i), func(c *vt.C) {
				for n := 0; n < 6000; n++ {
					lookup(c, strconv.Itoa(10000000+c.Rng.Intn(90000000)))
				}
			})
		}
	}
	for i := 0; i < r.N(7500, 60000); i++ {
		r.Case(fmt.Sprintf("file/%d", i), func(c *vt.C) { fileCase(c) })
	}
	for i := 0; i < r.N(900, 3000); i++ {
		r.Case(fmt.Sprintf("sort/%d", i), sortCase)
	}
	r.Case("versions", versionCase)
	for i := 0; i < r.N(900, 3000); i++ {
		r.Case(fmt.Sprintf("config/%d", i), func(c *vt.C) { configCase(c, dir) })
	}
	for i := 0; i < r.N(6, 60); i++ {
		r.Case(fmt.Sprintf("tool/%d", i), func(c *vt.C) { toolCase(c) })
	}
}

// firstRequest runs an operation and returns the URL and the HBCI version of
// the first request.
func firstRequest(cfg client.Config) (url, version string, err error) {
	url, version = "none", ""
	first := true
	cfg.Transport = transport.Func(func(q *transport.Request) (*transport.Response, error) {
		body, _ := io.ReadAll(q.Body)
		raw, _ := base64.StdEncoding.DecodeString(string(body))
		if first {
			first = false
			url = q.URL
			if segs, err := wire.Parse(raw); err == nil && len(segs) > 0 {
				version = segs[0].Str(1, 0)
			}
		}
		return nil, errors.New("no line")
	})
	cl, err := client.New(cfg)
	if err != nil {
		return url, version, err
	}
	cl.Accounts()
	return url, version, nil
}

// clientOf connects a client that knows its bank ID only.
func clientOf(c *vt.C, e bankinfo.BankInfo) {
	v := e.HbciVersion()
	url, version, err := firstRequest(client.Config{BankID: e.BankID, AccountID: "user", PIN: "12345"})
	c.Count("clients", 1)
	if v != 220 && v != 300 {
		if err == nil {
			c.Fail("client", "bank %s speaks version %d, but a client was created", e.BankID, v)
		}
		return
	}
	if err != nil || url != e.URL || version != strconv.Itoa(v) {
		c.Fail("client", "bank %s has %s with version %d, the client uses %s with %s (error %v)", e.BankID, e.URL, v, url, version, err)
	}
}

// configCase mixes what the configuration states with what the directory
// knows.
func configCase(c *vt.C, dir *dirModel) {
	rng := c.Rng
	id := genDigits(rng, 8)
	if len(dir.ids) > 0 && rng.Intn(3) > 0 {
		id = dir.ids[rng.Intn(len(dir.ids))]
	}
	e := bankinfo.FindByBankID(id)
	cfg := client.Config{BankID: id, AccountID: "user", PIN: "12345"}
	wantURL, wantVersion := e.URL, e.HbciVersion()
	if rng.Intn(2) == 0 {
		cfg.URL = "https://other.example/" + genWord(rng, 6)
		wantURL = cfg.URL
	}
	if rng.Intn(2) == 0 {
		cfg.HBCIVersion = []int{220, 300, 220, 300, 201, 400, 1}[rng.Intn(7)]
		wantVersion = cfg.HBCIVersion
	}
	ok := (wantVersion == 220 || wantVersion == 300) && wantURL != ""
	url, version, err := "", "", error(nil)
	if wantURL == "" {
		// A transport given may know the way itself.
		_, err = client.New(cfg)
	} else {
		url, version, err = firstRequest(cfg)
	}
	c.Count("clients", 1)
	c.State("config %v %v %v %d", e.BankID != "", cfg.URL != "", ok, wantVersion)
	if ok && (err != nil || url != wantURL || version != strconv.Itoa(wantVersion)) {
		c.Fail("config", "%+v with the entry %+v: uses %s with version %s (error %v)", cfg, e, url, version, err)
	}
	if !ok && err == nil {
		c.Fail("config", "%+v with the entry %+v: a client for %q with version %s was created", cfg, e, url, version)
	}
}

func versionCase(c *vt.C) {
	names := map[string]int{"HBCI 2.2 Erweiterung PIN/TAN V1.01": 220, "FinTS V3.0": 300, "FinTS V4.0": 400, "FinTS V4.1": 410, "": 0, "FinTS": -1, "FinTS V3.0 ": -1, "3.0": -1}
	numbers := map[string]int{"2.1": 210, "2.2": 220, "3.0": 300, "4.0": 400, "4.1": 410, "": 0, "3": -1, "30": -1, "FinTS V3.0": -1}
	for name, a := range names {
		for number, b := range numbers {
			got := 0
			_, _, ok := vt.Try(func() { got = bankinfo.BankInfo{VersionName: name, VersionNumber: number}.HbciVersion() })
			want := max(a, b)
			switch {
			case a < 0 || b < 0:
				if ok {
					c.Fail("version", "the unknown version %q, %q was read as %d", name, number, got)
				}
			case want == 0:
				if ok && got > 0 {
					c.Fail("version", "no version was read as %d", got)
				}
			case !ok || got != want:
				c.Fail("version", "%q, %q: %d (ok %v) instead of %d", name, number, got, ok, want)
			}
			c.State("version %s %s", name, number)
		}
	}
}

// ---- directory files

var infoColumns = map[string]func(*bankinfo.BankInfo) *string{
	"BLZ":                   func(b *bankinfo.BankInfo) *string { return &b.BankID },
	"BIC":                   func(b *bankinfo.BankInfo) *string { return &b.BIC },
	"Institut":              func(b *bankinfo.BankInfo) *string { return &b.Institute },
	"HBCI-Version":          func(b *bankinfo.BankInfo) *string { return &b.VersionNumber },
	"PIN/TAN-Zugang URL":    func(b *bankinfo.BankInfo) *string { return &b.URL },
	"Version":               func(b *bankinfo.BankInfo) *string { return &b.VersionName },
	"Ort":                   func(b *bankinfo.BankInfo) *string { return &b.City },
	"Datum letzte Änderung": func(b *bankinfo.BankInfo) *string { return &b.LastChanged },
}

var otherColumns = []string{"Nr.", "RZ", "Organisation", "HBCI-Zugang DNS", "HBCI- Zugang     IP-Adresse", "DDV", "RDH-1", "RDH-10", "BLZ alt", "Bank-leitzahl", "URL", "Institut 2", "version", "PIN/TAN"}

func csvField(rng *rand.Rand, s string) string {
	if strings.ContainsAny(s, ";\"\n\r") || strings.TrimSpace(s) != s || rng.Intn(6) == 0 {
		s = `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	if rng.Intn(12) == 0 {
		s = " " + s
	}
	return s
}

func csvText(rng *rand.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return ""
	case 1:
		return genWord(rng, 10)
	case 2:
		return []string{"Sparkasse \"Süd\"", "a;b", "O'Neill & Co. KG", `C:\temp\x`, "Zeile 1\nZeile 2", "#1", "Fürstenwalde /Spree", "`tick`", "{{.BIC}}", "<b>&amp;", "\u00ad", "100%", "%s%d", `\"`, "\\"}[rng.Intn(15)]
	case 3:
		return "https://bank.example/" + genWord(rng, 6) + "?a=1&b=%2B"
	}
	const letters = "abcxyzABC019ÄÖÜßé ;,'\"\\/.-+&%#"
	rs := []rune(letters)
	var b strings.Builder
	for i := 0; i < 1+rng.Intn(15); i++ {
		b.WriteRune(rs[rng.Intn(len(rs))])
	}
	return strings.TrimSpace(b.String())
}

// genFile writes a directory file; without ids, and those of again, may repeat.
func genFile(rng *rand.Rand, n int, ids map[string]bool, again ...string) (text string, entries []bankinfo.BankInfo, rows, cols int) {
	var header []string
	for h := range infoColumns {
		if h == "BLZ" || rng.Intn(10) > 0 {
			header = append(header, h)
		}
	}
	sort.Strings(header)
	for _, h := range otherColumns {
		if rng.Intn(3) == 0 {
			header = append(header, h)
		}
	}
	rng.Shuffle(len(header), func(i, j int) { header[i], header[j] = header[j], header[i] })
	for rng.Intn(3) == 0 {
		header = append(header, "")
	}
	nl := []string{"\n", "\r\n"}[rng.Intn(2)]
	var b strings.Builder
	row := func(fields []string) {
		for i := range fields {
			fields[i] = csvField(rng, fields[i])
		}
		b.WriteString(strings.Join(fields, ";"))
	}
	row(append([]string(nil), header...))
	var prev []string
	var prevEntry bankinfo.BankInfo
	for i := 0; i < n; i++ {
		b.WriteString(nl)
		if rng.Intn(15) == 0 {
			b.WriteString(nl) // an empty line
		}
		if ids == nil && prev != nil && rng.Intn(10) == 0 {
			row(append([]string(nil), prev...)) // the same record again
			if prevEntry.BankID != "" {
				entries = append(entries, prevEntry)
			}
			continue
		}
		var e bankinfo.BankInfo
		var fields []string
		for _, h := range header {
			f, ok := infoColumns[h]
			v := csvText(rng)
			if h == "BLZ" {
				v = genDigits(rng, 8)
				for ids[v] {
					v = genDigits(rng, 8)
				}
				if ids != nil {
					ids[v] = true
				}
				if len(again) > 0 && rng.Intn(4) == 0 {
					v = again[rng.Intn(len(again))]
				}
				if rng.Intn(12) == 0 {
					v = ""
				}
			}
			if ok {
				*f(&e) = v
			}
			fields = append(fields, v)
		}
		if rng.Intn(8) == 0 { // a short row
			k := 1 + rng.Intn(len(fields))
			for i := k; i < len(fields); i++ {
				if f, ok := infoColumns[header[i]]; ok {
					*f(&e) = ""
				}
			}
			fields = fields[:k]
		}
		if len(fields) == 1 && fields[0] == "" {
			fields[0] = "x"
			if f, ok := infoColumns[header[0]]; ok {
				*f(&e) = "x"
			}
		}
		prev, prevEntry = append([]string(nil), fields...), e
		row(fields)
		if e.BankID != "" {
			entries = append(entries, e)
		}
	}
	if rng.Intn(2) == 0 {
		b.WriteString(nl)
	}
	return b.String(), entries, n, len(header)
}

type failing struct {
	io.Reader
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.Reader.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

var errDisk = errors.New("bad disk")

func fileCase(c *vt.C) {
	rng := c.Rng
	text, want, rows, cols := genFile(rng, rng.Intn(30), nil)
	fault := "none"
	var in io.Reader = strings.NewReader(text)
	switch rng.Intn(6) {
	case 0:
		fault = "reading"
		in = &failing{strings.NewReader(text[:rng.Intn(len(text)+1)]), errDisk}
	case 1:
		fault = "malformed"
		text += []string{"\nabc\"def;x", "\n\"abc;def", "\n\"abc\"def;x", "\n1;2\"3;4\n5;6"}[rng.Intn(4)]
		in = strings.NewReader(text)
	}
	c.State("file %d %d %s", rows, cols, fault)
	if rng.Intn(3) == 0 {
		bicCase(c, text, fault)
	}
	got, err := bankinfo.ParseBankInfos(in)
	c.Count("files", 1)
	if fault != "none" {
		c.Count("malformed_files", 1)
		if err == nil {
			c.Fail("file-error", "%s: no error, %d entries read from %q", fault, len(got), text)
		}
		return
	}
	if err != nil {
		c.Fail("file", "error %v reading %q", err, text)
		return
	}
	c.Count("entries", len(got))
	compareInfos(c, "file", text, got, want)
}

func compareInfos(c *vt.C, key, text string, got, want []bankinfo.BankInfo) {
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			var g interface{} = "nothing"
			if i < len(got) {
				g = got[i]
			}
			c.Fail(key, "entry %d is %+v instead of %+v in\n%s", i, g, want[i], text)
			return
		}
	}
	if len(got) != len(want) {
		c.Fail(key, "%d entries instead of %d: more is %+v in\n%s", len(got), len(want), got[len(want)], text)
	}
}

// bicCase reads BIC data.
func bicCase(c *vt.C, _ string, fault string) {
	rng := c.Rng
	header := []string{"Bank-leitzahl", "BIC", "Merkmal", "Bezeichnung", "PLZ", "Ort", "BLZ"}
	rng.Shuffle(len(header), func(i, j int) { header[i], header[j] = header[j], header[i] })
	text := strings.Join(header, ";")
	var want []bankinfo.BicInfo
	for i := 0; i < rng.Intn(20); i++ {
		text += "\n"
		var b bankinfo.BicInfo
		for j, h := range header {
			v := csvText(rng)
			switch h {
			case "Bank-leitzahl":
				if rng.Intn(10) > 0 {
					v = genDigits(rng, 8)
				} else {
					v = ""
				}
				b.BankID = v
			case "BIC":
				b.BIC = v
			}
			if j > 0 {
				text += ";"
			}
			text += csvField(rng, v)
		}
		if b.BankID != "" {
			want = append(want, b)
		}
	}
	var in io.Reader = strings.NewReader(text)
	switch fault {
	case "reading":
		in = &failing{in, errDisk}
	case "malformed":
		in = strings.NewReader(text + "\n\"open")
	}
	got, err := bankinfo.ParseBicData(in)
	if fault != "none" {
		if err == nil {
			c.Fail("bic-error", "%s: no error, %d entries read from %q", fault, len(got), text)
		}
		return
	}
	if err != nil || len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
		c.Fail("bic", "%+v (error %v) instead of %+v reading\n%s", got, err, want, text)
	}
}

func sortCase(c *vt.C) {
	rng := c.Rng
	var list []bankinfo.BankInfo
	for i := 0; i < rng.Intn(40); i++ {
		list = append(list, bankinfo.BankInfo{BankID: genDigits(rng, []int{8, 8, 7, 2}[rng.Intn(4)]), City: strconv.Itoa(i)})
	}
	sorted := append([]bankinfo.BankInfo(nil), list...)
	sort.Sort(bankinfo.SortableBankInfos(sorted))
	c.State("sort %d", len(list))
	seen := map[string]string{}
	for _, e := range list {
		seen[e.City] = e.BankID
	}
	for i, e := range sorted {
		if i > 0 && sorted[i-1].BankID > e.BankID {
			c.Fail("sort", "%q is sorted before %q", sorted[i-1].BankID, e.BankID)
		}
		if id, ok := seen[e.City]; !ok || id != e.BankID {
			c.Fail("sort", "entry %+v was not there before sorting or twice", e)
		}
		delete(seen, e.City)
	}
	if len(seen) > 0 {
		c.Fail("sort", "entries lost by sorting: %v", seen)
	}
}

var bankTool string

func goCommand(dir string, stdin string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	out, err := cmd.Output()
	if err != nil {
		err = fmt.Errorf("%v: %s", err, errOut.String())
	}
	return out, err
}

// choices are the entries of a bank that a lookup may find: those with a URL
// if there are some.
func choices(all []bankinfo.BankInfo, id string) []bankinfo.BankInfo {
	var with, without []bankinfo.BankInfo
	for _, e := range all {
		switch {
		case e.BankID != id:
		case e.URL != "":
			with = append(with, e)
		default:
			without = append(without, e)
		}
	}
	if len(with) > 0 {
		return with
	}
	return without
}

func slicesHas(all []bankinfo.BankInfo, e bankinfo.BankInfo) bool {
	for _, x := range all {
		if x == e {
			return true
		}
	}
	return false
}

// toolCase lets the tool write the directory from files, builds a program
// with it and looks all the entries up.
func toolCase(c *vt.C) {
	rng := c.Rng
	data := filepath.Join(os.Getenv("VERIF_REPO"), "bankinfo", "data.go")
	if _, err := os.Stat(data); err != nil {
		return
	}
	if bankTool == "" {
		bankTool = filepath.Join(c.R.Scratch, "bankdata_parser")
		if out, err := goCommand("", "", "go", "build", "-o", bankTool, "github.com/mitch000001/go-hbci/cmd/bankdata_parser"); err != nil {
			panic(fmt.Sprintf("building the tool: %v %s", err, out))
		}
	}
	dir, err := os.MkdirTemp(c.R.Scratch, "tool")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "bankinfo"), 0o777)
	ids := map[string]bool{}
	var want []bankinfo.BankInfo
	var files []string
	for i := 0; i <= rng.Intn(3); i++ {
		var again []string // banks may be in more than one file
		for _, e := range want {
			again = append(again, e.BankID)
		}
		text, entries, _, _ := genFile(rng, 20+rng.Intn(60), ids, again...)
		want = append(want, entries...)
		name := fmt.Sprintf("f%d.csv", i)
		var latin []byte
		for _, r := range text {
			latin = append(latin, byte(r))
		}
		if err := os.WriteFile(filepath.Join(dir, name), latin, 0o666); err != nil {
			panic(err)
		}
		files = append(files, name)
	}
	c.Count("tool_entries", len(want))
	for _, e := range want {
		if len(choices(want, e.BankID)) > 1 {
			c.Count("tool_entries of repeated banks", 1)
		}
	}
	c.State("tool %d %d", len(files), len(want))
	if _, err := goCommand(dir, "", bankTool, files...); err != nil {
		c.Fail("tool", "the tool failed: %v", err)
		return
	}
	gen, err := os.ReadFile(filepath.Join(dir, "bankinfo", "data.go"))
	if err != nil {
		c.Fail("tool", "the tool wrote no directory: %v", err)
		return
	}
	overlay := filepath.Join(dir, "overlay.json")
	genFile := filepath.Join(dir, "bankinfo", "data.go")
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {data: genFile}})
	if err := os.WriteFile(overlay, b, 0o666); err != nil {
		panic(err)
	}
	prog := filepath.Join(dir, "bankq")
	if _, err := goCommand("", "", "go", "build", "-overlay", overlay, "-o", prog, "./bankq"); err != nil {
		c.Fail("tool", "the directory written by the tool does not compile: %v\n%s", err, firstLines(string(gen), 20))
		return
	}
	var in strings.Builder
	for _, e := range want {
		in.WriteString(e.BankID + "\n" + e.BankID[:len(e.BankID)-1] + "\n")
	}
	out, err := goCommand(dir, in.String(), prog)
	if err != nil {
		c.Fail("tool", "looking up: %v", err)
		return
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for _, e := range want {
		var got, none bankinfo.BankInfo
		if err := dec.Decode(&got); err != nil {
			panic(err)
		}
		if err := dec.Decode(&none); err != nil {
			panic(err)
		}
		if !slicesHas(choices(want, e.BankID), got) {
			c.Fail("tool", "the directory written has %+v instead of one of %+v", got, choices(want, e.BankID))
		}
		if none != (bankinfo.BankInfo{}) && !ids[e.BankID[:len(e.BankID)-1]] {
			c.Fail("tool", "the directory written has %+v for %q", none, e.BankID[:len(e.BankID)-1])
		}
	}
}
