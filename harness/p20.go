//go:build p20 || all

package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/mitch000001/go-hbci/generator"

	"verif/harness/vt"
	"verif/harness/wire"
)

//go:embed p20drv.txt
var driver20 string

func init() {
	register(&property{
		id:   "P20",
		rule: "a case is a batch of generated segment declarations, run through the generator or its command, compiled into the package segment and fed with segments; further cases are declarations to be refused and the regeneration of all decoders of the package. Distinct states are the shapes of declarations.",
		fn:   runP20,
		assumptions: []string{
			"the decoding of a single data element by its own type is the reference for the decoding of the segment (P01, P19 judge the elements)",
			"only the last element of a declaration may be a list",
		},
	})
}

// elem20 writes data elements of the type.
var elem20 = map[string]func(rng *rand.Rand) []byte{
	"AlphaNumericDataElement": func(rng *rand.Rand) []byte { return wire.T(genText1(rng, 20)) },
	"TextDataElement":         func(rng *rand.Rand) []byte { return wire.T(genText1(rng, 40)) },
	"DigitDataElement":        func(rng *rand.Rand) []byte { return wire.Raw(genDigits(rng, 5)) },
	"NumberDataElement":       func(rng *rand.Rand) []byte { return wire.I(rng.Intn(1e6)) },
	"FloatDataElement":        func(rng *rand.Rand) []byte { return wire.Raw(centsWire(genCents(rng))) },
	"ValueDataElement":        func(rng *rand.Rand) []byte { return wire.Raw(centsWire(genCents(rng))) },
	"BinaryDataElement":       func(rng *rand.Rand) []byte { return wire.Bin(append(genBytes(rng, 30), '+')) },
	"BooleanDataElement":      func(rng *rand.Rand) []byte { return wire.Raw("JN"[rng.Intn(2):][:1]) },
	"DateDataElement":         func(rng *rand.Rand) []byte { return wire.Raw(genDate(rng).Format("20060102")) },
	"TimeDataElement": func(rng *rand.Rand) []byte {
		h, m, s := genClock(rng)
		return wire.Raw(fmt.Sprintf("%02d%02d%02d", h, m, s))
	},
	"IdentificationDataElement": func(rng *rand.Rand) []byte { return wire.T(genText1(rng, 30)) },
	"CountryCodeDataElement":    func(rng *rand.Rand) []byte { return wire.Raw("280") },
	"CurrencyDataElement":       func(rng *rand.Rand) []byte { return wire.T(currencies[rng.Intn(len(currencies))]) },
	"AmountDataElement": func(rng *rand.Rand) []byte {
		return wire.G(wire.Raw(centsWire(genCents(rng))), wire.Raw("EUR"))
	},
	"BankIdentificationDataElement": func(rng *rand.Rand) []byte { return wire.G(wire.Raw("280"), wire.Raw(genDigits(rng, 8))) },
	"AccountConnectionDataElement": func(rng *rand.Rand) []byte {
		return wire.G(wire.T(genText1(rng, 10)), wire.T(genText(rng, 5)), wire.Raw("280"), wire.Raw(genDigits(rng, 8)))
	},
	"BalanceDataElement": func(rng *rand.Rand) []byte {
		return wire.G(wire.Raw("CD"[rng.Intn(2):][:1]), wire.Raw(centsWire(genCents(rng))), wire.Raw("EUR"), wire.Raw(genDate(rng).Format("20060102")))
	},
	"AcknowledgementDataElement": func(rng *rand.Rand) []byte {
		return wire.G(wire.Raw("0010"), wire.T(genText(rng, 5)), wire.T(genText1(rng, 20)), wire.T(genText1(rng, 20)))
	},
	"ReferencingMessageDataElement": func(rng *rand.Rand) []byte { return wire.G(wire.T(genText1(rng, 10)), wire.I(1+rng.Intn(50))) },
	"SupportedLanguagesDataElement": func(rng *rand.Rand) []byte { return wire.G(wire.I(1), wire.I(2), wire.I(3)) },
	"SecurityIdentificationDataElement": func(rng *rand.Rand) []byte {
		return wire.G(wire.I(1), wire.Bin([]byte("+'")), wire.T(genText1(rng, 10)))
	},
}

var elems20 = func() []string {
	var out []string
	for t := range elem20 {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}()

// list20 is the element that takes the rest of the segment.
const list20 = "AllowedBusinessTransactionsDataElement"

func listElem20(rng *rand.Rand) []byte {
	return wire.G(wire.Raw("HK"+strings.ToUpper(genWord(rng, 3))), wire.I(rng.Intn(4)))
}

type field20 struct{ name, typ string }

// decl20 is a declared segment, with versions or without.
type decl20 struct {
	name, iface, id string
	ver             int
	fields          []field20 // in the order of the struct
	listed          []field20 // in the order of the elements
	versions        []*decl20
	types           string
	recv            string
	shape           string
}

func name20(rng *rand.Rand, prefix string) string {
	w := genWord(rng, 8)
	return prefix + strings.ToUpper(w[:1]) + strings.ToLower(w[1:])
}

func fields20(rng *rand.Rand, d *decl20) {
	n := rng.Intn(7)
	switch rng.Intn(8) {
	case 0:
		n = 13 + rng.Intn(14)
	case 1:
		n = 1
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := field20{name20(rng, ""), elems20[rng.Intn(len(elems20))]}
		if seen[f.name] || strings.ContainsFunc(f.name, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) || f.name == "Segment" || f.name == "Header" || f.name == "String" || f.name == "Version" {
			f.name = fmt.Sprintf("F%d", i)
		}
		// The name of another with a tail.
		if i > 0 && rng.Intn(6) == 0 {
			f.name = d.fields[rng.Intn(i)].name + fmt.Sprint(i)
		}
		if seen[f.name] {
			f.name = fmt.Sprintf("G%d", i)
		}
		seen[f.name] = true
		d.fields = append(d.fields, f)
		if rng.Intn(6) > 0 {
			d.listed = append(d.listed, f)
		}
	}
	if rng.Intn(2) == 0 {
		rng.Shuffle(len(d.listed), func(i, j int) { d.listed[i], d.listed[j] = d.listed[j], d.listed[i] })
	}
	if rng.Intn(8) == 0 && len(d.listed) > 0 {
		l := field20{"Rest", list20}
		d.fields = append(d.fields, l)
		d.listed = append(d.listed, l)
	}
}

// source20 writes the declaration of a segment without versions.
func source20(rng *rand.Rand, d *decl20) string {
	var b strings.Builder
	typ := func() {
		if rng.Intn(3) == 0 {
			fmt.Fprintf(&b, "// %s is a segment. elements: []element.DataElement\n", d.name)
		}
		embed := "\t" + d.iface + "\n"
		fmt.Fprintf(&b, "type %s struct {\n", d.name)
		last := rng.Intn(8) == 0
		if !last {
			b.WriteString(embed)
		}
		for _, f := range d.fields {
			switch rng.Intn(6) {
			case 0:
				fmt.Fprintf(&b, "\t%s *element.%s // %s\n", f.name, f.typ, genWord(rng, 5))
			case 1:
				fmt.Fprintf(&b, "\n\t%s *element.%s `json:\"x\"`\n", f.name, f.typ)
			default:
				fmt.Fprintf(&b, "\t%s *element.%s\n", f.name, f.typ)
			}
		}
		if last {
			b.WriteString(embed)
		}
		b.WriteString("}\n\n")
	}
	elements := func() {
		fmt.Fprintf(&b, "func (%s *%s) elements() []element.DataElement {\n\treturn []element.DataElement{", d.recv, d.name)
		style := rng.Intn(4)
		if len(d.listed) > 12 && rng.Intn(2) == 0 {
			style = 0
		}
		d.shape += fmt.Sprintf(" style %d", style)
		for i, f := range d.listed {
			x := d.recv + "." + f.name
			switch {
			case style == 0: // one line
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(x)
			case style == 1 && rng.Intn(2) == 0:
				fmt.Fprintf(&b, "\n\t\t// %s,\n\t\t%s,", f.name, x)
			case style == 2 && rng.Intn(2) == 0:
				fmt.Fprintf(&b, " %s,", x)
			default:
				fmt.Fprintf(&b, "\n\t\t%s,", x)
			}
		}
		if style != 0 && len(d.listed) > 0 {
			b.WriteString("\n\t")
		}
		b.WriteString("}\n}\n\n")
	}
	methods := func() {
		fmt.Fprintf(&b, "func (x *%[1]s) Version() int { return %[2]d }\nfunc (x *%[1]s) ID() string { return %[3]q }\nfunc (x *%[1]s) referencedId() string { return \"\" }\nfunc (x *%[1]s) sender() string { return senderBank }\n\n", d.name, d.ver, d.id)
	}
	parts := []func(){typ, elements, methods}
	rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		p()
	}
	return b.String()
}

// noise20 is what else may be in the file.
func noise20(rng *rand.Rand, unique string) string {
	var b strings.Builder
	if rng.Intn(2) == 0 {
		fmt.Fprintf(&b, "type other%s struct{ Abc, Def *element.TextDataElement }\n\nfunc (o *other%s) elements() []element.DataElement {\n\treturn []element.DataElement{o.Def, o.Abc}\n}\n\n", unique, unique)
	}
	if rng.Intn(3) == 0 {
		fmt.Fprintf(&b, "func more%s(x *element.TextDataElement) []element.DataElement {\n\treturn []element.DataElement{x, x}\n}\n\n", unique)
	}
	return b.String()
}

// declare20 draws a declaration and writes its file.
func declare20(rng *rand.Rand, n int, unique string) (*decl20, string) {
	d := &decl20{recv: string(rune('a' + rng.Intn(26)))}
	d.name = name20(rng, []string{"Gen", "gen", "Z", "Ä"}[rng.Intn(4)]) + unique
	d.id = fmt.Sprintf("ZQ%d", n)
	src := "package segment\n\nimport \"github.com/mitch000001/go-hbci/element\"\n\n"
	custom := func(iface string) string {
		if rng.Intn(3) > 0 {
			return iface
		}
		name := fmt.Sprintf("iface%s%d", unique, rng.Intn(1e9))
		src += fmt.Sprintf("type %s interface {\n\t%s\n}\n\n", name, iface)
		return name
	}
	single := func(d *decl20) string {
		d.iface = custom([]string{"Segment", "ClientSegment"}[rng.Intn(2)])
		fields20(rng, d)
		d.shape = fmt.Sprintf("%d fields %d listed", len(d.fields), len(d.listed))
		return source20(rng, d)
	}
	var texts []string
	if rng.Intn(3) == 0 {
		d.ver = 1 + rng.Intn(9)
		texts = append(texts, single(d))
	} else {
		d.iface = custom("BankSegment")
		texts = append(texts, fmt.Sprintf("type %s struct {\n\t%s\n}\n\n", d.name, d.iface))
		ver := 1
		for k := 1 + rng.Intn(4); k > 0; k-- {
			v := &decl20{name: fmt.Sprintf("%sV%d", d.name, ver), id: d.id, ver: ver, recv: string(rune('a' + rng.Intn(26)))}
			texts = append(texts, single(v))
			d.versions = append(d.versions, v)
			d.shape += fmt.Sprintf("|%s", v.shape)
			ver += 1 + rng.Intn(3)*rng.Intn(4)
		}
		rng.Shuffle(len(d.versions), func(i, j int) { d.versions[i], d.versions[j] = d.versions[j], d.versions[i] })
	}
	texts = append(texts, noise20(rng, unique))
	rng.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
	return d, src + strings.Join(texts, "")
}

func (d *decl20) identifier() generator.SegmentIdentifier {
	s := generator.SegmentIdentifier{Name: d.name, InterfaceName: d.iface, Version: d.ver}
	for _, v := range d.versions {
		s.Versions = append(s.Versions, v.identifier())
	}
	return s
}

// generate20 runs the generator on the source.
func generate20(id generator.SegmentIdentifier, name, src string) (out []byte, err error) {
	fset := token.NewFileSet()
	var f *ast.File
	if f, err = parser.ParseFile(fset, name, src, 0); err != nil {
		return nil, err
	}
	var r io.Reader
	if len(id.Versions) > 0 {
		r, err = generator.NewVersionedSegmentUnmarshaler(id, "segment", fset, f).Generate()
	} else {
		r, err = generator.NewSegmentUnmarshaler(id, "segment", fset, f).Generate()
	}
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// args20 are the arguments of the command for the declaration.
func (d *decl20) args(rng *rand.Rand) []string {
	args := []string{"-segment", d.name}
	if d.iface != "Segment" || rng.Intn(2) == 0 {
		args = append(args, "-segment_interface", d.iface)
	}
	var vs []string
	for _, v := range d.versions {
		s := fmt.Sprintf("%s:%d", v.name, v.ver)
		if v.iface != "Segment" || rng.Intn(2) == 0 {
			s += ":" + v.iface
		}
		vs = append(vs, s)
	}
	if len(vs) > 0 {
		args = append(args, fmt.Sprintf("-segment_versions=%q", strings.Join(vs, ",")))
	}
	return args
}

// cmd20 runs a command of the unmarshaler generator.
func cmd20(bin, dir, file string, args []string) (string, error) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFILE="+file, "GOPACKAGE=segment")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func build20(c *vt.C, dir string, args ...string) (string, bool) {
	cmd := exec.Command("go", append([]string{"build"}, args...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	return string(out), err == nil
}

func buildCommand20(c *vt.C, dir string) string {
	bin := filepath.Join(dir, "unmarshaler")
	if out, ok := build20(c, ".", "-o", bin, "github.com/mitch000001/go-hbci/cmd/unmarshaler"); !ok {
		panic("the generator command does not build: " + out)
	}
	return bin
}

type vector20 struct {
	Type, Want string
	Registered bool
	ID         string
	Pos, Ver   int
	Ref        int
	Header     []byte
	Elements   [][]byte
	Fields     []string
	Absent     []string
	End        string
	MustFail   bool
}

// vector draws a segment of the declaration.
func (d *decl20) vector(rng *rand.Rand) vector20 {
	t := d
	if len(d.versions) > 0 {
		t = d.versions[rng.Intn(len(d.versions))]
	}
	v := vector20{Type: d.name, Want: t.name, ID: d.id, Pos: 1 + rng.Intn(999), Ver: t.ver, End: "'"}
	if len(d.versions) == 0 || rng.Intn(3) == 0 {
		v.Type, v.Registered = t.name, rng.Intn(2) == 0
	}
	if rng.Intn(2) == 0 {
		v.Ref = 1 + rng.Intn(99)
	}
	hdr := [][]byte{wire.Raw(v.ID), wire.I(v.Pos), wire.I(v.Ver)}
	if v.Ref > 0 {
		hdr = append(hdr, wire.I(v.Ref))
	}
	absent := []int{0, 3, 8}[rng.Intn(3)]
	spoil := rng.Intn(4) == 0
	listed := map[string]bool{}
	for _, f := range t.listed {
		v.Fields = append(v.Fields, f.name)
		listed[f.name] = true
		var e []byte
		switch {
		case f.typ == list20:
			for n := rng.Intn(4); n >= 0; n-- {
				v.Elements = append(v.Elements, listElem20(rng))
			}
			continue
		case rng.Intn(10) < absent:
		case spoil && rng.Intn(3) == 0:
			e = wire.T(genText1(rng, 6))
		default:
			e = elem20[f.typ](rng)
		}
		v.Elements = append(v.Elements, e)
	}
	for _, f := range t.fields {
		if !listed[f.name] {
			v.Absent = append(v.Absent, f.name)
		}
	}
	// What is left out at the end has no separators.
	for n := len(v.Elements); n > 0 && len(v.Elements[n-1]) == 0 && rng.Intn(3) > 0; n-- {
		v.Elements = v.Elements[:n-1]
	}
	switch {
	case rng.Intn(12) == 0:
		v.MustFail = true
		hdr[1+rng.Intn(len(hdr)-1)] = wire.Raw("x")
	case rng.Intn(12) == 0 && v.Type != v.Want:
		v.MustFail = true
	unknown:
		for {
			v.Ver = rng.Intn(30)
			for _, o := range d.versions {
				if o.ver == v.Ver {
					continue unknown
				}
			}
			break
		}
		hdr[2] = wire.I(v.Ver)
	}
	v.Header = wire.G(hdr...)
	return v
}

func runP20(r *vt.Run) {
	r.Require("declarations compiled", r.N(150, 1500))
	r.Require("declarations with versions", r.N(60, 600))
	r.Require("more than twelve elements on a line", r.N(2, 20))
	r.Require("files written by the command", r.N(30, 300))
	r.Require("segments decoded", r.N(2000, 40000))
	r.Require("elements decoded", r.N(6000, 120000))
	r.Require("elements left out", r.N(1000, 20000))
	r.Require("malformed", r.N(200, 4000))
	r.Require("refused", r.N(100, 2000))
	r.Require("declarations refused", r.N(100, 1000))
	r.Require("decoders regenerated", 15)
	for i := 0; i < r.N(8, 80); i++ {
		r.Case(fmt.Sprintf("batch/%d", i), func(c *vt.C) { batch20(c, i, r.N(30, 100), r.N(20, 40)) })
	}
	for i := 0; i < r.N(120, 1200); i++ {
		r.Case(fmt.Sprintf("refuse/%d", i), refuse20)
	}
	r.Case("command", refuseCommand20)
	r.Case("regenerate", regenerate20)
}

func batch20(c *vt.C, batch, decls, vectors int) {
	dir := filepath.Join(c.R.Scratch, fmt.Sprintf("batch%d", batch))
	gen := filepath.Join(dir, "gen")
	drv := filepath.Join(dir, "drv")
	for _, d := range []string{gen, drv} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(dir)
	bin := buildCommand20(c, dir)
	segdir := filepath.Join(os.Getenv("VERIF_REPO"), "segment")
	overlay := map[string]string{}
	put := func(name string, content []byte) {
		p := filepath.Join(gen, name)
		if err := os.WriteFile(p, content, 0o644); err != nil {
			panic(err)
		}
		overlay[filepath.Join(segdir, name)] = p
	}
	var all []*decl20
	var names, inner []string
	var vecs []vector20
	for n := 0; n < decls; n++ {
		d, src := declare20(c.Rng, n, fmt.Sprintf("Q%dq", n))
		file := fmt.Sprintf("verif_%d.go", n)
		out := fmt.Sprintf("verif_%d_unmarshaler.go", n)
		var code []byte
		var err error
		if c.Rng.Intn(3) == 0 {
			put(file, []byte(src))
			var msg string
			if msg, err = cmd20(bin, gen, file, d.args(c.Rng)); err == nil {
				code, err = os.ReadFile(filepath.Join(gen, out))
				c.Count("files written by the command", 1)
			} else {
				err = fmt.Errorf("%v: %s", err, msg)
			}
		} else {
			code, err = generate20(d.identifier(), file, src)
			if err == nil {
				again, _ := generate20(d.identifier(), file, src)
				if !bytes.Equal(code, again) {
					c.Fail("generate:unsteady", "the same declaration is generated differently:\n%s", src)
				}
			}
		}
		if err != nil {
			c.Fail("generate:error", "%v\n%s", err, src)
			continue
		}
		put(file, []byte(src))
		put(out, code)
		all = append(all, d)
		c.State("%s", d.shape)
		if len(d.versions) > 0 {
			inner = append(inner, fmt.Sprintf("%q: func(u interface{}) interface{} { return u.(*%s).%s }", d.name, d.name, d.iface))
			c.Count("declarations with versions", 1)
		}
		for _, t := range append([]*decl20{d}, d.versions...) {
			names = append(names, fmt.Sprintf("%q: func() interface{} { return &%s{} }", t.name, t.name))
			if len(t.listed) > 12 && strings.HasSuffix(t.shape, "style 0") {
				c.Count("more than twelve elements on a line", 1)
			}
		}
		for i := 0; i < vectors; i++ {
			vecs = append(vecs, d.vector(c.Rng))
		}
	}
	if c.Failed() {
		return
	}
	put("verif_registry.go", []byte("package segment\n\nvar VerifNew = map[string]func() interface{}{\n"+strings.Join(names, ",\n")+",\n}\n\nvar VerifInner = map[string]func(interface{}) interface{}{\n"+strings.Join(append(inner, ""), ",\n")+"\n}\n"))
	copyModule20(drv)
	if err := os.WriteFile(filepath.Join(drv, "main.go"), []byte(driver20), 0o644); err != nil {
		panic(err)
	}
	ov := overlay20(dir, overlay)
	prog := filepath.Join(dir, "driver")
	if out, ok := build20(c, drv, "-overlay", ov, "-o", prog, "."); !ok {
		c.Fail("generate:compile", "%s", explain20(out, gen))
		return
	}
	c.Count("declarations compiled", len(all))
	cmd := exec.Command(prog)
	in, _ := json.Marshal(vecs)
	cmd.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	var res struct {
		Problems []struct{ Key, Detail string }
		Counts   map[string]int
	}
	if err != nil || json.Unmarshal(out, &res) != nil {
		c.Fail("decode:crash", "%v %s", err, stderr.String())
		return
	}
	for _, p := range res.Problems {
		c.Fail("decode:"+p.Key, "%s", p.Detail)
	}
	for k, n := range res.Counts {
		c.Count(k, n)
	}
}

// explain20 shows the first file that does not compile.
func explain20(out, gen string) string {
	for _, line := range strings.Split(out, "\n") {
		i := strings.Index(line, "verif_")
		if i < 0 {
			continue
		}
		name := line[i:]
		if j := strings.Index(name, ":"); j > 0 {
			b, _ := os.ReadFile(filepath.Join(gen, name[:j]))
			src, _ := os.ReadFile(filepath.Join(gen, strings.Replace(name[:j], "_unmarshaler", "", 1)))
			return fmt.Sprintf("%s\n%s\nfrom\n%s", line, b, src)
		}
	}
	return out
}

func copyModule20(dir string) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			panic(err)
		}
	}
}

func overlay20(dir string, replace map[string]string) string {
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	p := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// refused20 are declarations the generator has no code for.
var refused20 = []struct{ what, from, to string }{
	{"a call", "s.Abc", "newElement()"},
	{"a literal", "s.Abc", "&element.TextDataElement{}"},
	{"nil", "s.Abc", "nil"},
	{"a field of a field", "s.Abc", "s.Sub.Abc"},
	{"an unknown field", "s.Abc", "s.Xyz"},
	{"a local", "s.Abc", "abc"},
	{"an index", "s.Abc", "s.List[0]"},
	{"an address", "s.Abc", "&s.Text"},
	{"a key", "s.Abc", "0: s.Abc"},
	{"a field that is no pointer", "Abc *element.AlphaNumericDataElement", "Abc element.DataElement"},
	{"a slice", "Abc *element.AlphaNumericDataElement", "Abc []*element.AlphaNumericDataElement"},
	{"a promoted field", "Abc *element.AlphaNumericDataElement", "Sub20"},
	{"no elements method", "elements()", "parts()"},
	{"more than one statement", "return []element", "s.Abc = nil\n\treturn []element"},
	{"no literal", "return []element.DataElement{", "return list("},
	{"another result", "return []element.DataElement{", "return dataElements{"},
	{"the elements of another", "(s *Seg)", "(s *Other)"},
}

const refusable20 = `package segment

import "github.com/mitch000001/go-hbci/element"

type Seg struct {
	Segment
	Abc *element.AlphaNumericDataElement
	Def *element.NumberDataElement
	Ghi *element.DateDataElement
}

func (s *Seg) elements() []element.DataElement {
	return []element.DataElement{
%s	}
}
`

func refuse20(c *vt.C) {
	f := refused20[c.Rng.Intn(len(refused20))]
	lines := []string{"\t\ts.Abc,\n", "\t\ts.Def,\n", "\t\ts.Ghi,\n"}
	c.Rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	src := fmt.Sprintf(refusable20, strings.Join(lines, ""))
	if !strings.Contains(src, f.from) {
		panic("declaration to be refused: " + f.what)
	}
	good := src
	src = strings.Replace(src, f.from, f.to, 1)
	if strings.HasSuffix(f.to, "list(") {
		src = strings.Replace(src, "\t}\n}\n", "\t)\n}\n", 1)
	}
	id := generator.SegmentIdentifier{Name: "Seg", InterfaceName: "Segment"}
	if c.Rng.Intn(2) == 0 {
		v := id
		v.Version = 1
		wrapper := "\ntype Wrap struct {\n\tBankSegment\n}\n"
		good, src = good+wrapper, src+wrapper
		id = generator.SegmentIdentifier{Name: "Wrap", InterfaceName: "BankSegment", Versions: []generator.SegmentIdentifier{v}}
	}
	try := func(what string, id generator.SegmentIdentifier, src string, refuse bool) {
		var code []byte
		var err error
		site, msg, ok := vt.Try(func() { code, err = generate20(id, "x.go", src) })
		switch {
		case !ok:
			c.Fail("refuse:panic:"+site, "%s: %s\n%s", what, msg, src)
		case refuse && err == nil:
			c.Fail("refuse:"+what, "%s is accepted\n%s\ngives\n%s", what, src, code)
		case !refuse && err != nil:
			c.Fail("refuse:good", "a plain declaration is refused: %v\n%s", err, src)
		case refuse:
			c.Count("declarations refused", 1)
		}
	}
	try("good", id, good, false)
	try(f.what, id, src, true)
	c.State("refuse %s %d", f.what, len(id.Versions))
	missing := id
	if len(id.Versions) > 0 && c.Rng.Intn(2) == 0 {
		missing.Versions = []generator.SegmentIdentifier{id.Versions[0], {Name: "SegV2", Version: 2, InterfaceName: "Segment"}}
	} else {
		missing.Name = "Nothing"
	}
	try("a segment that is not there", missing, good, true)
}

// refuseCommand20: the command tells failure, and leaves no file behind that
// is not a decoder.
func refuseCommand20(c *vt.C) {
	dir := filepath.Join(c.R.Scratch, "command")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := buildCommand20(c, dir)
	good := fmt.Sprintf(refusable20, "\t\ts.Abc,\n\t\ts.Def,\n")
	wrap := good + "\ntype Wrap struct {\n\tBankSegment\n}\n"
	for i, t := range []struct {
		what, src string
		args      []string
		ok        bool
	}{
		{"a good declaration", good, []string{"-segment", "Seg"}, true},
		{"a good versioned declaration", wrap, []string{"-segment", "Wrap", "-segment_versions=\"Seg:1\""}, true},
		{"no segment", good, nil, false},
		{"an unknown segment", good, []string{"-segment", "Geg"}, false},
		{"an unsupported element", strings.Replace(good, "s.Abc", "abc()", 1), []string{"-segment", "Seg"}, false},
		{"a syntax error behind the declaration", good + "\nfunc (\n", []string{"-segment", "Seg"}, false},
		{"a syntax error before the declaration", strings.Replace(good, "import", "imprt", 1), []string{"-segment", "Seg"}, false},
		{"a version without number", wrap, []string{"-segment", "Wrap", "-segment_versions=\"Seg\""}, false},
		{"a version that is no number", wrap, []string{"-segment", "Wrap", "-segment_versions=\"Seg:x\""}, false},
		{"an unknown version", wrap, []string{"-segment", "Wrap", "-segment_versions=\"Seg:1,Geg:2\""}, false},
		{"an interface that is none", good, []string{"-segment", "Seg", "-segment_interface", "a b"}, false},
		{"no source", "", []string{"-segment", "Seg"}, false},
	} {
		file := fmt.Sprintf("f%d.go", i)
		if t.src != "" {
			if err := os.WriteFile(filepath.Join(dir, file), []byte(t.src), 0o644); err != nil {
				panic(err)
			}
		}
		msg, err := cmd20(bin, dir, file, t.args)
		code, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("f%d_unmarshaler.go", i)))
		switch {
		case t.ok && (err != nil || rerr != nil || !bytes.Contains(code, []byte("UnmarshalHBCI"))):
			c.Fail("command:good", "%s: %v %s %v", t.what, err, msg, rerr)
		case !t.ok && err == nil:
			c.Fail("command:"+t.what, "%s: the command reports success: %s\n%q", t.what, msg, code)
		case !t.ok && strings.Contains(msg, "goroutine "):
			c.Fail("command:panic:"+t.what, "%s", msg)
		case !t.ok && rerr == nil:
			c.Fail("command:leftover:"+t.what, "%s: %s\nbut wrote %q", t.what, msg, code)
		}
		c.Count("commands", 1)
	}
}

// regenerate20 generates all decoders of the package anew and lets the
// monitors of P19 judge the result.
func regenerate20(c *vt.C) {
	repo := os.Getenv("VERIF_REPO")
	dir := filepath.Join(c.R.Scratch, "regenerate")
	src := filepath.Join(dir, "segment")
	if err := os.MkdirAll(src, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	files, err := filepath.Glob(filepath.Join(repo, "segment", "*.go"))
	if err != nil {
		panic(err)
	}
	bin := buildCommand20(c, dir)
	overlay := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		name := filepath.Base(f)
		var args []string
		for _, line := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(line, "//go:generate ") && strings.Contains(line, "cmd/unmarshaler") {
				words := strings.Fields(line)
				for i, w := range words {
					if strings.HasPrefix(w, "-segment") {
						args = words[i:]
						break
					}
				}
			}
		}
		if args == nil {
			continue
		}
		if err := os.WriteFile(filepath.Join(src, name), b, 0o644); err != nil {
			panic(err)
		}
		if msg, err := cmd20(bin, src, name, args); err != nil {
			c.Fail("regenerate:error", "%s: %v: %s", name, err, msg)
			return
		}
		out := strings.TrimSuffix(name, ".go") + "_unmarshaler.go"
		overlay[filepath.Join(repo, "segment", out)] = filepath.Join(src, out)
		c.Count("decoders regenerated", 1)
	}
	prog := filepath.Join(dir, "vrun19")
	if out, ok := build20(c, ".", "-tags", "p19", "-overlay", overlay20(dir, overlay), "-o", prog, "."); !ok {
		// A helper written by hand into one of the files is gone, which is not
		// the generator's doing.
		for _, m := range regexp.MustCompile(`undefined: (\w+)`).FindAllStringSubmatch(out, -1) {
			for old := range overlay {
				b, _ := os.ReadFile(old)
				if strings.Contains(string(b), "\nfunc "+m[1]+"(") {
					c.Count("helper lost", 1)
					return
				}
			}
		}
		c.Fail("regenerate:compile", "%s", out)
		return
	}
	judge := func(prog string) (string, bool) {
		cmd := exec.Command(prog, "-prop", "P19", "-tier", "quick", "-seed", fmt.Sprint(c.R.Seed), "-verif", dir)
		cmd.Env = append(os.Environ(), "VERIF_TIMES=")
		out, err := cmd.CombinedOutput()
		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
		if code != 0 && code != 1 {
			panic(fmt.Sprintf("monitors of the regenerated decoders: %v %s", err, out))
		}
		return string(out), code == 0
	}
	out, ok := judge(prog)
	if ok {
		return
	}
	// Not the generator's fault if the committed decoders do not fare better.
	if msg, ok := build20(c, ".", "-tags", "p19", "-o", prog, "."); !ok {
		panic(msg)
	}
	if _, ok := judge(prog); ok {
		c.Fail("regenerate:decoding", "regenerated decoders decode differently:\n%s", out)
	}
}
