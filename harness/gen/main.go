//go:build go1.21

// Runs the generators for tables on files in the format of the Unicode Character Database,
// and records the tables they write.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/npillmayer/uax/internal/zzverif/hlib"
)

type line struct {
	Lo int    `json:"lo"`
	Hi int    `json:"hi"`
	C  string `json:"c"`
}

type table struct {
	Name string   `json:"name"`
	Pub  bool     `json:"pub"` // known by its public name
	R16  [][3]int `json:"r16"`
	R32  [][3]int `json:"r32"`
	Lat  int      `json:"lat"`
}

type class struct {
	Name string   `json:"name"`
	R    [][2]int `json:"r"`
	Own  bool     `json:"own"` // listed at its own place
	Str  string   `json:"str"`
}

type obs struct {
	K       string   `json:"k"`
	M       string   `json:"m"`
	Gen     string   `json:"gen"`
	Pre     string   `json:"pre"`
	Lines   []line   `json:"lines"`
	Fail    bool     `json:"fail"` // the input cannot be read completely
	Err     bool     `json:"err"`  // the generator ends with an error
	Bad     string   `json:"bad"`  // the output is no Go code
	Pkg     string   `json:"pkg"`
	Tables  []table  `json:"tables"`
	Classes []class  `json:"classes"`
	Pairs   [][2]int `json:"pairs"`
}

var rng *rand.Rand

func pick(l ...string) string { return l[rng.Intn(len(l))] }

// --- input ------------------------------------------------------------------------------

// ranges returns ascending ranges which do not overlap, with a liking for the borders.
func ranges(n, maxlen int) [][2]int {
	at := []int{0, 1, 0xfe, 0xff, 0x100, 0x3ff, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x10fffe, 0x10ffff}
	m := map[int]bool{}
	for len(m) < 2*n {
		switch rng.Intn(5) {
		case 0:
			m[at[rng.Intn(len(at))]] = true
		case 1:
			m[rng.Intn(0x120)] = true
		case 2:
			m[0xffe0+rng.Intn(0x40)] = true
		default:
			m[rng.Intn(0x110000)] = true
		}
		for i := range m { // and neighbours
			if rng.Intn(6) == 0 && i < 0x10ffff {
				m[i+1] = true
			}
			break
		}
	}
	p := []int{}
	for i := range m {
		if i < 0xd7f0 || i > 0xe000 && i != 0xfffd {
			p = append(p, i)
		}
	}
	sort.Ints(p)
	var l [][2]int
	for i := 0; i < len(p); i++ {
		if i+1 < len(p) && rng.Intn(2) == 0 && p[i+1]-p[i] < maxlen && !(p[i] < 0xe000 && p[i+1] > 0xd7f0) &&
			!(p[i] < 0xfffd && p[i+1] > 0xfffd) {
			l = append(l, [2]int{p[i], p[i+1]})
			i++
		} else {
			l = append(l, [2]int{p[i], p[i]})
		}
	}
	return l
}

// data returns data lines; grouped: class by class, as in files of more than one property.
func data(classes []string, maxlen int) []line {
	l := []line{}
	if rng.Intn(3) == 0 { // grouped
		for _, i := range rng.Perm(len(classes))[:1+rng.Intn(len(classes))] {
			for _, r := range ranges(1+rng.Intn(8), maxlen) {
				l = append(l, line{r[0], r[1], classes[i]})
			}
		}
		return l
	}
	few := 1 + rng.Intn(len(classes))
	last := classes[0]
	for _, r := range ranges(1+rng.Intn(20), maxlen) {
		if rng.Intn(3) > 0 {
			last = classes[rng.Intn(few)]
		}
		l = append(l, line{r[0], r[1], last})
	}
	return l
}

// text writes lines with the class in a field (1..n), with white space and comments.
func text(l []line, field int) string {
	var b strings.Builder
	ws := pick("", " ", "    ")
	eol := pick("\n", "\n", "\n", "\r\n")
	if rng.Intn(2) == 0 {
		b.WriteString("# Name-13.0.0.txt" + eol + "#" + eol)
	}
	for i, x := range l {
		if rng.Intn(5) == 0 {
			b.WriteString(pick("", "#", "# @missing: 0000..10FFFF; Other", "# General_Category=Format") + eol)
		}
		fmt.Fprintf(&b, "%04X", x.Lo)
		if x.Hi != x.Lo || rng.Intn(20) == 0 {
			fmt.Fprintf(&b, "..%04X", x.Hi)
		}
		for f := 1; f < field; f++ {
			b.WriteString(ws + ";" + ws + pick("", "NAME", "No_Joining_Group"))
		}
		b.WriteString(ws + ";" + pick(ws, ws, " ") + x.C)
		if rng.Intn(6) == 0 {
			b.WriteString(ws + ";" + ws + "MORE")
		}
		if rng.Intn(2) == 0 {
			b.WriteString(pick(" ", "  ") + "# " + pick("Lo  [3] A..B", "E0.0   [1] (#️)", "x ; y"))
		}
		if i < len(l)-1 || rng.Intn(4) > 0 {
			b.WriteString(eol)
		}
	}
	return b.String()
}

// --- generated Go code ------------------------------------------------------------------

type stubs map[string]*types.Package

func (s stubs) Import(path string) (*types.Package, error) {
	if p, ok := s[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("import of %s not expected", path)
}

var imports = stubs{}

func stub(path, src string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		hlib.Die("stub %s: %v", path, err)
	}
	p, err := (&types.Config{Importer: imports}).Check(path, fset, []*ast.File{f}, nil)
	if err != nil {
		hlib.Die("stub %s: %v", path, err)
	}
	imports[path] = p
}

// code is a checked Go file
type code struct {
	f    *ast.File
	info *types.Info
	pkg  *types.Package
}

func load(src []byte, more string) (*code, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, 0)
	if err != nil {
		return nil, err
	}
	files := []*ast.File{f}
	if more != "" {
		g, err := parser.ParseFile(fset, "more.go", "package "+f.Name.Name+"\n"+more, 0)
		if err != nil {
			hlib.Die("%v", err)
		}
		files = append(files, g)
	}
	c := &code{f: f, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}}
	c.pkg, err = (&types.Config{Importer: imports}).Check(f.Name.Name, fset, files, c.info)
	return c, err
}

func (c *code) integer(e ast.Expr) int {
	tv := c.info.Types[e]
	if tv.Value == nil {
		panic("not a constant")
	}
	n, ok := constant.Int64Val(constant.ToInt(tv.Value))
	if !ok {
		panic("not an integer constant")
	}
	return int(n)
}

// values: initial values of the variables of the file
func (c *code) values() map[string]ast.Expr {
	m := map[string]ast.Expr{}
	for _, d := range c.f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i, n := range v.Names {
						if i < len(v.Values) {
							m[n.Name] = v.Values[i]
						}
					}
				}
			}
		}
	}
	return m
}

func (c *code) rangeTable(e ast.Expr) (t table, ok bool) {
	u, isU := e.(*ast.UnaryExpr)
	if !isU {
		return
	}
	l, isL := u.X.(*ast.CompositeLit)
	if !isL {
		return
	}
	t = table{R16: [][3]int{}, R32: [][3]int{}}
	for _, x := range l.Elts {
		kv := x.(*ast.KeyValueExpr)
		switch k := kv.Key.(*ast.Ident).Name; k {
		case "LatinOffset":
			t.Lat = c.integer(kv.Value)
		default:
			r := [][3]int{}
			for _, y := range kv.Value.(*ast.CompositeLit).Elts {
				var v [3]int
				for i, z := range y.(*ast.CompositeLit).Elts {
					if q, isKV := z.(*ast.KeyValueExpr); isKV {
						v[map[string]int{"Lo": 0, "Hi": 1, "Stride": 2}[q.Key.(*ast.Ident).Name]] = c.integer(q.Value)
					} else {
						v[i] = c.integer(z)
					}
				}
				r = append(r, v)
			}
			if k == "R16" {
				t.R16 = r
			} else {
				t.R32 = r
			}
		}
	}
	return t, true
}

func runs(p []int) [][2]int {
	sort.Ints(p)
	l := [][2]int{}
	for _, x := range p {
		if n := len(l); n > 0 && x <= l[n-1][1]+1 {
			l[n-1][1] = x
		} else {
			l = append(l, [2]int{x, x})
		}
	}
	return l
}

// --- running a generator ------------------------------------------------------------------

func command(bin, dir string, args ...string) (failed bool, output string) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOPATH="+dir, "HTTP_PROXY=", "http_proxy=", "NO_PROXY=*")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = nil, &b
	if err := cmd.Start(); err != nil {
		hlib.Die("%s: %v", bin, err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	s := b.String()
	if len(s) > 300 {
		s = s[:300]
	}
	return err != nil, s
}

func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("SCRATCH"), "gen")
	if err != nil {
		hlib.Die("%v", err)
	}
	return d
}

func show(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%+q... (%d bytes)", s[:1500], len(s))
	}
	return fmt.Sprintf("%+q", s)
}

func newObs(m, gen string, l []line, txt string) obs {
	return obs{M: m, Gen: gen, Lines: l, K: gen + " " + show(txt), Tables: []table{}, Classes: []class{}, Pairs: [][2]int{}}
}

// tablegen downloads its input
func tablegen(out *hlib.Out, bin string, serve func(txt string, mode int) string) {
	d := scratch()
	defer os.RemoveAll(d)
	classes := [][]string{{"AL"}, {"A", "Na", "W", "H", "F", "N"}, {"R", "L", "D", "C", "U", "T"},
		{"Nukta", "Virama", "Consonant_Dead", "Vowel", "Other"}}[rng.Intn(4)]
	l := data(classes, 0x110000)
	field := 2 + rng.Intn(3)
	txt := text(l, field-1)
	o := newObs("tables", "tablegen", l, txt)
	o.Pre = pick("", "UIPC", "EAW", "X")
	mode := 0
	if rng.Intn(12) == 0 {
		mode, o.Fail = 1+rng.Intn(3), true
		o.K += fmt.Sprintf(" (download fails, %d)", mode)
	}
	pkg := pick("p", "shaping")
	hlib.Begin(o.K)
	defer hlib.Done()
	failed, msg := command(bin, d, "-p", pkg, "-f", fmt.Sprint(field), "-x", o.Pre, "-o", "tables.go", "-u", serve(txt, mode))
	o.Err = failed
	if src, err := os.ReadFile(filepath.Join(d, "tables.go")); err == nil && !o.Fail && !failed {
		o.Bad = hlib.Safely(func() {
			c, err := load(src, "")
			if err != nil {
				panic(err.Error())
			}
			o.Pkg = pkg
			if c.pkg.Name() != pkg {
				panic("package " + c.pkg.Name())
			}
			v := c.values()
			for n, e := range v {
				t, ok := c.rangeTable(e)
				if !ok {
					continue
				}
				t.Name = strings.TrimPrefix(n, "_")
				if id, ok := v[t.Name].(*ast.Ident); ok && id.Name == n || n == t.Name {
					t.Pub = true
				}
				o.Tables = append(o.Tables, t)
			}
			sort.Slice(o.Tables, func(i, j int) bool { return o.Tables[i].Name < o.Tables[j].Name })
		})
	} else if !o.Fail {
		o.Bad = "no output: " + msg
	}
	out.Put(o)
}

type kind struct {
	gen, file, outfile, typ, more string
	classes                       []string
}

var kinds = []kind{
	{"uax14", "LineBreak.txt", "uax14classes.go", "UAX14Class", "const sot, eot UAX14Class = 1000, 1001", strings.Fields("AI AL B2 BA BB BK CB CJ CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SA SG SP SY WJ XX ZW ZWJ")},
	{"uax29", "WordBreakProperty.txt", "uax29classes.go", "UAX29Class", "", strings.Fields("ALetter CR Double_Quote Extend ExtendNumLet Format Hebrew_Letter Katakana LF MidLetter MidNum MidNumLet Newline Numeric Regional_Indicator Single_Quote WSegSpace ZWJ")},
	{"grapheme", "GraphemeBreakProperty.txt", "graphemeclasses.go", "GraphemeClass", "", strings.Fields("CR LF Prepend Control Extend Regional_Indicator SpacingMark L V T LV LVT ZWJ")},
	{"emoji", "emoji-data.txt", "emojiclasses.go", "EmojisClass", "", strings.Fields("Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component Extended_Pictographic")},
}

func classgen(out *hlib.Out, k kind, bin string) {
	d := scratch()
	defer os.RemoveAll(d)
	l := data(k.classes, 60)
	txt := text(l, 1)
	if err := os.Mkdir(filepath.Join(d, "etc"), 0755); err != nil {
		hlib.Die("%v", err)
	}
	o := newObs("classes", k.gen, l, txt)
	if rng.Intn(12) == 0 { // a line that cannot be read
		o.Fail = true
		o.K += " and a line too long"
		txt += "\n0041 ; " + k.classes[0] + " # " + strings.Repeat("x", 80000) + "\n"
	}
	os.WriteFile(filepath.Join(d, "etc", k.file), []byte(txt), 0644)
	hlib.Begin(o.K)
	defer hlib.Done()
	args := []string{}
	if rng.Intn(2) == 0 {
		args = append(args, "-v")
	}
	failed, msg := command(bin, d, args...)
	o.Err = failed
	if src, err := os.ReadFile(filepath.Join(d, k.outfile)); err == nil && !o.Fail && !failed {
		o.Bad = hlib.Safely(func() {
			c, err := load(src, k.more)
			if err != nil {
				panic(err.Error())
			}
			o.Pkg = c.pkg.Name()
			setup(c, k, &o)
		})
	} else if !o.Fail {
		o.Bad = "no output: " + msg
	}
	out.Put(o)
}

// setup evaluates the statements which set up the classes.
func setup(c *code, k kind, o *obs) {
	pts := map[string][]int{}
	own := map[string]bool{}
	for _, d := range c.f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || !strings.HasPrefix(fn.Name.Name, "setup") {
			continue
		}
		for _, s := range fn.Body.List {
			a := s.(*ast.AssignStmt)
			switch lhs := a.Lhs[0].(type) {
			case *ast.Ident:
				call := a.Rhs[0].(*ast.CallExpr)
				if _, isSel := call.Fun.(*ast.SelectorExpr); !isSel {
					continue // make
				}
				p := []int{}
				for _, x := range call.Args {
					p = append(p, c.integer(x))
				}
				pts[lhs.Name] = p
			case *ast.IndexExpr:
				n := a.Rhs[0].(*ast.Ident).Name
				k := c.pkg.Scope().Lookup(n + "Class").(*types.Const)
				i, _ := constant.Int64Val(k.Val())
				own[n] = c.integer(lhs.Index) == int(i)
			}
		}
	}
	v := c.values()
	name := ""
	var index []int
	for n, e := range v {
		if strings.HasSuffix(n, "Class_name") {
			name = constant.StringVal(c.info.Types[e].Value)
		} else if strings.HasSuffix(n, "Class_index") {
			for _, x := range e.(*ast.CompositeLit).Elts {
				index = append(index, c.integer(x))
			}
		}
	}
	for _, n := range k.classes {
		x := class{Name: n, R: runs(pts[n]), Own: own[n]}
		if k, ok := c.pkg.Scope().Lookup(n + "Class").(*types.Const); ok {
			if i, _ := constant.Int64Val(k.Val()); int(i)+1 < len(index) {
				x.Str = name[index[i]:index[i+1]]
			}
		}
		if _, ok := pts[n]; ok {
			o.Classes = append(o.Classes, x)
		}
	}
}

// brackgen reads bracket pairs
func brackgen(out *hlib.Out, bin string) {
	d := scratch()
	defer os.RemoveAll(d)
	var b strings.Builder
	l := []line{}
	for n := rng.Intn(12) + 1; n > 0; n-- {
		p := rng.Intn(0xd000) + 0x28
		if rng.Intn(4) == 0 {
			p = 0x10000 + rng.Intn(0x1000)
		}
		if rng.Intn(3) == 0 {
			b.WriteString(pick("", "# x") + "\n")
		}
		if rng.Intn(5) > 0 {
			fmt.Fprintf(&b, "%04X; %04X; o # OPENING\n", p, p+1)
			l = append(l, line{p, p + 1, "o"})
		}
		if rng.Intn(5) > 0 {
			fmt.Fprintf(&b, "%04X; %04X; c # CLOSING\n", p+1, p)
			l = append(l, line{p + 1, p, "c"})
		}
	}
	o := newObs("brackets", "brackgen", l, b.String())
	os.WriteFile(filepath.Join(d, "BidiBrackets.txt"), []byte(b.String()), 0644)
	hlib.Begin(o.K)
	defer hlib.Done()
	failed, msg := command(bin, d, "-o", "out.go", "-pkg", "bidi")
	o.Err = failed
	none := true
	for _, x := range l {
		none = none && x.C != "o"
	}
	o.Fail = none
	if src, err := os.ReadFile(filepath.Join(d, "out.go")); err == nil && !failed {
		o.Bad = hlib.Safely(func() {
			c, err := load(src, "")
			if err != nil {
				panic(err.Error())
			}
			o.Pkg = c.pkg.Name()
			for _, e := range c.values() {
				for _, x := range e.(*ast.CompositeLit).Elts {
					var p [2]int
					for _, y := range x.(*ast.CompositeLit).Elts {
						kv := y.(*ast.KeyValueExpr)
						p[map[string]int{"o": 0, "c": 1}[kv.Key.(*ast.Ident).Name]] = c.integer(kv.Value)
					}
					o.Pairs = append(o.Pairs, p)
				}
			}
		})
	} else if !none {
		o.Bad = "no output: " + msg
	}
	out.Put(o)
}

func main() {
	rng = hlib.Rng()
	out := hlib.Open()
	stub("unicode", `package unicode
type Range16 struct{ Lo, Hi, Stride uint16 }
type Range32 struct{ Lo, Hi, Stride uint32 }
type RangeTable struct { R16 []Range16; R32 []Range32; LatinOffset int }`)
	stub("strconv", `package strconv
func FormatInt(i int64, base int) string { return "" }`)
	stub("golang.org/x/text/unicode/rangetable", `package rangetable
import "unicode"
func New(r ...rune) *unicode.RangeTable { return nil }`)

	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hlib.Die("%v", err)
	}
	var txt string
	var mode int
	go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch mode {
		case 1:
			http.NotFound(w, r)
		case 2: // broken off in the middle
			w.Header().Set("Content-Length", fmt.Sprint(len(txt)+1000))
			w.Write([]byte(txt))
		case 3:
			w.Write([]byte(txt + "\n0041;" + strings.Repeat("x", 80000) + "\n"))
		default:
			w.Write([]byte(txt))
		}
	}))
	serve := func(t string, m int) string {
		txt, mode = t, m
		return fmt.Sprintf("http://%s/data.txt", ln.Addr())
	}
	bin := func(n string) string { return os.Getenv("BIN_" + n) }
	for n := hlib.Int("TAB", 300); n > 0; n-- {
		tablegen(out, bin("tablegen"), serve)
	}
	for n := hlib.Int("CLS", 60); n > 0; n-- {
		for _, k := range kinds {
			classgen(out, k, bin(k.gen))
		}
		brackgen(out, bin("brackgen"))
	}
	out.Close()
}
