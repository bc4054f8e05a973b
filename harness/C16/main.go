package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/xlab/c-for-go/parser"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckDefines": CheckDefines, "CheckOrder": CheckOrder, "CheckPaths": CheckPaths, "CheckIncludes": CheckIncludes, "CheckHost": CheckHost, "CheckArch": CheckArch})
}

// put writes a header that declares the mark.
func put(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// macro is what a name is replaced by at the end of a text of definitions.
func macro(text, name string) (string, bool) {
	res, ok := "", false
	for _, ln := range strings.Split(text, "\n") {
		ln = strings.TrimSpace(ln)
		if strings.HasPrefix(ln, "#define "+name) {
			rest := ln[len("#define "+name):]
			if rest == "" || rest[0] == ' ' {
				res, ok = strings.TrimSpace(rest), true
			}
		}
	}
	return res, ok
}

// decode is the value of a C string literal.
func decode(lit string) (string, bool) {
	if len(lit) < 2 || lit[0] != '"' || lit[len(lit)-1] != '"' {
		return "", false
	}
	s := lit[1 : len(lit)-1]
	r := []byte{}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' || c == '\n' {
			return "", false
		}
		if c != '\\' {
			r = append(r, c)
			continue
		}
		i++
		if i == len(s) {
			return "", false
		}
		switch c = s[i]; c {
		case 'n':
			r = append(r, '\n')
		case 't':
			r = append(r, '\t')
		case 'r':
			r = append(r, '\r')
		case 'a':
			r = append(r, 7)
		case 'b':
			r = append(r, 8)
		case 'v':
			r = append(r, 11)
		case 'f':
			r = append(r, 12)
		case '\\', '"', '\'', '?':
			r = append(r, c)
		case 'x':
			n, d := 0, 0
			for ; i+1 < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[i+1]) >= 0; i++ {
				n, d = n*16+int(s[i+1]&15)+9*int(s[i+1]>>6), d+1
			}
			if d == 0 || n > 255 {
				return "", false
			}
			r = append(r, byte(n))
		default:
			n, d := 0, 0
			for ; d < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7'; i++ {
				n, d = n*8+int(s[i]-'0'), d+1
			}
			i--
			if d == 0 || n > 255 {
				return "", false
			}
			r = append(r, byte(n))
		}
	}
	return string(r), true
}

func bare(s string) string {
	for len(s) > 1 && s[0] == '(' && s[len(s)-1] == ')' {
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	return s
}

// isInt reports whether text spells the integer of that sign and magnitude.
func isInt(text string, neg bool, mag uint64) bool {
	text = bare(text)
	n := false
	if strings.HasPrefix(text, "-") {
		n, text = true, bare(strings.TrimSpace(text[1:]))
	}
	for len(text) > 1 && strings.IndexByte("uUlL", text[len(text)-1]) >= 0 {
		text = text[:len(text)-1]
	}
	v := hx.Literal(text)
	return rt.And(rt.And(v.OK, !v.Float), rt.And(v.M == mag, rt.Or(n == neg, mag == 0)))
}

// isFloat reports whether text spells a floating-point constant of that value.
func isFloat(text string, f float64) bool {
	text = bare(text)
	single := false
	if k := len(text) - 1; k > 0 && (text[k] == 'f' || text[k] == 'F') {
		single, text = true, text[:k]
	}
	if !strings.ContainsAny(text, ".eE") {
		return false
	}
	g, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return false
	}
	if single {
		g = float64(float32(g))
	}
	return g == f
}

var floats = []float64{0, 1, -1, 0.5, 0.1, -2.75, 3.141592653589793, 1e-10, 123456789.125, 1e21, 1e300, 5e-324, 100000, 1e6, 16777217}

// front gives one header the definitions.
func front(cfg *parser.Config) (string, bool) {
	dir := rt.Scratch()
	put(filepath.Join(dir, "a.h"), "extern int mark_a;\n")
	cfg.SourcesPaths = []string{filepath.Join(dir, "a.h")}
	if cfg.Arch == "" {
		cfg.Arch = "amd64"
	}
	ast, err := parser.ParseWith(cfg)
	if err != nil {
		return "", false
	}
	if rt.Marks(ast) != "mark_a" {
		return "", false
	}
	return rt.Predefined(ast), true
}

// A define of each kind has its value.
func CheckDefines() {
	name := rt.Pick("name", "N", "FOO_1")
	var v interface{}
	is := func(string) bool { return false }
	kind := rt.Pick("kind", "string", "int", "float", "empty")
	switch kind {
	case "string":
		n := 3
		if rt.Deep() {
			n = 4
		}
		s := rt.Str("s", 0, n, "ab0f\"\\\n\t\r'?%/ \x01\xe9")
		v = s
		is = func(t string) bool { d, ok := decode(t); return ok && d == s }
	case "int":
		top := 999
		if rt.Deep() {
			top = 99999
		}
		k := rt.Int("k", 0, top)
		neg := rt.Bool("neg")
		mag := uint64(k)
		big := rt.Choice("big", 4)
		switch rt.Choice("type", 8) {
		case 0:
			i := k
			if big == 1 {
				mag = 1<<63 - 1
				i = 1<<63 - 1
			}
			if neg {
				i = -i
			}
			v = i
		case 1:
			i := int64(k)
			if big == 1 {
				mag = 1 << 40
				i = 1 << 40
			}
			if neg {
				i = -i
			}
			v = i
		case 2:
			i := int32(k)
			if neg {
				i = -i
			}
			v = i
		case 3:
			i := int16(k)
			if neg {
				i = -i
			}
			v = i
		case 4:
			rt.Assume(!neg)
			if big == 1 {
				mag = 1<<64 - 1
			}
			v = uint(mag)
		case 5:
			rt.Assume(!neg)
			if big == 1 {
				mag = 1<<63 + 5
			}
			v = mag
		case 6:
			rt.Assume(!neg)
			v = uint32(k)
		case 7:
			rt.Assume(!neg)
			v = uint16(k)
		}
		is = func(t string) bool { return isInt(t, neg, mag) }
	case "float":
		f := floats[rt.Choice("f", len(floats))]
		if rt.Bool("single") {
			g := float32(f)
			v, f = g, float64(g)
			rt.Assume(f-f == 0)
		} else {
			v = f
		}
		is = func(t string) bool { return isFloat(t, f) }
	case "empty":
		v = map[interface{}]interface{}{}
		is = func(t string) bool { return t == "" }
	}
	text, ok := front(&parser.Config{Defines: map[string]interface{}{name: v}})
	t, def := macro(text, name)
	rt.Observe("text", t)
	rt.Assert(ok && def, "a "+kind+" define reaches the headers")
	rt.Assert(is(t), "a "+kind+" define has its value")
	rt.Reach(kind)
}

// Defines do not disturb each other, whatever their order.
func CheckOrder() {
	rt.MapOrder(true)
	s := rt.Str("s", 1, 2, "a\"\\\n")
	k := rt.Int("k", 0, 9)
	text, ok := front(&parser.Config{Defines: map[string]interface{}{"A": s, "B": k, "C": map[interface{}]interface{}{}, "AB": 12}})
	rt.Assert(ok, "several defines are accepted")
	a, _ := macro(text, "A")
	d, good := decode(a)
	rt.Assert(good && d == s, "the string has its value among other defines")
	b, _ := macro(text, "B")
	rt.Assert(isInt(b, false, uint64(k)), "the number has its value among other defines")
	c, def := macro(text, "C")
	rt.Assert(def && c == "", "the empty define is empty among other defines")
	e, _ := macro(text, "AB")
	rt.Assert(isInt(e, false, 12), "the other number has its value among other defines")
	rt.Reach("defines")
}

// Source paths are found where they should be.
func CheckPaths() {
	dir := rt.Scratch()
	rt.Chdir(dir)
	state := map[string]int{} // 0: not there, 1: a header, 2: a directory
	make1 := func(at string) {
		st := rt.Choice("state of "+at, 3)
		state[at] = st
		if st == 1 {
			put(filepath.Join(dir, at), "extern int mark_"+strings.NewReplacer("/", "_", ".", "_").Replace(at)+";\n")
		} else if st == 2 {
			if err := os.MkdirAll(filepath.Join(dir, at), 0755); err != nil {
				panic(err)
			}
		}
	}
	name := rt.Pick("name", "a.h", "sub/a.h")
	make1(name)
	make1("inc1/" + name)
	make1("inc2/" + name)
	var inc []string
	var at []string
	switch rt.Choice("inc", 5) {
	case 1:
		inc, at = []string{"inc1"}, []string{"inc1/"}
	case 2:
		inc, at = []string{"inc1", "inc2"}, []string{"inc1/", "inc2/"}
	case 3:
		inc, at = []string{"inc2", filepath.Join(dir, "inc1")}, []string{"inc2/", "inc1/"}
	case 4:
		inc, at = []string{"nowhere", "./inc2/"}, []string{"nowhere/", "inc2/"}
	}
	missing := false
	var want []string
	use := func(src string) {
		if src == filepath.Join(dir, name) || src == "./"+name {
			src = name
			if state[src] == 0 && src != "./"+name {
				missing = true
				return
			}
		}
		switch state[src] {
		case 0:
			missing = true
		case 1:
			want = append(want, "mark_"+strings.NewReplacer("/", "_", ".", "_").Replace(src))
		}
	}
	entry := func(i string) string {
		switch rt.Choice("source "+i, 4) {
		case 0: // relative
			src := name
			if state[src] == 0 {
				for _, d := range at {
					if state[d+name] != 0 {
						src = d + name
						break
					}
				}
			}
			use(src)
			return name
		case 1:
			use("inc1/" + name)
			return "inc1/" + name
		case 2: // absolute paths are not looked up
			use(filepath.Join(dir, name))
			return filepath.Join(dir, name)
		}
		put(filepath.Join(dir, "other.h"), "extern int mark_other;\n")
		want = append(want, "mark_other")
		return "other.h"
	}
	srcs := []string{entry("1")}
	if rt.Bool("two") {
		srcs = append(srcs, entry("2"))
	}
	ast, err := parser.ParseWith(&parser.Config{Arch: "amd64", SourcesPaths: srcs, IncludePaths: inc})
	if missing {
		rt.Assert(err != nil, "a source path that cannot be found is an error")
		rt.Reach("missing")
		return
	}
	if len(want) == 2 && want[0] == want[1] { // the C front end does not take a header twice
		return
	}
	rt.Assert(err == nil, "source paths that can be found are no error")
	if err != nil {
		return
	}
	rt.Observe("marks", rt.Marks(ast))
	rt.Assert(rt.Marks(ast) == strings.Join(want, " "), "the sources are the headers found first, in their order")
	rt.Reach("found")
}

// The include paths reach the C front end in their order.
func CheckIncludes() {
	dir := rt.Scratch()
	rt.Chdir(dir)
	l, r := "\"", "\""
	sys := rt.Bool("sys")
	if sys {
		l, r = "<", ">"
	}
	put(filepath.Join(dir, "a.h"), "#include "+l+"dep.h"+r+"\nextern int mark_a;\n")
	dirs := []string{"i1", "i2", "i3"}
	there := map[string]bool{}
	for _, d := range dirs {
		if rt.Bool("in " + d) {
			there[d] = true
			put(filepath.Join(dir, d, "dep.h"), "extern int mark_"+d+";\n")
		}
	}
	var order []string
	first := rt.Choice("first", 3)
	order = append(order, dirs[first])
	if rt.Bool("second") {
		order = append(order, dirs[(first+1+rt.Choice("which", 2))%3])
	}
	cfg := &parser.Config{Arch: "amd64", SourcesPaths: []string{"a.h"}}
	if sys {
		cfg.SysIncludePaths = order
	} else {
		cfg.IncludePaths = order
	}
	want := ""
	for _, d := range order {
		if there[d] && want == "" {
			want = "mark_" + d + " mark_a"
		}
	}
	ast, err := parser.ParseWith(cfg)
	if want == "" {
		rt.Assert(err != nil, "an include that is in no include path is an error")
		return
	}
	rt.Assert(err == nil && rt.Marks(ast) == want, "includes are found in the include paths in their order")
	rt.Reach("includes")
}

// What the host preprocessor says is used when asked for, and does not take precedence over the user's defines.
func CheckHost() {
	dir := rt.Scratch()
	cpp := filepath.Join(dir, "hostcpp")
	works := rt.Bool("works")
	var lines []string
	lines = append(lines, "Using built-in specs.", "ignoring nonexistent directory \""+dir+"/none\"", "#include \"...\" search starts here:")
	quoted, angled := rt.Choice("quoted", 3), 1+rt.Choice("angled", 2)
	for i := 0; i < quoted; i++ {
		lines = append(lines, " "+filepath.Join(dir, "q"+strconv.Itoa(i)))
	}
	lines = append(lines, "#include <...> search starts here:")
	for i := 0; i < angled; i++ {
		lines = append(lines, " "+filepath.Join(dir, "s"+strconv.Itoa(i)))
	}
	lines = append(lines, "End of search list.", "COMPILER_PATH=/usr/lib", "")
	rt.Program(cpp, "#define HOSTDEF 41\n#define A 3\n", strings.Join(lines, "\n"), works)
	rt.Setenv(rt.Pick("variable", "CPP", "CC"), cpp)
	kind := rt.Choice("include", 3) // 0: none, 1: quoted, 2: angled
	where := rt.Choice("where", 2)
	text := "extern int mark_a;\n"
	want := "mark_a"
	found := true
	cfg := &parser.Config{Arch: "amd64", CCDefs: rt.Bool("ccdefs"), CCIncl: rt.Bool("ccincl"), Defines: map[string]interface{}{"A": 7}}
	if kind == 1 {
		text += "#include \"dep.h\"\n"
		want += " mark_q"
		put(filepath.Join(dir, "q"+strconv.Itoa(where), "dep.h"), "extern int mark_q;\n")
		found = where < quoted && cfg.CCIncl && works
	} else if kind == 2 {
		text += "#include <dep.h>\n"
		want += " mark_s"
		put(filepath.Join(dir, "s"+strconv.Itoa(where), "dep.h"), "extern int mark_s;\n")
		found = where < angled && cfg.CCIncl && works
	}
	put(filepath.Join(dir, "a.h"), text)
	cfg.SourcesPaths = []string{filepath.Join(dir, "a.h")}
	defs := cfg.CCDefs && works
	ast, err := parser.ParseWith(cfg)
	if !found {
		rt.Assert(err != nil, "the include paths of the host are used only when asked for")
		rt.Reach("not found")
		return
	}
	rt.Assert(err == nil && rt.Marks(ast) == want, "the include paths of the host are used when asked for")
	if err != nil {
		return
	}
	h, ok := macro(rt.Predefined(ast), "HOSTDEF")
	rt.Assert(ok == defs, "the macros of the host are there exactly when asked for")
	rt.Assert(!ok || h == "41", "the macros of the host have their value")
	a, ok := macro(rt.Predefined(ast), "A")
	rt.Assert(ok && isInt(a, false, 7), "a define of the user takes precedence over the host's")
	rt.Reach("host")
}

// An architecture that the C front end does not know is an error, not a crash.
func CheckArch() {
	arch := rt.Pick("arch", "amd64", "386", "arm", "arm64", "x86_64", "i386", "z80")
	known := arch == "amd64" || arch == "386" || arch == "arm" || arch == "arm64"
	_, ok := front(&parser.Config{Arch: arch})
	rt.Assert(ok == known, "the configured architecture is used, and one that is not known is an error")
	rt.Reach("arch")
}
