package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/xlab/c-for-go/generator"
	"github.com/xlab/c-for-go/parser"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
	"modernc.org/cc/v4"
)

func main() {
	rt.Main(map[string]func(){"CheckPackage": CheckPackage, "CheckDefines": CheckDefines, "CheckSorted": CheckSorted, "CheckSchedules": CheckSchedules, "CheckTime": CheckTime, "CheckFrontEnd": CheckFrontEnd})
}

// tries is how often a run with whatever order the runtime picks is repeated, where orders are not explored.
func tries() int {
	if rt.Symbolic() {
		return 1
	}
	return 40
}

var srcs = []string{
	// macros, enumerations
	`#define M_A 1
#define M_B (M_A + E_Y)
#define M_C "s"
typedef enum E { E_X, E_Y = M_A + 2 } E;
typedef enum F { F_X = E_Y } F;
enum G { G_X };
enum { H_X };
E fe(F f, enum G g);
`,
	// tags
	`struct S { int a; char *s; struct S *next; };
typedef struct T { struct S s; short b; } T;
typedef struct O O;
struct N;
union U { int a; float b; };
typedef union V { int a; } V;
struct { int k; } var;
void fs(struct S *s, T *t, O *o, struct N *n, union U u, V *v);
`,
	// helpers
	`typedef struct T { int n; char *s; } T;
typedef void (*cb)(T *t, const char *s);
typedef int (*ck)(cb c);
void fc(cb c, ck k, T **t, char **s);
char *fr(void);
int data[4];
`,
}

var cfgs = []func() *tl.Config{
	func() *tl.Config { return &tl.Config{Rules: hx.AcceptAll()} },
	func() *tl.Config {
		return &tl.Config{
			ConstRules: tl.ConstRules{tl.ConstDefines: tl.ConstExpand, tl.ConstEnum: tl.ConstExpand, tl.ConstDecl: tl.ConstExpand},
			Rules: tl.Rules{
				tl.TargetGlobal:     {{Action: tl.ActionAccept, From: "^"}, {Action: tl.ActionIgnore, From: "^size_t$|^__"}},
				tl.TargetType:       {{Action: tl.ActionReplace, From: "^([A-Z])$", To: "${1}_t"}},
				tl.TargetFunction:   {{Action: tl.ActionReplace, From: "^f", To: "call_"}},
				tl.TargetPostGlobal: {{Load: "snakecase"}},
			},
			PtrTips: tl.PtrTips{
				tl.TipScopeFunction: {{Target: "^f", Default: tl.TipPtrSRef}},
				tl.TipScopeStruct:   {{Target: "^S$", Default: tl.TipPtrSRef}},
				tl.TipScopeType:     {{Target: "^[A-Z]", Default: tl.TipPtrRef}},
			},
			TypeTips: tl.TypeTips{
				tl.TipScopeFunction: {{Target: "^f", Default: tl.TipTypeNamed}},
				tl.TipScopeType:     {{Target: "^S$", Self: tl.TipTypeNamed}},
			},
			MemTips:   tl.MemTips{{Target: "^S$", Self: tl.TipMemRaw}, {Target: "^T$", Self: tl.TipMemRaw}},
			LenFields: map[string]string{"S.s": "a", "T.s": "n"},
		}
	},
}

// part says what is done in any order.
type part int

const (
	nothing part = iota
	config       // reading the configuration
	rest         // translation and generation
)

// learn is a translator of the source, made with a part of the work in any order.
func learn(cfg *tl.Config, p part, ast *cc.AST) *tl.Translator {
	rt.MapOrder(p == config)
	tr := hx.Translator(cfg, nil)
	rt.MapOrder(p == rest)
	tr.Learn(ast)
	return tr
}

// parse leaves out the macros of the C front end, which multiply the orders to go through.
func parse(key, src string) *cc.AST {
	ast := hx.Parse(key, src)
	for name := range ast.Macros {
		if !strings.Contains(src, "#define "+name+" ") {
			delete(ast.Macros, name)
		}
	}
	return ast
}

// all is everything that a generation with the n-th source and configuration writes.
func all(src, cfg int, p part) string {
	ast := parse("c10-"+strconv.Itoa(src), srcs[src])
	gcfg := &generator.Config{PackageName: "pkg", PackageDescription: "d", SysIncludes: []string{"a.h", "b.h"}, Includes: []string{"c.h"},
		FlagGroups: []generator.TraitFlagGroup{{Name: "CFLAGS", Traits: []string{"x", "y"}, Flags: []string{"-a", "-b"}}, {Name: "LDFLAGS", Flags: []string{"-l"}}},
		Options:    generator.GenOptions{SafeStrings: cfg == 1, StructAccessors: cfg == 1}}
	g := hx.NewGen(gcfg, learn(cfgs[cfg](), p, ast))
	var pre bytes.Buffer
	g.WriteDoc(&pre)
	g.WritePackageHeader(&pre)
	g.WriteIncludes(&pre)
	o := hx.Run(g)
	rt.MapOrder(false)
	return strings.Join([]string{pre.String(), o.Const, o.Types, o.Unions, o.Decls, o.Go, o.CH, o.CC}, "\n----\n")
}

func baseline(src, cfg int) string {
	return rt.Once("c10-"+strconv.Itoa(src)+"-"+strconv.Itoa(cfg), func() interface{} { return all(src, cfg, nothing) }).(string)
}

// Whatever the order in which maps are gone through, the same text comes out.
func CheckPackage() {
	src, cfg := rt.Choice("src", len(srcs)), rt.Choice("cfg", len(cfgs))
	p := rest
	if src == 1 && cfg == 1 && rt.Choice("part", 2) == 1 {
		p = config
	}
	want := baseline(src, cfg)
	rt.Assert(len(want) > 100, "nothing is generated")
	n := 1
	if rt.Deep() {
		n = 2
	}
	rt.Deviations(n)
	for i := tries(); i > 0; i-- {
		rt.Assert(all(src, cfg, p) == want, "what is generated depends on the order in which a map is gone through")
	}
	rt.Reach("compared")
	rt.Observe("size", len(want))
}

// macros that build on each other
var defs = []string{
	"#define D_A D_B\n#define D_B (E_X + 1)\n#define D_C (D_A | D_B)\n",
	"#define D_A D_B\n#define D_B D_UNKNOWN\n#define D_C (D_A)\n",
	"#define D_A ((E)D_B)\n#define D_B E_Y\n#define D_C (D_D + D_B)\n",
	"#define D_A 1\n#define D_B D_C\n#define D_C \"s\"\n",
	"#define D_A D_B\n#define D_B D_C\n#define D_C D_D\n#define D_D 4\n",
	"#define D_A D_B\n#define D_B D_C\n#define D_C D_A\n#define D_D D_A\n",
	"#define D_A D_B\n#define D_B D_C\n#define D_C E_X\n#define D_D (D_A|D_C)\n",
	"#define D_A sizeof(E)\n#define D_B D_A\n#define D_C D_B\n#define D_D (D_C + 1)\n",
}

func defines(src, cfg int, p part) string {
	c := &tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^[DE]"}}}}
	if cfg == 1 {
		c.ConstRules = tl.ConstRules{tl.ConstDefines: tl.ConstExpand}
	}
	tr := learn(c, p, parse("c10-defs"+strconv.Itoa(src), "typedef enum { E_X = 5, E_Y } E;\n"+defs[src]))
	rt.MapOrder(false)
	return hx.Run(hx.NewGen(nil, tr)).Const
}

// Macros that build on each other, in every order of the table of macros.
func CheckDefines() {
	src, cfg := rt.Choice("src", len(defs)), rt.Choice("cfg", 2)
	want := rt.Once("defs "+strconv.Itoa(src)+"-"+strconv.Itoa(cfg), func() interface{} { return defines(src, cfg, nothing) }).(string)
	for i := tries(); i > 0; i-- {
		rt.Assert(defines(src, cfg, rest) == want, "the constants depend on the order in which macros are gone through")
	}
	rt.Reach("compared")
	rt.Observe("defines", strings.Count(want, "\n"))
}

// place is where a declaration is.
type place struct {
	file string
	off  int
}

func before(a, b place) bool {
	return a.file < b.file || a.file == b.file && a.off < b.off
}

// anywhere gives declarations symbolic places in up to two files.
func anywhere(ds []*tl.CDecl) map[string]place {
	m := map[string]place{}
	for i, d := range ds {
		p := place{rt.Pick("file", "/a/x.h", "/a/y.h"), rt.Int("offset", 0, 9)}
		d.Position.Filename, d.Position.Offset = p.file, p.off
		d.Position.Line, d.Position.Column = 1+p.off/4, 1+p.off%4 // lines of four characters
		for j := 0; j < i; j++ {
			q := m[ds[j].Name]
			rt.Assume(rt.Or(p.file != q.file, p.off != q.off))
		}
		m[d.Name] = p
	}
	return m
}

func ordered(ds []*tl.CDecl, places map[string]place, what string) {
	for i := range ds {
		_, ok := places[ds[i].Name]
		rt.Assert(ok, "the list of "+what+" has another entry")
		for j := 0; j < i; j++ {
			rt.Assert(ds[i] != ds[j], "the list of "+what+" has an entry twice")
		}
		if i > 0 {
			rt.Assert(before(places[ds[i-1].Name], places[ds[i].Name]), "the list of "+what+" is not in the order of the sources")
		}
	}
	rt.Assert(len(ds) == len(places), "the list of "+what+" has lost an entry")
}

const sorted = `#define S_A 1
#define S_B 2
#define S_C 3
typedef int ta;
typedef enum { EB } tb;
typedef struct tc { int x; } tc;
int fa(void);
extern int vb;
void fc(void);
`

// Declarations come out in the order of their places in the sources, wherever these are.
func CheckSorted() {
	cfg := &tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^S_|^E|^[te][abc]$|^[fv][abc]$"}}}}
	tr := hx.Translator(cfg, parse("c10-sorted", sorted))
	none := parse("c10-none", "")
	var ds []*tl.CDecl
	what := rt.Pick("what", "defines", "typedefs", "declarations", "enums")
	list := func() []*tl.CDecl {
		switch what {
		case "defines":
			return tr.Defines()
		case "typedefs":
			var r []*tl.CDecl
			for _, d := range tr.Typedefs() {
				if d.Name != "size_t" {
					r = append(r, d)
				}
			}
			return r
		case "declarations":
			var r []*tl.CDecl
			for _, d := range tr.Declares() {
				if d.Name != "__predefined_declarator" {
					r = append(r, d)
				}
			}
			return r
		}
		return nil
	}
	if what != "enums" {
		ds = list()
		rt.Assert(len(ds) == 3, "three "+what+" are expected")
		places := anywhere(ds)
		tr.Learn(none)
		ordered(list(), places, what)
		rt.Reach(what)
		return
	}
	// enumerations are listed by tag
	tr = hx.Translator(cfg, parse("c10-enums", "typedef enum ea { EA } ea;\ntypedef enum eb { EB } eb;\ntypedef enum ec { EC } ec;\n"))
	for _, d := range tr.Typedefs() {
		if d.Spec.Kind() == tl.EnumKind {
			ds = append(ds, d)
		}
	}
	rt.Assert(len(ds) == 3, "three enumerations are expected")
	places := anywhere(ds)
	rt.MapOrder(true)
	for i := tries(); i > 0; i-- {
		g := hx.NewGen(nil, tr)
		var w bytes.Buffer
		g.WriteConst(&w)
		txt := w.String()
		rt.MapOrder(false)
		for a, b := range map[string]string{"ea": "EA", "eb": "EB", "ec": "EC"} {
			for c, d := range map[string]string{"ea": "EA", "eb": "EB", "ec": "EC"} {
				if before(places[a], places[c]) {
					i, j := strings.Index(txt, "\n"+b+" "), strings.Index(txt, "\n"+d+" ")
					rt.Assert(i >= 0 && i < j, "the enumerations are not in the order of the sources")
				}
			}
		}
	}
	rt.Reach(what)
}

// Whatever the schedule of the helper writer, the same text comes out.
func CheckSchedules() {
	want := baseline(2, 0)
	n := 1
	if rt.Deep() {
		n = 2
	}
	rt.Preempt(n)
	rt.Sched(true)
	got := all(2, 0, nothing)
	rt.Sched(false)
	rt.Assert(got == want, "what is generated depends on the schedule")
	rt.Reach("compared")
}

// Whenever and wherever it runs, the same text comes out.
func CheckTime() {
	src, cfg := rt.Choice("src", len(srcs)), rt.Choice("cfg", len(cfgs))
	want := all(src, cfg, nothing)
	if rt.Choice("where", 2) == 1 {
		rt.Chdir(rt.Scratch())
		rt.Assert(all(src, cfg, nothing) == want, "what is generated depends on the directory")
		rt.Reach("elsewhere")
	} else {
		rt.Later()
		rt.Assert(all(src, cfg, nothing) == want, "what is generated depends on the time")
		rt.Reach("later")
	}
	rt.Observe("size", len(want))
}

// Whatever the order of the defines of the configuration, the C front end gets the same text.
func CheckFrontEnd() {
	cfg := &parser.Config{Arch: "amd64", SourcesPaths: []string{filepath.Join(rt.Scratch(), "a.h")}, Defines: map[string]interface{}{}}
	if err := os.WriteFile(cfg.SourcesPaths[0], []byte("extern int mark_a;\n"), 0644); err != nil {
		panic(err)
	}
	names := []string{"B_B", "A_A", "C_C", "A_B", "B_A"}
	n := 3
	if rt.Deep() {
		n = 5
	}
	for i := 0; i < n; i++ {
		switch rt.Choice("kind", 3) {
		case 0:
			cfg.Defines[names[i]] = rt.Int("number", 0, 9)
		case 1:
			cfg.Defines[names[i]] = rt.Pick("string", "A_A", "C_C")
		case 2:
			cfg.Defines[names[i]] = map[interface{}]interface{}{}
		}
	}
	text := func() string {
		ast, err := parser.ParseWith(cfg)
		if err != nil {
			return err.Error()
		}
		return rt.Predefined(ast)
	}
	want := text()
	rt.MapOrder(true)
	for i := tries(); i > 0; i-- {
		rt.Assert(text() == want, "what the C front end gets depends on the order of the defines")
	}
	rt.MapOrder(false)
	rt.Reach("compared")
}
