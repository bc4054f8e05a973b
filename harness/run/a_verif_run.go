package main

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/xlab/c-for-go/generator"
	"github.com/xlab/c-for-go/parser"
	tl "github.com/xlab/c-for-go/translator"
	_ "github.com/xlab/c-for-go/verifhx" // makes the trees
	rt "github.com/xlab/c-for-go/verifrt"
)

// verifRun is one run of the command: what it is configured to do, and the text of the configuration file.
type verifRun struct {
	dir      string // of the configuration file
	gen      generator.Config
	tr       tl.Config
	par      parser.Config
	genText  string
	trText   string
	parText  string
	mem      string
	noCGO    bool
	ccDefs   bool
	ccIncl   bool
	noHeader bool
}

const verifHeader = `#define N_ONE 1
#define N_TWO (N_ONE + 1)
#define N_TEXT "text"
enum e_kind { E_A, E_B = 5 };
typedef enum e_kind e_kind_t;
typedef struct s_item { int s_len; int *s_data; const char *s_name; const unsigned char *s_raw; long s_long; unsigned long s_ulong; } s_item_t;
typedef union u_any { int u_int; float u_float; } u_any_t;
typedef int (*cb_call)(int cb_arg, s_item_t *cb_item);
extern int v_count;
int f_first(int f_n, const int *f_list, s_item_t *f_item);
s_item_t *f_second(const char *f_text, const unsigned char *f_bytes, cb_call f_call);
void f_third(u_any_t f_any, e_kind_t f_kind, long f_long, unsigned long f_ulong);
`

const verifNames = "^([NEesuvf]|cb)_"

// verifNew is a run in a directory that holds a.h.
func verifNew() *verifRun {
	dir := filepath.Join(rt.Scratch(), "conf")
	r := &verifRun{dir: dir, mem: "0x7fffffff"}
	r.put("a.h", verifHeader)
	r.gen.PackageName = "pkg"
	r.genText = "  PackageName: pkg\n"
	r.par.SourcesPaths = []string{"a.h"}
	r.par.Arch = "amd64"
	return r
}

func (r *verifRun) put(name, text string) {
	at := filepath.Join(r.dir, name)
	if err := os.MkdirAll(filepath.Dir(at), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(at, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// rules is the rest of the rules, with the names of the header accepted; text goes on after the global rules.
func (r *verifRun) rules(rules tl.Rules, text string) {
	if rules == nil {
		rules = tl.Rules{}
	}
	rules[tl.TargetGlobal] = append([]tl.RuleSpec{{Action: tl.ActionAccept, From: verifNames}}, rules[tl.TargetGlobal]...)
	r.tr.Rules = rules
	r.trText += "  Rules:\n    global:\n      - {action: accept, from: '" + verifNames + "'}\n" + text
}

func (r *verifRun) outputs(p *Process) map[string]string {
	p.Generate(r.noCGO)
	p.gen.Close()
	res := map[string]string{"h": p.chHelpersBuf.String(), "c": p.ccHelpersBuf.String()}
	for b, name := range map[Buf]string{BufMain: "main", BufDoc: "doc", BufConst: "const", BufTypes: "types", BufUnions: "unions", BufHelpers: "helpers"} {
		if w := p.goBuffers[b]; w != nil {
			res[name] = w.String()
		}
	}
	return res
}

// real is what the command makes of the configuration file.
func (r *verifRun) real() (map[string]string, error) {
	text := "---\nGENERATOR:\n" + r.genText
	if r.trText != "" {
		text += "TRANSLATOR:\n" + r.trText
	}
	text += "PARSER:\n"
	if r.par.Arch != "" {
		text += "  Arch: \"" + r.par.Arch + "\"\n"
	}
	text += r.parText
	if !r.noHeader {
		text += "  SourcesPaths: ["
		for i, s := range r.par.SourcesPaths {
			if i > 0 {
				text += ", "
			}
			text += s
		}
		text += "]\n"
	}
	r.put("p.yml", text)
	*nostamp, *maxMem, *noCGO, *ccDefs, *ccIncl = true, r.mem, r.noCGO, r.ccDefs, r.ccIncl
	p, err := NewProcess(filepath.Join(r.dir, "p.yml"), filepath.Join(r.dir, "out"))
	if err != nil {
		return nil, err
	}
	return r.outputs(p), nil
}

// wide are the architectures where a long has 64 bits.
var verifWide = map[string]bool{"amd64": true, "arm64": true, "386": false, "arm": false, "riscv64": true, "ppc64le": true, "s390x": true}

// want is what the steps of the command make of the same configuration.
func (r *verifRun) want() (map[string]string, error) {
	par := r.par
	par.SourcesPaths = append([]string{}, r.par.SourcesPaths...)
	par.IncludePaths = append(append([]string{}, r.par.IncludePaths...), r.dir)
	par.CCDefs, par.CCIncl = r.ccDefs, r.ccIncl
	ast, err := parser.ParseWith(&par)
	if err != nil {
		return nil, err
	}
	tc := r.tr
	tc.IgnoredFiles = r.par.IgnoredPaths
	tc.LongIs64Bit = verifWide[par.Arch]
	tr, err := tl.New(&tc)
	if err != nil {
		return nil, err
	}
	tr.Learn(ast)
	gc := r.gen
	g, err := generator.New(filepath.Base(gc.PackageName), &gc, tr)
	if err != nil {
		return nil, err
	}
	g.SetMaxMemory(generator.NewMemSpec(r.mem))
	g.DisableTimestamps()
	p := &Process{cfg: ProcessConfig{Generator: &gc}, gen: g, goBuffers: map[Buf]*bytes.Buffer{}, chHelpersBuf: new(bytes.Buffer), ccHelpersBuf: new(bytes.Buffer)}
	for _, b := range []Buf{BufMain, BufDoc, BufConst, BufTypes, BufUnions, BufHelpers} {
		p.goBuffers[b] = new(bytes.Buffer)
	}
	go g.MonitorAndWriteHelpers(p.goBuffers[BufHelpers], p.chHelpersBuf, p.ccHelpersBuf)
	return r.outputs(p), nil
}

// check compares the run with what its steps make of the configuration.
func (r *verifRun) check(what string) map[string]string {
	want, err := r.want()
	if err != nil {
		panic("want: " + err.Error())
	}
	got, err := r.real()
	if err != nil {
		rt.Assert(false, what+": the run fails")
		return nil
	}
	for _, k := range []string{"main", "doc", "const", "types", "unions", "helpers", "h", "c"} {
		rt.Assert(got[k] == want[k], what+" has no or another effect when it comes from the configuration file or the command line")
	}
	rt.Observe("main", got["main"])
	rt.Reach("run")
	return got
}
