package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
	"modernc.org/token"
)

func main() {
	rt.Main(map[string]func(){"CheckLocation": CheckLocation, "CheckComments": CheckComments})
}

// loc is what a template is filled in with.
type loc struct {
	path, file string
	line       int
	name       string
	goName     string
}

// fill fills the template in; an empty one stands for none.
func (l loc) fill(template string) string {
	n := strconv.Itoa(l.line)
	if template == "" {
		return l.path + ":" + n
	}
	out := ""
	for i := 0; i < len(template); i++ {
		if template[i] != '$' {
			out += template[i : i+1]
			continue
		}
		i++
		if template[i] == '$' {
			out += "$"
			continue
		}
		j := i
		if template[i] == '{' {
			j = i + 1
		}
		k := j
		for k < len(template) && template[k] >= 'a' && template[k] <= 'z' {
			k++
		}
		switch template[j:k] {
		case "path":
			out += l.path
		case "file":
			out += l.file
		case "line":
			out += n
		case "name":
			out += l.name
		case "goname":
			out += l.goName
		}
		i = k - 1
		if j > i-(k-j) && template[j-1] == '{' {
			i = k
		}
	}
	return out
}

var templates = []string{"", "$path:$line", "https://google.com/search?q=$file+$name", "$goname is $name", "${file}x$$1", "$line/$line", "plain text"}

// SrcLocation on every path, line and name.
func CheckLocation() {
	n, m := 2, 1
	if rt.Deep() {
		n, m = 4, 2
	}
	const chars = "ab1;.$- "
	file := rt.Str("file", 1, n, chars)
	dir := rt.Str("dir", 0, m, chars)
	rt.Assume(file != "." && file != "..")
	rt.Assume(dir != "." && dir != "..")
	l := loc{file: file, line: []int{1, 9, 10, 1234}[rt.Choice("line", 4)], name: "n" + rt.Str("name", 0, 1, "xY_9")}
	l.goName = l.name
	var p string
	switch rt.Choice("where", 3) {
	case 0:
		rt.Assume(dir != "")
		p, l.path = "/top/"+dir+"/"+file, dir+"/"+file
	case 1:
		rt.Assume(dir != "")
		p, l.path = dir+"/"+file, dir+"/"+file
	case 2:
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		p, l.path = file, filepath.Base(wd)+"/"+file
	}
	tmpl := templates[rt.Choice("template", len(templates))]
	cfg := &tl.Config{Rules: hx.AcceptAll()}
	target := tl.RuleTarget(rt.Pick("target", "const", "type", "function"))
	if tmpl != "" {
		at := tl.TargetGlobal
		if rt.Bool("own rule") {
			at = target
		}
		from := "^"
		if rt.Bool("other name") {
			from = "^other$"
			tmpl = ""
			cfg.Rules[at] = append(cfg.Rules[at], tl.RuleSpec{Action: tl.ActionDocument, From: from, To: "$path"})
		} else {
			cfg.Rules[at] = append(cfg.Rules[at], tl.RuleSpec{Action: tl.ActionDocument, From: from, To: tmpl})
		}
	}
	tr := hx.Translator(cfg, nil)
	got := tr.SrcLocation(target, l.name, token.Position{Filename: p, Line: l.line})
	rt.Assert(got == l.fill(tmpl), "the location is that of the declaration")
	rt.Reach("location")
}

const one = `#ifndef GUARD
#define GUARD
#define MAC 3
#define MACS "s"
typedef int ip;
typedef int (*cbt)(int a);
typedef void (fnt)(int a);
struct S
{ int x; };
typedef struct S ST;
typedef struct { int y; } AN;
struct O;
typedef struct O *OP;
typedef struct OO OT;
struct TG { int x; };
#endif
`

const two = `union U { int x; };
typedef union U UT;
typedef union { int x; } UA;
union UG { int x; };
enum E { E1, E2 };
typedef enum E ET;
enum {
  X1,
  X2
};

typedef enum { Y1, Y2 } YT;
typedef enum F { F1 } FT;
enum G { G1 };
int fun(int a);
struct S *mk(struct TG *a,
  int b);
extern int va;
const int cv = 4;
int
late(union UG *u);
`

// What is declared where.
type ent struct {
	kind, name string
	file, line int
}

var ents = []ent{
	{"const", "MAC", 0, 3}, {"const", "MACS", 0, 4}, {"type", "ip", 0, 5}, {"type", "cbt", 0, 6}, {"type", "fnt", 0, 7}, {"type", "S", 0, 8}, {"type", "ST", 0, 10}, {"type", "AN", 0, 11}, {"type", "O", 0, 12}, {"type", "OP", 0, 13},
	{"type", "OO", 0, 14}, {"type", "OT", 0, 14}, {"type", "TG", 0, 15}, {"type", "U", 1, 1}, {"type", "UT", 1, 2}, {"type", "UA", 1, 3}, {"type", "UG", 1, 4}, {"type", "E", 1, 5}, {"type", "ET", 1, 6},
	{"const", "X1", 1, 8}, {"const", "X2", 1, 9}, {"type", "YT", 1, 12}, {"type", "F", 1, 13}, {"type", "FT", 1, 13}, {"type", "G", 1, 14}, {"const", "G1", 1, 14},
	{"func", "fun", 1, 15}, {"func", "mk", 1, 16}, {"var", "va", 1, 18}, {"const", "cv", 1, 19}, {"func", "late", 1, 21},
}

// declares reports the name a line of Go declares at the top level ("" for none).
func declares(ln string, group bool) string {
	w := strings.Fields(ln)
	switch {
	case group:
		return w[0]
	case len(w) > 1 && (w[0] == "type" || w[0] == "const" || w[0] == "var") && w[1] != "(":
		return w[1]
	case len(w) > 1 && w[0] == "func" && w[1][0] != '(':
		if i := strings.IndexByte(w[1], '('); i > 0 {
			return w[1][:i]
		}
	}
	return ""
}

// The comments of a generated package.
func CheckComments() {
	cfg := &tl.Config{Rules: hx.AcceptAll(), ConstRules: tl.ConstRules{tl.ConstDefines: tl.ConstExpand, tl.ConstEnum: tl.ConstExpand, tl.ConstDecl: tl.ConstExpand}}
	prefix := map[string]string{}
	targets := []tl.RuleTarget{tl.TargetGlobal, tl.TargetFunction, tl.TargetType, tl.TargetConst, tl.TargetPostGlobal, tl.TargetPublic}
	which := 0 // quick: none, all, or one of them
	if !rt.Deep() {
		which = rt.Choice("renamed", 2+len(targets))
	}
	for i, target := range targets {
		on := which == 1 || which == i+2
		if rt.Deep() {
			on = rt.Bool("rename " + string(target))
		}
		if on {
			pre := []string{"g_", "fn_", "Ty", "Co", "P", "Pub"}[i]
			prefix[string(target)] = pre
			cfg.Rules[target] = append(cfg.Rules[target], tl.RuleSpec{From: "^", To: pre, Action: tl.ActionReplace})
		}
	}
	docs := map[string]string{}
	doc := func(target tl.RuleTarget, n int) {
		t := templates[rt.Choice("template for "+string(target), n)]
		if t != "" {
			docs[string(target)] = t
			cfg.Rules[target] = append(cfg.Rules[target], tl.RuleSpec{Action: tl.ActionDocument, From: "^", To: t})
		}
	}
	if rt.Bool("documented by target") {
		doc(tl.TargetGlobal, 3)
		doc([]tl.RuleTarget{tl.TargetFunction, tl.TargetType, tl.TargetConst}[rt.Choice("documented target", 3)], len(templates))
	} else {
		doc(tl.TargetGlobal, len(templates))
	}
	goName := func(e ent) string {
		post := prefix["post-global"]
		n := prefix["global"] + e.name
		switch e.kind {
		case "type":
			return post + prefix["type"] + n
		case "const":
			return post + prefix["const"] + n
		case "func":
			return prefix["public"] + post + prefix["function"] + n
		}
		return prefix["public"] + post + n
	}
	files := []string{"/src/inc/a.h", "/src/lib/b.h"}
	o := hx.Run(hx.NewGen(nil, hx.Translator(cfg, hx.ParseFiles("c13", "linux", "amd64", files[0], one, files[1], two))))
	byGo := map[string]ent{}
	for _, e := range ents {
		byGo[goName(e)] = e
	}
	n := 0
	for _, text := range []string{o.Const, o.Types, o.Unions, o.Decls} {
		said, group, members := "", false, false
		for _, ln := range hx.Lines(text) {
			if ln == "const (" || ln == ")" {
				group = ln == "const ("
				members = members && group
				continue
			}
			if strings.HasPrefix(ln, "// ") {
				at, cut, w := -1, "", ""
				for _, s := range []string{" function as declared in ", " type as declared in ", " as declared in ", " as defined in ", " enumeration from "} {
					if i := strings.Index(ln, s); i > 0 {
						at, cut, w = i, ln[i+len(s):], s
						break
					}
				}
				if at < 0 {
					continue
				}
				rt.Assert(said == "", "a declaration follows its comment: "+said)
				name := ln[3:at]
				if name == goName(ent{"type", "size_t", 0, 0}) { // from the prelude
					said = name
					continue
				}
				members = w == " enumeration from "
				e, ok := byGo[name]
				rt.Assert(ok, "the comment names a declaration: "+ln)
				l := loc{path: filepath.Base(filepath.Dir(files[e.file])) + "/" + filepath.Base(files[e.file]), file: filepath.Base(files[e.file]), line: e.line, name: e.name, goName: name}
				good := false
				for _, d := range []string{docs["global"], docs["function"], docs["type"], docs["const"]} {
					good = good || cut == l.fill(d)
				}
				want := docs[map[string]string{"func": "function", "type": "type", "const": "const"}[e.kind]]
				if want == "" {
					want = docs["global"]
				}
				if e.kind == "func" || e.kind == "const" {
					good = cut == l.fill(want)
				}
				rt.Assert(good, "the comment of "+e.name+" gives its place")
				n++
				if !members {
					said = name
				}
				continue
			}
			d := declares(ln, group)
			if d == "" || members {
				continue
			}
			if strings.HasPrefix(d, "sizeof") && said != "" && d == "sizeof"+said {
				continue
			}
			rt.Assert(d == said, "the comment before "+d+" names it")
			said = ""
		}
		rt.Assert(said == "", "a declaration follows its comment: "+said)
	}
	rt.Assert(n >= 25, "the declarations have comments")
	rt.Reach("comments")
}
