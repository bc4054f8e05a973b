package verifrt

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"modernc.org/cc/v4"
)

// Chdir changes the working directory.
func Chdir(dir string) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
}

// Setenv sets an environment variable.
func Setenv(name, value string) { os.Setenv(name, value) }

// Program puts a C preprocessor of that path in place: it prints macros for "-dM /dev/null" and search for
// "-v /dev/null", or fails.
func Program(path, macros, search string, ok bool) {
	code := 0
	if !ok {
		code = 1
	}
	sh := fmt.Sprintf("#!/bin/sh\nfor last; do :; done\n[ \"$last\" = /dev/null ] || exec /usr/bin/cc \"$@\"\n[ %d = 0 ] || exit 1\n"+
		"if [ \"$1\" = -dM ]; then cat <<'END'\n%sEND\nelse cat <<'END'\n%sEND\nfi\n", code, macros, search)
	if err := ioutil.WriteFile(path, []byte(sh), 0755); err != nil {
		panic(err)
	}
}

// Predefined is the text of definitions the C front end has been given.
func Predefined(ast *cc.AST) string {
	var b strings.Builder
	for name, m := range ast.Macros {
		s := ""
		for _, t := range m.ReplacementList() {
			s += string(t.Sep()) + t.SrcStr()
		}
		b.WriteString("\n#define " + name + " " + strings.TrimSpace(s))
	}
	return b.String()
}

// Marks are the names declared by "extern int mark_NAME;", in their order.
func Marks(ast *cc.AST) string {
	var r []string
	for l := ast.TranslationUnit; l != nil; l = l.TranslationUnit {
		d := l.ExternalDeclaration
		if d == nil || d.Declaration == nil || d.Declaration.InitDeclaratorList == nil {
			continue
		}
		if n := d.Declaration.InitDeclaratorList.InitDeclarator.Declarator.Name(); strings.HasPrefix(n, "mark_") {
			r = append(r, n)
		}
	}
	return strings.Join(r, " ")
}
