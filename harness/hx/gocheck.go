package hx

import (
	"strings"

	rt "github.com/xlab/c-for-go/verifrt"
)

const imports = "import (\n\t\"fmt\"\n\t\"reflect\"\n\t\"runtime\"\n\t\"sync\"\n\t\"unsafe\"\n)\n"

// GoErrors is what the Go type checker says about the generated package, other than about what it takes from C.
func GoErrors(o *Out) []string { return rt.GoErrors(goFiles(o)...) }

// CgoErrors is GoErrors where what comes from C is what the stub declares.
func CgoErrors(stub string, o *Out) []string { return rt.CgoErrors(stub, goFiles(o)...) }

// Closure is the text of a function or type of the generated package together with all it takes from the package,
// where the names of helpers do not matter.
func Closure(root string, o *Out) string { return rt.Closure(root, goFiles(o)...) }

func goFiles(o *Out) []string {
	helpers := o.Go
	if i := strings.Index(helpers, "import \"C\"\n"); i >= 0 {
		i += len("import \"C\"\n")
		helpers = helpers[:i] + imports + helpers[i:]
	} else {
		helpers = "package pkg\n"
	}
	body := "package pkg\n\nimport \"C\"\n" + imports + strings.Join([]string{o.Const, o.Types, o.Unions, o.Decls}, "\n")
	return []string{body, helpers}
}
