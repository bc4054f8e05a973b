package hx

import "strings"

// Param is a declared parameter.
type Param struct{ Name, Type string }

// Fn is a Go function in generated text.
type Fn struct {
	Comment string // the comment lines before it
	Recv    []Param
	Name    string
	Params  []Param
	Ret     string
	Body    []string // trimmed lines, blank ones dropped
	OK      bool     // the parameter list is well formed
}

// Split cuts s at the separators that are outside any bracket.
func Split(s string, sep byte) []string {
	var l []string
	depth, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && s[i] == sep {
			l = append(l, s[from:i])
			from = i + 1
		}
	}
	return append(l, s[from:])
}

// Match is the index of the bracket closing the one at i, or -1.
func Match(s string, i int) int {
	depth := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				return j
			}
		}
	}
	return -1
}

// Params parses "a T, b U".
func Params(s string) ([]Param, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, true
	}
	var ps []Param
	ok := true
	for _, p := range Split(s, ',') {
		p = strings.TrimSpace(p)
		i := strings.IndexByte(p, ' ')
		if i <= 0 || i == len(p)-1 {
			ok = false
			ps = append(ps, Param{p, ""})
			continue
		}
		ps = append(ps, Param{p[:i], strings.TrimSpace(p[i+1:])})
	}
	return ps, ok
}

// Funcs are the functions of generated Go text.
func Funcs(txt string) []Fn {
	var fs []Fn
	// the generator breaks the line before a receiver
	lines := strings.Split(strings.ReplaceAll(txt, "\nfunc\n(", "\nfunc ("), "\n")
	comment := ""
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "//") {
			comment += l + "\n"
			continue
		}
		if !strings.HasPrefix(l, "func ") {
			comment = ""
			continue
		}
		f := Fn{Comment: comment, OK: true}
		comment = ""
		s := strings.TrimSpace(strings.TrimPrefix(l, "func"))
		if strings.HasPrefix(s, "(") {
			j := Match(s, 0)
			if j < 0 {
				f.OK = false
				fs = append(fs, f)
				continue
			}
			r, ok := Params(s[1:j])
			f.Recv, f.OK = r, ok && len(r) == 1
			s = strings.TrimSpace(s[j+1:])
		}
		j := strings.IndexByte(s, '(')
		if j < 0 {
			f.OK = false
			fs = append(fs, f)
			continue
		}
		f.Name = s[:j]
		k := Match(s, j)
		if k < 0 {
			f.OK = false
			fs = append(fs, f)
			continue
		}
		ps, ok := Params(s[j+1 : k])
		f.Params, f.OK = ps, f.OK && ok
		rest := strings.TrimSpace(s[k+1:])
		b := strings.IndexByte(rest, '{')
		if b < 0 {
			f.OK = false
			b = len(rest)
		} else if b > 0 && strings.HasSuffix(rest[:b], "interface") || b > 5 && strings.HasSuffix(strings.TrimSpace(rest[:b]), "struct") {
			b = len(rest) - 1
		}
		f.Ret = strings.TrimSpace(rest[:b])
		// the body goes up to where the braces balance
		depth := strings.Count(l, "{") - strings.Count(l, "}")
		if t := strings.TrimSpace(rest[b:]); len(t) > 1 {
			f.Body = append(f.Body, strings.TrimSpace(t[1:]))
		}
		for depth > 0 && i+1 < len(lines) {
			i++
			depth += strings.Count(lines[i], "{") - strings.Count(lines[i], "}")
			if t := strings.TrimSpace(lines[i]); t != "" && depth > 0 {
				f.Body = append(f.Body, t)
			}
		}
		fs = append(fs, f)
	}
	return fs
}

// Func finds the functions with this name and receiver type ("" for none).
func Func(txt, recv, name string) []Fn {
	var fs []Fn
	for _, f := range Funcs(txt) {
		r := ""
		if len(f.Recv) > 0 {
			r = f.Recv[0].Type
		}
		if f.Name == name && (recv == "?" || r == recv) {
			fs = append(fs, f)
		}
	}
	return fs
}

// Text is the body.
func (f Fn) Text() string { return strings.Join(f.Body, "\n") }

// Uint renders n.
func Uint(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}
