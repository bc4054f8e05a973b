package hx

import "strings"

// Num is the value of a constant expression: M * 10^E10 * 2^E2, integers wrapping at 64 bits.
type Num struct {
	M       uint64
	E10, E2 int
	Float   bool
	OK      bool
}

// Literal reads a numeric literal of C or Go (without suffix).
func Literal(s string) Num {
	n := Num{OK: len(s) > 0}
	hex := len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
	bin := len(s) > 2 && s[0] == '0' && (s[1] == 'b' || s[1] == 'B')
	i := 0
	base := uint64(10)
	if hex {
		i, base = 2, 16
	} else if bin {
		i, base = 2, 2
	}
	frac, digits := 0, 0
	dot := false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '.' {
			if dot {
				n.OK = false
			}
			dot = true
			continue
		}
		if !hex && (c == 'e' || c == 'E') || hex && (c == 'p' || c == 'P') {
			break
		}
		isDigit := c >= '0' && c <= '9'
		isHex := c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
		if !(isDigit || hex && isHex) || bin && c > '1' {
			n.OK = false
			return n
		}
		n.M = n.M*base + uint64(c&15) + 9*uint64(c>>6)
		digits++
		if dot {
			frac++
		}
	}
	if digits == 0 {
		n.OK = false
	}
	exp := 0
	if i < len(s) {
		n.Float = true
		i++
		neg := false
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			neg = s[i] == '-'
			i++
		}
		if i == len(s) {
			n.OK = false
		}
		for ; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				n.OK = false
				return n
			}
			exp = exp*10 + int(s[i]&15)
		}
		if neg {
			exp = -exp
		}
	}
	n.Float = n.Float || dot
	if hex {
		n.E2 = exp - 4*frac
		if dot && exp == 0 && !strings.ContainsAny(s, "pP") {
			n.OK = false
		}
	} else {
		n.E10 = exp - frac
	}
	// a leading zero makes an integer octal
	if !n.Float && !hex && !bin && len(s) > 1 && s[0] == '0' {
		n.M = 0
		for _, c := range []byte(s) {
			if c > '7' {
				n.OK = false
			}
			n.M = n.M*8 + uint64(c&7)
		}
	}
	return n
}

// pow scales m.
func pow(m uint64, base uint64, e int) uint64 {
	for ; e > 0; e-- {
		m *= base
	}
	return m
}

// Same reports whether two values are equal.
func (a Num) Same(b Num) bool {
	if !a.OK || !b.OK {
		return false
	}
	e10, e2 := a.E10, a.E2
	if b.E10 < e10 {
		e10 = b.E10
	}
	if b.E2 < e2 {
		e2 = b.E2
	}
	x := pow(pow(a.M, 10, a.E10-e10), 2, a.E2-e2)
	y := pow(pow(b.M, 10, b.E10-e10), 2, b.E2-e2)
	return x == y
}

// Evaluator evaluates constant expressions of C or Go over 64-bit integers.
type Evaluator struct {
	C    bool // C precedence and suffixes, Go otherwise
	Env  map[string]Num
	s    string
	i    int
	fail bool
	Typ  map[string]bool // names of integer types
}

var cPrec = map[string]int{"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 5, "^": 4, "|": 3}
var goPrec = map[string]int{"*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "+": 4, "-": 4, "|": 4, "^": 4}

// Eval evaluates s.
func (e *Evaluator) Eval(s string) Num {
	e.s, e.i, e.fail = s, 0, false
	n := e.binary(1)
	e.skip()
	n.OK = n.OK && !e.fail && e.i == len(e.s)
	return n
}

func (e *Evaluator) skip() {
	for e.i < len(e.s) && e.s[e.i] == ' ' {
		e.i++
	}
}

func (e *Evaluator) op() string {
	e.skip()
	if e.i >= len(e.s) {
		return ""
	}
	switch c := e.s[e.i]; c {
	case '*', '/', '%', '+', '-', '&', '^', '|':
		return string(rune(c))
	case '<', '>':
		if e.i+1 < len(e.s) && e.s[e.i+1] == c {
			return string(rune(c)) + string(rune(c))
		}
	}
	return ""
}

func (e *Evaluator) binary(min int) Num {
	l := e.unary()
	for {
		op := e.op()
		prec := goPrec[op]
		if e.C {
			prec = cPrec[op]
		}
		if op == "" || prec < min {
			return l
		}
		e.i += len(op)
		r := e.binary(prec + 1)
		ok := l.OK && r.OK && !l.Float && !r.Float
		switch op {
		case "*":
			l.M *= r.M
		case "/", "%":
			if r.M == 0 {
				ok = false
				r.M = 1
			}
			q := int64(l.M) / int64(r.M)
			if op == "%" {
				q = int64(l.M) % int64(r.M)
			}
			l.M = uint64(q)
		case "+":
			l.M += r.M
		case "-":
			l.M -= r.M
		case "<<":
			l.M <<= r.M
		case ">>":
			l.M = uint64(int64(l.M) >> r.M)
		case "&":
			l.M &= r.M
		case "^":
			l.M ^= r.M
		case "|":
			l.M |= r.M
		}
		l.OK = ok
	}
}

func word(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (e *Evaluator) bad() Num { e.fail = true; return Num{} }

func (e *Evaluator) unary() Num {
	e.skip()
	if e.i >= len(e.s) {
		return e.bad()
	}
	switch c := e.s[e.i]; {
	case c == '-':
		e.i++
		n := e.unary()
		n.M = -n.M
		return n
	case c == '+':
		e.i++
		return e.unary()
	case c == '~' && e.C || c == '^' && !e.C:
		e.i++
		n := e.unary()
		n.M = ^n.M
		return n
	case c == '(':
		j := Match(e.s, e.i)
		if j < 0 {
			return e.bad()
		}
		in := strings.TrimSpace(e.s[e.i+1 : j])
		e.i = j + 1
		if len(in) > 0 && (in[0] == '_' || in[0] >= 'a' && in[0] <= 'z' || in[0] >= 'A' && in[0] <= 'Z') && e.Typ[in] {
			if e.C {
				return e.unary()
			}
			return e.primary() // a conversion needs parentheses
		}
		sub := &Evaluator{C: e.C, Env: e.Env, Typ: e.Typ}
		return sub.Eval(in)
	}
	if e.i+2 < len(e.s) && e.s[e.i] == '\'' && e.s[e.i+2] == '\'' && e.s[e.i+1] != '\\' {
		e.i += 3
		return Num{M: uint64(e.s[e.i-2]), OK: true}
	}
	j := e.i
	for j < len(e.s) && word(e.s[j]) {
		// the sign of an exponent
		j++
		if j < len(e.s) && (e.s[j] == '-' || e.s[j] == '+') && strings.ContainsAny(e.s[j-1:j], "eEpP") && e.s[e.i] >= '.' && e.s[e.i] <= '9' && !(strings.ContainsAny(e.s[j-1:j], "eE") && j-e.i > 1 && strings.ContainsAny(e.s[e.i+1:e.i+2], "xX")) {
			j++
		}
	}
	if j == e.i {
		return e.bad()
	}
	w := e.s[e.i:j]
	e.i = j
	if w[0] >= '0' && w[0] <= '9' || w[0] == '.' {
		if e.C {
			w = cutSuffix(w)
		}
		return Literal(w)
	}
	switch w {
	case "uint32", "uint64", "int64":
		if e.C {
			return e.bad()
		}
		n := e.primary()
		n.OK = n.OK && !n.Float && !(w == "uint32" && n.M > 0xffffffff) && !(w == "int64" && n.M > 0x7fffffffffffffff)
		return n
	}
	n, ok := e.Env[w]
	if !ok {
		return e.bad()
	}
	return n
}

func (e *Evaluator) primary() Num {
	e.skip()
	if e.i >= len(e.s) || e.s[e.i] != '(' {
		return e.bad()
	}
	j := Match(e.s, e.i)
	if j < 0 {
		return e.bad()
	}
	sub := &Evaluator{C: e.C, Env: e.Env, Typ: e.Typ}
	n := sub.Eval(e.s[e.i+1 : j])
	e.i = j + 1
	return n
}

// cutSuffix drops the suffix of a C literal.
func cutSuffix(w string) string {
	hex := len(w) > 1 && w[0] == '0' && (w[1] == 'x' || w[1] == 'X')
	for len(w) > 1 {
		switch c := w[len(w)-1]; {
		case c == 'u' || c == 'U' || c == 'l' || c == 'L':
		case (c == 'f' || c == 'F') && (!hex || strings.ContainsAny(w, "pP")):
		default:
			return w
		}
		w = w[:len(w)-1]
	}
	return w
}
