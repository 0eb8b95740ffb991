package main

import (
	"math"
	"strconv"
	"strings"
)

func isIdent(n string) bool {
	for i := 0; i < len(n); i++ {
		c := n[i]
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if i > 0 {
			ok = ok || c >= '0' && c <= '9' || c == '-' || c == ':'
		}
		if !ok {
			return false
		}
	}
	return n != ""
}

// queryPath makes a path for Get.
func (g *gen) queryPath(es []elem, ci bool) string {
	if g.pct(g.c.odd) {
		return g.oddQueryPath(es)
	}
	if g.pct(g.c.combo) {
		p := g.comboPath(es, ci)
		if g.pct(g.c.mods) {
			p += g.modifiers()
		}
		return p
	}
	e := g.filterTarget(es)
	parts, last := g.steps(es, e, ci)
	if last {
		parts = g.tail(parts, e, es, ci)
	}
	p := strings.Join(parts, ".")
	if g.pct(g.c.mods) {
		p += g.modifiers()
	}
	return p
}

// filterTarget prefers elements conditions can be about where filters are wanted.
func (g *gen) filterTarget(es []elem) elem {
	e := g.target(es)
	for k := 0; k < 4 && g.pct(g.c.filt) && len(e.attrs)+len(e.kids) == 0; k++ {
		e = g.target(es)
	}
	return e
}

// steps writes the way to e; last tells whether a tail may follow a plain name.
func (g *gen) steps(es []elem, e elem, ci bool) ([]string, bool) {
	var parts []string
	n := len(e.names)
	if g.pct(g.c.wild) && n > 1 || g.pct(g.c.wild/4) {
		switch g.r.Intn(3) {
		case 0: // replace some names by *
			k := g.r.Intn(n)
			for i, nm := range e.names {
				if i == k || g.pct(15) {
					parts = append(parts, "*")
				} else {
					parts = append(parts, g.segName(nm, ci))
				}
			}
			return parts, parts[len(parts)-1] != "*"
		case 1: // ** for a run of names
			from := g.r.Intn(n)
			to := from + g.r.Intn(n-from)
			for i := 0; i < from; i++ {
				parts = append(parts, g.segName(e.names[i], ci))
			}
			parts = append(parts, "**")
			for i := to; i < n; i++ {
				parts = append(parts, g.segName(e.names[i], ci))
			}
			return parts, to == n-1 && g.pct(60) || to < n-1
		default:
			for i := 0; i < n-1; i++ {
				parts = append(parts, g.segName(e.names[i], ci))
			}
			parts = append(parts, g.pick("*", "**.*", "*.*", "**."+g.segName(e.names[n-1], ci)))
			return parts, false
		}
	}
	for i, nm := range e.names {
		if g.pct(g.c.miss / 6) {
			nm = g.elemName()
		}
		parts = append(parts, g.segName(nm, ci))
		if i < n-1 && g.pct(g.c.filt/3) && len(e.attrs) > 0 {
			parts = append(parts, g.filter(g.at(es, e, i), ci)+g.pick("", "#"))
		} else if i < n-1 && g.pct(g.c.index) {
			parts = append(parts, g.indexFor(e.idx[i]))
		}
	}
	if g.pct(g.c.miss / 3) {
		parts = append(parts, g.segName(g.elemName(), ci))
	}
	return parts, true
}

func (g *gen) indexFor(k int) string {
	switch {
	case g.pct(75):
		return strconv.Itoa(k)
	case g.pct(10):
		return "-1"
	case g.pct(20): // leading zeros do not count
		return g.pick("0", "0", "00") + g.pick(strconv.Itoa(k), "8", "9", "10")
	}
	return strconv.Itoa(g.r.Intn(5))
}

// tail adds what may follow an element name at the end of a path.
func (g *gen) tail(parts []string, e elem, es []elem, ci bool) []string {
	deep := false
	for _, p := range parts {
		if p == "*" || p == "**" {
			deep = true
		}
	}
	roll := g.r.Intn(100)
	in := func(p int) bool {
		if roll < p {
			return true
		}
		roll -= p
		return false
	}
	switch {
	case in(g.c.attr):
		if !deep && g.pct(g.c.index) {
			parts = append(parts, g.indexFor(e.idx[len(e.idx)-1]))
		}
		return append(parts, "@"+g.attrFor(e, ci))
	case in(g.c.text):
		if !deep && g.pct(g.c.index) {
			parts = append(parts, g.indexFor(e.idx[len(e.idx)-1]))
		}
		return append(parts, "%")
	case !deep && in(g.c.count):
		return append(parts, "#")
	case !deep && in(g.c.filt):
		f := g.filter(e, ci)
		all := g.pct(50)
		if all {
			f += "#"
		}
		parts = append(parts, f)
		switch g.r.Intn(6) {
		case 0:
			if len(e.kids) > 0 {
				return append(parts, g.segName(e.kids[g.r.Intn(len(e.kids))], ci))
			}
		case 1:
			return append(parts, "@"+g.attrFor(e, ci))
		case 2:
			return append(parts, "%")
		case 3:
			if all {
				return append(parts, "#", g.fieldName(e, ci))
			}
		}
		return parts
	case !deep && in(g.c.field):
		return append(parts, "#", g.fieldName(e, ci))
	case deep && in(g.c.field/2):
		return append(parts, "#", g.fieldName(e, ci))
	case !deep && in(g.c.index):
		return append(parts, g.indexFor(e.idx[len(e.idx)-1]))
	}
	return parts
}

func (g *gen) fieldName(e elem, ci bool) string {
	switch g.r.Intn(5) {
	case 0:
		return "%"
	case 1:
		n := g.attrFor(e, ci)
		if isIdent(n) {
			return "@" + n
		}
	}
	n := "item"
	if len(e.kids) > 0 && g.pct(80) {
		n = e.kids[g.r.Intn(len(e.kids))]
	}
	if ci && g.pct(40) {
		n = g.recase(n)
	}
	if g.pct(20) {
		n = localName(n)
	}
	if !isIdent(n) {
		return "name"
	}
	return n
}

var ops2 = []string{"==", "!=", "<", ">", "<=", ">=", "%", "!%"}

// filter makes a condition on the element e.
func (g *gen) filter(e elem, ci bool) string {
	field := "name"
	val := ""
	switch {
	case len(e.attrs) > 0 && g.pct(45):
		k := g.r.Intn(len(e.attrs))
		if okName(e.attrs[k]) {
			field = "@" + e.attrs[k]
		}
		if k < len(e.avals) {
			val = e.avals[k]
		}
	case len(e.kids) > 0 && g.pct(80):
		k := g.r.Intn(len(e.kids))
		field = e.kids[k]
		if !okName(field) || strings.Contains(field, ".") {
			field = "a"
		} else if k < len(e.ktext) {
			val = e.ktext[k]
		}
		switch g.r.Intn(20) {
		case 0, 1:
			field += ".@id"
		case 2:
			field += "." + g.base()
		case 3:
			field += g.pick(".0", ".1", ".#", ".%")
		case 4:
			field = g.pick("*", "**."+field, "*.@id", "*."+g.base())
		}
	case e.text != "" && g.pct(8):
		field, val = "%", e.text
	case g.pct(30):
		field = "@" + attrNames[g.r.Intn(len(attrNames))]
	default:
		field = g.base()
	}
	if g.pct(12) {
		return "#(" + field + ")"
	}
	op := ops2[g.r.Intn(len(ops2))]
	if val != "" && g.pct(40) {
		op = "=="
	} else if val == "" || g.pct(30) {
		if g.pct(60) {
			val = g.numeral()
		} else {
			val = g.plainText()
		}
	}
	switch {
	case op == "%" || op == "!%":
		val = g.patternFrom(val)
	case strings.IndexByte("<>", op[0]) >= 0 && !g.pct(15):
		val = g.numeralNear(val)
	}
	val = cleanFilterValue(val)
	q := g.pick("", "", "'", `"`)
	switch {
	case g.pct(3):
		val, q = "", g.pick("'", `"`)
	case val == "":
		val = "x"
	}
	if q == "" && (strings.ContainsAny(val, " ") || val != strings.TrimSpace(val)) {
		q = "'"
	}
	if strings.Contains(val, q) && q != "" {
		q = ""
		val = strings.Trim(strings.NewReplacer("'", "", `"`, "").Replace(val), " ")
		if val == "" {
			val = "x"
		}
	}
	sp := g.pick("", "", "", " ")
	return "#(" + field + sp + op + sp + q + val + q + ")"
}

// numeralNear makes a numeral equal to v or next to it if v is one.
func (g *gen) numeralNear(v string) string {
	f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
	if err != nil || math.Abs(f) > 1e6 || g.pct(25) {
		return g.numeral()
	}
	switch g.r.Intn(4) {
	case 0:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'f', 2, 64)
	}
	return strconv.FormatFloat(f+[]float64{1, -1, 0.5, -0.5, 10}[g.r.Intn(5)], 'f', -1, 64)
}

// cleanFilterValue drops what the path syntax cannot carry inside a filter.
func cleanFilterValue(v string) string {
	return strings.NewReplacer("(", "", ")", "", "|", "", "\n", "", "\t", "", "\r", "", "=", "", "!", "", "<", "", ">", "", "%", "").Replace(v)
}

func (g *gen) patternFrom(v string) string {
	rs := []rune(v)
	var sb strings.Builder
	for i := 0; i < len(rs); i++ {
		switch g.r.Intn(8) {
		case 0:
			sb.WriteString("*")
			i += g.r.Intn(3)
		case 1:
			sb.WriteString("?")
		case 2:
			if rs[i] == '*' || rs[i] == '?' || g.pct(30) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(rs[i])
		default:
			sb.WriteRune(rs[i])
		}
	}
	if g.pct(25) {
		sb.WriteString("*")
	}
	if g.pct(15) {
		return "*" + sb.String()
	}
	return sb.String()
}

func (g *gen) modifiers() string {
	s := ""
	n := 1 + g.r.Intn(3)
	if g.pct(4) {
		n = 4 + g.r.Intn(8)
	}
	for ; n > 0; n-- {
		m := g.pick("reverse", "sort", "first", "last", "flatten", "ugly", "pretty", "reverse", "sort")
		if len(g.c.mnames) > 0 {
			m = g.pick(g.c.mnames...)
		}
		if g.c.reg && len(g.regs) > 0 && g.pct(50) {
			m = g.pick(g.regs...)
		} else if g.c.reg && g.pct(20) {
			m = g.customName()
		} else if g.pct(5) {
			m = g.pick("nosuch", "Sort", "")
		}
		s += g.pick("|", "|", "|", "|", "| ")
		if g.pct(3) {
			s = strings.TrimRight(s, " ")[:len(strings.TrimRight(s, " "))-1] + " |" // the blank belongs to what is in front
		}
		s += "@" + m
		if g.pct(3) {
			s += "|plain"
		}
	}
	return s
}

func (g *gen) oddQueryPath(es []elem) string {
	e := g.target(es)
	p := ""
	for i, n := range e.names {
		if i > 0 {
			p += "."
		}
		p += escPath(n)
	}
	switch g.r.Intn(17) {
	case 16:
		return p + "." + g.pick("1-2", "1-", "--1", "-0", "00", "-01", "0-", "+1", "1.", "-")
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return "." + p
	case 3:
		return p + "."
	case 4:
		return strings.Replace(p, ".", "..", 1)
	case 5:
		return p + ".#("
	case 6:
		return p + ".#()"
	case 7:
		return p + ".#(=x)"
	case 8:
		return p + ".#(a=)"
	case 9:
		return p + ".-5"
	case 10:
		return p + ".99999999999999999999"
	case 11:
		return "@id"
	case 12:
		return "%"
	case 13:
		return "#"
	case 14:
		return "0"
	default:
		return p + "\\"
	}
}

// at gives an element on the level i of e that has the name e has there.
func (g *gen) at(es []elem, e elem, i int) elem {
	here := elem{}
	for _, x := range es {
		if len(x.names) == i+1 && x.names[i] == e.names[i] {
			here = x
			if g.pct(40) {
				break
			}
		}
	}
	return here
}

// comboPath strings together segments of every kind on the way to an element.
func (g *gen) comboPath(es []elem, ci bool) string {
	e := g.filterTarget(es)
	n := len(e.names)
	var parts []string
	for i := 0; i < n; i++ {
		roll := g.r.Intn(100)
		wild := false
		switch {
		case roll < 12:
			parts = append(parts, "*")
			wild = true
		case roll < 18:
			parts = append(parts, "**")
			if i < n-1 && g.pct(50) {
				i++
			}
			parts = append(parts, g.segName(e.names[i], ci))
		default:
			parts = append(parts, g.segName(e.names[i], ci))
		}
		here := g.at(es, e, i)
		below := wild
		for k := g.r.Intn(5) / 2; k > 0; k-- {
			if below && len(here.kidAt) > 0 {
				// what follows is about the children
				here = es[here.kidAt[g.r.Intn(len(here.kidAt))]]
			}
			switch g.r.Intn(4) {
			case 0:
				if g.pct(20) || !below {
					parts = append(parts, g.indexFor(e.idx[i]))
				}
			case 1, 2:
				parts = append(parts, g.filter(here, ci))
			default:
				parts = append(parts, g.filter(here, ci)+"#")
			}
			below = true
		}
	}
	switch g.r.Intn(7) {
	case 0:
		parts = append(parts, "@"+g.attrFor(e, ci))
	case 1:
		parts = append(parts, "%")
	case 2:
		parts = append(parts, "#")
	case 3:
		if parts[len(parts)-1] != "*" {
			parts = append(parts, "#", g.fieldName(e, ci))
		}
	}
	return strings.Join(parts, ".")
}
