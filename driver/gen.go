package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

// cfg steers the random histories of one profile. Weights are relative.
type cfg struct {
	combo  int            // percent of query paths with segments of every kind strung together
	ops    map[string]int // weight of each operation
	mods   int            // percent of queries with modifiers
	ci     int            // percent of case-insensitive calls
	indent int            // percent of edits with indentation
	ns     int            // percent of names with a namespace prefix
	cases  int            // percent of names in mixed case
	dots   int            // percent of names containing a dot
	markup int            // percent of places with comments, CDATA, PIs
	multi  int            // percent of documents with several roots
	ents   int            // percent of texts with entities or special characters
	nums   int            // percent of texts that are numerals
	more   int            // percent of attributes beyond the usual
	self   int            // percent of self-closing leaves
	broken int            // percent of documents damaged
	empty  int            // percent of empty documents
	depth  int
	fan    int
	wild   int // percent of queries with * or **
	filt   int // percent of queries ending in a filter
	field  int // percent of queries with field extraction
	index  int // percent chance of an index on each segment
	attr   int // percent of paths ending in an attribute
	text   int // percent of queries ending in %
	count  int // percent of queries ending in #
	miss   int // percent of paths changed to name something absent
	odd    int // percent of syntactically odd paths
	blanks int // percent of odd paths with white space at an end
	rawbad int // percent of raw fragments that are damaged
	same   int // percent of element names drawn from a tiny set, so that arrays form
	reg    bool
	free   int      // percent of calls with arbitrary paths
	noise  int      // percent of documents that are arbitrary bytes
	big    int      // percent of larger documents
	huge   int      // per mille of documents and values of some thousand bytes
	twins  int      // percent of documents whose long names differ in one place
	series int      // percent of documents that are a list of comparable values
	read   int      // percent of edits followed by a query of the same path
	pairs  int      // percent of texts reused from a small pool, so that values collide
	vkind  []string // kinds of values, all if empty
	lits   []string // extra texts
	mnames []string // modifiers to draw from
}

func baseCfg() cfg {
	return cfg{
		ops: map[string]int{"get": 10, "set": 10, "del": 5, "setraw": 2},
		ns:  10, cases: 10, dots: 4, markup: 12, multi: 15, ents: 25, nums: 25, self: 15,
		depth: 3, fan: 4, wild: 20, filt: 20, field: 10, index: 20, attr: 20, text: 8, count: 8,
		miss: 20, odd: 5, rawbad: 25, same: 60, big: 5, huge: 8,
	}
}

type gen struct {
	r *rand.Rand
	c cfg
	k int // elements left for the current document

	queue []Op     // operations to perform before a new one is drawn
	regs  []string // names registered so far
}

func (g *gen) pct(p int) bool { return g.r.Intn(100) < p }
func (g *gen) pick(xs ...string) string {
	return xs[g.r.Intn(len(xs))]
}

var tinyNames = []string{"a", "b", "item"}
var plainNames = []string{"a", "b", "c", "item", "user", "name", "id", "x-1", "_n", "v2", "price", "ab", "abc", "root"}
var attrNames = []string{"id", "k", "name", "x-1", "type", "a", "ab"}

func (g *gen) base() string {
	if g.pct(g.c.same) {
		return tinyNames[g.r.Intn(len(tinyNames))]
	}
	return plainNames[g.r.Intn(len(plainNames))]
}

func (g *gen) recase(s string) string {
	if s == "" {
		return s
	}
	switch g.r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && g.pct(50) {
			b[i] -= 32
		}
	}
	return string(b)
}

func (g *gen) elemName() string {
	n := g.base()
	if g.pct(g.c.dots) {
		n = n + "." + g.pick("x", "y", "1")
	}
	if g.pct(g.c.cases) {
		n = g.recase(n)
	}
	if g.pct(g.c.ns) {
		n = g.pick("ns", "soap", "p", "ns-2") + ":" + n
		if g.pct(5) {
			n = "q:" + n
		}
	}
	return n
}

func (g *gen) attrName() string {
	n := attrNames[g.r.Intn(len(attrNames))]
	if g.pct(g.c.cases) {
		n = g.recase(n)
	}
	if g.pct(g.c.ns) {
		n = g.pick("xmlns", "ns", "xml") + ":" + n
	}
	return n
}

func (g *gen) numeral() string {
	switch g.r.Intn(12) {
	case 0:
		return "0"
	case 1:
		return "-" + strconv.Itoa(g.r.Intn(50))
	case 2:
		return strconv.Itoa(g.r.Intn(20)) + "." + strconv.Itoa(g.r.Intn(100))
	case 3:
		return g.pick("", "", "-", "+") + strconv.Itoa(g.r.Intn(10)) + g.pick("", "", ".", ".5", ".25") + g.pick("e", "E") + g.pick("", "", "+", "-") + strconv.Itoa(g.r.Intn(3))
	case 4:
		return "0" + strconv.Itoa(g.r.Intn(30))
	case 5:
		return "+" + strconv.Itoa(g.r.Intn(30))
	case 6:
		return "." + strconv.Itoa(g.r.Intn(10))
	case 7:
		return strconv.Itoa(g.r.Intn(30)) + ".0"
	}
	return strconv.Itoa(g.r.Intn(30))
}

// text as the user means it, before escaping
func (g *gen) plainText() string {
	if len(g.c.lits) > 0 && g.pct(40) {
		return g.pick(g.c.lits...)
	}
	if g.huge() {
		return g.longText()
	}
	if g.pct(1) {
		return strings.Repeat(g.pick("x", "ab ", "é", "1", "a&b"), 20+g.r.Intn(60))
	}
	if g.pct(g.c.nums) {
		return g.numeral()
	}
	if g.pct(g.c.ents) {
		if g.pct(15) {
			return g.entity()
		}
		return g.pick("Tom & Jerry", "<b>", "a<b>c", `say "hi"`, "it's", "&amp;", "&lt;x&gt;", "a&b;c", "]]>", "<!--x-->", "</a>", "é", "日本", "naïve & co", "a\\b", "&#65;", "x>y", "q\"'<>&")
	}
	return g.pick("x", "hello", "abc", "true", "yes", "1", "A", "Bob", "bob", "a b", "a.b", "foo-bar", "test", "", "T", "alice", "a*c", "a?c", "new york")
}

func (g *gen) huge() bool { return g.r.Intn(1000) < g.c.huge }

// size is a length around the sizes buffers have, or any other.
func (g *gen) size() int {
	switch g.r.Intn(3) {
	case 0:
		return []int{128, 255, 256, 500, 512, 1000, 1024, 2048, 4096}[g.r.Intn(9)] + g.r.Intn(3) - 1
	case 1:
		return 100 + g.r.Intn(400)
	}
	return 500 + g.r.Intn(4000)
}

func (g *gen) longText() string {
	unit := g.pick("x", "ab ", "é", "1", "a&b", "0123456789", "lorem ipsum ", "<i>", "a\nb")
	n := g.size()
	if strings.Contains(unit, "&") || strings.Contains(unit, "<") {
		n /= 4
	}
	s := strings.Repeat(unit, n/len(unit)+1)
	for !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

func (g *gen) ws() string {
	return g.pick(" ", "\n", "\t", "  ", "\n  ", "\r\n")
}

// entity gives a reference that is not one of the five, or nearly one of them
func (g *gen) entity() string {
	switch g.r.Intn(4) {
	case 0:
		return "&#" + g.pick("39", "34", "38", "60", "62", "39", "34", "38", "60", "62", "039", "65", "9", "10", "13", "32", "160", "8364", "0", "") + ";"
	case 1:
		return "&#" + g.pick("x", "x", "X") + g.pick("27", "22", "26", "3C", "3c", "3E", "0027", "A0", "a", "1F600", "") + ";"
	case 2:
		return "&" + g.pick("AMP", "Lt", "GT", "Quot", "APOS", "nbsp", "copy", "euro", "hellip", "am", "apo", "quo", "l", "ampl", "lt ", " lt") + ";"
	}
	return g.pick("&amp", "&lt", "&gt", "&quot", "&apos", "&#39", "&#x27") + g.pick("", "x", " ;", "&amp;", ".")
}

func (g *gen) srcText() string {
	s := g.plainText()
	if g.pct(g.c.ents) && g.pct(30) {
		s = g.pick(g.entity(), g.entity(), g.entity(), g.entity(), g.entity(), "&amp;amp;", "&bogus;", "&#x41;", "&lt", "&", "a &amp; b", "&quot;q&quot;", "&apos;", "&amp;lt;", "&gt;&lt;", "]]&gt;")
	} else {
		s = esc(s, g.r)
	}
	if g.pct(12) {
		s = g.ws() + s
	}
	if g.pct(12) {
		s += g.ws()
	}
	return s
}

// esc escapes what must be escaped in element text, sometimes more
func esc(s string, r *rand.Rand) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	if r.Intn(2) == 0 {
		s = strings.ReplaceAll(s, ">", "&gt;")
	}
	if r.Intn(2) == 0 {
		s = strings.ReplaceAll(s, `"`, "&quot;")
		s = strings.ReplaceAll(s, `'`, "&apos;")
	}
	return s
}

func (g *gen) markup() string {
	return g.pick("<!-- c -->", "<!--<a>1</a>-->", "<!-- > -->", "<!---->", "<![CDATA[x]]>", "<![CDATA[<a>9</a>]]>",
		"<![CDATA[]]>", "<?pi?>", "<?pi a=\"1\"?>", "<!--&amp;-->", "<![CDATA[ ]> ]] ]]>", "<!--</a>-->",
		"<![CDATA["+g.pick(">", "]", "<", "&", "'", "]]", "]>", "<!--", "?>", "-->", "[", "<![", "<!", "<?", "<![CDATA", "<!DOCTYPE x>", "<!ENTITY", "<![INCLUDE[", "</")+g.pick("", "x", "</a>")+"]]>", "<?pi "+g.pick(">", "<a>", "?", "'", "-->")+"?>")
}

func (g *gen) attrs() string {
	var sb strings.Builder
	n := 0
	for g.pct(35+g.c.more) && n < 4 {
		n++
		sb.WriteString(g.pick(" ", " ", " ", "  ", "\n", "\t"))
		sb.WriteString(g.attrName())
		sb.WriteString(g.pick("=", "=", "=", " = ", "= ", " ="))
		v := g.plainText()
		if g.pct(8) {
			v = ""
		}
		q := g.pick(`"`, `"`, `'`)
		if !g.pct(10) {
			v = strings.ReplaceAll(v, "&", "&amp;")
		}
		if g.pct(70) {
			v = strings.ReplaceAll(v, "<", "&lt;")
		}
		if q == `"` {
			v = strings.ReplaceAll(v, `"`, "&quot;")
		} else {
			v = strings.ReplaceAll(v, `'`, "&apos;")
		}
		if g.pct(5) {
			v = " " + v + "  "
		}
		if g.pct(4) {
			v += "/>"
		}
		sb.WriteString(q + v + q)
	}
	return sb.String()
}

func (g *gen) element(depth int, sb *strings.Builder) {
	g.named(g.elemName(), depth, sb)
}

// almost gives a name that is almost the given one
func (g *gen) almost(n string) string {
	if m := n[:len(n)-1]; g.pct(30) && okName(m) && !strings.HasSuffix(m, ":") {
		return m
	}
	return n + g.pick("-", "_", "x", "1", "s", ".", "-1", n[len(n)-1:])
}

func (g *gen) named(name string, depth int, sb *strings.Builder) {
	g.k--
	sb.WriteString("<" + name)
	sb.WriteString(g.attrs())
	if g.pct(8) {
		sb.WriteString(g.ws())
	}
	leaf := depth <= 1 || g.k <= 0 || g.pct(25)
	if leaf && g.pct(g.c.self) {
		sb.WriteString("/>")
		return
	}
	sb.WriteString(">")
	if leaf {
		sb.WriteString(g.srcText())
		if g.pct(g.c.markup) {
			sb.WriteString(g.markup())
			if g.pct(50) {
				sb.WriteString(g.srcText())
			}
		}
	} else {
		n := 1 + g.r.Intn(g.c.fan)
		for i := 0; i < n && g.k > 0; i++ {
			if g.pct(g.c.markup) {
				sb.WriteString(g.markup())
			}
			if g.pct(15) {
				sb.WriteString(g.ws())
			}
			if g.pct(10) {
				sb.WriteString(g.srcText())
			}
			if g.pct(4) {
				g.named(g.almost(name), depth-1, sb)
				continue
			}
			g.element(depth-1, sb)
		}
		if g.pct(10) {
			sb.WriteString(g.srcText())
		}
		if g.pct(15) {
			sb.WriteString(g.ws())
		}
	}
	sb.WriteString("</" + name)
	if g.pct(8) {
		sb.WriteString(g.ws())
	}
	sb.WriteString(">")
}

func (g *gen) doc() string {
	if g.pct(g.c.noise) {
		return g.noise()
	}
	if g.pct(g.c.empty) {
		return ""
	}
	var sb strings.Builder
	if g.pct(g.c.twins) {
		g.twins(&sb, 1+g.r.Intn(3))
		return sb.String()
	}
	if g.pct(g.c.series) {
		g.series(&sb)
		return sb.String()
	}
	g.k = 3 + g.r.Intn(9)
	if g.huge() {
		switch g.r.Intn(4) {
		case 0:
			g.wide(&sb, 40+g.r.Intn(150), 20+g.r.Intn(40))
			return sb.String()
		case 1:
			g.deep(&sb, 25+g.r.Intn(60))
			return sb.String()
		case 2:
			g.padded(&sb)
			return sb.String()
		}
		g.k = 60
	} else if g.pct(g.c.big) {
		switch g.r.Intn(4) {
		case 0:
			g.wide(&sb, 9+g.r.Intn(25), 5+g.r.Intn(15))
			return sb.String()
		case 1:
			g.deep(&sb, 6+g.r.Intn(14))
			return sb.String()
		}
		g.k = 25
	}
	if g.pct(g.c.markup) {
		sb.WriteString(g.pick("<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<!DOCTYPE r [<!ENTITY e \"v>\">]>", "<!-- <a> -->", "<?xml version=\"1.0\"?>\n<!doctype x>\n", "\n"))
	}
	root := g.elemName()
	depth := g.c.depth + g.r.Intn(2)
	if g.c.multi > 0 && g.pct(8) {
		depth = 1 // hardly anything in the first of several roots
	}
	g.named(root, depth, &sb)
	for g.pct(g.c.multi) && g.k > 0 {
		if g.pct(20) {
			sb.WriteString(g.ws())
		}
		if g.pct(g.c.markup) {
			sb.WriteString(g.pick("<!-- c -->", "<?pi?>"))
		}
		if g.pct(30) {
			g.named(root, g.c.depth-1, &sb)
		} else {
			g.element(g.c.depth-1, &sb)
		}
	}
	if g.pct(5) {
		sb.WriteString(g.ws())
	}
	s := sb.String()
	if g.pct(g.c.broken) {
		s = g.damage(s)
	}
	return s
}

// wide writes one element with many children, deep a long chain.
func (g *gen) wide(sb *strings.Builder, kids, attrs int) {
	name, kid := g.elemName(), g.elemName()
	sb.WriteString("<" + name)
	if g.pct(40) {
		for i := 0; i < attrs; i++ {
			sb.WriteString(" a" + strconv.Itoa(i) + `="` + strconv.Itoa(g.r.Intn(20)) + `"`)
		}
	}
	sb.WriteString(">")
	for i := 0; i < kids; i++ {
		k := kid
		if g.pct(10) {
			k = g.elemName()
		}
		switch g.r.Intn(5) {
		case 0:
			sb.WriteString("<" + k + ` id="` + strconv.Itoa(g.r.Intn(12)) + `"/>`)
		case 1:
			sb.WriteString("<" + k + ` id="` + strconv.Itoa(g.r.Intn(12)) + `"><name>` + esc(g.plainText(), g.r) + "</name></" + k + ">")
		default:
			sb.WriteString("<" + k + ">" + esc(g.plainText(), g.r) + "</" + k + ">")
		}
	}
	sb.WriteString("</" + name + ">")
}

// twins writes levels of siblings with names of equal length that differ in
// one character. Below every sibling the names are the same, so that many
// paths differ in one place only.
func (g *gen) twins(sb *strings.Builder, levels int) {
	names := make([][]string, levels)
	for l := range names {
		n := 1 + g.r.Intn(30)
		base := make([]byte, n)
		for i := range base {
			base[i] = "abcdefgh"[g.r.Intn(8)]
		}
		for k := 2 + g.r.Intn(2); k > 0; k-- {
			name := append([]byte{}, base...)
			name[g.r.Intn(n)] = "abcdefghAB_"[g.r.Intn(11)]
			names[l] = append(names[l], string(name))
		}
	}
	var write func(l int)
	write = func(l int) {
		if l == levels {
			sb.WriteString(strconv.Itoa(g.r.Intn(100000)))
			return
		}
		for _, n := range names[l] {
			sb.WriteString("<" + n + ` k="` + strconv.Itoa(g.r.Intn(1000)) + `">`)
			write(l + 1)
			sb.WriteString("</" + n + ">")
		}
	}
	write(0)
}

// series writes a list of elements whose texts come from one family of values.
func (g *gen) series(sb *strings.Builder) {
	var draw func() string
	switch g.r.Intn(7) {
	case 0:
		draw = func() string { return strconv.Itoa(g.r.Intn(60) - 30) }
	case 1:
		draw = func() string { return "-" + strconv.Itoa(g.r.Intn(300)) }
	case 2:
		draw = func() string {
			return g.pick("", "-") + strconv.Itoa(g.r.Intn(12)) + "." + strconv.Itoa(g.r.Intn(100))
		}
	case 3:
		draw = func() string {
			return g.pick("", "-", "+") + strconv.Itoa(1+g.r.Intn(20)) + g.pick("e", "E") + g.pick("", "-") + strconv.Itoa(g.r.Intn(4))
		}
	case 4:
		draw = func() string { return strconv.Itoa(g.r.Intn(2000000000)) + g.pick("", "0", "00", "000") }
	case 5:
		draw = func() string { return g.pick("a", "B", "b", "ab", "Z", "é", "z", "aa", "10", "9", "_", "A b") }
	default:
		draw = g.numeral
	}
	name := g.elemName()
	sb.WriteString("<a>")
	for n := 2 + g.r.Intn(12); n > 0; n-- {
		v := draw()
		if g.pct(3) {
			v = g.plainText()
		}
		sb.WriteString("<" + name)
		if g.pct(25) {
			sb.WriteString(` k="` + g.pick("", "", "", " ", "\t") + draw() + g.pick("", "", "", "", " ") + `"`)
		}
		sb.WriteString(">")
		if g.pct(10) {
			sb.WriteString("<b>" + draw() + "</b>")
		} else {
			sb.WriteString(esc(v, g.r))
		}
		sb.WriteString("</" + name + ">")
	}
	sb.WriteString("</a>")
}

// padded puts something long before, between and behind the elements.
func (g *gen) padded(sb *strings.Builder) {
	pad := func() {
		t := strings.NewReplacer("<", "(", "&", "+").Replace(g.longText())
		switch g.r.Intn(5) {
		case 0:
			sb.WriteString("<!--" + t + "-->")
		case 1:
			n := g.elemName()
			sb.WriteString("<" + n + ">" + t + "</" + n + ">")
		case 2:
			sb.WriteString("<" + g.elemName() + ` id="` + strings.ReplaceAll(t, "\n", " ") + `"/>`)
		case 3:
			sb.WriteString("<![CDATA[" + t + "]]>")
		default:
			sb.WriteString(t)
		}
	}
	name := g.elemName()
	sb.WriteString("<" + name + g.attrs() + ">")
	at := g.r.Intn(4)
	for i := 0; i < 4; i++ {
		if i == at || g.pct(10) {
			pad()
		}
		g.element(g.c.depth, sb)
	}
	sb.WriteString("</" + name + ">")
}

func (g *gen) deep(sb *strings.Builder, levels int) {
	var names []string
	for i := 0; i < levels; i++ {
		names = append(names, g.elemName())
	}
	for _, n := range names {
		sb.WriteString("<" + n)
		if g.pct(20) {
			sb.WriteString(g.attrs())
		}
		sb.WriteString(">")
		if g.pct(15) {
			g.k = 1
			g.element(1, sb)
		}
	}
	sb.WriteString(g.srcText())
	for i := len(names) - 1; i >= 0; i-- {
		sb.WriteString("</" + names[i] + ">")
	}
}

func (g *gen) damage(s string) string {
	if s == "" {
		return g.pick("<", "x", " ", "<a", "</a>", "<!-- -->", "<a><b></a></b>")
	}
	b := []byte(s)
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := g.r.Intn(len(b))
		switch g.r.Intn(6) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b = append(b[:i:i], append([]byte(g.pick("<", ">", "/", "\"", "'", "&", "=", "!", "-", " ", "</a>", "<a>", "x", "\n", "<!--", "-->", "]]>", "<![CDATA[", "<?", "[", "]")), b[i:]...)...)
		case 2:
			b = b[:i]
		case 3:
			b[i] = byte(g.r.Intn(128))
		case 4:
			j := i + g.r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		default:
			b[i] = "<>/\"'= !?-"[g.r.Intn(10)]
		}
	}
	return string(b)
}

// elem is an element of the current document as seen by the path generator.
type elem struct {
	names []string
	idx   []int // position among the siblings with the same name
	attrs []string
	avals []string
	kids  []string
	kidAt []int // where the children are listed
	ktext []string
	text  string
}

// scan lists the elements of a document. It only guides the choice of paths.
func scan(d string) []elem {
	var out []elem
	type frame struct {
		e     int
		names []string
		idx   []int
		count map[string]int
	}
	stack := []frame{{e: -1, count: map[string]int{}}}
	i := 0
	for i < len(d) {
		if d[i] != '<' {
			j := strings.IndexByte(d[i:], '<')
			if j < 0 {
				break
			}
			if e := stack[len(stack)-1].e; e >= 0 {
				out[e].text += d[i : i+j]
			}
			i += j
			continue
		}
		skip := func(end string) {
			j := strings.Index(d[i:], end)
			if j < 0 {
				i = len(d)
			} else {
				i += j + len(end)
			}
		}
		switch {
		case strings.HasPrefix(d[i:], "<!--"):
			skip("-->")
		case strings.HasPrefix(d[i:], "<![CDATA["):
			skip("]]>")
		case strings.HasPrefix(d[i:], "<!DOCTYPE") || strings.HasPrefix(d[i:], "<!doctype"):
			if j := strings.Index(d[i:], "]>"); j >= 0 && j < 60 {
				i += j + 2
			} else {
				skip(">")
			}
		case strings.HasPrefix(d[i:], "<!"), strings.HasPrefix(d[i:], "<?"):
			skip(">")
		case strings.HasPrefix(d[i:], "</"):
			skip(">")
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		default:
			i++
			j := strings.IndexAny(d[i:], " \t\r\n/>")
			if j < 0 {
				return out
			}
			name := d[i : i+j]
			i += j
			top := &stack[len(stack)-1]
			e := elem{
				names: append(append([]string{}, top.names...), name),
				idx:   append(append([]int{}, top.idx...), top.count[name]),
			}
			top.count[name]++
			self := false
			for i < len(d) && d[i] != '>' {
				if d[i] == '/' {
					self = true
					i++
					continue
				}
				if strings.IndexByte(" \t\r\n=", d[i]) >= 0 {
					i++
					continue
				}
				if d[i] == '"' || d[i] == '\'' {
					k := strings.IndexByte(d[i+1:], d[i])
					if k < 0 {
						return out
					}
					e.avals = append(e.avals, unesc(d[i+1:i+1+k]))
					i += k + 2
					continue
				}
				k := strings.IndexAny(d[i:], " \t\r\n=/>")
				if k < 0 {
					return out
				}
				e.attrs = append(e.attrs, d[i:i+k])
				i += k
			}
			i++
			if top.e >= 0 {
				out[top.e].kids = append(out[top.e].kids, name)
				out[top.e].kidAt = append(out[top.e].kidAt, len(out))
			}
			out = append(out, e)
			if !self {
				stack = append(stack, frame{e: len(out) - 1, names: e.names, idx: e.idx, count: map[string]int{}})
			}
		}
	}
	for i := range out {
		out[i].text = unesc(strings.TrimSpace(out[i].text))
	}
	for i := range out {
		for _, k := range out[i].kidAt {
			out[i].ktext = append(out[i].ktext, out[k].text)
		}
	}
	return out
}

func unesc(s string) string {
	return strings.NewReplacer("&lt;", "<", "&gt;", ">", "&quot;", `"`, "&apos;", "'", "&amp;", "&").Replace(s)
}

func escPath(name string) string {
	return strings.NewReplacer("\\", "\\\\", ".", "\\.").Replace(name)
}

func localName(n string) string {
	if i := strings.IndexByte(n, ':'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// segName turns an element name into the path segment that should find it.
func (g *gen) segName(n string, ci bool) string {
	if i := strings.IndexByte(n, ':'); i >= 0 && g.pct(35) {
		n = localName(n)
	} else if g.pct(2 + g.c.ns/3) {
		n = "ns:" + localName(n)
	}
	if (ci && g.pct(50)) || g.pct(g.c.cases/4) {
		n = g.recase(n)
	}
	return escPath(n)
}

func okName(n string) bool {
	if n == "" {
		return false
	}
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == ':' || c == '.') {
			return false
		}
	}
	return n[0] != '-' && n[0] != '.' && !(n[0] >= '0' && n[0] <= '9')
}

// target chooses an element of the document, or invents one.
func (g *gen) target(es []elem) elem {
	if len(es) > 0 && !g.pct(4) {
		e := es[g.r.Intn(len(es))]
		for _, n := range e.names {
			if !okName(n) {
				return elem{names: []string{"a", "b"}, idx: []int{0, 0}}
			}
		}
		return e
	}
	n := 1 + g.r.Intn(3)
	e := elem{}
	for i := 0; i < n; i++ {
		e.names = append(e.names, g.elemName())
		e.idx = append(e.idx, 0)
	}
	return e
}

// editPath makes a path for Set and Delete: names, indexes, an attribute.
func (g *gen) editPath(es []elem, ci bool, del bool) string {
	if g.pct(g.c.odd) {
		return g.oddEditPath(es)
	}
	e := g.target(es)
	var parts []string
	for i, n := range e.names {
		if i > 0 && g.pct(g.c.miss/4) {
			n = g.elemName()
		}
		parts = append(parts, g.segName(n, ci))
		if g.pct(g.c.index) {
			k := e.idx[i]
			if g.pct(25) {
				k = g.r.Intn(4)
			}
			parts = append(parts, strconv.Itoa(k))
		}
	}
	if g.pct(g.c.miss) {
		for n := 1 + g.r.Intn(2); n > 0; n-- {
			parts = append(parts, g.segName(g.elemName(), ci))
		}
	} else if g.pct(g.c.attr) {
		parts = append(parts, "@"+g.attrFor(e, ci))
	}
	if !del && g.pct(g.c.index/2) && !strings.HasPrefix(parts[len(parts)-1], "@") {
		if _, err := strconv.Atoi(parts[len(parts)-1]); err != nil {
			parts = append(parts, "-1")
		}
	}
	return strings.Join(parts, ".")
}

func (g *gen) attrFor(e elem, ci bool) string {
	n := g.attrName()
	if len(e.attrs) > 0 && g.pct(75) {
		n = e.attrs[g.r.Intn(len(e.attrs))]
		if !okName(n) {
			n = "id"
		}
	}
	if ci && g.pct(50) {
		n = g.recase(n)
	}
	return escPath(n)
}

func (g *gen) oddEditPath(es []elem) string {
	e := g.target(es)
	p := ""
	for i, n := range e.names {
		if i > 0 {
			p += "."
		}
		p += escPath(n)
	}
	if g.pct(g.c.blanks) {
		if g.pct(50) {
			return g.ws() + p
		}
		return p + g.pick("", ".@id", ".z", ".-1", ".0") + g.ws()
	}
	switch g.r.Intn(15) {
	case 14:
		return p + "." + g.pick("1-2", "1-", "--1", "-0", "00", "-01", "0-", "+1", "1.", "-")
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return p + ".-2"
	case 3:
		return p + ".-1.z"
	case 4:
		return "@id"
	case 5:
		return p + ".@"
	case 6:
		return p + ".#"
	case 7:
		return p + ".%"
	case 8:
		return p + ".@1x"
	case 9:
		return "0"
	case 10:
		return "-1"
	case 11:
		return "." + p + "..zz"
	case 12:
		return p + ".7.@k"
	default:
		return p + ".9.z"
	}
}

func (g *gen) value() Val {
	if len(g.c.vkind) > 0 {
		want := g.pick(g.c.vkind...)
		for {
			if v := g.anyValue(); v.K == want {
				return v
			}
		}
	}
	return g.anyValue()
}

func (g *gen) anyValue() Val {
	switch n := g.r.Intn(20); {
	case n < 11:
		s := g.plainText()
		if g.pct(10) {
			s = g.ws() + s + g.ws()
		}
		return Val{"str", Bs(s), "string"}
	case n < 13:
		t := g.pick("int", "int64")
		v := strconv.Itoa(g.r.Intn(2000) - 1000)
		if g.pct(20) {
			v = g.pick("9223372036854775807", "-9223372036854775808", "4294967296", "-2147483649", strconv.FormatInt(int64(g.r.Uint64()), 10))
		}
		return Val{"lit", Bs(v), t}
	case n < 15:
		t := g.pick("float64", "float32")
		f := float64(g.r.Intn(4000)-2000) / []float64{1, 2, 4, 8, 10, 100}[g.r.Intn(6)]
		switch g.r.Intn(6) {
		case 0:
			f = f * 1e20
		case 1:
			f = g.r.NormFloat64() * math.Pow(10, float64(g.r.Intn(40)-20))
		case 2:
			f = []float64{0.1 + 0.2*float64(g.r.Intn(2)), 1.0 / 3, 1e6, 999999, 1e21, 1e-4, 1e-5, 123456789, 16777217,
				math.MaxFloat64, math.MaxFloat32, 5e-324, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()}[g.r.Intn(16)]
		}
		bits := 64
		if t == "float32" {
			bits = 32
			f = float64(float32(f))
		}
		return Val{"lit", Bs(strconv.FormatFloat(f, 'g', -1, bits)), t}
	case n < 16:
		return Val{"lit", Bs(g.pick("true", "false")), "bool"}
	case n < 18:
		return Val{"raw", Bs(g.fragment()), "bytes"}
	case n < 19:
		if g.pct(50) {
			return Val{"bad", Bs{}, g.pick("uint", "struct", "slice", "map", "ptr")}
		}
		return Val{"str", Bs(""), "string"}
	default:
		return Val{"nil", Bs{}, "nil"}
	}
}

func (g *gen) fragment() string {
	var sb strings.Builder
	g.k = 4
	for n := g.r.Intn(3); n >= 0; n-- {
		switch g.r.Intn(5) {
		case 0:
			sb.WriteString(g.srcText())
		case 1:
			sb.WriteString(g.markup())
		default:
			g.element(2, &sb)
		}
	}
	s := sb.String()
	if g.pct(g.c.rawbad) {
		if g.pct(30) {
			return s + g.pick("<!DOCTYPE x>", "<!ENTITY e 'x'>", "<!doctype x>", "<!entity e>", "<![CDATA[<![CDATA[]]>", "</a>", "<a>", "<a/", "<", "<!--", "<b></c>", "<![CDATA[x", "</x><x>", "</raw><raw>", "<1/>", "<a b></a>", "<a b=c/>")
		}
		// "<!-" that opens no comment and "<?-" are left out: what it means is not specified
		if t := g.damage(s); strings.Count(t, "<!-") == strings.Count(t, "<!--") && !strings.Contains(t, "<?-") {
			return t
		}
	}
	return s
}
