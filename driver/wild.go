package main

import (
	"strings"

	xmldot "github.com/netascode/xmldot"
)

// noise is a string that need not resemble a document.
func (g *gen) noise() string {
	var sb strings.Builder
	switch g.r.Intn(3) {
	case 0:
		for n := g.r.Intn(40); n > 0; n-- {
			sb.WriteByte(byte(g.r.Intn(256)))
		}
	case 1:
		for n := g.r.Intn(40); n > 0; n-- {
			sb.WriteString(g.pick("<", ">", "/", "a", "b", "=", "\"", "'", "!", "-", "[", "]", "?", " ", "&", ";", "\n", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "]]>", "<?x", "?>", "<!DOCTYPE", "&lt;", ":", "\x00", "\xff", "é"))
		}
	default:
		n := g.c.noise
		g.c.noise = 0
		s := g.doc()
		g.c.noise = n
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			s = g.damage(s)
		}
		return s
	}
	return sb.String()
}

// freePath is a string that need not resemble a path.
func (g *gen) freePath(es []elem) string {
	switch g.r.Intn(4) {
	case 0:
		b := make([]byte, g.r.Intn(12))
		for i := range b {
			b[i] = byte(g.r.Intn(256))
		}
		return string(b)
	case 1:
		var sb strings.Builder
		for n := g.r.Intn(14); n > 0; n-- {
			sb.WriteString(g.pick("a", "b", "r", ".", ".", "@", "%", "#", "(", ")", "*", "**", "|", "|@", "\\", "0", "1", "-1", "-", "=", "==", "<", ">", "!", "!%", "'", "\"", ":", "&&", "||", " ", "sort", "first", "nosuch", "#(", ")#", "é", "\xff", "\x00", "99999999999999999999"))
		}
		return sb.String()
	case 2:
		p := g.queryPath(es, false)
		for k := 1 + g.r.Intn(3); k > 0 && p != ""; k-- {
			i := g.r.Intn(len(p))
			switch g.r.Intn(4) {
			case 0:
				p = p[:i] + p[i+1:]
			case 1:
				p = p[:i] + g.pick(".", "@", "%", "#", "(", ")", "*", "|", "\\", "=", "<", "'", "-", ":", "0", "#(", ".#.", "|@") + p[i:]
			case 2:
				p = p[:i]
			default:
				p = p[:i] + p[g.r.Intn(len(p)):]
			}
		}
		return p
	}
	// well-formed pieces in any order
	var ps []string
	for n := 1 + g.r.Intn(5); n > 0; n-- {
		ps = append(ps, g.pick("a", "b", "r", "*", "**", "#", "%", "@k", "0", "-1", "#(a==1)", "#(@k)#", "#(a%'x*')", "#(*==1)", "#(a.#(b))", "a:b", "\\.", "|@sort", "#(", "a|@first", "#.a", "#.@k", "#.%"))
	}
	return strings.Join(ps, ".")
}

// freeOp is a call with arbitrary arguments.
func (g *gen) freeOp(d string) Op {
	es := scan(d)
	o := Op{Op: g.pick("get", "get", "get", "get", "set", "set", "del", "setraw", "setmany", "delmany", "getmany", "conv", "flu", "map", "stress"), Ind: Bs{}, Via: g.r.Intn(24), Free: true}
	if o.Op == "stress" && g.pct(85) {
		o.Op = "get"
	}
	if o.Op == "stress" {
		return Op{Op: "stress", Ind: Bs{}, Via: g.r.Intn(len(stresses) * 16)}
	}
	o.P = bp(g.freePath(es))
	ci := g.pct(20)
	switch o.Op {
	case "get", "conv", "map":
		o.CI = ci
	case "flu":
		o.CI = ci
		if g.pct(50) {
			o.P = bp(g.plainPath(es, ci))
		}
		o.P2 = bp(g.freePath(es))
	case "set":
		o.CI = ci
		if g.pct(15) {
			o.Ind = Bs(g.pick("  ", "\t", "x", "<"))
		}
		v := g.freeValue()
		o.V = &v
	case "del":
		o.CI = ci
	case "setraw":
		o.Raw = bp(g.noise())
		if g.pct(40) {
			o.Raw = bp(g.fragment())
		}
	case "getmany", "delmany", "setmany":
		o.P = nil
		for n := g.r.Intn(3); n >= 0; n-- {
			o.Ps = append(o.Ps, Bs(g.freePath(es)))
			if o.Op == "setmany" {
				o.Vs = append(o.Vs, g.freeValue())
			}
		}
	}
	return o
}

func (g *gen) freeValue() Val {
	if g.pct(50) {
		return g.anyValue()
	}
	k, t := "str", "string"
	if g.pct(40) {
		k, t = "raw", "bytes"
	}
	return Val{K: k, G: t, V: Bs(g.noise())}
}

// stresses are inputs on which a careless algorithm takes very long or very deep.
var stresses = []func(n int){
	func(n int) { // unclosed nesting
		d := strings.Repeat("<a>", 2000*n)
		xmldot.Get(d, "a.a.a.b")
		xmldot.Get(d, "**.b")
		xmldot.Valid(d)
		xmldot.Set(d, "a.b", "v")
	},
	func(n int) { // stars against a text that nearly matches
		d := "<r><i k='" + strings.Repeat("a", 200*n) + "'/></r>"
		xmldot.Get(d, "r.i.#(@k%'"+strings.Repeat("a*", 10*n%120)+"b')#")
		xmldot.Get(d, "r.i.#(@k!%'"+strings.Repeat("*a", 10*n%120)+"?b')#")
		xmldot.Get(d, "r.i.#(@k%'"+strings.Repeat("*", 10*n%250)+"b')#")
	},
	func(n int) { // many ** in one path
		d := strings.Repeat("<a><b>", 40) + strings.Repeat("</b></a>", 40)
		xmldot.Get(d, strings.Repeat("**.a.", 1+n%4)+"zz")
		xmldot.Get(d, strings.Repeat("*.", 10*n)+"zz")
	},
	func(n int) { // brackets
		d := "<r><a>1</a></r>"
		xmldot.Get(d, "r.a.#("+strings.Repeat("(", 16*n))
		xmldot.Get(d, "r.a."+strings.Repeat("#(a", 5*n)+strings.Repeat(")", 5*n))
		xmldot.Get(d, strings.Repeat("|", 100*n))
		xmldot.Get(d, "r.a"+strings.Repeat("|@sort", 2*n))
		xmldot.Get(d, strings.Repeat("\\", 200*n))
	},
	func(n int) { // attributes and names without end
		d := "<r " + strings.Repeat("a='1' ", 2000*n)
		xmldot.Get(d, "r.@a")
		xmldot.Set(d+"/>", "r.@b", "1")
		xmldot.Valid(strings.Repeat("<", 4000*n))
		xmldot.Get(strings.Repeat("<", 4000*n), "a.b")
		xmldot.Get("<"+strings.Repeat("a", 20000*n), "a.b")
	},
	func(n int) { // openings of sections never closed
		for _, s := range []string{"<!--", "<![CDATA[", "<?x", "<!DOCTYPE a [", "<a b=\"", "&", "</"} {
			d := "<r>" + strings.Repeat(s, 1000*n)
			xmldot.Get(d, "r.*")
			xmldot.Get(d, "**.x")
			xmldot.Valid(d)
			xmldot.Delete(d, "r")
			xmldot.Get(d, "r|@pretty")
			xmldot.Get(d, "r|@ugly")
		}
	},
	func(n int) { // wide documents
		d := "<r>" + strings.Repeat("<i k='1'><n>2</n></i>", 1000*n) + "</r>"
		xmldot.Get(d, "r.i.#(n==2)#.n")
		xmldot.Get(d, "**.n|@sort|@reverse")
		xmldot.Get(d, "r.i.#.n")
		xmldot.Get(d, "r").Map()
		xmldot.Set(d, "r.i.-1", "x")
		xmldot.Get(d, "r.*.#(@k=='1')#")
	},
	func(n int) { // deep documents
		d := strings.Repeat("<a>", 99) + strings.Repeat("<b/>", 500*n) + strings.Repeat("</a>", 99)
		xmldot.Get(d, "**.b.#")
		xmldot.Get(d, strings.Repeat("a.", 99)+"b.#")
		xmldot.Delete(d, strings.Repeat("a.", 99)+"b")
		xmldot.Get(d, "a|@pretty")
		xmldot.Get(d, "a|@flatten")
	},
	func(n int) { // results nobody queried for, empty and absent arguments
		el := xmldot.Result{Type: xmldot.Element, Raw: strings.Repeat("<a>", n) + "<b", Str: "x"}
		arr := xmldot.Result{Type: xmldot.Array}
		for _, r := range []xmldot.Result{{}, arr, el, {Type: xmldot.Array, Results: []xmldot.Result{{}, arr, el}},
			{Type: xmldot.Number}, {Type: xmldot.True}, {Type: xmldot.Type(50)}, {Type: xmldot.Element}} {
			for _, p := range []string{"", "a", "#", "0", "*", "**.b", "%", "@a", "|@sort", "a|@first"} {
				r.Get(p)
				r.GetWithOptions(p, &xmldot.Options{})
				r.GetMany(p, p)
			}
			for _, m := range []string{"sort", "first", "last", "reverse", "flatten", "pretty", "ugly"} {
				xmldot.GetModifier(m).Apply(r)
			}
			r.Map()
			r.MapWithOptions(&xmldot.Options{})
			r.Int()
			r.Float()
			r.Bool()
			r.Value()
			_ = r.String()
			r.ForEach(func(int, xmldot.Result) bool { return true })
		}
		xmldot.GetBytes(nil, "a")
		xmldot.GetBytesWithOptions(nil, "", nil)
		xmldot.SetBytes(nil, "a", "1")
		xmldot.SetBytesWithOptions(nil, "a", nil, nil)
		xmldot.DeleteBytes(nil, "a")
		xmldot.SetManyBytes(nil, nil, nil)
		xmldot.DeleteManyBytes(nil, "a")
		xmldot.ValidBytes(nil)
		xmldot.ValidateWithError("")
		xmldot.GetMany("<a/>")
	},
}

func stress(via int) { stresses[via%len(stresses)](1 + via/len(stresses)) }
