package main

import (
	"strconv"
	"strings"
)

// The documented limits that histories are generated around.
const (
	limDepth   = 100
	limAttrs   = 100
	limPath    = 100
	limMods    = 20
	limResults = 1000
	limFilter  = 256
	limField   = 256
	limPrefix  = 256
)

// around is a number at, just below or just above a limit.
func (g *gen) around(limit int) int {
	switch g.r.Intn(8) {
	case 0:
		return limit - 1
	case 1, 2, 3:
		return limit
	case 4, 5:
		return limit + 1
	case 6:
		return limit + 2 + g.r.Intn(4)
	}
	return limit - 2 - g.r.Intn(4)
}

func init() {
	profiles["P24"] = profile{cfg: baseCfg, history: (*gen).limits}
}

// limits is a history about one limit.
func (g *gen) limits() hist {
	var d string
	var ops []Op
	q := func(kind, p string) {
		ops = append(ops, Op{Op: kind, P: bp(p), CI: g.pct(20), Ind: Bs{}, Via: g.r.Intn(24)})
	}
	set := func(p, v string) {
		ops = append(ops, Op{Op: "set", P: bp(p), V: &Val{K: "str", V: Bs(v), G: "string"}, CI: g.pct(15), Ind: Bs{}, Via: g.r.Intn(24)})
	}
	raw := func(p, v string) {
		if g.pct(50) {
			ops = append(ops, Op{Op: "setraw", P: bp(p), Raw: bp(v), Ind: Bs{}, Via: g.r.Intn(24)})
			return
		}
		ops = append(ops, Op{Op: "set", P: bp(p), V: &Val{K: "raw", V: Bs(v), G: "bytes"}, Ind: Bs{}, Via: g.r.Intn(24)})
	}
	del := func(p string) { q("del", p) }
	valid := func() { ops = append(ops, Op{Op: "valid", Ind: Bs{}, Via: g.r.Intn(24)}) }
	kind := func() string { return g.pick("get", "get", "conv") }

	switch g.r.Intn(11) {
	case 0, 1: // nesting of documents
		n := g.around(limDepth)
		names := make([]string, n)
		same := g.pct(50)
		for i := range names {
			names[i] = "a"
			if !same {
				names[i] = g.pick("a", "b")
			}
		}
		d = chain(names, g.pick("x", "", "<!--c-->x"))
		if g.pct(30) {
			d += "<z>1</z>"
		}
		valid()
		if n > limDepth {
			q("get", names[0])
			set(names[0]+".k", "1")
			del(names[0] + ".nosuch")
			raw("z", "<i/>")
			break
		}
		upto := strings.Join(names[:n-1-g.r.Intn(3)], ".")
		q(kind(), upto)
		q("get", "**."+names[n-1])
		set(upto, "v")
		set(upto+".k.j", "1")
		set(upto+".@k", "1")
		raw(upto, chain([]string{"x", "y", "z"}[:1+g.r.Intn(3)], "w"))
		raw(upto+".-1", "<q/>")
		del(upto)
		valid()
	case 2: // raw fragments that deepen a document
		m := 1 + g.r.Intn(limDepth-2)
		names := make([]string, m)
		for i := range names {
			names[i] = g.pick("a", "b")
		}
		d = chain(names, "x")
		k := g.around(limDepth) - m
		if k < 0 {
			k = 0
		}
		if g.pct(20) {
			k = g.around(limDepth)
		}
		inner := make([]string, k)
		for i := range inner {
			inner[i] = "c"
		}
		at := strings.Join(names, ".")
		if g.pct(50) {
			raw(at, chain(inner, "y"))
		} else {
			raw(at+".n", chain(inner, "y"))
		}
		valid()
		q("get", at+".c")
	case 3, 4: // attributes
		n := g.around(limAttrs)
		var sb strings.Builder
		sb.WriteString("<a>")
		sb.WriteString("<b")
		for i := 0; i < n; i++ {
			sb.WriteString(" k" + strconv.Itoa(i) + `="` + strconv.Itoa(i%7) + `"`)
		}
		sb.WriteString(g.pick("/>", ">x</b>") + "<b>y</b></a>")
		d = sb.String()
		valid()
		if n > limAttrs {
			set("a.b.@new", "1")
			set("a.b.@k0", "1")
			del("a.b.@k1")
			del("a.b.1")
			break
		}
		last := strconv.Itoa(n - 1)
		q(kind(), "a.b.@k"+last)
		q("get", "a.#(@k"+last+">=0)#")
		q("get", "a.b.#.@k"+last)
		set("a.b.@new", "1")
		set("a.b.@k"+last, "w")
		set("a.b.@other", "1")
		del("a.b.@k0")
		set("a.b.@other", "2")
		valid()
	case 5: // path segments
		n := g.around(limPath)
		segs := make([]string, n)
		for i := range segs {
			segs[i] = "a"
		}
		switch g.r.Intn(6) {
		case 0:
			segs[n-1] = "@k"
		case 1:
			segs[n-1] = "0"
		case 2:
			segs[n-1] = "%"
		case 3:
			segs[n-1] = "#"
		case 4:
			segs[n-1] = "-1"
		}
		p := strings.Join(segs, ".")
		m := n
		if m > limDepth {
			m = limDepth
		}
		as := make([]string, m-g.r.Intn(2))
		for i := range as {
			as[i] = "a"
		}
		d = chain(as, "x")
		if g.pct(30) {
			d = "<a/>"
		}
		if segs[n-1] == "-1" {
			set(p, "1")
			break
		}
		q(kind(), p)
		if segs[n-1] != "%" && segs[n-1] != "#" {
			set(p, "1")
			q("get", p)
			del(p)
			ops = append(ops, Op{Op: "setmany", Ps: []Bs{Bs("a.@k"), Bs(p)}, Vs: []Val{{"str", Bs("1"), "string"}, {"str", Bs("2"), "string"}}, Ind: Bs{}, Via: g.r.Intn(24)})
			ops = append(ops, Op{Op: "delmany", Ps: []Bs{Bs("a.@k"), Bs(p)}, Ind: Bs{}, Via: g.r.Intn(24)})
		}
	case 6: // modifier chains
		d = "<a><i>3</i><i>1</i><i>2</i></a>"
		for k := 0; k < 4; k++ {
			p := g.pick("a.i", "a.*", "a.#(i)#.i", "**.i", "a.i.#.%")
			for n := g.around(limMods); n > 0; n-- {
				p += "|@" + g.pick("reverse", "sort", "reverse", "flatten", "ugly")
			}
			q(kind(), p)
		}
	case 7: // lengths inside a path
		d = "<a><b k=\"x\"><c>x</c></b><b>y</b><" + strings.Repeat("n", 255) + " " + strings.Repeat("k", 255) + "=\"1\">z</" + strings.Repeat("n", 255) + "></a>"
		n := g.around(limFilter)
		q("get", "a.b.#("+pad("c==", n)+")")
		q("get", "a.b.#("+pad("@k!=", n)+")#")
		q("get", "a.b.#("+pad("c!=", g.around(limFilter))+")#.c")
		n = g.around(limField)
		f := strings.Repeat("n", n)
		d += "<r><i><" + f + ">1</" + f + "></i><i " + f[1:] + "=\"2\"/></r>"
		q("get", "r.i.#."+f)
		q("get", "r.i.#.@"+f[1:])
		q("get", "r.i.#.@"+f[2:])
		q("get", "r.i.0."+f)
		q("get", "r.i.1.@"+f[1:])
		set("r.i.0."+f, "q")
	case 8: // namespace prefixes
		pre := strings.Repeat("p", g.around(limPrefix))
		d = "<r><" + pre + ":a k=\"1\">x</" + pre + ":a><a>y</a></r>"
		q("get", "r.a")
		q("get", "r.a.#")
		q("get", "r."+pre+":a")
		q("get", "r."+pre+":a.@k")
		q("map", "r")
		set("r.a", "v")
		set("r."+pre+":a", "w")
		del("r.a.1")
		del("r." + pre + ":a")
	default: // results
		n := g.around(limResults)
		var sb strings.Builder
		sb.WriteString("<r>")
		for i := 0; i < n; i++ {
			switch {
			case i == n-1:
				sb.WriteString(`<i k="9">9</i>`)
			case i < 3:
				sb.WriteString(`<i><j/></i>`)
			default:
				sb.WriteString("<i/>")
			}
		}
		sb.WriteString("</r>")
		d = sb.String()
		for k := 0; k < 3; k++ {
			i := strconv.Itoa(g.around(n))
			switch g.r.Intn(13) {
			case 0:
				q("get", "r.i.#")
			case 1:
				q("get", "r.i."+i)
			case 2:
				q("get", "r.i.#(@k==9)")
			case 3:
				q("get", "r.i.#(@k==9)#")
			case 4:
				q("get", "r.*")
			case 5:
				q("get", "**.i")
			case 6:
				q("get", "r.*.%")
			case 7:
				q("get", "r.i.#.@k")
			case 8:
				q("get", "r.#.i")
			case 9:
				q("get", "r.*|@last")
			case 10:
				set("r.i."+i, "v")
			case 11:
				del("r.i." + i)
			case 12:
				q("map", "r")
			}
		}
	}
	h := hist{D: Bs(d), Ev: []event{}}
	st := newState([]byte(d))
	defer st.cleanup()
	for _, op := range ops {
		pre := append([]byte{}, st.d...)
		out := st.step(op)
		if out["k"] != "panic" {
			out = st.crossCheck(pre, op, out)
		}
		h.Ev = append(h.Ev, event{op, out})
		if out["k"] == "panic" || out["k"] == "differs" {
			break
		}
	}
	return h
}

func chain(names []string, inner string) string {
	var sb strings.Builder
	for _, n := range names {
		sb.WriteString("<" + n + ">")
	}
	sb.WriteString(inner)
	for i := len(names) - 1; i >= 0; i-- {
		sb.WriteString("</" + names[i] + ">")
	}
	return sb.String()
}

// pad makes a filter expression n bytes long by its quoted value.
func pad(head string, n int) string {
	return head + "'" + strings.Repeat("v", n-len(head)-2) + "'"
}
