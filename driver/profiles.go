package main

import (
	"bytes"
	"sort"
	"strconv"
	"strings"

	xmldot "github.com/netascode/xmldot"
)

// profile generates the histories one property is examined on.
type profile struct {
	cfg     func() cfg
	history func(g *gen) hist
}

var profiles = map[string]profile{}

func add(name string, tune func(c *cfg), steps int) {
	profiles[name] = profile{
		cfg: func() cfg {
			c := baseCfg()
			tune(&c)
			return c
		},
		history: func(g *gen) hist { return g.history(steps) },
	}
}

// history runs a random sequence of operations.
func (g *gen) history(steps int) hist {
	d := g.doc()
	h := hist{D: Bs(d), Ev: []event{}}
	st := newState([]byte(d))
	defer st.cleanup()
	g.queue, g.regs = nil, nil
	long := 0 // calls on a long document
	for i := 0; i < steps; i++ {
		var op Op
		switch {
		case len(g.queue) > 0 && long <= 2:
			op, g.queue = g.queue[0], g.queue[1:]
		case len(st.d) > 1500 && i > 0 && long > 2:
			long, g.queue = 0, nil
			op = Op{Op: "load", D: bp(g.doc()), Ind: Bs{}}
		default:
			op = g.op(string(st.d))
		}
		pre := append([]byte{}, st.d...)
		if len(pre) > 1500 {
			long++
		}
		out := st.step(op)
		if out["k"] != "panic" {
			out = st.crossCheck(pre, op, out)
		}
		h.Ev = append(h.Ev, event{op, out})
		if out["k"] == "panic" || out["k"] == "differs" {
			break
		}
		if (op.Op == "set" || op.Op == "setraw") && out["err"] == "ok" && g.pct(g.c.read) {
			kind := "get"
			if g.pct(30) {
				kind = "conv"
			}
			p := strings.TrimSuffix(string(*op.P), ".-1")
			g.queue = append(g.queue, Op{Op: kind, P: bp(p), CI: op.CI, Ind: Bs{}, Via: g.r.Intn(24)})
		}
		if op.Op == "del" && out["err"] == "ok" && g.pct(g.c.read) {
			g.queue = append(g.queue, Op{Op: g.pick("del", "get"), P: op.P, CI: op.CI, Ind: Bs{}, Via: g.r.Intn(24)})
		}
	}
	return h
}

// crossCheck runs the operation through the other entry points, and once more
// through the same one. On documents all of them have to agree.
func (st *state) crossCheck(pre []byte, op Op, out Out) Out {
	vs := variants(op)
	switch op.Op {
	case "load", "flood", "stress", "reg", "unreg":
		return out
	}
	if op.Free || len(pre) > 0 && !wellFormed(pre) {
		vs = again(op)
	}
	first := mustJSON(out)
	for _, v := range vs {
		o2 := op
		o2.Via = v
		st2 := &state{d: append([]byte{}, pre...), regured: st.regured}
		out2 := st2.step(o2)
		if j := mustJSON(out2); !bytes.Equal(j, first) {
			return Out{"k": "differs", "via": op.Via, "out": out, "via2": v, "out2": out2}
		}
	}
	return out
}

// wellFormed asks the library; a panic there shows as an outcome elsewhere.
func wellFormed(d []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return xmldot.Valid(string(d))
}

// again lists entry points that differ in the type of the document only.
func again(op Op) []int {
	if isDefault(op) && (op.Op == "get" || op.Op == "set" || op.Op == "del") {
		if k := op.Via % len(variants(op)); k == 0 || k == 1 {
			return []int{0, 1}
		}
	}
	return []int{op.Via}
}

func (g *gen) pickOp() string {
	names := make([]string, 0, len(g.c.ops))
	total := 0
	for n, w := range g.c.ops {
		names = append(names, n)
		total += w
	}
	sort.Strings(names)
	k := g.r.Intn(total)
	for _, n := range names {
		k -= g.c.ops[n]
		if k < 0 {
			return n
		}
	}
	return names[0]
}

func (g *gen) op(d string) Op {
	if g.pct(g.c.free) {
		return g.freeOp(d)
	}
	es := scan(d)
	o := Op{Op: g.pickOp(), Ind: Bs{}, Via: g.r.Intn(24)}
	ci := g.pct(g.c.ci)
	switch o.Op {
	case "load":
		o.D = bp(g.doc())
	case "get", "conv", "map":
		o.CI = ci
		o.P = bp(g.queryPath(es, ci))
		if o.Op == "map" && g.pct(70) {
			o.P = bp(g.plainPath(es, ci))
		}
	case "getmany":
		for n := g.few() - 1; n >= 0; n-- {
			if k := len(o.Ps); k > 0 && g.pct(12) {
				p := string(o.Ps[g.r.Intn(k)])
				if !strings.ContainsAny(p, "@%#|*") {
					p += g.pick("", ".a", ".0", ".#", ".%")
				}
				o.Ps = append(o.Ps, Bs(p))
				continue
			}
			o.Ps = append(o.Ps, Bs(g.queryPath(es, false)))
		}
	case "flu":
		o.CI = ci
		g.fluent(&o, es, ci)
	case "set":
		o.CI = ci
		if g.pct(g.c.indent) {
			o.Ind = Bs(g.pick("  ", "\t", " "))
		}
		o.P = bp(g.editPath(es, ci, false))
		v := g.value()
		o.V = &v
	case "append":
		o.Op = "set"
		o.CI = ci
		if g.pct(g.c.indent) {
			o.Ind = Bs(g.pick("  ", "\t", " "))
		}
		o.P = bp(g.appendPath(es, ci))
		v := g.value()
		o.V = &v
	case "near":
		g.near(&o, es)
	case "pattern":
		o.Op = "get"
		o.P = bp(g.patternPath(es))
	case "validdoc":
		o.Op = "load"
		o.D = bp(g.doc())
		g.queue = append(g.queue, Op{Op: "valid", Ind: Bs{}, Via: g.r.Intn(24)})
	case "setraw":
		o.P = bp(g.editPath(es, false, false))
		o.Raw = bp(g.fragment())
	case "setmany":
		for n := g.few(); n > 0; n-- {
			if k := len(o.Ps); k > 0 && g.pct(12) {
				p := string(o.Ps[g.r.Intn(k)])
				if !strings.ContainsAny(p, "@%#|*") {
					p += g.pick("", "", ".a", ".b", ".@k")
				}
				o.Ps = append(o.Ps, Bs(p))
			} else {
				o.Ps = append(o.Ps, Bs(g.editPath(es, false, false)))
			}
			o.Vs = append(o.Vs, g.value())
		}
		if g.pct(5) {
			o.Vs = append(o.Vs, g.value())
		}
	case "del":
		o.CI = ci
		o.P = bp(g.editPath(es, ci, true))
	case "delmany":
		for n := g.few(); n > 0; n-- {
			p := g.editPath(es, false, true)
			o.Ps = append(o.Ps, Bs(p))
			if g.pct(15) {
				o.Ps = append(o.Ps, Bs(p))
			}
		}
	case "reg":
		o.Name = bp(g.pick(g.customName(), g.customName(), g.oddName(), g.pick("", "sort", "first", "last", "reverse", "flatten", "pretty", "ugly")))
		o.Kind = g.pick("upper", "tag", "tag2", "wrap", "null", "num", "num", "yes", "no")
		if n := string(*o.Name); n != "" && !strings.ContainsAny(n, " .|@\t\x00:") {
			g.regs = append(g.regs, n)
		}
	case "unreg":
		o.Name = bp(g.pick(g.customName(), g.customName(), g.oddName(), g.pick("sort", "reverse", "first", "last", "flatten", "ugly", "pretty", "nosuch", "")))
	case "has":
		o.Name = bp(g.pick(g.customName(), g.customName(), g.oddName(), g.pick("sort", "reverse", "first", "last", "flatten", "ugly", "pretty", "nosuch", "")))
	}
	return o
}

// few is the length of a batch.
func (g *gen) few() int {
	if g.pct(6) {
		return 4 + g.r.Intn(9)
	}
	return g.r.Intn(4)
}

// customName is one of a few names most of the time.
func (g *gen) customName() string {
	if g.pct(75) {
		return g.pick("m1", "m2", "m3")
	}
	return g.pick("m4", "m5", "m6", "m7", "m8", "m9", "m10", "M1", "Sort", "sort2", "sor", "m-1", "m_1", "upper", "longer-name-of-a-modifier", "é")
}

// oddName is a name that differs little from another one, or is no path syntax.
func (g *gen) oddName() string {
	if g.pct(60) {
		return g.customName()
	}
	return g.pick(" m1", "m1 ", "M1", "@m1", "m1|m2", "m.1", "\tm2", " sort", "sort ", "SORT", "@sort", "Ugly", "pretty:", "m1\x00", " ", "0")
}

// appendPath names a list by its parent and the name of its members.
func (g *gen) appendPath(es []elem, ci bool) string {
	e := g.target(es)
	var parts []string
	for i, n := range e.names {
		if i == len(e.names)-1 && g.pct(15) {
			n = g.elemName()
		}
		parts = append(parts, g.segName(n, ci))
		if i < len(e.names)-1 && g.pct(g.c.index) {
			parts = append(parts, strconv.Itoa(e.idx[i]))
		}
	}
	if g.pct(20) {
		parts = append(parts, g.segName(g.elemName(), ci))
	}
	return strings.Join(parts, ".") + ".-1"
}

// patternPath compares a field with a pattern made from one of its values.
func (g *gen) patternPath(es []elem) string {
	e := g.target(es)
	var parts []string
	for _, n := range e.names {
		parts = append(parts, escPath(n))
	}
	field, val := "@id", ""
	for i, a := range e.attrs {
		if okName(a) && i < len(e.avals) {
			field, val = "@"+a, e.avals[i]
		}
	}
	if len(e.kids) > 0 && (len(e.attrs) == 0 || g.pct(50)) {
		k := e.kids[g.r.Intn(len(e.kids))]
		if okName(k) && !strings.Contains(k, ".") {
			field = k
			for _, x := range es {
				if len(x.names) == len(e.names)+1 && x.names[len(e.names)] == k && g.pct(60) {
					val = x.text
				}
			}
		}
	} else if len(e.attrs) == 0 && len(e.names) > 1 {
		// the parent's children, by their text
		parts = parts[:len(parts)-1]
		if n := e.names[len(e.names)-1]; okName(n) && !strings.Contains(n, ".") {
			field, val = n, e.text
		}
	}
	if val == "" || g.pct(15) {
		val = g.plainText()
	}
	pat := cleanFilterValue(g.patternFrom(val))
	if pat == "" {
		pat = "*"
	}
	q := g.pick("'", `"`)
	if strings.Contains(pat, q) {
		pat = strings.ReplaceAll(pat, q, "?")
	}
	p := strings.Join(parts, ".") + ".#(" + field + g.pick("%", "%", "!%") + q + pat + q + ")"
	return p + g.pick("", "#", "#", "#.%")
}

// near queries an element and then others whose paths have the same length.
func (g *gen) near(o *Op, es []elem) {
	path := func(e elem) string {
		var parts []string
		for _, n := range e.names {
			parts = append(parts, escPath(n))
		}
		return strings.Join(parts, ".")
	}
	e := g.target(es)
	p, tail := path(e), g.pick("", "", ".@k", ".%", ".0", ".#", "|@first")
	o.Op, o.P = "get", bp(p+tail)
	for _, i := range g.r.Perm(len(es)) {
		q := path(es[i])
		if len(q) == len(p) && q != p && len(g.queue) < 5 {
			g.queue = append(g.queue, Op{Op: "get", P: bp(q + tail), Ind: Bs{}, Via: g.r.Intn(24)})
		}
	}
}

// plainPath names an element, possibly by index.
func (g *gen) plainPath(es []elem, ci bool) string {
	e := g.target(es)
	p := ""
	for i, n := range e.names {
		if i > 0 {
			p += "."
		}
		p += g.segName(n, ci)
		if g.pct(g.c.index) {
			p += "." + g.indexFor(e.idx[i])
		}
	}
	return p
}

// fluent splits the way to an element into two queries.
func (g *gen) fluent(o *Op, es []elem, ci bool) {
	e := g.target(es)
	if len(e.names) < 2 {
		for i := 0; i < 5 && len(e.names) < 2; i++ {
			e = g.target(es)
		}
	}
	if len(e.names) < 2 {
		o.P, o.P2 = bp(g.plainPath(es, ci)), bp("a")
		return
	}
	k := 1 + g.r.Intn(len(e.names)-1)
	first := ""
	for i := 0; i < k; i++ {
		if i > 0 {
			first += "."
		}
		first += g.segName(e.names[i], ci)
		if g.pct(g.c.index) {
			first += "." + g.indexFor(e.idx[i])
		}
	}
	if g.pct(10) {
		first = g.queryPath(es, ci)
	}
	rest := elem{names: e.names[k:], idx: e.idx[k:], attrs: e.attrs, avals: e.avals, kids: e.kids, text: e.text}
	parts, last := g.steps(nil, rest, ci)
	if last {
		field := g.c.field
		g.c.field = 0
		parts = g.tail(parts, rest, es, ci)
		g.c.field = field
	}
	second := ""
	for i, p := range parts {
		if i > 0 {
			second += "."
		}
		second += p
	}
	if g.pct(g.c.mods) {
		second += g.modifiers()
	}
	o.P, o.P2 = &[]Bs{Bs(first)}[0], &[]Bs{Bs(second)}[0]
}

type w = map[string]int

func init() {
	add("base", func(c *cfg) {
		c.ops = w{"get": 20, "set": 10, "del": 5, "setraw": 3, "setmany": 2, "delmany": 1, "getmany": 2, "conv": 3, "flu": 4, "map": 2, "valid": 2, "reg": 1, "unreg": 1, "has": 1}
		c.mods, c.ci, c.indent, c.broken, c.empty, c.reg, c.read = 15, 15, 8, 5, 3, true, 30
	}, 8)
	// element round trip
	add("P01", func(c *cfg) {
		c.ops = w{"set": 20, "load": 2}
		c.attr, c.odd, c.read, c.ents, c.self, c.empty, c.ci, c.vkind = 0, 2, 90, 40, 25, 3, 8, []string{"str", "str", "str", "lit", "raw"}
		c.rawbad, c.indent, c.big = 10, 4, 8
	}, 10)
	// attribute round trip
	add("P02", func(c *cfg) {
		c.ops = w{"set": 20, "load": 2, "del": 2}
		c.attr, c.miss, c.odd, c.read, c.ents, c.self, c.cases, c.ci, c.ns = 95, 8, 2, 90, 50, 30, 20, 15, 15
		c.vkind = []string{"str", "str", "str", "lit", "raw"}
		c.rawbad, c.big = 10, 12
	}, 10)
	// locality of edits
	add("P03", func(c *cfg) {
		c.ops = w{"set": 12, "del": 8, "setraw": 4, "setmany": 1, "delmany": 1, "load": 3}
		c.markup, c.ents, c.self, c.ns, c.odd, c.multi, c.big, c.rawbad, c.miss = 35, 50, 25, 20, 1, 25, 10, 5, 12
	}, 8)
	// creation of paths
	add("P04", func(c *cfg) {
		c.ops = w{"set": 20, "load": 3}
		c.miss, c.read, c.self, c.empty, c.multi, c.ci, c.odd, c.ns = 75, 60, 40, 12, 25, 10, 6, 15
		c.vkind = []string{"str", "str", "lit", "raw"}
		c.rawbad, c.indent = 5, 6
	}, 8)
	// append
	add("P05", func(c *cfg) {
		c.ops = w{"append": 20, "load": 2, "get": 3}
		c.same, c.read, c.self, c.empty, c.multi, c.ci, c.cases, c.ns, c.miss, c.indent, c.markup = 85, 60, 30, 6, 25, 12, 15, 15, 10, 8, 20
		c.count = 40
	}, 8)
	// delete
	add("P06", func(c *cfg) {
		c.ops = w{"del": 20, "delmany": 3, "load": 4, "get": 3}
		c.same, c.read, c.self, c.multi, c.ci, c.cases, c.ns, c.attr, c.index, c.markup, c.odd = 80, 60, 25, 25, 12, 15, 15, 30, 35, 25, 4
	}, 8)
	// errors
	add("P07", func(c *cfg) {
		c.ops = w{"set": 12, "del": 5, "setraw": 5, "setmany": 3, "delmany": 2, "load": 6}
		c.broken, c.odd, c.rawbad, c.empty, c.ci, c.indent = 40, 30, 60, 6, 8, 4
	}, 8)
	// well-formedness
	add("P08", func(c *cfg) {
		c.ops = w{"set": 14, "del": 4, "setraw": 5, "setmany": 2, "delmany": 1, "load": 1, "valid": 8}
		c.ents, c.rawbad, c.self, c.multi, c.empty, c.odd, c.miss, c.ci, c.indent, c.ns, c.attr = 65, 55, 30, 25, 5, 10, 30, 8, 6, 15, 35
	}, 9)
	// batches
	add("P09", func(c *cfg) {
		c.ops = w{"setmany": 12, "delmany": 8, "getmany": 6, "load": 3, "set": 1}
		c.odd, c.broken, c.empty, c.self, c.multi, c.mods, c.same = 8, 6, 5, 25, 20, 15, 75
		c.blanks = 15
	}, 8)
	// raw fragments
	add("P10", func(c *cfg) {
		c.ops = w{"setraw": 18, "load": 3, "set": 3}
		c.vkind = []string{"raw"}
		c.read, c.rawbad, c.markup, c.self, c.ents, c.odd, c.empty, c.miss, c.broken, c.attr = 80, 35, 35, 30, 40, 3, 4, 25, 3, 10
	}, 8)
	// navigation
	add("P11", func(c *cfg) {
		c.combo = 10
		c.ops = w{"get": 24, "load": 2, "conv": 2, "getmany": 2}
		c.wild, c.filt, c.field, c.index, c.attr, c.text, c.count, c.markup, c.same, c.multi, c.big, c.dots = 0, 0, 0, 45, 20, 15, 15, 25, 75, 30, 12, 6
	}, 12)
	// wildcards
	add("P12", func(c *cfg) {
		c.combo = 15
		c.ops = w{"get": 24, "load": 2, "getmany": 2}
		c.wild, c.filt, c.field, c.index, c.attr, c.text, c.count, c.markup, c.multi, c.big, c.ci = 90, 10, 10, 10, 25, 15, 5, 25, 30, 12, 15
	}, 12)
	// filters
	add("P13", func(c *cfg) {
		c.combo = 35
		c.ops = w{"get": 24, "load": 3, "getmany": 2, "flu": 2}
		c.wild, c.filt, c.field, c.index, c.attr, c.text, c.count, c.same, c.nums, c.multi, c.ents, c.odd, c.big = 0, 90, 0, 10, 5, 3, 3, 85, 55, 35, 15, 3, 6
		c.series = 20
		c.lits = []string{"1", "2", "10", "2.0", "1.5", "-1", "0", "abc", "a b", "true"}
	}, 12)
	// field extraction
	add("P14", func(c *cfg) {
		c.combo = 15
		c.ops = w{"get": 24, "load": 3, "conv": 2}
		c.wild, c.filt, c.field, c.index, c.attr, c.text, c.count, c.same, c.multi, c.self, c.ci, c.mods, c.big, c.ns = 12, 25, 70, 8, 3, 2, 2, 85, 35, 20, 15, 10, 8, 12
	}, 12)
	// patterns
	add("P15", func(c *cfg) {
		c.ops = w{"pattern": 24, "load": 2}
		c.same, c.multi, c.ents = 85, 40, 30
		c.lits = []string{"abc", "aab", "abab", "aaab", "", "a*c", "a?c", "a\\b", "é", "日本語", "ababab", "mississippi", "xay"}
	}, 12)
	// modifiers
	add("P16", func(c *cfg) {
		c.combo = 10
		c.ops = w{"get": 24, "load": 3, "conv": 3, "flu": 2}
		c.mods, c.wild, c.filt, c.field, c.index, c.attr, c.text, c.count, c.same, c.multi, c.nums, c.markup, c.big = 90, 40, 25, 25, 5, 8, 3, 5, 80, 25, 45, 20, 10
		c.series = 35
	}, 12)
	// path syntax and the memory of paths
	add("P17", func(c *cfg) {
		c.combo = 10
		c.ops = w{"get": 24, "load": 3, "set": 3, "del": 2, "getmany": 3, "flood": 1, "near": 5}
		c.dots, c.odd, c.wild, c.filt, c.field, c.index, c.ci, c.cases, c.mods, c.ns = 45, 25, 15, 15, 10, 20, 20, 20, 15, 15
		c.twins, c.blanks = 25, 15
	}, 12)
	// namespaces
	add("P18", func(c *cfg) {
		c.combo = 10
		c.ops = w{"get": 20, "load": 3, "set": 4, "append": 4, "del": 3, "flu": 2, "map": 2}
		c.ns, c.wild, c.filt, c.field, c.index, c.same, c.multi, c.ci, c.read = 65, 25, 12, 15, 20, 90, 30, 15, 40
	}, 10)
	// case-insensitive matching
	add("P19", func(c *cfg) {
		c.combo = 15
		c.ops = w{"get": 18, "load": 3, "set": 6, "append": 3, "del": 4, "flu": 3, "map": 3}
		c.ci, c.cases, c.ns, c.wild, c.filt, c.field, c.same, c.multi, c.read, c.mods = 85, 50, 15, 20, 22, 15, 85, 25, 40, 8
	}, 10)
	// conversions
	add("P20", func(c *cfg) {
		c.combo = 8
		c.ops = w{"conv": 24, "load": 4, "set": 3, "reg": 7, "unreg": 1}
		c.reg = true
		c.nums, c.wild, c.filt, c.field, c.count, c.attr, c.text, c.mods, c.read, c.multi = 55, 20, 10, 15, 15, 25, 10, 25, 50, 25
		c.series = 12
		c.lits = []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "true", "false", "yes", "no", "1", "0", "TRUE", "True", "t", "f", "on", "+5", "-0", "007", "1e3", "1E-2", "2.75", "-3.5", "-0.25", "0.0", "0.9", "1.", ".5", "-.5", "1e", "--1", "1 2", "0.1", "00", "0.50", "12abc", "4294967296", "99999999999", "YES", "Yes", "T", "1.0", "-", "+", ".", "e5", "Inf", "-inf", "+Infinity", "NaN", "-NaN", "infinit", "nan0", "０"}
	}, 12)
	// queries on results
	add("P21", func(c *cfg) {
		c.ops = w{"flu": 16, "map": 10, "load": 3, "conv": 2, "get": 1}
		c.ci, c.ns, c.cases, c.markup, c.self, c.same, c.index, c.wild, c.mods, c.big = 20, 15, 15, 25, 20, 75, 25, 12, 6, 8
	}, 12)
	// equivalent entry points
	add("P22", func(c *cfg) {
		c.combo = 20
		c.ops = w{"get": 12, "set": 8, "del": 5, "setraw": 2, "setmany": 3, "delmany": 3, "getmany": 3, "conv": 2, "flu": 4, "map": 3, "valid": 3, "load": 2}
		c.mods, c.ci, c.indent, c.empty, c.odd, c.wild, c.filt, c.field, c.ns, c.cases, c.broken, c.read = 15, 25, 10, 4, 8, 20, 15, 15, 15, 15, 5, 30
		c.blanks = 20
	}, 8)
	// the validator
	add("P23", func(c *cfg) {
		c.ops = w{"validdoc": 20}
		c.broken, c.markup, c.empty, c.self, c.ns, c.ents, c.multi = 70, 40, 4, 30, 15, 40, 35
	}, 10)
	// registry
	add("P25", func(c *cfg) {
		c.ops = w{"reg": 8, "unreg": 6, "has": 4, "get": 14, "load": 1, "flu": 1}
		c.mods, c.reg, c.wild, c.filt, c.field, c.multi = 90, true, 40, 10, 15, 30
	}, 16)
	// calls made concurrently
	add("P26", func(c *cfg) {
		c.combo = 10
		c.ops = w{"get": 20, "set": 6, "del": 3, "setraw": 1, "setmany": 2, "delmany": 1, "getmany": 3, "conv": 3, "flu": 5, "map": 3, "valid": 2}
		c.mods, c.ci, c.indent, c.broken, c.reg, c.wild, c.filt, c.field, c.ns, c.cases = 20, 20, 8, 5, true, 20, 20, 15, 15, 15
	}, 8)
	// escaping
	add("P27", func(c *cfg) {
		c.ops = w{"set": 12, "get": 12, "conv": 2, "map": 2, "load": 3, "setmany": 1}
		c.ents, c.nums, c.read, c.attr, c.text, c.markup, c.filt, c.wild, c.field, c.vkind = 85, 3, 80, 35, 20, 30, 15, 15, 15, []string{"str"}
		c.lits = []string{"&", "<", ">", "\"", "'", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&amp;amp;", "&amp;lt;", "&#60;", "&#x3c;", "&nbsp;", "&lt;lt;", "&ampamp;", "&am&amp;p;", "<a>", "]]>", "<!--", "&;", "&&", "a&b<c>d\"e'f", "&lt", "&LT;", "&e;"}
	}, 10)
	// arbitrary input
	add("P28", func(c *cfg) {
		c.ops = w{"get": 6, "set": 4, "append": 3, "del": 2, "setraw": 2, "setmany": 1, "delmany": 1, "conv": 1, "flu": 2, "map": 1, "valid": 1, "load": 4}
		c.free, c.broken, c.empty, c.odd, c.rawbad, c.markup, c.ents, c.multi, c.ci, c.indent, c.mods = 60, 60, 3, 10, 50, 35, 35, 25, 15, 8, 10
		c.noise, c.self, c.more = 30, 30, 25
	}, 14)
	// indentation
	add("P29", func(c *cfg) {
		c.ops = w{"set": 14, "append": 6, "load": 3, "del": 1}
		c.indent, c.miss, c.self, c.empty, c.multi, c.read, c.ci = 85, 55, 30, 10, 20, 40, 15
		c.vkind = []string{"str", "lit", "raw"}
		c.rawbad = 5
	}, 8)
}
