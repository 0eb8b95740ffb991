package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	xmldot "github.com/netascode/xmldot"
)

// bigCase is one call on something n bytes (or elements) long; see Limits.tla.
type bigCase struct {
	Kind string `json:"kind"`
	How  string `json:"how"`
	N    int    `json:"n"`
}

type bigRow struct {
	ID  int             `json:"id,omitempty"`
	C   bigCase         `json:"c"`
	Exp json.RawMessage `json:"exp,omitempty"`
	Out interface{}     `json:"out,omitempty"`
}

type bigOut struct {
	K   string `json:"k"`
	Err string `json:"err"`
	Len int    `json:"len"`
	Got int    `json:"got"`
}

const bigBase = "<r><a>1</a></r>"

// bigEdit runs one edit through every entry point; all have to agree, and the
// input has to come back when there is an error.
func bigEdit(d, path string, v interface{}) (string, error, string) {
	type res struct {
		s   string
		err error
	}
	keep := []byte(d)
	rs := []res{}
	s, err := xmldot.Set(d, path, v)
	rs = append(rs, res{s, err})
	b, err := xmldot.SetBytes([]byte(d), path, v)
	rs = append(rs, res{string(b), err})
	s, err = xmldot.SetWithOptions(d, path, v, &xmldot.Options{CaseSensitive: true})
	rs = append(rs, res{s, err})
	s, err = xmldot.SetMany(d, []string{path}, []interface{}{v})
	rs = append(rs, res{s, err})
	if x, ok := v.([]byte); ok {
		s, err = xmldot.SetRaw(d, path, string(x))
		rs = append(rs, res{s, err})
	}
	return agree(keep, rs[0].s, rs[0].err, func(i int) (string, error, bool) {
		if i >= len(rs) {
			return "", nil, false
		}
		return rs[i].s, rs[i].err, true
	})
}

func agree(in []byte, s string, err error, more func(i int) (string, error, bool)) (string, error, string) {
	for i := 1; ; i++ {
		s2, err2, ok := more(i)
		if !ok {
			break
		}
		if errName(err2) != errName(err) || s2 != s {
			return s, err, fmt.Sprintf("entry point %d: %s, %d bytes; first: %s, %d bytes", i, errName(err2), len(s2), errName(err), len(s))
		}
	}
	if err != nil && s != string(in) {
		return s, err, "error with a changed document"
	}
	return s, err, ""
}

func bigDelete(d, path string) (string, error, string) {
	s, err := xmldot.Delete(d, path)
	b, err1 := xmldot.DeleteBytes([]byte(d), path)
	s3, err3 := xmldot.DeleteMany(d, path)
	return agree([]byte(d), s, err, func(i int) (string, error, bool) {
		switch i {
		case 1:
			return string(b), err1, true
		case 2:
			return s3, err3, true
		}
		return "", nil, false
	})
}

// bigGet is the length of what a query finds, -1 for nothing.
func bigGet(d, path string) (int, string) {
	op := Op{Op: "get", Ind: Bs{}}
	first := -2
	for via := 0; via < getVariants; via++ {
		r := newState(nil).doGet([]byte(d), path, op, via)
		n := -1
		if r.Exists() {
			n = len(r.String())
		}
		if first == -2 {
			first = n
		} else if n != first {
			return n, fmt.Sprintf("entry point %d reads %d, the first %d", via, n, first)
		}
	}
	ci := xmldot.GetWithOptions(d, path, &xmldot.Options{})
	n := -1
	if ci.Exists() {
		n = len(ci.String())
	}
	if n != first {
		return n, fmt.Sprintf("ignoring case reads %d, otherwise %d", n, first)
	}
	return first, ""
}

func bigValid(d string) (string, string) {
	ok, err := xmldot.Valid(d), xmldot.ValidateWithError(d)
	ok2 := xmldot.ValidBytes([]byte(d))
	err2 := xmldot.ValidateBytesWithError([]byte(d))
	if ok != ok2 || ok != (err == nil) || ok != (err2 == nil) {
		return "differs", fmt.Sprint("validators disagree: ", ok, ok2, err == nil, err2 == nil)
	}
	if ok {
		return "ok", ""
	}
	return "malformed", ""
}

// withToken is a document with one token of n bytes.
func withToken(how string, n int) string {
	x := strings.Repeat("n", n)
	switch how {
	case "name":
		return "<r><" + x + "/></r>"
	case "aname":
		return "<r><a " + x + "=\"1\"/></r>"
	case "avalue":
		return "<r><a k=\"" + x + "\"/></r>"
	case "pi":
		return "<r><?" + x + "><a/></r>"
	case "comment":
		return "<r><!--" + x + "--></r>"
	case "cdata":
		return "<r><![CDATA[" + x + "]]></r>"
	case "text":
		return "<r>" + x + "</r>"
	case "doctype":
		return "<!DOCTYPE " + x + "><r/>"
	}
	panic("unknown token " + how)
}

// runBig performs a case. The second value describes a disagreement between
// entry points.
func runBig(c bigCase) (out bigOut, diff string) {
	defer func() {
		if r := recover(); r != nil {
			diff = "panic: " + strings.SplitN(fmt.Sprint(r), "\n", 2)[0]
		}
	}()
	out = bigOut{K: "size", Err: "ok", Got: -1}
	edit := func(d, p string, v interface{}) string {
		s, err, df := bigEdit(d, p, v)
		out.Err, out.Len = errName(err), len(s)
		if df != "" {
			diff = df
		}
		return s
	}
	get := func(d, p string) {
		n, df := bigGet(d, p)
		out.Got = n
		if df != "" {
			diff = df
		}
	}
	switch c.Kind {
	case "doc":
		d := "<!--" + strings.Repeat("p", c.N-26) + "--><r><a>v</a><s/></r>"
		switch c.How {
		case "get":
			get(d, "r.a")
		case "valid":
			out.Err, diff = bigValid(d)
		case "keep":
			edit(d, "r.a", "w")
		case "shrink":
			edit(d, "r.a", "")
		case "grow":
			edit(d, "r.a", "vv")
		case "new":
			edit(d, "r.b", "1")
		case "append":
			edit(d, "r.a.-1", "1")
		case "attr":
			edit(d, "r.a.@k", "1")
		case "raw":
			edit(d, "r.a", []byte("<z/>"))
		case "root":
			edit(d, "q", "1")
		case "scset":
			edit(d, "r.s", "1")
		case "scnew":
			edit(d, "r.s.b", "1")
		case "scappend":
			edit(d, "r.s.b.-1", "1")
		case "scattr":
			edit(d, "r.s.@k", "1")
		case "rootappend":
			edit(d, "q.-1", "1")
		case "attrcreate":
			edit(d, "r.b.@k", "1")
		case "del", "miss":
			p := "r.a"
			if c.How == "miss" {
				p = "r.nosuch"
			}
			s, err, df := bigDelete(d, p)
			out.Err, out.Len, diff = errName(err), len(s), df
		case "many", "back":
			ps, vs := []string{"r.a", "r.b"}, []interface{}{"vv", "1"}
			if c.How == "back" {
				ps, vs = []string{"r.b", "r.b"}, []interface{}{"1", nil}
			}
			s, err := xmldot.SetMany(d, ps, vs)
			b, err1 := xmldot.SetManyBytes([]byte(d), ps, vs)
			var df string
			s, err, df = agree([]byte(d), s, err, func(i int) (string, error, bool) { return string(b), err1, i == 1 })
			out.Err, out.Len, diff = errName(err), len(s), df
		case "delmany":
			s, err := xmldot.DeleteMany(d, "r.a", "r.nosuch")
			b, err1 := xmldot.DeleteManyBytes([]byte(d), "r.a", "r.nosuch")
			var df string
			s, err, df = agree([]byte(d), s, err, func(i int) (string, error, bool) { return string(b), err1, i == 1 })
			out.Err, out.Len, diff = errName(err), len(s), df
		}
	case "value":
		x := strings.Repeat("v", c.N)
		var v interface{} = x
		d, p := bigBase, "r.a"
		switch c.How {
		case "bytes":
			v = []byte(x)
		case "raw":
			s, err := xmldot.SetRaw(d, p, x)
			b, err1 := xmldot.SetBytes([]byte(d), p, []byte(x))
			var df string
			s, err, df = agree([]byte(d), s, err, func(i int) (string, error, bool) { return string(b), err1, i == 1 })
			out.Err, out.Len, diff = errName(err), len(s), df
			if err == nil {
				get(s, p)
			}
			return
		case "many":
			s, err := xmldot.SetMany(d, []string{"r.a", p}, []interface{}{"2", v})
			out.Err, out.Len = errName(err), len(s)
			if err != nil && s != d {
				diff = "error with a changed document"
			}
			if err == nil {
				get(s, p)
			}
			return
		case "root":
			p = "r"
		case "new":
			p = "r.b"
		case "append":
			p = "r.a.-1"
		case "rootappend":
			p = "q.-1"
		case "attrnew":
			p = "r.a.@k"
		case "attrcreate":
			p = "r.b.@k"
		}
		s := edit(d, p, v)
		if out.Err == "ok" {
			get(s, strings.Replace(p, ".-1", map[bool]string{true: ".1", false: ""}[c.How == "append"], 1))
		}
	case "name":
		x := strings.Repeat("n", c.N)
		p := map[string]string{"elem": "r." + x, "attr": "r.a.@" + x, "root": x, "append": "r." + x + ".-1"}[c.How]
		s := edit(bigBase, p, "1")
		if out.Err == "ok" {
			get(s, strings.TrimSuffix(p, ".-1"))
			if v, df := bigValid(s); v != "ok" {
				diff = "the result is not well-formed " + df
			}
		}
	case "token":
		d := withToken(c.How, c.N)
		out.Err, diff = bigValid(d)
		if s, err, df := bigEdit(d, "r.zz", "1"); diff == "" && (df != "" || errName(err) != out.Err || err != nil && s != d) {
			diff = "Valid says " + out.Err + ", Set " + errName(err) + " " + df
		}
	case "rawtoken":
		d := withToken(c.How, c.N)
		s, err, df := bigEdit(bigBase, "r.a", []byte(d))
		out.Err, diff = errName(err), df
		if err != nil {
			out.Len = len(s)
		}
	case "deep":
		names := make([]string, c.N)
		for i := range names {
			names[i] = "a"
		}
		names[c.N-1] = "z"
		get(chain(names, "x"), "**.z")
	case "search":
		get("<r>"+strings.Repeat("<a><b/></a>", c.N)+"<z>x</z></r>", "**.z")
	}
	return
}

func bigReplay(w *bufio.Writer, in string) {
	f, err := os.Open(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	wd := newWatchdog(120 * time.Second)
	n := 0
	for sc.Scan() {
		var r bigRow
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			os.Exit(2)
		}
		n++
		if only != 0 && n != only {
			continue
		}
		mark(n)
		wd.begin(sc.Text())
		out, diff := runBig(r.C)
		wd.end()
		exp := canon(r.Exp)
		if got := canon(mustJSON(out)); diff != "" || !bytes.Contains(exp, []byte(`"open"`)) && !bytes.Equal(got, exp) {
			w.Write(mustJSON(map[string]interface{}{"c": r.C, "exp": json.RawMessage(exp), "got": out, "diff": diff}))
			w.WriteByte('\n')
		}
	}
	fmt.Fprintf(w, `{"summary":true,"cases":%d}`+"\n", n)
}

// bigGen records cases of random sizes.
func bigGen(w *bufio.Writer, seed int64, n int) {
	wd := newWatchdog(120 * time.Second)
	kinds := map[string][]string{
		"doc": {"get", "valid", "keep", "shrink", "grow", "new", "append", "attr", "raw", "root", "del", "miss", "many", "back", "delmany",
			"scset", "scnew", "scappend", "scattr", "rootappend", "attrcreate"},
		"value":    {"set", "bytes", "raw", "many", "root", "new", "append", "rootappend", "attrnew", "attrcreate"},
		"name":     {"elem", "attr", "root", "append"},
		"token":    {"name", "aname", "avalue", "pi", "comment", "cdata", "text", "doctype"},
		"rawtoken": {"name", "aname", "avalue", "pi", "comment", "cdata", "text"},
		"deep":     {"any"}, "search": {"any"},
	}
	names := []string{"doc", "doc", "value", "value", "name", "token", "rawtoken", "deep", "search"}
	for i := 1; i <= n; i++ {
		if only != 0 && i != only {
			continue
		}
		mark(i)
		r := rand.New(rand.NewSource(seed*1000033 + int64(i)))
		k := names[r.Intn(len(names))]
		c := bigCase{Kind: k, How: kinds[k][r.Intn(len(kinds[k]))]}
		limit := map[string]int{"doc": 10 << 20, "value": 5 << 20, "name": 1 << 20, "token": 1 << 20, "rawtoken": 1 << 20, "deep": 100, "search": 10000}[k]
		if strings.HasPrefix(c.How, "attr") && k == "value" {
			limit = 1 << 20
		}
		switch r.Intn(3) {
		case 0:
			c.N = limit - 30 + r.Intn(60)
		case 1:
			c.N = limit/2 + r.Intn(limit/2)
		default:
			c.N = limit + r.Intn(limit/4)
		}
		if k == "deep" && c.N < 1 {
			c.N = 1
		}
		wd.begin(fmt.Sprint("case ", i))
		out, diff := runBig(c)
		wd.end()
		row := bigRow{ID: i, C: c, Out: out}
		if diff != "" {
			row.Out = map[string]string{"k": "differs", "what": diff}
		}
		w.Write(mustJSON(row))
		w.WriteByte('\n')
	}
}
