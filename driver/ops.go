package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	xmldot "github.com/netascode/xmldot"
)

// Bs is a byte string exchanged with the specification as a list of integers.
type Bs []byte

func (b Bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *Bs) UnmarshalJSON(data []byte) error {
	var xs []int
	if err := json.Unmarshal(data, &xs); err != nil {
		return err
	}
	*b = make([]byte, len(xs))
	for i, x := range xs {
		(*b)[i] = byte(x)
	}
	return nil
}

// Val is a value handed to Set: K is nil, str, lit, raw or bad; G is the Go type
// used for it.
type Val struct {
	K string `json:"k"`
	V Bs     `json:"v"`
	G string `json:"g"`
}

// Op is one call of the public API. Only the fields the operation uses are sent.
type Op struct {
	Op   string `json:"op"`
	P    *Bs    `json:"p,omitempty"`
	P2   *Bs    `json:"p2,omitempty"`
	Ps   []Bs   `json:"ps,omitempty"`
	V    *Val   `json:"v,omitempty"`
	Vs   []Val  `json:"vs,omitempty"`
	Raw  *Bs    `json:"raw,omitempty"`
	D    *Bs    `json:"d,omitempty"`
	CI   bool   `json:"ci"`
	Ind  Bs     `json:"ind"`
	Name *Bs    `json:"name,omitempty"`
	Kind string `json:"kind,omitempty"`
	Via  int    `json:"via"`
	Free bool   `json:"free,omitempty"` // a path outside the documented syntax
}

func (o Op) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"op": o.Op, "ci": o.CI, "ind": o.Ind, "via": o.Via}
	if o.Ind == nil {
		m["ind"] = Bs{}
	}
	if o.P != nil {
		m["p"] = *o.P
	}
	if o.P2 != nil {
		m["p2"] = *o.P2
	}
	if o.Op == "getmany" || o.Op == "setmany" || o.Op == "delmany" {
		ps := o.Ps
		if ps == nil {
			ps = []Bs{}
		}
		m["ps"] = ps
	}
	if o.V != nil {
		m["v"] = *o.V
	}
	if o.Op == "setmany" {
		vs := o.Vs
		if vs == nil {
			vs = []Val{}
		}
		m["vs"] = vs
	}
	if o.Raw != nil {
		m["raw"] = *o.Raw
	}
	if o.D != nil {
		m["d"] = *o.D
	}
	if o.Name != nil {
		m["name"] = *o.Name
	}
	if o.Kind != "" {
		m["kind"] = o.Kind
	}
	if o.Free {
		m["free"] = true
	}
	return json.Marshal(m)
}

func bp(s string) *Bs { b := Bs(s); return &b }

// Out is an outcome as compared with the specification.
type Out map[string]interface{}

type resJ struct {
	T string `json:"t"`
	S Bs     `json:"s"`
	R Bs     `json:"r"`
	A []resJ `json:"a"`
}

var typeNames = map[xmldot.Type]string{
	xmldot.Null: "null", xmldot.String: "str", xmldot.Number: "num", xmldot.Element: "elem",
	xmldot.Attribute: "attr", xmldot.Array: "arr", xmldot.True: "true", xmldot.False: "false",
}

func toRes(r xmldot.Result) resJ {
	j := resJ{T: typeNames[r.Type], S: Bs(r.Str), R: Bs(r.Raw), A: []resJ{}}
	if r.Type == xmldot.Number {
		// the count: its text, unless a modifier rewrote it, is the number
		if f, err := strconv.ParseFloat(r.Str, 64); err == nil && f != r.Num {
			j.S = Bs("number and text differ: " + r.Str)
		} else if r.Str == "" {
			j.S = Bs(strconv.FormatFloat(r.Num, 'f', -1, 64))
		}
		j.R = Bs{}
	}
	for _, x := range r.Results {
		j.A = append(j.A, toRes(x))
	}
	return j
}

func resOut(r xmldot.Result) Out { return Out{"k": "res", "r": toRes(r)} }

// state is the caller's side of a history.
type state struct {
	d       []byte
	regured map[string]bool
	shared  *sharing // documents and options used by several goroutines
}

func newState(d []byte) *state { return &state{d: d, regured: map[string]bool{}} }

// cleanup removes the custom modifiers a history registered.
func (st *state) cleanup() {
	for n := range st.regured {
		_ = xmldot.UnregisterModifier(n)
	}
	st.regured = map[string]bool{}
}

// plainNumeral is what the modifier "num" makes a number of.
var plainNumeral = regexp.MustCompile(`^[-+]?[0-9]{1,7}(\.[0-9]{1,7})?$`)

func customModifier(name, kind string) xmldot.Modifier {
	var apply func(r xmldot.Result) xmldot.Result
	apply = func(r xmldot.Result) xmldot.Result {
		if r.Type == xmldot.Array && kind != "wrap" && kind != "null" {
			items := make([]xmldot.Result, len(r.Results))
			for i, x := range r.Results {
				items[i] = apply(x)
			}
			return xmldot.Result{Type: xmldot.Array, Results: items}
		}
		if r.Type == xmldot.Number && (kind == "tag" || kind == "tag2") {
			// the text is no numeral any more
			r = xmldot.Result{Type: xmldot.String, Str: r.Str}
		}
		switch kind {
		case "upper":
			b := []byte(r.Str)
			for i, c := range b {
				if c >= 'a' && c <= 'z' {
					b[i] = c - 32
				}
			}
			r.Str = string(b)
			return r
		case "null":
			return xmldot.Result{Type: xmldot.Null}
		case "tag":
			r.Str = "[" + r.Str + "]"
			return r
		case "tag2":
			r.Str = "<" + r.Str
			return r
		case "yes":
			return xmldot.Result{Type: xmldot.True, Str: "true"}
		case "no":
			return xmldot.Result{Type: xmldot.False, Str: "false"}
		case "num":
			if f, err := strconv.ParseFloat(r.Str, 64); err == nil && plainNumeral.MatchString(r.Str) {
				return xmldot.Result{Type: xmldot.Number, Str: r.Str, Num: f}
			}
			return r
		case "wrap":
			return xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{r}}
		}
		return r
	}
	return xmldot.NewModifierFunc(name, apply)
}

func goValue(v Val) interface{} {
	s := string(v.V)
	switch v.G {
	case "nil":
		return nil
	case "string":
		return s
	case "bytes":
		return append([]byte{}, v.V...)
	case "int":
		n, _ := strconv.ParseInt(s, 10, 64)
		return int(n)
	case "int64":
		n, _ := strconv.ParseInt(s, 10, 64)
		return n
	case "float64":
		f, _ := strconv.ParseFloat(s, 64)
		return f
	case "float32":
		f, _ := strconv.ParseFloat(s, 32)
		return float32(f)
	case "bool":
		return s == "true"
	case "uint":
		return uint(7)
	case "struct":
		return struct{ A int }{1}
	case "slice":
		return []string{"x"}
	case "map":
		return map[string]int{"x": 1}
	case "ptr":
		return &s
	case "":
		// values coming from the specification carry only their kind
		switch v.K {
		case "nil":
			return nil
		case "str":
			return s
		case "raw":
			return append([]byte{}, v.V...)
		case "bad":
			return struct{ A int }{1}
		case "lit":
			if s == "true" || s == "false" {
				return s == "true"
			}
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				return n
			}
			f, _ := strconv.ParseFloat(s, 64)
			return f
		}
	}
	panic("unknown value type " + v.G)
}

// errName names the exported error that err matches; matching several or none
// has a name of its own, which the specification never expects.
func errName(err error) string {
	if err == nil {
		return "ok"
	}
	var names []string
	for _, c := range []struct {
		name string
		is   error
	}{
		{"malformed", xmldot.ErrMalformedXML},
		{"path", xmldot.ErrInvalidPath},
		{"value", xmldot.ErrInvalidValue},
	} {
		if errors.Is(err, c.is) {
			names = append(names, c.name)
		}
	}
	if len(names) != 1 || err.Error() == "" {
		return "other: " + strings.Join(names, " and ") + " " + err.Error()
	}
	return names[0]
}

// sharing holds what concurrent callers share: option values by what they say.
type sharing struct {
	opts map[string]*xmldot.Options
}

func optKey(op Op) string { return string(op.Ind) + strconv.FormatBool(op.CI) }

func (st *state) options(op Op) *xmldot.Options {
	if st.shared != nil {
		return st.shared.opts[optKey(op)]
	}
	if op.Via%2 == 1 {
		// the defaults belong to who asked for them, to change as they like
		o := xmldot.DefaultOptions()
		o.CaseSensitive = !op.CI
		o.Indent = string(op.Ind)
		return o
	}
	return reserved(xmldot.Options{CaseSensitive: !op.CI, Indent: string(op.Ind)}, op.Via/6)
}

// reserved fills in the options that are documented to have no effect yet.
func reserved(o xmldot.Options, via int) *xmldot.Options {
	if via%4 == 1 || via%4 == 3 {
		o.PreserveWhitespace = true
	}
	if via%4 == 2 || via%4 == 3 {
		o.Namespaces = map[string]string{"p": "u", "a": "x"}
	}
	return &o
}

func isDefault(op Op) bool { return !op.CI && len(op.Ind) == 0 }

// doGet performs a query through one of the equivalent entry points.
func (st *state) doGet(d []byte, path string, op Op, via int) xmldot.Result {
	if isDefault(op) {
		switch via % getVariants {
		case 0:
			return xmldot.Get(string(d), path)
		case 1:
			return xmldot.GetBytes(d, path)
		case 2:
			return xmldot.GetString(string(d), path)
		case 3:
			return xmldot.GetWithOptions(string(d), path, nil)
		case 4:
			return xmldot.GetMany(string(d), "nosuch", path)[1]
		case 5:
			return xmldot.GetBytesWithOptions(d, path, xmldot.DefaultOptions())
		case 6:
			// non-default options that do not change matching
			return xmldot.GetWithOptions(string(d), path, &xmldot.Options{CaseSensitive: true, Indent: " "})
		case 7:
			return xmldot.GetStringWithOptions(string(d), path, &xmldot.Options{CaseSensitive: true})
		case 8:
			return xmldot.GetWithOptions(string(d), path, reserved(xmldot.Options{CaseSensitive: true}, 1))
		case 9:
			return applied(string(d), path)
		default:
			return xmldot.GetBytesWithOptions(d, path, reserved(xmldot.Options{CaseSensitive: true}, 2))
		}
	}
	o := st.options(op)
	if st.shared == nil && o.Indent == "" && via%4 >= 2 {
		o.Indent = "  " // says nothing about queries
	}
	switch via % 3 {
	case 0:
		return xmldot.GetWithOptions(string(d), path, o)
	case 1:
		return xmldot.GetStringWithOptions(string(d), path, o)
	default:
		return xmldot.GetBytesWithOptions(d, path, o)
	}
}

// wholeBase is a path whose last segment is not a malformed filter.
var wholeBase = regexp.MustCompile(`^([^#()]|#\.|#$|#\([^()]+\)(#?\.|#?$))+$`)

// applied performs a query without its modifiers and applies them one by one,
// which must leave the result they are applied to as it is.
func applied(d, path string) xmldot.Result {
	parts := strings.Split(path, "|")
	if len(parts) > 10 || !wholeBase.MatchString(parts[0]) || strings.ContainsAny(strings.Join(parts[1:], ""), ".()\\") {
		return xmldot.Get(d, path)
	}
	r := xmldot.Get(d, parts[0])
	if r.Type == xmldot.Array && len(r.Results) == 0 {
		return r
	}
	for _, m := range parts[1:] {
		m = strings.TrimSpace(m)
		if !strings.HasPrefix(m, "@") {
			continue
		}
		if r.Type == xmldot.Null {
			break
		}
		mod := xmldot.GetModifier(m[1:])
		if mod == nil {
			return xmldot.Result{}
		}
		before := mustJSON(toRes(r))
		next := mod.Apply(r)
		if !bytes.Equal(before, mustJSON(toRes(r))) {
			return xmldot.Result{Type: xmldot.String, Str: "changed by @" + m[1:]}
		}
		r = next
	}
	return r
}

const getVariants = 11

func docOut(before, d, res []byte, err error) Out {
	mut := !bytes.Equal(before, d)
	return Out{"k": "doc", "err": errName(err), "d": Bs(append([]byte{}, res...)), "mut": mut}
}

// step runs one operation, advances the state and returns the outcome.
func (st *state) step(op Op) (out Out) {
	defer func() {
		if r := recover(); r != nil {
			out = Out{"k": "panic", "msg": strings.SplitN(fmt.Sprint(r), "\n", 2)[0]}
		}
	}()
	out = st.run(op)
	if op.Op == "set" || op.Op == "setraw" || op.Op == "setmany" || op.Op == "del" || op.Op == "delmany" {
		st.d = append([]byte{}, out["d"].(Bs)...)
	}
	return out
}

func (st *state) run(op Op) Out {
	d := append([]byte{}, st.d...)
	before := append([]byte{}, d...)
	if st.shared != nil {
		d = st.d
	}
	path := ""
	if op.P != nil {
		path = string(*op.P)
	}
	switch op.Op {
	case "load":
		st.d = append([]byte{}, *op.D...)
		return Out{"k": "st", "ok": true}
	case "flood":
		// queries that push every earlier path out of any memory of paths
		for i := 0; i < 300; i++ {
			xmldot.Get("<a><b/></a>", "a.b"+strconv.Itoa(i)+".c"+strconv.Itoa(op.Via))
		}
		return Out{"k": "st", "ok": true}
	case "stress":
		stress(op.Via)
		return Out{"k": "st", "ok": true}
	case "get":
		r := st.doGet(d, path, op, op.Via)
		o := resOut(r)
		if !bytes.Equal(before, d) {
			return Out{"k": "mutated"}
		}
		return o
	case "getmany":
		ps := make([]string, len(op.Ps))
		for i, p := range op.Ps {
			ps[i] = string(p)
		}
		rs := xmldot.GetMany(string(d), ps...)
		js := []resJ{}
		for _, r := range rs {
			js = append(js, toRes(r))
		}
		return Out{"k": "many", "rs": js}
	case "conv":
		return convOut(st.doGet(d, path, op, op.Via))
	case "flu":
		r := st.doGet(d, path, op, op.Via)
		p2 := string(*op.P2)
		var q xmldot.Result
		switch {
		case !isDefault(op):
			q = r.GetWithOptions(p2, st.options(op))
		case op.Via%3 == 1:
			q = r.GetMany("zz", p2)[1]
		case op.Via%3 == 2:
			q = r.GetWithOptions(p2, nil)
		case op.Via%6 == 3 && r.Type != xmldot.Array:
			q = r.GetWithOptions(p2, reserved(xmldot.Options{CaseSensitive: true}, 1+op.Via/6))
		default:
			q = r.Get(p2)
		}
		return resOut(q)
	case "map":
		r := st.doGet(d, path, op, op.Via)
		var m map[string]xmldot.Result
		switch {
		case !isDefault(op):
			m = r.MapWithOptions(st.options(op))
		case op.Via%3 == 1:
			m = r.MapWithOptions(nil)
		case op.Via%3 == 2:
			m = r.MapWithOptions(reserved(xmldot.Options{CaseSensitive: true, Indent: " "}, op.Via/6))
		default:
			m = r.Map()
		}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		es := []interface{}{}
		for _, k := range keys {
			es = append(es, map[string]interface{}{"key": Bs(k), "r": toRes(m[k])})
		}
		return Out{"k": "map", "m": es}
	case "set":
		return st.set(op, d, before, path)
	case "setraw":
		res, err := xmldot.SetRaw(string(d), path, string(*op.Raw))
		return docOut(before, d, []byte(res), err)
	case "setmany":
		ps := make([]string, len(op.Ps))
		vs := make([]interface{}, len(op.Vs))
		for i, p := range op.Ps {
			ps[i] = string(p)
		}
		for i, v := range op.Vs {
			vs[i] = goValue(v)
		}
		if op.Via%2 == 0 {
			res, err := xmldot.SetMany(string(d), ps, vs)
			return docOut(before, d, []byte(res), err)
		}
		res, err := xmldot.SetManyBytes(d, ps, vs)
		return docOut(before, d, res, err)
	case "del":
		if isDefault(op) {
			switch op.Via % 4 {
			case 0:
				res, err := xmldot.Delete(string(d), path)
				return docOut(before, d, []byte(res), err)
			case 1:
				res, err := xmldot.DeleteBytes(d, path)
				return docOut(before, d, res, err)
			case 2:
				if len(d) > 0 {
					res, err := xmldot.Set(string(d), path, nil)
					return docOut(before, d, []byte(res), err)
				}
			}
		}
		res, err := xmldot.DeleteBytesWithOptions(d, path, st.options(op))
		return docOut(before, d, res, err)
	case "delmany":
		ps := make([]string, len(op.Ps))
		for i, p := range op.Ps {
			ps[i] = string(p)
		}
		if op.Via%2 == 0 {
			res, err := xmldot.DeleteMany(string(d), ps...)
			return docOut(before, d, []byte(res), err)
		}
		res, err := xmldot.DeleteManyBytes(d, ps...)
		return docOut(before, d, res, err)
	case "valid":
		var e *xmldot.ValidateError
		var ok bool
		if op.Via%2 == 0 {
			e, ok = xmldot.ValidateWithError(string(d)), xmldot.Valid(string(d))
		} else {
			e, ok = xmldot.ValidateBytesWithError(d), xmldot.ValidBytes(d)
		}
		if ok != (e == nil) {
			return Out{"k": "valid", "ok": ok, "line": -1, "col": -1}
		}
		if e == nil {
			return Out{"k": "valid", "ok": true, "line": 0, "col": 0}
		}
		if e.Message == "" || !strings.Contains(e.Error(), fmt.Sprintf("line %d, column %d", e.Line, e.Column)) {
			return Out{"k": "valid", "ok": false, "line": -2, "col": -2}
		}
		return Out{"k": "valid", "ok": false, "line": e.Line, "col": e.Column}
	case "reg":
		name := string(*op.Name)
		own := name
		if op.Via%3 == 1 {
			own = "sort" // what a modifier calls itself does not count
		}
		err := xmldot.RegisterModifier(name, customModifier(own, op.Kind))
		if err == nil {
			st.regured[name] = true
		}
		return Out{"k": "st", "ok": err == nil}
	case "unreg":
		name := string(*op.Name)
		err := xmldot.UnregisterModifier(name)
		if err == nil {
			delete(st.regured, name)
		}
		return Out{"k": "st", "ok": err == nil}
	case "has":
		return Out{"k": "st", "ok": xmldot.GetModifier(string(*op.Name)) != nil}
	}
	panic("unknown operation " + op.Op)
}

func (st *state) set(op Op, d, before []byte, path string) Out {
	v := goValue(*op.V)
	var vb []byte
	raw, isRaw := v.([]byte)
	if isRaw {
		vb = append([]byte{}, raw...)
	}
	var o Out
	if isDefault(op) {
		switch op.Via % 6 {
		case 0:
			res, err := xmldot.Set(string(d), path, v)
			o = docOut(before, d, []byte(res), err)
		case 1:
			res, err := xmldot.SetBytes(d, path, v)
			o = docOut(before, d, res, err)
		case 2:
			res, err := xmldot.SetWithOptions(string(d), path, v, nil)
			o = docOut(before, d, []byte(res), err)
		case 3:
			res, err := xmldot.SetBytesWithOptions(d, path, v, xmldot.DefaultOptions())
			o = docOut(before, d, res, err)
		case 4:
			res, err := xmldot.SetMany(string(d), []string{path}, []interface{}{v})
			o = docOut(before, d, []byte(res), err)
		default:
			res, err := xmldot.SetWithOptions(string(d), path, v, reserved(xmldot.Options{CaseSensitive: true}, op.Via/6))
			o = docOut(before, d, []byte(res), err)
		}
	} else if op.Via%2 == 0 {
		res, err := xmldot.SetWithOptions(string(d), path, v, st.options(op))
		o = docOut(before, d, []byte(res), err)
	} else {
		res, err := xmldot.SetBytesWithOptions(d, path, v, st.options(op))
		o = docOut(before, d, res, err)
	}
	if isRaw && !bytes.Equal(vb, raw) {
		o["mut"] = true
	}
	return o
}

func convOut(r xmldot.Result) Out {
	f := r.Float()
	ft := "0"
	if f != 0 {
		ft = strconv.FormatFloat(f, 'f', -1, 64)
	}
	if digits(r.Str) > 15 || tinyExponent.MatchString(r.Str) {
		// more digits than a float holds exactly: the nearest float is expected
		if x, err := strconv.ParseFloat(r.Str, 64); err == nil && x == f {
			ft = ""
		}
	}
	vk := "other"
	switch v := r.Value().(type) {
	case nil:
		vk = "nil"
	case string:
		vk = "string"
		if v != r.Str {
			vk = "string differs"
		}
	case bool:
		vk = "bool"
		if v != (r.Type == xmldot.True) {
			vk = "bool differs"
		}
	case float64:
		vk = "float"
		if v != r.Num {
			vk = "float differs"
		}
	case []xmldot.Result:
		vk = "results"
	}
	items := []resJ{}
	for _, x := range r.Array() {
		items = append(items, toRes(x))
	}
	// ForEach must visit the same items in the same order, and stop when told to
	n := 0
	okIter := true
	r.ForEach(func(i int, x xmldot.Result) bool {
		if i != n || n >= len(items) {
			okIter = false
		} else if a, _ := json.Marshal(toRes(x)); true {
			b, _ := json.Marshal(items[n])
			if !bytes.Equal(a, b) {
				okIter = false
			}
		}
		n++
		return true
	})
	if n != len(items) {
		okIter = false
	}
	if len(items) > 1 {
		m := 0
		r.ForEach(func(i int, _ xmldot.Result) bool { m++; return m < 2 })
		if m != 2 {
			okIter = false
		}
	}
	if !okIter {
		items = append(items, resJ{T: "iteration differs", S: Bs{}, R: Bs{}, A: []resJ{}})
	}
	return Out{"k": "conv", "s": Bs(r.String()), "i": Bs(strconv.FormatInt(r.Int(), 10)), "f": Bs(ft),
		"b": r.Bool(), "ex": r.Exists(), "ia": r.IsArray(), "vk": vk, "items": items}
}

// tinyExponent marks numerals down among the denormal floats.
var tinyExponent = regexp.MustCompile(`[eE]-[0-9]{3}`)

func digits(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			n++
		}
	}
	return n
}
