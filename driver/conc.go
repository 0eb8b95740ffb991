package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	xmldot "github.com/netascode/xmldot"
)

const workers = 8

// concMode runs the calls of a pool from several goroutines at once, on shared
// documents and options, while other modifiers come and go. Every outcome a
// call had is recorded, each different one as a history of its own.
func concMode(w *bufio.Writer, seed int64, pools int) {
	wd := newWatchdog(180 * time.Second)
	id := 0
	var made atomic.Int64
	defer func() { fmt.Printf("%d calls\n", made.Load()) }()
	for k := 1; k <= pools; k++ {
		if only != 0 && k != only {
			continue
		}
		mark(k)
		wd.begin(fmt.Sprint("pool ", k))
		r := rand.New(rand.NewSource(seed*1000211 + int64(k)))
		g := &gen{r: r, c: profiles["P26"].cfg()}
		reg := []Op{{Op: "reg", Name: bp("m1"), Kind: "tag"}, {Op: "reg", Name: bp("m2"), Kind: "wrap"}, {Op: "reg", Name: bp("m3"), Kind: "upper"}}
		st := newState(nil)
		pre := []event{}
		for _, o := range reg {
			pre = append(pre, event{o, st.step(o)})
		}
		type call struct {
			d  []byte
			op Op
		}
		sh := &sharing{opts: map[string]*xmldot.Options{}}
		var calls []call
		var docs, kept [][]byte
		for i := 0; i < 12; i++ {
			d := []byte(g.doc())
			docs, kept = append(docs, d), append(kept, append([]byte{}, d...))
			for j := 0; j < 35; j++ {
				op := g.op(string(d))
				calls = append(calls, call{d, op})
				sh.opts[optKey(op)] = st.options(op)
			}
			g.queue = nil
		}
		outs := make([]map[string]Out, workers*len(calls))
		var ready, done sync.WaitGroup
		var start, stop atomic.Bool
		for t := 0; t < workers; t++ {
			ready.Add(1)
			done.Add(1)
			go func(t int, r *rand.Rand) {
				defer done.Done()
				ready.Done()
				for !start.Load() {
					runtime.Gosched()
				}
				for round := 0; round < 4; round++ {
					// some rounds on the same calls in the same order, some not
					at := func(i int) int { return i }
					if round%2 == 1 {
						p := r.Perm(len(calls))
						at = func(i int) int { return p[i] }
					}
					for i := range calls {
						n := at(i)
						c := calls[n]
						out := (&state{d: c.d, regured: map[string]bool{}, shared: sh}).step(c.op)
						made.Add(1)
						if outs[t*len(calls)+n] == nil {
							outs[t*len(calls)+n] = map[string]Out{}
						}
						outs[t*len(calls)+n][string(mustJSON(out))] = out
					}
				}
			}(t, rand.New(rand.NewSource(seed*7919+int64(k*100+t))))
		}
		var churn sync.WaitGroup
		churn.Add(1)
		go func() {
			defer churn.Done()
			for i := 0; !stop.Load(); i++ {
				name := "other" + strconv.Itoa(i%5)
				if xmldot.RegisterModifier(name, customModifier(name, "tag")) == nil {
					xmldot.Get("<a>1</a>", "a|@"+name)
				}
				_ = xmldot.UnregisterModifier(name)
				time.Sleep(50 * time.Microsecond)
			}
		}()
		ready.Wait()
		start.Store(true)
		done.Wait()
		stop.Store(true)
		churn.Wait()
		st.cleanup()
		wd.end()
		for n, c := range calls {
			all := map[string]Out{}
			for t := 0; t < workers; t++ {
				for s, o := range outs[t*len(calls)+n] {
					all[s] = o
				}
			}
			for _, o := range all {
				id++
				ev := append(append([]event{}, pre...), event{c.op, o})
				w.Write(mustJSON(hist{ID: id, D: Bs(kept[n/35]), Ev: ev}))
				w.WriteByte('\n')
			}
		}
		for i := range docs {
			if string(docs[i]) != string(kept[i]) {
				id++
				op := Op{Op: "valid", Ind: Bs{}}
				w.Write(mustJSON(hist{ID: id, D: Bs(kept[i]), Ev: []event{{op, Out{"k": "mutated", "now": Bs(docs[i])}}}}))
				w.WriteByte('\n')
			}
		}
		for key, o := range sh.opts {
			if optKey(Op{CI: !o.CaseSensitive, Ind: Bs(o.Indent)}) != key {
				id++
				w.Write(mustJSON(hist{ID: id, D: Bs("<a/>"), Ev: []event{{Op{Op: "valid", Ind: Bs{}}, Out{"k": "options changed", "was": key}}}}))
				w.WriteByte('\n')
			}
		}
	}
}

// regEvent is a call in a concurrent history with the times it began and ended.
type regEvent struct {
	Op  Op  `json:"op"`
	Out Out `json:"out"`
	Inv int `json:"inv"`
	Ret int `json:"ret"`
	G   int `json:"g"`
}

type regRound struct {
	ID int        `json:"id"`
	Ev []regEvent `json:"ev"`
}

// regConcMode records short concurrent histories of the registry.
func regConcMode(w *bufio.Writer, seed int64, rounds int) {
	wd := newWatchdog(60 * time.Second)
	doc := "<r><i>b</i></r>"
	for k := 1; k <= rounds; k++ {
		if only != 0 && k != only {
			continue
		}
		mark(k)
		wd.begin(fmt.Sprint("round ", k))
		r := rand.New(rand.NewSource(seed*1000457 + int64(k)))
		g := &gen{r: r, c: baseCfg()}
		threads, steps := 2+r.Intn(3), 1+r.Intn(3)
		// often all begin on the same name
		hot := g.pick("m1", "m2")
		same := r.Intn(3) > 0
		kinds := []string{"tag", "tag2", "upper", "null"}
		plan := make([][]Op, threads)
		for t := range plan {
			for s := 0; s < steps; s++ {
				name := g.pick("m1", "m1", "m2")
				if same {
					name = hot
				}
				var o Op
				switch r.Intn(7) {
				case 0, 1, 2:
					o = Op{Op: "reg", Name: bp(name), Kind: kinds[t%len(kinds)]}
				case 3:
					o = Op{Op: "unreg", Name: bp(name)}
				case 4:
					o = Op{Op: "has", Name: bp(name)}
				case 5:
					o = Op{Op: "get", P: bp("r.i|@" + name)}
				default:
					o = Op{Op: g.pick("reg", "unreg", "has"), Name: bp(g.pick("sort", "first", name)), Kind: ""}
					if o.Op == "reg" {
						o.Kind = "null"
					}
				}
				if s == 0 && same && r.Intn(2) == 0 {
					o = Op{Op: "reg", Name: bp(name), Kind: kinds[t%len(kinds)]}
				}
				o.Ind = Bs{}
				plan[t] = append(plan[t], o)
			}
		}
		var clock atomic.Int64
		var wait atomic.Int32
		var done sync.WaitGroup
		evs := make([][]regEvent, threads)
		for t := 0; t < threads; t++ {
			done.Add(1)
			go func(t int) {
				defer done.Done()
				st := newState([]byte(doc))
				wait.Add(1)
				for wait.Load() < int32(threads) {
				}
				for _, o := range plan[t] {
					inv := int(clock.Add(1))
					out := st.step(o)
					ret := int(clock.Add(1))
					evs[t] = append(evs[t], regEvent{o, out, inv, ret, t})
				}
			}(t)
		}
		done.Wait()
		for _, n := range []string{"m1", "m2"} {
			_ = xmldot.UnregisterModifier(n)
		}
		wd.end()
		h := regRound{ID: k, Ev: []regEvent{}}
		for t := range evs {
			h.Ev = append(h.Ev, evs[t]...)
		}
		w.Write(mustJSON(h))
		w.WriteByte('\n')
	}
}
