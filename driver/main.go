package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

// hist is a recorded history: the document it starts from and its events.
type hist struct {
	ID int     `json:"id"`
	D  Bs      `json:"d"`
	Ev []event `json:"ev"`
}

type event struct {
	Op  Op  `json:"op"`
	Out Out `json:"out"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver gen|replay|exec ...")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	profile := fs.String("profile", "", "profile")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "histories")
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	fs.StringVar(&markFile, "mark", "", "file naming the input being run")
	fs.StringVar(&anyFile, "any", "", "file for the outcomes of calls whose outcome is left open")
	fs.IntVar(&only, "only", 0, "run only this input")
	_ = fs.Parse(os.Args[2:])
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	if *out != "" {
		f, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		w = bufio.NewWriterSize(f, 1<<20)
	}
	defer w.Flush()
	switch mode {
	case "gen":
		genMode(w, *profile, *seed, *n)
	case "replay":
		replayMode(w, *in)
	case "exec":
		execMode(w, *in)
	case "big":
		bigReplay(w, *in)
	case "conc":
		concMode(w, *seed, *n)
	case "regconc":
		regConcMode(w, *seed, *n)
	case "biggen":
		bigGen(w, *seed, *n)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

var (
	markFile string
	anyFile  string
	markOut  *os.File
	only     int
)

// mark leaves the number of the input about to be run where it survives a crash.
func mark(i int) {
	if markFile == "" {
		return
	}
	if markOut == nil {
		markOut, _ = os.Create(markFile)
	}
	_, _ = markOut.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
}

// watchdog ends the process if one call does not return in time.
type watchdog struct {
	mu   sync.Mutex
	what string
	t    time.Time
}

func newWatchdog(limit time.Duration) *watchdog {
	w := &watchdog{t: time.Now()}
	go func() {
		for {
			time.Sleep(time.Second)
			w.mu.Lock()
			late := w.what != "" && time.Since(w.t) > limit
			what := w.what
			w.mu.Unlock()
			if late {
				fmt.Println("HANG " + what)
				os.Exit(3)
			}
		}
	}()
	return w
}

func (w *watchdog) begin(what string) {
	w.mu.Lock()
	w.what, w.t = what, time.Now()
	w.mu.Unlock()
}

func (w *watchdog) end() { w.begin("") }

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func genMode(w *bufio.Writer, profile string, seed int64, n int) {
	p, ok := profiles[profile]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown profile", profile)
		os.Exit(2)
	}
	wd := newWatchdog(60 * time.Second)
	for i := 1; i <= n; i++ {
		if only != 0 && i != only {
			continue
		}
		mark(i)
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		g := &gen{r: r, c: p.cfg()}
		wd.begin(fmt.Sprintf("history %d", i))
		h := p.history(g)
		wd.end()
		h.ID = i
		w.Write(mustJSON(h))
		w.WriteByte('\n')
	}
}

// transition is one step of the specification with its expected outcome.
type transition struct {
	D   Bs              `json:"d"`
	Reg []regEntry      `json:"reg"`
	Op  Op              `json:"op"`
	Exp json.RawMessage `json:"exp"`
}

type regEntry struct {
	Name Bs     `json:"name"`
	Kind string `json:"kind"`
}

func canon(b []byte) []byte {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	return mustJSON(v)
}

// replayMode executes every transition of a file and prints the ones whose
// outcome differs. Operations are run through every equivalent entry point.
func replayMode(w *bufio.Writer, in string) {
	f, err := os.Open(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	wd := newWatchdog(60 * time.Second)
	var open *bufio.Writer
	if anyFile != "" {
		f, err := os.Create(anyFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		open = bufio.NewWriterSize(f, 1<<20)
		defer open.Flush()
	}
	n, calls, bad := 0, 0, 0
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 {
			continue
		}
		var t transition
		if err := json.Unmarshal(line, &t); err != nil {
			fmt.Fprintln(os.Stderr, "bad transition:", err, string(line[:min(len(line), 200)]))
			os.Exit(2)
		}
		n++
		if only != 0 && n != only {
			continue
		}
		mark(n)
		exp := canon(t.Exp)
		if bytes.Equal(exp, []byte(`{"k":"any"}`)) {
			st := newState(append([]byte{}, t.D...))
			wd.begin(string(line))
			out := st.step(t.Op)
			if out["k"] != "panic" {
				out = st.crossCheck(t.D, t.Op, out)
			}
			wd.end()
			calls++
			if open != nil {
				open.Write(mustJSON(hist{ID: n, D: t.D, Ev: []event{{t.Op, out}}}))
				open.WriteByte('\n')
			}
			continue
		}
		for _, via := range variants(t.Op) {
			op := t.Op
			op.Via = via
			st := newState(append([]byte{}, t.D...))
			for _, e := range t.Reg {
				name := e.Name
				st.step(Op{Op: "reg", Name: &name, Kind: e.Kind})
			}
			wd.begin(string(line))
			out := st.step(op)
			wd.end()
			st.cleanup()
			calls++
			if got := canon(mustJSON(out)); !bytes.Equal(got, exp) {
				bad++
				if bad <= 200 {
					w.Write(mustJSON(map[string]interface{}{"d": t.D, "op": op, "reg": t.Reg, "exp": json.RawMessage(exp), "got": json.RawMessage(got)}))
					w.WriteByte('\n')
				}
				break
			}
		}
	}
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(w, `{"summary":true,"transitions":%d,"calls":%d,"bad":%d}`+"\n", n, calls, bad)
}

// variants lists the entry points an operation can be run through.
func variants(op Op) []int {
	k := 1
	switch op.Op {
	case "get":
		k = getVariants
		if !isDefault(op) {
			k = 6
		}
	case "set":
		k = 6
		if !isDefault(op) {
			k = 2
		}
	case "del":
		k = 4
		if !isDefault(op) {
			k = 1
		}
	case "flu", "map":
		k = 3
		if !isDefault(op) {
			k = 1
		}
	case "setmany", "delmany", "valid":
		k = 2
	}
	vs := make([]int, k)
	for i := range vs {
		vs[i] = i
	}
	return vs
}

// execMode runs the operations of recorded histories again and prints the
// histories with the outcomes observed now.
func execMode(w *bufio.Writer, in string) {
	f, err := os.Open(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	wd := newWatchdog(60 * time.Second)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		var h hist
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			fmt.Fprintln(os.Stderr, "bad history:", err)
			os.Exit(2)
		}
		st := newState(append([]byte{}, h.D...))
		for i := range h.Ev {
			wd.begin(fmt.Sprintf("history %d event %d", h.ID, i))
			h.Ev[i].Out = st.step(h.Ev[i].Op)
			wd.end()
		}
		st.cleanup()
		w.Write(mustJSON(h))
		w.WriteByte('\n')
	}
}

var _ = runtime.NumCPU
