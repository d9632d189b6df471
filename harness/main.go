// Command harness drives the real livekit/media-sdk code through scenarios and
// records what it does, one JSON event per line. It only uses exported API.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"
)

// M is a JSON object.
type M map[string]any

type Scenario struct {
	Sc   string `json:"sc"`
	Comp string `json:"comp"`
	Cfg  M      `json:"cfg"`
	Ops  []M    `json:"ops"`
}

func (m M) Int(k string) int {
	switch v := m[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	case nil:
		return 0
	}
	panic(fmt.Sprintf("field %q is not a number: %v", k, m[k]))
}

func (m M) Has(k string) bool { _, ok := m[k]; return ok }

func (m M) Str(k string) string {
	s, _ := m[k].(string)
	return s
}

func (m M) Bool(k string) bool {
	b, _ := m[k].(bool)
	return b
}

func (m M) Ints(k string) []int {
	a, _ := m[k].([]any)
	out := make([]int, len(a))
	for i, v := range a {
		out[i] = int(v.(float64))
	}
	return out
}

func (m M) Strs(k string) []string {
	a, _ := m[k].([]any)
	out := make([]string, len(a))
	for i, v := range a {
		out[i] = v.(string)
	}
	return out
}

func (m M) List(k string) []M {
	a, _ := m[k].([]any)
	out := make([]M, len(a))
	for i, v := range a {
		out[i] = M(v.(map[string]any))
	}
	return out
}

// Rec records the events of one scenario.
type Rec struct {
	mu  sync.Mutex
	out *os.File
}

func (r *Rec) raw(m M) {
	data, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(4)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.out.Write(append(data, '\n'))
}

// Event records a call (op) and what was observed (o).
func (r *Rec) Event(op M, o M) {
	e := make(M, len(op)+1)
	for k, v := range op {
		e[k] = v
	}
	e["o"] = o
	r.raw(e)
}

// guard runs f and reports a panic as a value.
func guard(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

type driver struct {
	fake bool // run in a synctest bubble: virtual time, quiescence
	run  func(sc *Scenario, r *Rec)
}

var drivers = map[string]driver{}

func reg(name string, fake bool, f func(sc *Scenario, r *Rec)) {
	drivers[name] = driver{fake, f}
}

func runOne(sc *Scenario, r *Rec) {
	d, ok := drivers[sc.Comp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown component", sc.Comp)
		os.Exit(4)
	}
	reset := M{"ev": "reset", "sc": sc.Sc, "comp": sc.Comp}
	for k, v := range sc.Cfg {
		reset[k] = v
	}
	r.raw(reset)
	wd := time.AfterFunc(watchdog(), func() {
		fmt.Fprintln(os.Stderr, "scenario", sc.Sc, "did not finish in real time")
		debug.SetTraceback("all")
		os.Exit(3)
	})
	p := guard(func() {
		if d.fake {
			synctest.Run(func() { d.run(sc, r) })
		} else {
			d.run(sc, r)
		}
	})
	wd.Stop()
	if p != nil {
		r.raw(M{"ev": "crash", "detail": fmt.Sprint(p)})
		if d.fake {
			// goroutines of the bubble may still be around: the rest runs in a new process
			fmt.Fprintln(os.Stderr, "bubble panic:", p)
			r.raw(M{"ev": "done"})
			os.Exit(5)
		}
	}
	if s := races(); s != "" {
		r.raw(M{"ev": "race", "detail": s})
	}
	r.raw(M{"ev": "done"})
}

var raceSeen int64

// races returns what the race detector (a harness built with -race) reported since the last call.
func races() string {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return ""
	}
	data, err := os.ReadFile(fmt.Sprint(p, ".", os.Getpid()))
	if err != nil || int64(len(data)) <= raceSeen {
		return ""
	}
	s := string(data[raceSeen:])
	raceSeen = int64(len(data))
	return s[:min(len(s), 3000)]
}

func watchdog() time.Duration {
	if v := os.Getenv("VERIF_WATCHDOG"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			return d
		}
	}
	return 20 * time.Second
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness IN OUT")
		os.Exit(4)
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	rec := &Rec{out: out}
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		var sc Scenario
		if err := json.Unmarshal(line, &sc); err != nil {
			fmt.Fprintln(os.Stderr, "bad scenario:", err)
			os.Exit(4)
		}
		if sc.Cfg == nil {
			sc.Cfg = M{}
		}
		runOne(&sc, rec)
	}
	out.Close()
}

// settle lets every goroutine of the bubble run until it is blocked, including
// timers that are already due. It costs a nanosecond of virtual time, so that
// something due "now" happens before the next call.
func settle() {
	synctest.Wait()
	time.Sleep(1)
	synctest.Wait()
}
