package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// hrun is the exploration of one harness function.
type hrun struct {
	eng  *Engine
	name string
	fn   *ssa.Function

	mu     sync.Mutex
	cond   *sync.Cond
	queues [][]workItem
	busy   int
	stop   bool
	timeUp bool
	dead   time.Time

	paths, infeasible, incomplete int
	decisions, asserts, trivial   int64
	obligations, discharged       int64
	notes                         map[string]int
	unsup                         map[string]int
	unsupTrace                    map[string]string
	ends                          map[string]int
	cexs                          []*cex
	cexByMsg                      map[string]int
	covers                        map[string]int
	expect                        map[string]bool
	witness                       []witness
	wall                          time.Duration
	bounds                        map[string]int
	conc                          bool
	qmu                           sync.Mutex
	qcache                        map[qkey]qres
	known                         func(msg string) bool
}

// witness is a concrete input for one explored path, for native validation.
type witness struct {
	Inputs []cexInput `json:"inputs"`
	Covers []string   `json:"covers"`
	End    string     `json:"end"`
	conc   bool
	random bool
}

func newHrun(e *Engine, name string, fn *ssa.Function) *hrun {
	h := &hrun{eng: e, name: name, fn: fn, notes: map[string]int{}, unsup: map[string]int{}, unsupTrace: map[string]string{},
		ends: map[string]int{}, cexByMsg: map[string]int{}, covers: map[string]int{}, expect: map[string]bool{}, bounds: map[string]int{}, qcache: map[qkey]qres{}}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *hrun) push(w *W, it workItem) {
	h.mu.Lock()
	h.queues[w.id] = append(h.queues[w.id], it)
	h.mu.Unlock()
	h.cond.Signal()
}

func (h *hrun) bound(name string, v int) {
	h.mu.Lock()
	h.bounds[name] = v
	h.mu.Unlock()
}

func (h *hrun) note(s string) {
	h.mu.Lock()
	h.notes[s]++
	h.mu.Unlock()
}

func (h *hrun) unsupportedAt(msg, trace string, in []cexInput) {
	h.mu.Lock()
	key := msg
	if i := strings.Index(key, "\n"); i > 0 {
		key = key[:i]
	}
	h.unsup[key]++
	if h.unsupTrace[key] == "" {
		h.unsupTrace[key] = msg + "\n" + trace
	}
	if len(h.witness) < 4000 {
		h.witness = append(h.witness, witness{Inputs: in, End: "unsupported"})
	}
	h.mu.Unlock()
}

func (h *hrun) report(c *cex) {
	h.mu.Lock()
	defer h.mu.Unlock()
	key := c.Msg
	if i := strings.Index(key, "\n"); i > 0 {
		key = key[:i]
	}
	h.cexByMsg[key]++
	if h.cexByMsg[key] > 3 {
		return
	}
	h.cexs = append(h.cexs, c)
	n := 0
	for _, x := range h.cexs {
		if h.known == nil || !h.known(x.Msg) {
			n++
		}
	}
	if n >= h.eng.maxCex {
		h.stop = true
	}
}

func (h *hrun) take(id int) (workItem, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.stop {
			h.cond.Broadcast()
			return workItem{}, false
		}
		if !h.dead.IsZero() && time.Now().After(h.dead) {
			h.timeUp = true
			h.stop = true
			h.cond.Broadcast()
			return workItem{}, false
		}
		q := h.queues[id]
		if len(q) > 0 {
			it := q[len(q)-1]
			h.queues[id] = q[:len(q)-1]
			h.busy++
			return it, true
		}
		// steal the oldest item of the longest queue
		best := -1
		for i := range h.queues {
			if len(h.queues[i]) > 0 && (best < 0 || len(h.queues[i]) > len(h.queues[best])) {
				best = i
			}
		}
		if best >= 0 {
			it := h.queues[best][0]
			h.queues[best] = h.queues[best][1:]
			h.busy++
			return it, true
		}
		if h.busy == 0 {
			h.cond.Broadcast()
			return workItem{}, false
		}
		h.cond.Wait()
	}
}

func (h *hrun) done() {
	h.mu.Lock()
	h.busy--
	h.mu.Unlock()
	h.cond.Broadcast()
}

func (h *hrun) pending() int {
	n := 0
	for _, q := range h.queues {
		n += len(q)
	}
	return n
}

func (h *hrun) explore(ws []*W, budget time.Duration) {
	t0 := time.Now()
	h.dead = t0.Add(budget)
	h.queues = make([][]workItem, len(ws))
	h.queues[0] = []workItem{{}}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.h = h
			for {
				it, ok := h.take(w.id)
				if !ok {
					break
				}
				end := w.runPath(it)
				h.mu.Lock()
				h.ends[end]++
				switch end {
				case "done":
					h.paths++
				case "assume":
					h.infeasible++
				case "assert", "panic", "deadlock", "fatal":
					h.paths++
				default:
					h.incomplete++
				}
				for _, c := range w.covers {
					h.covers[c]++
				}
				keep := end == "done" && len(h.witness) < 4000
				h.mu.Unlock()
				if keep {
					wt := witness{Inputs: w.concreteInputs(), Covers: w.covers, End: end, conc: w.concOn, random: w.random}
					h.mu.Lock()
					h.witness = append(h.witness, wt)
					h.mu.Unlock()
				}
				w.rollback()
				if len(w.tt.tab) > 1500000 {
					w.newTerms()
				}
				h.done()
				if os.Getenv("GOSYM_TRACE") != "" {
					h.mu.Lock()
					fmt.Fprintf(os.Stderr, "path %d end=%s depth=%d pc=%d pending=%d\n", h.paths, end, len(w.trace), len(w.pc), h.pending())
					h.mu.Unlock()
				}
			}
		}(w)
	}
	tick := time.NewTicker(200 * time.Millisecond)
	go func() {
		for range tick.C {
			h.cond.Broadcast()
			if time.Now().After(h.dead) {
				h.mu.Lock()
				h.stop = true
				h.timeUp = true
				h.mu.Unlock()
				h.cond.Broadcast()
				return
			}
		}
	}()
	wg.Wait()
	tick.Stop()
	h.wall = time.Since(t0)
}

func (w *W) newTerms() {
	w.tt = NewTermTab()
	w.solver.restart()
	if w.solver2 != nil {
		w.solver2.restart()
	}
}
