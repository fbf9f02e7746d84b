package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Edge struct {
	A    Action `json:"a"`
	OK   bool   `json:"ok"`
	Soft bool   `json:"soft"`
	T    string `json:"t"`
}

type Node struct {
	ID   string          `json:"id"`
	L    int             `json:"l"`
	O    json.RawMessage `json:"o"`
	E    []Edge          `json:"e"`
	tree []int           // edges through which the walk descends
}

// Line of a random behaviour.
type Line struct {
	L    int             `json:"l"`
	A    Action          `json:"a"`
	OK   bool            `json:"ok"`
	Soft bool            `json:"soft"`
	O    json.RawMessage `json:"o"`
}

func (w *World) decode(o json.RawMessage) *Rels {
	var m map[string][][]interface{}
	must(json.Unmarshal(o, &m))
	return w.fromSpec(m)
}

// Divergence is a difference between the specification and the real code.
type Divergence struct {
	Type   string          `json:"type"` // outcome, state, block, bad, check
	Kind   string          `json:"kind"` // kind of the action
	Dir    string          `json:"dir,omitempty"`
	Action Action          `json:"action"`
	Path   []Action        `json:"path"` // actions before it, after the prefix of the configuration
	Diffs  []Diff          `json:"diffs,omitempty"`
	Err    string          `json:"err,omitempty"`
	Match  bool            `json:"match"`
	Want   json.RawMessage `json:"want,omitempty"`
	SpecOK bool            `json:"spec_ok"`
	Soft   bool            `json:"soft"`
	Check  string          `json:"check,omitempty"`
}

type Rule struct {
	Acts    []string `json:"acts"`
	Outcome string   `json:"outcome"` // any, accept, reject, none
	Rels    []string `json:"rels"`
	Block   bool     `json:"block"`
	Bad     bool     `json:"bad"`
	Checks  []string `json:"checks"`
	Control bool     `json:"control"` // count only what depends on an export and import of the state
}

const control = "ExportImport"

func hasKind(path []Action, k string) bool {
	for _, a := range path {
		if a.kind() == k {
			return true
		}
	}
	return false
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == "*" || y == x || (strings.HasSuffix(y, "*") && strings.HasPrefix(x, y[:len(y)-1])) {
			return true
		}
	}
	return false
}

func (r Rule) match(d *Divergence) bool {
	if r.Control && d.Kind != control && !hasKind(d.Path, control) {
		return false
	}
	if d.Type == "check" {
		return has(r.Checks, d.Check)
	}
	if d.Type == "block" {
		return r.Block
	}
	concerns := d.Kind == "prefix"
	for _, a := range append(d.Action.parts(), d.Action) {
		concerns = concerns || has(r.Acts, a.kind())
	}
	if !concerns {
		return false
	}
	switch d.Type {
	case "outcome":
		if r.Outcome == "any" || r.Outcome == d.Dir {
			return true
		}
		return r.Outcome == "effect" && d.Dir == "accept" && r.touches(d)
	case "bad":
		return r.Bad
	case "state":
		return r.touches(d)
	}
	return false
}

// touches tells whether one of the relations of the rule differs.
func (r Rule) touches(d *Divergence) bool {
	for _, x := range d.Diffs {
		rel := x.Rel
		if rel == "bad" {
			rel = "bad:" + x.Item
		}
		if has(r.Rels, rel) {
			return true
		}
	}
	return false
}

type Stats struct {
	mu       sync.Mutex
	Edges    int64            `json:"edges"`
	States   int64            `json:"states_compared"`
	Accepted map[string]int64 `json:"accepted"`
	Rejected map[string]int64 `json:"rejected"`
	Traces   int64            `json:"traces"`
	Checks   map[string]int64 `json:"checks"`
	Nodes    int64            `json:"spec_states"`
	Skipped  int64            `json:"skipped"`
	Diverged int64            `json:"diverged"`
	Out      []*Divergence    `json:"out_of_scope,omitempty"`
	Found    []*Divergence    `json:"found,omitempty"`
	Samples  []string         `json:"samples,omitempty"`
	Notes    map[string]int64 `json:"notes,omitempty"`
	Wall     float64          `json:"wall_s"`
}

func newStats() *Stats {
	return &Stats{Accepted: map[string]int64{}, Rejected: map[string]int64{}, Checks: map[string]int64{}, Notes: map[string]int64{}}
}

// done ends the use of a world.
func (r *Runner) done(w *World) {
	r.st.mu.Lock()
	for k, v := range w.notes {
		r.st.Notes[k] += v
	}
	r.st.mu.Unlock()
	w.Close()
}

type Runner struct {
	cfg      *Config
	rules    []Rule
	checks   []string // extra checks on visited states
	every    int64    // how often
	st       *Stats
	deadline time.Time
	cnt      int64
}

func (r *Runner) over() bool { return time.Now().After(r.deadline) }

func (r *Runner) report(d *Divergence) {
	for _, x := range r.rules {
		if x.match(d) {
			d.Match = true
		}
	}
	r.st.mu.Lock()
	defer r.st.mu.Unlock()
	r.st.Diverged++
	if d.Match {
		r.st.Found = append(r.st.Found, d)
		sort.SliceStable(r.st.Found, func(i, j int) bool { return len(r.st.Found[i].Path) < len(r.st.Found[j].Path) })
		if len(r.st.Found) > 20 {
			r.st.Found = r.st.Found[:20]
		}
	} else if len(r.st.Out) < 20 {
		r.st.Out = append(r.st.Out, d)
	}
}

func (r *Runner) count(k string, ok bool) {
	atomic.AddInt64(&r.st.Edges, 1)
	r.st.mu.Lock()
	if ok {
		r.st.Accepted[k]++
	} else {
		r.st.Rejected[k]++
	}
	r.st.mu.Unlock()
}

// step executes one action and compares the result with what the specification
// says. It returns false when the branch cannot be continued.
func (r *Runner) step(w *World, s *Sim, e Edge, want json.RawMessage, path []Action) bool {
	o := w.apply(s, e.A)
	k := e.A.kind()
	r.count(k, e.OK)
	d := &Divergence{Kind: k, Action: e.A, Path: append([]Action{}, path...), Err: trimErr(o.Err), SpecOK: e.OK, Soft: e.Soft, Want: want}
	if o.Known != "" {
		if e.Soft {
			w.note("known:" + o.Known)
		} else {
			o.Bad = o.Err
		}
	}
	if o.Bad != "" {
		d.Type, d.Err = "bad", o.Bad
		r.report(d)
		return false
	}
	if o.Block {
		d.Type = "block"
		r.report(d)
		return false
	}
	if !e.Soft && o.OK != e.OK {
		d.Type, d.Dir = "outcome", "accept"
		if e.OK {
			d.Dir = "reject"
		} else if rels, err := w.project(*s); err == nil && want != nil {
			d.Diffs = diff(w.decode(want), rels, w.tol(*s))
		}
		r.report(d)
		return false
	}
	if want != nil && (o.OK || e.Soft) {
		if !r.compare(w, *s, want, d) {
			return false
		}
	}
	return true
}

func (w *World) tol(s Sim) float64 { return w.cfg.Tol + w.cfg.TolStep*float64(s.blocks) }

func (r *Runner) compare(w *World, s Sim, want json.RawMessage, d *Divergence) bool {
	atomic.AddInt64(&r.st.States, 1)
	rels, err := w.project(s)
	if err != nil {
		d.Type, d.Err = "bad", err.Error()
		r.report(d)
		return false
	}
	if ds := diff(w.decode(want), rels, w.tol(s)); len(ds) > 0 {
		d.Type, d.Diffs = "state", ds
		r.report(d)
		return false
	}
	n := atomic.AddInt64(&r.cnt, 1)
	if len(r.checks) > 0 && n%r.every == 0 {
		for _, c := range r.checks {
			r.st.mu.Lock()
			r.st.Checks[c]++
			r.st.mu.Unlock()
			if msg := w.check(c, s.branch(), want, rels); msg != "" {
				x := *d
				x.Type, x.Check, x.Err = "check", c, msg
				r.report(&x)
				return false
			}
		}
	}
	return true
}

// begin returns the state after the prefix of the configuration.
func (r *Runner) begin(w *World, root json.RawMessage) (Sim, bool) {
	s := w.start()
	for i, a := range w.cfg.Prefix {
		o := w.apply(&s, a)
		if !o.OK {
			d := &Divergence{Type: "outcome", Dir: "reject", Kind: a.kind(), Action: a, Path: w.cfg.Prefix[:i], Err: o.Err, SpecOK: true, Want: nil}
			if o.Block {
				d.Type = "block"
			}
			if o.Bad != "" {
				d.Type, d.Err = "bad", o.Bad
			}
			d.Check = "prefix"
			r.report(d)
			return s, false
		}
	}
	s.blocks = 0
	d := &Divergence{Kind: "prefix", Action: Action{"n": "prefix"}, SpecOK: true, Want: root}
	return s, r.compare(w, s, root, d)
}

func scanLines(f string, each func([]byte)) {
	fh, err := os.Open(f)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) == 0 {
			continue
		}
		var q string
		must(json.Unmarshal(b, &q))
		each([]byte(q))
	}
	must(sc.Err())
}

// ---- exhaustive graph

func (r *Runner) graph(f string, workers int) {
	nodes := map[string]*Node{}
	var order []*Node
	scanLines(f, func(b []byte) {
		n := &Node{}
		must(json.Unmarshal(b, n))
		if nodes[n.ID] == nil {
			nodes[n.ID] = n
			order = append(order, n)
		}
	})
	sort.SliceStable(order, func(i, j int) bool { return order[i].L < order[j].L })
	r.st.Nodes = int64(len(order))
	root := order[0]
	// spanning tree, breadth first
	seen := map[string]bool{root.ID: true}
	queue := []*Node{root}
	type task struct {
		path []Action
		node *Node
	}
	var tasks []task
	paths := map[string][]Action{root.ID: nil}
	const split = 2
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if len(paths[n.ID]) <= split {
			tasks = append(tasks, task{paths[n.ID], n})
		}
		for i, e := range n.E {
			if e.T != "" && !seen[e.T] && nodes[e.T] != nil {
				seen[e.T] = true
				n.tree = append(n.tree, i)
				if len(paths[n.ID]) < split {
					paths[e.T] = append(append([]Action{}, paths[n.ID]...), e.A)
				} else {
					paths[e.T] = make([]Action, split+1)
				}
				queue = append(queue, nodes[e.T])
			}
		}
	}
	if len(seen) != len(order) {
		fatal("state graph: %d states, %d reached", len(order), len(seen))
	}
	for _, n := range order {
		if len(n.tree) == 0 {
			r.st.Traces++
		}
	}
	ch := make(chan task, len(tasks))
	sort.SliceStable(tasks, func(i, j int) bool { return len(tasks[i].path) > len(tasks[j].path) })
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	var visit func(w *World, s Sim, n *Node, path []Action, descend bool)
	visit = func(w *World, s Sim, n *Node, path []Action, descend bool) {
		if r.over() || len(r.st.Found) > 0 && len(path) > 2 {
			atomic.AddInt64(&r.st.Skipped, int64(len(n.E)))
			return
		}
		ti := 0
		for i, e := range n.E {
			tree := ti < len(n.tree) && n.tree[ti] == i
			if tree {
				ti++
			}
			b := s.branch()
			want := n.O
			if e.T != "" {
				if t := nodes[e.T]; t != nil {
					want = t.O
				} else {
					want = nil
				}
			}
			if !e.OK && !e.Soft {
				r.step(w, &b, e, n.O, path)
				continue
			}
			ok := r.step(w, &b, e, want, path)
			if ok && tree && descend {
				visit(w, b, nodes[e.T], append(append([]Action{}, path...), e.A), descend)
			}
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := NewWorld(r.cfg)
			defer r.done(w)
			s0, ok := r.begin(w, root.O)
			if !ok {
				return
			}
			for t := range ch {
				s := s0.branch()
				fine := true
				for _, a := range t.path {
					if o := w.apply(&s, a); !o.OK {
						fine = false // reported where the edge itself is visited
						break
					}
				}
				if fine {
					visit(w, s, t.node, t.path, len(t.path) == split)
				}
			}
		}()
	}
	wg.Wait()
}

// ---- random behaviours

func (r *Runner) linear(files []string, workers int) {
	var traces [][]Line
	for _, f := range files {
		// TLC writes the initial state once; a trace starts whenever the level drops
		var root *Line
		var cur []Line
		flush := func() {
			if len(cur) > 1 {
				traces = append(traces, cur)
			}
		}
		scanLines(f, func(b []byte) {
			var l Line
			must(json.Unmarshal(b, &l))
			if l.L == 1 {
				if root == nil {
					root = &l
				}
				return
			}
			if root == nil {
				fatal("behaviour without initial state in %s", f)
			}
			if len(cur) == 0 || l.L <= cur[len(cur)-1].L {
				flush()
				cur = []Line{*root}
			}
			cur = append(cur, l)
		})
		flush()
	}
	r.st.Traces = int64(len(traces))
	for _, t := range traces {
		r.st.Nodes += int64(len(t))
	}
	ch := make(chan []Line, len(traces))
	for _, t := range traces {
		ch <- t
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := NewWorld(r.cfg)
			defer r.done(w)
			var s0 Sim
			first := true
			for t := range ch {
				if first {
					var ok bool
					if s0, ok = r.begin(w, t[0].O); !ok {
						return
					}
					first = false
				}
				s := s0.branch()
				var path []Action
				for _, l := range t[1:] {
					if r.over() || len(r.st.Found) >= 5 {
						atomic.AddInt64(&r.st.Skipped, 1)
						break
					}
					if !r.step(w, &s, Edge{A: l.A, OK: l.OK, Soft: l.Soft}, l.O, path) {
						break
					}
					if l.OK {
						path = append(path, l.A)
					}
				}
			}
		}()
	}
	wg.Wait()
}

// ---- replay of one divergence in a fresh world

func (r *Runner) replay(d *Divergence) bool {
	w := NewWorld(r.cfg)
	defer w.Close()
	if d.Kind == "prefix" || d.Check == "prefix" {
		r.begin(w, d.Want)
		return len(r.st.Found) > 0
	}
	s := w.start()
	for _, a := range w.cfg.Prefix {
		if o := w.apply(&s, a); !o.OK {
			fmt.Printf("  prefix %s: %s\n", a, o.Err)
			return false
		}
	}
	s.blocks = 0
	for _, a := range d.Path {
		o := w.apply(&s, a)
		fmt.Printf("  %s -> %v %s\n", a, o.OK, trimErr(o.Err))
	}
	fmt.Printf("  %s\n", d.Action)
	r.every = 1
	r.step(w, &s, Edge{A: d.Action, OK: d.SpecOK, Soft: d.Soft}, d.Want, d.Path)
	return len(r.st.Found) > 0
}

// depends tells whether the divergence disappears when the exports and imports
// before it are left out.
func (r *Runner) depends(d *Divergence) bool {
	if d.Kind == control || !hasKind(d.Path, control) {
		return d.Kind == control
	}
	x := *d
	x.Path = nil
	for _, a := range d.Path {
		if a.kind() != control {
			x.Path = append(x.Path, a)
		}
	}
	r2 := &Runner{cfg: r.cfg, rules: []Rule{{Acts: []string{"*"}, Outcome: "any", Rels: []string{"*"}, Block: true, Bad: true, Checks: []string{"*"}}},
		checks: r.checks, every: 1, st: newStats(), deadline: time.Now().Add(time.Minute)}
	return !r2.replay(&x)
}

// controlled tells whether the divergence is reported only by rules that need a control run.
func (r *Runner) controlled(d *Divergence) bool {
	for _, x := range r.rules {
		if !x.Control && x.match(d) {
			return false
		}
	}
	return true
}
