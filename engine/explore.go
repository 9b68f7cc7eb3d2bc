package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type EntryResult struct {
	Entry      string
	Stats      *Stats
	Violations []*Violation
	Samples    []*Violation
	Wall       time.Duration
	SolverTime time.Duration
	Queries    int
	NSat       int
	NUnsat     int
	NUnknown   int
	Truncated  string
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  [][]int32
	active int
	stop   bool
}

func explore(p *Program, fn *ssa.Function, cfg *RunConfig, workers int, maxPaths int, deadline time.Time, maxViol int, nSample int) (*EntryResult, error) {
	res := &EntryResult{Entry: fn.Name(), Stats: &Stats{Covers: map[string]int{}, Funcs: map[string]bool{}, Errors: map[string]int{}, ErrAt: map[string]string{}}}
	t0 := time.Now()
	q := &queue{items: [][]int32{nil}}
	q.cond = sync.NewCond(&q.mu)
	var mu sync.Mutex
	paths := 0
	var wg sync.WaitGroup
	var firstErr error
	sampleEvery := 1
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var m *Machine
			newM := func() bool {
				var err error
				m, err = NewMachine(p, cfg)
				if err != nil {
					mu.Lock()
					firstErr = err
					mu.Unlock()
					q.mu.Lock()
					q.stop = true
					q.cond.Broadcast()
					q.mu.Unlock()
					return false
				}
				m.push = func(log []int32) {
					q.mu.Lock()
					q.items = append(q.items, log)
					q.cond.Signal()
					q.mu.Unlock()
				}
				return true
			}
			retire := func() {
				if m == nil {
					return
				}
				mu.Lock()
				mergeStats(res.Stats, m.st)
				for _, s := range []*Solver{m.solver, m.solver2} {
					if s != nil {
						res.SolverTime += s.Time
						res.Queries += s.Queries
						res.NSat += s.nSat
						res.NUnsat += s.nUnsat
						res.NUnknown += s.nUnknown
					}
				}
				mu.Unlock()
				m.Close()
				m = nil
			}
			defer retire()
			for {
				q.mu.Lock()
				for len(q.items) == 0 && q.active > 0 && !q.stop {
					q.cond.Wait()
				}
				if q.stop || len(q.items) == 0 {
					q.cond.Broadcast()
					q.mu.Unlock()
					return
				}
				it := q.items[len(q.items)-1]
				q.items = q.items[:len(q.items)-1]
				q.active++
				q.mu.Unlock()
				if m == nil && !newM() {
					return
				}
				mu.Lock()
				paths++
				n := paths
				sample := len(res.Samples) < nSample && (n <= 4 || n%sampleEvery == 0 || len(res.Samples) < 2)
				if n > 40 {
					sampleEvery = n / 8
				}
				mu.Unlock()
				r := m.RunPath(fn, it, sample)
				mu.Lock()
				if r.Violation != nil {
					res.Violations = append(res.Violations, r.Violation)
				}
				if r.Sample != nil {
					res.Samples = append(res.Samples, r.Sample)
				}
				stop := len(res.Violations) >= maxViol
				if maxPaths > 0 && paths >= maxPaths {
					stop = true
					res.Truncated = "path limit"
				}
				if time.Now().After(deadline) {
					stop = true
					res.Truncated = "time limit"
				}
				if len(m.st.Errors) > 0 && sumErr(m.st.Errors) > 20 {
					stop = true
					res.Truncated = "errors"
				}
				mu.Unlock()
				q.mu.Lock()
				q.active--
				if stop {
					q.stop = true
				}
				q.cond.Broadcast()
				q.mu.Unlock()
				if m.c.size() > 3_000_000 || m.solver.written > 300<<20 {
					retire()
				}
			}
		}(w)
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	if len(q.items) == 0 && res.Truncated == "path limit" {
		res.Truncated = ""
	}
	if len(q.items) == 0 && res.Truncated == "time limit" && q.active == 0 {
		res.Truncated = ""
	}
	return res, firstErr
}

func sumErr(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func mergeStats(d, s *Stats) {
	d.Paths += s.Paths
	d.Steps += s.Steps
	d.Forks += s.Forks
	d.Merges += s.Merges
	d.MergeAborts += s.MergeAborts
	d.Infeasible += s.Infeasible
	d.Asserts += s.Asserts
	d.Unknowns += s.Unknowns
	d.Blocked += s.Blocked
	if s.MaxDepth > d.MaxDepth {
		d.MaxDepth = s.MaxDepth
	}
	for k, v := range s.Covers {
		d.Covers[k] += v
	}
	for k := range s.Funcs {
		d.Funcs[k] = true
	}
	for k, v := range s.Errors {
		d.Errors[k] += v
		if _, ok := d.ErrAt[k]; !ok {
			d.ErrAt[k] = s.ErrAt[k]
		}
	}
}

// ---- native runs ----

type NatRun struct {
	dir string
	bin string
	err error
}

type modelFile struct {
	Entry  string
	Tier   string
	Inputs []ReplayInput
	Apps   []ReplayApp
}

// buildNative compiles the harness package with the repository's code.
func buildNative(repo string, o *Overlay, pkg string, entries []string) *NatRun {
	dir, err := os.MkdirTemp("", "verifnative")
	if err != nil {
		return &NatRun{err: err}
	}
	n := &NatRun{dir: dir, bin: filepath.Join(dir, "run")}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\n\th %q\n\t\"%s\"\n)\n\nfunc main() {\n\tverifsym.Load(os.Args[2])\n\tswitch os.Args[1] {\n", modPath+"/internal/verifh/"+pkg, symPkg)
	for _, e := range entries {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\tverifsym.RunNative(h.%s)\n", e, e)
	}
	sb.WriteString("\t}\n}\n")
	mainPath := filepath.Join(repo, "internal/verifh/zzmain/main.go")
	ov, err := o.writeNative(dir, map[string][]byte{mainPath: []byte(sb.String())})
	if err != nil {
		n.err = err
		return n
	}
	cmd := exec.Command(goRoot123+"/bin/go", "build", "-overlay", ov, "-o", n.bin, modPath+"/internal/verifh/zzmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n
}

func (n *NatRun) Close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *NatRun) run(v *Violation, entry, tier, modelPath string) (end string, obs []string, err error) {
	mf := modelFile{Entry: entry, Tier: tier, Inputs: v.Inputs, Apps: v.Apps}
	b, _ := json.MarshalIndent(mf, "", " ")
	if modelPath == "" {
		f, err := os.CreateTemp(n.dir, "model")
		if err != nil {
			return "", nil, err
		}
		modelPath = f.Name()
		f.Close()
		defer os.Remove(modelPath)
	}
	if err := os.WriteFile(modelPath, b, 0644); err != nil {
		return "", nil, err
	}
	cmd := exec.Command(n.bin, entry, modelPath)
	cmd.Dir = n.dir
	var sb strings.Builder
	cmd.Stdout = &sb
	var eb strings.Builder
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return "", nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		<-done
		return "timeout", nil, nil
	}
	for _, l := range strings.Split(sb.String(), "\n") {
		if strings.HasPrefix(l, "OBSERVE ") {
			obs = append(obs, l[8:])
		}
		if strings.HasPrefix(l, "END ") {
			end = l[4:]
		}
	}
	if end == "" {
		e := eb.String()
		if len(e) > 600 {
			e = e[:600]
		}
		end = "crash: " + e
	}
	return end, obs, nil
}

// confirms: the native run ended as the symbolic one predicted.
func confirms(msg, end string) bool {
	switch {
	case strings.HasPrefix(msg, "panic:"):
		return strings.HasPrefix(end, "panic:") || strings.HasPrefix(end, "crash: panic:") || strings.Contains(end, "panic")
	case strings.HasPrefix(msg, "deadlock"):
		return end == "timeout" || strings.Contains(end, "deadlock")
	case strings.HasPrefix(msg, "fatal error"):
		return strings.HasPrefix(end, "crash")
	case strings.HasPrefix(msg, "os.Exit"):
		return strings.HasPrefix(end, "crash") || strings.Contains(end, "exit")
	}
	return end == "assert: "+msg
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// reexecutes runs the recorded decisions again and expects the same violation.
func reexecutes(p *Program, fn *ssa.Function, cfg *RunConfig, v *Violation) bool {
	m, err := NewMachine(p, cfg)
	if err != nil {
		return false
	}
	defer m.Close()
	m.push = func([]int32) {}
	r := m.RunPath(fn, v.Log, false)
	return r.Kind == "violation" && r.Msg == v.Msg
}
