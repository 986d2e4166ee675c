// Command mc is an explicit-state / stateless model checker for the lpg
// library: it drives the real library through its public API over complete
// bounded spaces and compares every execution with a reference model.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fScratch = flag.String("scratch", "", "scratch directory")
	fWorker  = flag.Bool("worker", false, "worker process")
	fTask    = flag.String("task", "", "run only this task, in this process")
	fList    = flag.Bool("list", false, "list tasks")
	fJournal = flag.String("journal", "", "journal file")
	fReplay  = flag.String("replay", "", "replay file")
	fLimit   = flag.Int("limit", 0, "time limit in seconds")
	fWorkers = flag.Int("workers", 8, "number of worker processes")
	fDesc    = flag.Bool("describe", false, "print bounds and assumptions of all properties")
	fProf    = flag.String("cpuprofile", "", "")
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type outMsg struct {
	Task int        `json:"task"`
	Done bool       `json:"done"`
	St   Stats      `json:"st"`
	Viol *Violation `json:"viol,omitempty"`
}

func loadKnown() []KnownFinding {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property != "" {
			out = append(out, k)
		}
	}
	return out
}

func limit() time.Duration {
	if *fLimit > 0 {
		return time.Duration(*fLimit) * time.Second
	}
	if *fTier == "thorough" {
		return 780 * time.Second
	}
	return 240 * time.Second
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// watchdog turns a case that does not end into a violation.
func watchdog(report func(v *Violation)) {
	for {
		time.Sleep(100 * time.Millisecond)
		t := caseStart.Load()
		if t == 0 {
			continue
		}
		el := time.Since(time.Unix(0, t))
		msg := ""
		if el > 60*time.Second {
			msg = "the operation does not terminate (60 s)"
		} else if el > time.Second && heapBytes() > 3<<30 {
			msg = "the operation does not terminate (memory grows without bound)"
		}
		if msg == "" {
			continue
		}
		n := caseNum.Load()
		d := ""
		if p := caseDesc.Load(); p != nil {
			d = (*p)()
		}
		if caseStart.Load() != t {
			continue
		}
		task := ""
		if p := curTask.Load(); p != nil {
			task = *p
		}
		report(&Violation{Prop: *fProp, Tier: *fTier, Task: task, Case: n, Desc: d, Msg: msg})
		os.Exit(3)
	}
}

func newCtx(p *Prop, start time.Time) *Ctx {
	return &Ctx{propID: p.ID, tier: *fTier, thorough: *fTier == "thorough", deadline: start.Add(limit()), known: loadKnown()}
}

func workerMain(p *Prop, tasks []Task, start time.Time) {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(300)
	runtime.GOMAXPROCS(2)
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	silence()
	var cur int
	go watchdog(func(v *Violation) {
		mu.Lock()
		enc.Encode(outMsg{Task: cur, Done: true, Viol: v})
	})
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		i, err := strconv.Atoi(strings.TrimSpace(sc.Text()))
		if err != nil {
			return
		}
		cur = i
		c := newCtx(p, start)
		if *fJournal != "" {
			c.journal, _ = os.Create(*fJournal)
		}
		c.runTask(tasks[i])
		mu.Lock()
		enc.Encode(outMsg{Task: i, Done: true, St: c.st, Viol: c.viol})
		mu.Unlock()
	}
}

// silence discards what the library prints.
func silence() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

type result struct {
	outMsg
	crash string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err *tailBuf
}

func startWorker(start time.Time, extra ...string) (*worker, error) {
	left := limit() - time.Since(start)
	if left < time.Second {
		left = time.Second
	}
	args := append([]string{"-worker", "-prop", *fProp, "-tier", *fTier, "-verif", *fVerif, "-limit", strconv.Itoa(int(left.Seconds()))}, extra...)
	cmd := exec.Command(os.Args[0], args...)
	w := &worker{cmd: cmd, err: &tailBuf{}}
	cmd.Stderr = w.err
	var err error
	if w.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = json.NewDecoder(o)
	return w, cmd.Start()
}

func (w *worker) run(i int) (result, bool) {
	fmt.Fprintf(w.in, "%d\n", i)
	var m outMsg
	if err := w.out.Decode(&m); err != nil {
		w.cmd.Wait()
		return result{outMsg: outMsg{Task: i}, crash: string(w.err.b)}, false
	}
	return result{outMsg: m}, true
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func main() {
	flag.Parse()
	start := time.Now()
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*fProp, *fTier, *fTask = v.Prop, v.Tier, v.Task
	}
	if *fDesc {
		json.NewEncoder(os.Stdout).Encode(describe())
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	tasks := p.Tasks(*fTier == "thorough")
	if *fList {
		for i, t := range tasks {
			fmt.Println(i, t.Name)
		}
		return
	}
	if *fWorker {
		workerMain(p, tasks, start)
		return
	}
	if *fTask != "" {
		single(p, tasks, start)
		return
	}
	os.Exit(parent(p, tasks, start))
}

// single runs one task in this process (replay and debugging).
func single(p *Prop, tasks []Task, start time.Time) {
	debug.SetMaxStack(64 << 20)
	stopProf := startProfile()
	go watchdog(func(v *Violation) {
		fmt.Printf("VIOLATION property=%s task=%s case=%d\n%s\n%s\n", v.Prop, v.Task, v.Case, v.Desc, v.Msg)
	})
	bad := false
	for _, t := range tasks {
		if t.Name != *fTask && *fTask != "all" {
			continue
		}
		c := newCtx(p, start)
		t0 := time.Now()
		c.runTask(t)
		fmt.Printf("%-40s states=%d transitions=%d traces=%d checks=%d cases=%d truncated=%v %.2fs\n", t.Name, c.st.States, c.st.Transitions, c.st.Traces, c.st.Checks, c.caseNo, c.st.Truncated, time.Since(t0).Seconds())
		if c.viol != nil {
			fmt.Printf("VIOLATION property=%s task=%s case=%d\n%s\n%s\n", p.ID, t.Name, c.viol.Case, c.viol.Desc, c.viol.Msg)
			bad = true
		}
	}
	stopProf()
	if bad {
		os.Exit(1)
	}
}

func parent(p *Prop, tasks []Task, start time.Time) int {
	n := runtime.NumCPU()
	if n > *fWorkers {
		n = *fWorkers
	}
	if n > len(tasks) {
		n = len(tasks)
	}
	queue := make(chan int, len(tasks))
	for i := range tasks {
		queue <- i
	}
	close(queue)
	results := make(chan result, len(tasks))
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var workersMu sync.Mutex
	workers := map[*worker]bool{}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for i := range queue {
				select {
				case <-stop:
					return
				default:
				}
				if time.Since(start) > limit() {
					results <- result{outMsg: outMsg{Task: i, St: Stats{Truncated: true}}}
					continue
				}
				if w == nil {
					var err error
					if w, err = startWorker(start); err != nil {
						results <- result{outMsg: outMsg{Task: i}, crash: err.Error()}
						w = nil
						continue
					}
					workersMu.Lock()
					workers[w] = true
					workersMu.Unlock()
				}
				r, ok := w.run(i)
				if !ok {
					workersMu.Lock()
					delete(workers, w)
					workersMu.Unlock()
					w = nil
				}
				select {
				case <-stop:
					return
				default:
				}
				results <- r
			}
			if w != nil {
				workersMu.Lock()
				delete(workers, w)
				workersMu.Unlock()
				w.in.Close()
				w.cmd.Wait()
			}
		}()
	}
	go func() { wg.Wait(); close(results) }()

	var tot Stats
	perTask := map[string]any{}
	var viol *Violation
	broken := ""
	stopAll := func() {
		close(stop)
		workersMu.Lock()
		for w := range workers {
			w.cmd.Process.Kill()
		}
		workersMu.Unlock()
	}
	nTruncated, nDone := 0, 0
	for r := range results {
		nDone++
		if r.crash != "" || (!r.Done && !r.St.Truncated) {
			v, r2, msg := diagnoseCrash(p, r.Task, tasks[r.Task].Name, r.crash)
			if v != nil {
				viol = v
				stopAll()
				break
			}
			if r2 == nil {
				broken = msg
				continue
			}
			r = *r2
		}
		tot.States += r.St.States
		tot.Transitions += r.St.Transitions
		tot.Traces += r.St.Traces
		tot.Checks += r.St.Checks
		if len(tot.Samples) < 8 {
			tot.Samples = append(tot.Samples, r.St.Samples...)
		}
		for _, k := range r.St.Known {
			dup := false
			for _, x := range tot.Known {
				dup = dup || x == k
			}
			if !dup {
				tot.Known = append(tot.Known, k)
			}
		}
		if r.St.Truncated {
			nTruncated++
		}
		perTask[tasks[r.Task].Name] = []int64{r.St.States, r.St.Transitions, r.St.Traces}
		if r.Viol != nil {
			viol = r.Viol
			stopAll()
			break
		}
	}
	wall := time.Since(start).Seconds()
	sort.Strings(tot.Known)
	for _, k := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	writeEvidence(p, tot, perTask, len(tasks), nTruncated, wall, viol)
	if viol != nil {
		path := filepath.Join(*fVerif, "evidence", p.ID+"-violation.json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("case: %s\nfailure: %s\n", clip(viol.Desc, 4000), clip(viol.Msg, 4000))
		fmt.Printf("replay with: %s/run.sh %s -replay %s\n", *fVerif, p.ID, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "error:", broken)
		return 2
	}
	fmt.Printf("%s %s: held on %d states, %d transitions, %d validated traces, %d observations in %d tasks, exhaustive=%v, %.1f s\n",
		p.ID, *fTier, tot.States, tot.Transitions, tot.Traces, tot.Checks, len(tasks), nTruncated == 0, wall)
	return 0
}

// diagnoseCrash runs a task that killed its worker again, alone and journaled,
// to find the case that does it.
func diagnoseCrash(p *Prop, i int, name, crash string) (*Violation, *result, string) {
	dir := *fScratch
	if dir == "" {
		dir = os.TempDir()
	}
	j := filepath.Join(dir, fmt.Sprintf("journal-%d", os.Getpid()))
	defer os.Remove(j)
	w, err := startWorker(time.Now(), "-journal", j)
	if err != nil {
		return nil, nil, err.Error()
	}
	r, ok := w.run(i)
	if ok {
		w.kill()
		fmt.Fprintf(os.Stderr, "note: worker died once in task %s, and not when it was run again: %s\n", name, clip(crash, 500))
		return r.Viol, &r, ""
	}
	b, _ := os.ReadFile(j)
	v := &Violation{Prop: p.ID, Tier: *fTier, Task: name, Msg: "the process dies: " + clip(firstLines(r.crash, 30), 3000)}
	if strings.Contains(r.crash, "DATA RACE") {
		v.Msg = "conflicting accesses of memory: " + clip(firstLines(r.crash, 40), 3000)
	}
	if k := strings.IndexByte(string(b), '\n'); k > 0 {
		v.Case, _ = strconv.ParseInt(string(b[:k]), 10, 64)
		v.Desc = string(b[k+1:])
	}
	return v, nil, ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeEvidence(p *Prop, tot Stats, perTask map[string]any, nTasks, nTruncated int, wall float64, viol *Violation) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := tot.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	mapNote := "Map iteration order is fixed and scheduled by an overlay of the Go runtime in this run."
	if !mapsOwned {
		mapNote = "The map order overlay was not usable in this run: map iteration order is the ordinary random one."
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     *fTier,
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                             tot.States,
			"transitions":                        tot.Transitions,
			"traces_validated_against_impl":      tot.Traces,
			"observations_compared":              tot.Checks,
			"samples":                            samples,
			"exhaustive":                         nTruncated == 0 && viol == nil,
			"tasks":                              nTasks,
			"tasks_cut_by_deadline":              nTruncated,
			"per_task_states_transitions_traces": perTask,
			"bounds":                             p.Bounds,
			"map_order_owned":                    mapsOwned,
		},
		"assumptions": append([]string{
			"Every execution runs the real library code, built from /repo's working tree, through its public API; the reference model is part of /verif/mc.",
			mapNote,
		}, p.Assume...),
		"wall_s":     wall,
		"violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// describe lists the bounds and assumptions of the properties.
func describe() any {
	type desc struct {
		Bounds string
		Assume []string
	}
	out := map[string]desc{}
	for id, p := range props {
		out[id] = desc{p.Bounds, p.Assume}
	}
	return out
}
