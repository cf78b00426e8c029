package main

// Driver: builds the variants a property's check needs from /repo's current
// working tree, runs the exploration in parallel processes, aggregates the
// results, writes the evidence file and prints the verdict.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// repo is the tree that is checked; VERIF_REPO is for trying the checks on
// scratch copies while developing them.
var repo = func() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}()

var (
	verif   string
	seed    = 1
	tier    = "quick"
	scratch string
	env     []string
	start   = time.Now()
)

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

// one exploration process group
type job struct {
	Variant      string `json:"variant"` // plain, tape, noasm, arm64, sched, race
	CPU          string `json:"cpu"`
	Part         string `json:"part"`
	shards       int
	until        time.Time // 0: the end of the run
	thoroughOnly bool
}

type result struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	States     int            `json:"states"`
	Trans      int            `json:"transitions"`
	Scheds     int            `json:"schedules"`
	Complete   bool           `json:"complete"`
	Samples    []interface{}  `json:"samples"`
	Counters   map[string]int `json:"counters"`
	Notes      []string       `json:"notes"`
	Known      []string       `json:"known"`
	Viol       *violation     `json:"viol"`
}

type violation struct {
	Property string   `json:"property"`
	Variant  string   `json:"variant"`
	CPU      string   `json:"cpu"`
	Part     string   `json:"part"`
	Index    int      `json:"index"`
	Case     string   `json:"case"`
	Message  string   `json:"message"`
	Schedule []int    `json:"schedule,omitempty"`
	Sites    []string `json:"sites,omitempty"`
	Tier     string   `json:"tier"`
	Seed     int      `json:"seed"`
	Replay   string   `json:"-"`
}

func baseEnv() []string {
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "HOME": true, "GOCACHE": true, "GOMODCACHE": true, "GOWORK": true, "GODEBUG": true}
	var out []string
	for _, e := range os.Environ() {
		if !drop[strings.SplitN(e, "=", 2)[0]] {
			out = append(out, e)
		}
	}
	cache := "/root/.cache/go-build"
	if v := os.Getenv("GOCACHE"); v != "" {
		cache = v
	}
	return append(out, "HOME=/root", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache)
}

// harness sources become virtual packages below /repo/aaverif
func harnessOverlay(ov map[string]string) error {
	root := filepath.Join(verif, "mc")
	return filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		ov[filepath.Join(repo, virtRoot, p[len(root):])] = p
		return nil
	})
}

type built struct {
	bin   string
	sites string
	err   error
}

func build(variant string) built {
	dir := filepath.Join(scratch, variant)
	os.MkdirAll(dir, 0o755)
	modfile := filepath.Join(dir, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return built{err: err}
		}
		os.WriteFile(filepath.Join(dir, n), b, 0o644)
	}
	cmd := exec.Command("go", "mod", "edit", "-go=1.21", modfile)
	cmd.Env, cmd.Dir = env, dir
	if out, err := cmd.CombinedOutput(); err != nil {
		return built{err: fmt.Errorf("go mod edit: %v: %s", err, out)}
	}
	mode, tags := variant, ""
	switch variant {
	case "noasm", "arm64":
		mode, tags = "tape", "noasm"
	case "race":
		mode = "sched"
	case "racego":
		mode, tags = "sched", "noasm"
	}
	race := strings.HasPrefix(variant, "race")
	g := &generator{repo: repo, out: filepath.Join(dir, "src"), mode: mode, tags: tags,
		overlay: map[string]string{}, env: env, modfile: modfile, arm: variant == "arm64"}
	if mode != "plain" {
		if err := g.generate(); err != nil {
			return built{err: err}
		}
	}
	if err := harnessOverlay(g.overlay); err != nil {
		return built{err: err}
	}
	ovf := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": g.overlay})
	os.WriteFile(ovf, b, 0o644)
	sites := filepath.Join(dir, "sites.json")
	b, _ = json.Marshal(g.sites)
	os.WriteFile(sites, b, 0o644)
	bin := filepath.Join(dir, "mc")
	args := []string{"build", "-overlay", ovf, "-modfile", modfile, "-mod=mod", "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+virtRoot+"/cmd/mc")
	cmd = exec.Command("go", args...)
	cmd.Dir, cmd.Env = repo, env
	if out, err := cmd.CombinedOutput(); err != nil {
		return built{err: fmt.Errorf("go build (%s): %v\n%s", variant, err, out)}
	}
	if g.arm {
		if out, err := exec.Command(bin, "-emucheck").CombinedOutput(); err != nil {
			return built{err: fmt.Errorf("%v: %s", err, out)}
		}
	}
	return built{bin: bin, sites: sites}
}

func (j job) name() string { return j.Variant + "/" + j.CPU + "/" + j.Part }

type runner struct {
	prop     string
	bins     map[string]built
	deadline time.Time
	known    string
	limit    int           // seconds one case may take, 0: the default
	stop     chan struct{} // closed when the other processes need not finish
}

// notReturn starts the message of a case the watchdog ended.
const notReturn = "the call does not return: "

func (r *runner) args(j job, shard, shards int, only string, out string) *exec.Cmd {
	b := r.bins[j.Variant]
	until := r.deadline
	if !j.until.IsZero() {
		until = j.until
	}
	cmd := exec.Command(b.bin, "-prop", r.prop, "-part", j.Part, "-tier", tier, "-seed", strconv.Itoa(seed),
		"-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards), "-only", only, "-out", out,
		"-caselimit", strconv.Itoa(r.limit), "-variant", j.Variant, "-deadline", strconv.FormatInt(until.Unix(), 10), "-sites", b.sites, "-known", r.known)
	cmd.Env = append(append([]string{}, env...), "GORACE=exitcode=0 atexit_sleep_ms=0", "VERIF_CPU="+j.CPU, "GOTRACEBACK=all", "GOGC=200")
	if j.Variant == "sched" || strings.HasPrefix(j.Variant, "race") {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1") // hand-offs between threads stay on one core
	}
	cmd.Dir = scratch
	return cmd
}

// crash decides whether the output of a dead child blames the code under test.
var repoFrame = regexp.MustCompile(`github\.com/fadhilkurnia/shamir/(shamir|krawczyk|csprng|randomizer|galois|utils|worker|[a-z0-9_/]+)\.`)

func crashMessage(out string) (string, bool) {
	i := strings.Index(out, "panic: ")
	if j := strings.Index(out, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(out, "SIGSEGV"); i < 0 {
		i = j
	}
	if i < 0 {
		return strings.TrimSpace(out), false
	}
	msg := out[i:]
	blame := false
	for _, m := range repoFrame.FindAllString(msg, -1) {
		if !strings.Contains(m, "/"+virtRoot) {
			blame = true
		}
	}
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	return msg, blame
}

var outSeq int64

func (r *runner) run(j job, shard, shards int, only string) (*result, error) {
	out := filepath.Join(scratch, fmt.Sprintf("out-%d", atomic.AddInt64(&outSeq, 1)))
	cmd := r.args(j, shard, shards, only, out)
	var eb bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	hard := time.Until(r.deadline) + 100*time.Second
	select {
	case err = <-done:
	case <-r.stop:
		cmd.Process.Kill()
		<-done
		return nil, nil
	case <-time.After(hard):
		cmd.Process.Kill()
		<-done
		return nil, fmt.Errorf("%s shard %d: killed after its time", j.name(), shard)
	}
	code := cmd.ProcessState.ExitCode()
	b, rerr := os.ReadFile(out)
	if code == 0 || code == 10 {
		if rerr != nil {
			return nil, rerr
		}
		var res result
		if e := json.Unmarshal(b, &res); e != nil {
			return nil, e
		}
		if res.Viol != nil {
			if i := strings.Index(eb.String(), "WARNING: DATA RACE"); i >= 0 && strings.HasPrefix(res.Viol.Message, "data race") {
				rep := eb.String()[i:]
				if k := strings.Index(rep, "\n====="); k > 0 {
					rep = rep[:k]
				}
				res.Viol.Message += "\n" + rep
			}
			res.Viol.Property, res.Viol.Variant, res.Viol.CPU, res.Viol.Part, res.Viol.Tier, res.Viol.Seed = r.prop, j.Variant, j.CPU, j.Part, tier, seed
		}
		return &res, nil
	}
	// the process died: 11 = a case did not return, else a crash
	if code != 11 {
		// find the case
		c2 := r.args(j, shard, shards, only, out)
		c2.Args = append(c2.Args, "-trace")
		c2.Run()
	}
	cur, _ := os.ReadFile(out + ".cur")
	idx, desc := -1, string(cur)
	if f := strings.SplitN(desc, "\t", 2); len(f) == 2 {
		idx, _ = strconv.Atoi(f[0])
		desc = f[1]
	}
	s := eb.String()
	msg, blame := crashMessage(s)
	if code == 11 {
		blame = true
		msg = notReturn + msg
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
	}
	if code == 1 && strings.Contains(s, "failed to generate polynomial") {
		blame, msg = true, "the process was ended: "+s
	}
	if code == 12 {
		blame = false
	}
	if !blame {
		if len(s) > 3000 {
			s = s[len(s)-3000:]
		}
		return nil, fmt.Errorf("%s shard %d: exit %d: %v\n%s", j.name(), shard, code, err, s)
	}
	return &result{Viol: &violation{Property: r.prop, Variant: j.Variant, CPU: j.CPU, Part: j.Part, Index: idx, Case: desc, Message: msg, Tier: tier, Seed: seed}}, nil
}

func main() {
	id := flag.String("id", "", "property")
	replay := flag.String("replay", "", "replay file")
	tierF := flag.String("tier", "", "quick or thorough")
	partF := flag.String("part", "", "only this part (debugging)")
	keep := flag.Bool("keep", false, "keep the scratch directory")
	flag.Parse()
	verif, _ = os.Getwd()
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			seed = n
		}
	}
	tier = os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	env = baseEnv()
	var err error
	scratch, err = os.MkdirTemp("", "verif-"+*id+"-")
	if err != nil {
		die(2, "%v", err)
	}
	if !*keep {
		defer cleanup()
	} else {
		fmt.Println("scratch:", scratch)
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p, ok := plans[*id]
	if !ok {
		die(2, "unknown property %q", *id)
	}
	code := check(*id, p, *partF)
	if !*keep {
		cleanup()
	}
	os.Exit(code)
}

func buildAll(vs map[string]bool) map[string]built {
	bins := map[string]built{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for v := range vs {
		wg.Add(1)
		go func(v string) {
			defer wg.Done()
			b := build(v)
			mu.Lock()
			bins[v] = b
			mu.Unlock()
		}(v)
	}
	wg.Wait()
	return bins
}

func check(id string, p plan, only string) int {
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	var jobs []job
	vs := map[string]bool{}
	for _, j := range p.jobs {
		if j.thoroughOnly && tier != "thorough" {
			continue
		}
		if only != "" && j.Part != only {
			continue
		}
		jobs = append(jobs, j)
		vs[j.Variant] = true
	}
	bins := buildAll(vs)
	var notes []string
	plainOK := false
	// a variant that cannot be generated any more degrades the coverage, it
	// does not decide the property
	var run []job
	for _, j := range jobs {
		if b := bins[j.Variant]; b.err != nil {
			continue
		}
		run = append(run, j)
		plainOK = true
	}
	for v, b := range bins {
		if b.err != nil {
			fmt.Fprintf(os.Stderr, "note: variant %s not built: %v\n", v, b.err)
			notes = append(notes, "variant "+v+" could not be built: "+firstLine(b.err.Error()))
		}
	}
	if !plainOK {
		// nothing could be built: does the library itself build?
		cmd := exec.Command("go", "build", "./...")
		cmd.Dir, cmd.Env = repo, env
		if out, err := cmd.CombinedOutput(); err != nil {
			die(2, "the repository does not build: %s", out)
		}
		b := build("plain")
		if b.err != nil {
			die(2, "no variant of the harness builds: %v", b.err)
		}
		bins["plain"] = b
		for _, j := range jobs {
			if j.CPU == "" && j.Variant == "tape" {
				j.Variant = "plain"
				run = append(run, j)
			}
		}
	}
	buildS := time.Since(start).Seconds()
	halt := make(chan struct{})
	r := &runner{prop: id, bins: bins, deadline: time.Now().Add(budget), known: filepath.Join(verif, "KNOWN_FINDINGS.txt"), limit: 60, stop: halt}
	type task struct {
		j     job
		shard int
		nth   int // which of the jobs
	}
	var tasks []task
	for i, j := range run {
		if j.shards == 0 {
			j.shards = 8
		}
		for s := 0; s < j.shards; s++ {
			tasks = append(tasks, task{j, s, i})
		}
	}
	// no part takes all the time: a job ends after two fifths of what is left
	// when it starts (the last ones share the rest)
	until := make([]time.Time, len(run))
	var mu sync.Mutex
	var wg sync.WaitGroup
	var viols []*violation
	var errs []string
	total := result{Complete: len(notes) == 0, Counters: map[string]int{}}
	perJob := map[string]int{}
	sem := make(chan struct{}, 8)
	stopped := false
	sampled := map[string]bool{}
	for _, t := range tasks {
		wg.Add(1)
		sem <- struct{}{}
		mu.Lock()
		st := stopped
		mu.Unlock()
		if st {
			<-sem
			wg.Done()
			continue
		}
		if until[t.nth].IsZero() {
			part := 0.4
			if n := 1 / float64(len(run)-t.nth); n > part {
				part = n
			}
			until[t.nth] = time.Now().Add(time.Duration(part * float64(time.Until(r.deadline))))
		}
		t.j.until = until[t.nth]
		go func(t task) {
			defer wg.Done()
			defer func() { <-sem }()
			res, err := r.run(t.j, t.shard, t.j.shards, "")
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs = append(errs, err.Error())
				return
			}
			if res == nil {
				total.Complete = false
				return
			}
			total.Evals += res.Evals
			total.Nontrivial += res.Nontrivial
			total.States += res.States
			total.Trans += res.Trans
			total.Scheds += res.Scheds
			perJob[t.j.name()] += res.Evals
			for k, v := range res.Counters {
				if strings.HasPrefix(k, "max_") {
					if v > total.Counters[k] {
						total.Counters[k] = v
					}
				} else {
					total.Counters[k] += v
				}
			}
			if len(total.Samples) < 24 {
				n := 2
				if len(res.Samples) < n {
					n = len(res.Samples)
				}
				for _, x := range res.Samples[:n] {
					if k := fmt.Sprint(x); !sampled[k] {
						sampled[k] = true
						total.Samples = append(total.Samples, x)
					}
				}
			}
			for _, n := range res.Notes {
				notes = append(notes, t.j.name()+": "+n)
			}
			total.Known = append(total.Known, res.Known...)
			if !res.Complete {
				total.Complete = false
			}
			if res.Viol != nil {
				viols = append(viols, res.Viol)
				if !stopped {
					// the others may find a shorter one for a while
					time.AfterFunc(15*time.Second, func() { close(halt) })
				}
				stopped = true
			}
		}(t)
	}
	wg.Wait()
	// confirm and record violations
	sort.Slice(viols, func(a, b int) bool {
		if x, y := strings.HasPrefix(viols[a].Message, notReturn), strings.HasPrefix(viols[b].Message, notReturn); x != y {
			return y
		}
		if len(viols[a].Schedule) != len(viols[b].Schedule) {
			return len(viols[a].Schedule) < len(viols[b].Schedule)
		}
		return viols[a].Index < viols[b].Index
	})
	if len(viols) > 3 {
		viols = viols[:3]
	}
	confirm := time.Now().Add(100 * time.Second)
	var reported []*violation
	r.stop, r.limit = nil, 30
	for _, v := range viols {
		again, tries := 0, 0
		if v.Index >= 0 {
			for k := 0; k < 3 && (time.Now().Before(confirm) || len(reported) == 0 && k == 0); k++ {
				tries++
				j := job{Variant: v.Variant, CPU: v.CPU, Part: v.Part}
				sel := strconv.Itoa(v.Index)
				if len(v.Schedule) > 0 {
					sel += ":" + joinInts(v.Schedule)
				}
				r.deadline = time.Now().Add(60 * time.Second)
				if res, err := r.run(j, 0, 1, sel); err == nil && res.Viol != nil {
					again++
				}
			}
		}
		if again == 0 && strings.HasPrefix(v.Message, notReturn) {
			// slow, or on a machine that was halted: not a verdict
			notes = append(notes, fmt.Sprintf("%s %s case %d (%s) ran out of its time and was not repeated", v.Variant, v.Part, v.Index, v.Case))
			total.Complete = false
			continue
		}
		reported = append(reported, v)
		dir := filepath.Join(verif, "out", "replay")
		os.MkdirAll(dir, 0o755)
		v.Replay = filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, len(reported)))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(v.Replay, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.Replay)
		fmt.Printf("  %s %s case %d: %s\n  %s\n", v.Variant, v.Part, v.Index, v.Case, strings.ReplaceAll(v.Message, "\n", "\n  "))
		fmt.Printf("  reproduced %d/%d in fresh processes\n", again, tries)
	}
	viols = reported
	seen := map[string]bool{}
	for _, k := range total.Known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	if len(errs) > 0 {
		total.Complete = false
	}
	writeEvidence(id, p, total, viols, notes, errs, perJob, buildS)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d states=%d transitions=%d schedules=%d complete=%v violations=%d build=%.1fs total=%.1fs\n",
		id, tier, total.Evals, total.Nontrivial, total.States, total.Trans, total.Scheds, total.Complete, len(viols), buildS, time.Since(start).Seconds())
	if len(viols) > 0 {
		return 1
	}
	if len(errs) > 0 {
		return 2
	}
	return 0
}

func writeEvidence(id string, p plan, t result, viols []*violation, notes, errs []string, perJob map[string]int, buildS float64) {
	cov := map[string]interface{}{
		"exhaustive": t.Complete && len(viols) == 0,
		"bounds":     p.bounds,
		"per_run":    perJob,
		"samples":    t.Samples,
		"counters":   t.Counters,
		"build_s":    buildS,
	}
	if p.level == "model_checking" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = t.States, t.Trans, t.Scheds
		cov["explanation"] = p.rule
	} else {
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"] = t.Evals, t.Nontrivial, p.rule
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	if t.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), p.assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
}

func doReplay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		die(2, "%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		die(2, "%v", err)
	}
	tier, seed = v.Tier, v.Seed
	bins := map[string]built{v.Variant: build(v.Variant)}
	if bins[v.Variant].err != nil {
		die(2, "%v", bins[v.Variant].err)
	}
	r := &runner{prop: v.Property, bins: bins, deadline: time.Now().Add(300 * time.Second), known: "/dev/null", limit: 60}
	sel := strconv.Itoa(v.Index)
	if len(v.Schedule) > 0 {
		sel += ":" + joinInts(v.Schedule)
	}
	res, err := r.run(job{Variant: v.Variant, CPU: v.CPU, Part: v.Part}, 0, 1, sel)
	cleanup()
	if err != nil {
		die(2, "%v", err)
	}
	if res.Viol == nil {
		fmt.Println("not reproduced: the property holds on this case")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", v.Property, f, res.Viol.Case, res.Viol.Message)
	for _, s := range res.Viol.Sites {
		fmt.Println("   ", s)
	}
	return 1
}

func joinInts(a []int) string {
	s := make([]string, len(a))
	for i, v := range a {
		s[i] = strconv.Itoa(v)
	}
	return strings.Join(s, ",")
}

func firstLine(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}
