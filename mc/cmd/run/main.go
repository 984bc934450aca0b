// Command run is the supervisor of one check: it builds the checkers from the
// current tree of /repo, runs their shards, and reports.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/nlpodyssey/spago/verifmc/lib"
	"github.com/nlpodyssey/spago/verifmc/plan"
)

var (
	prop  = flag.String("p", "", "property")
	tier  = flag.String("tier", "quick", "quick or thorough")
	verif = flag.String("verif", "/verif", "root of the verification framework")
	work  = flag.String("work", "", "scratch directory")
	only  = flag.String("only", "", "run only this case")
	list  = flag.Bool("list", false, "list the failing cases, briefly")
	cfgs  = flag.String("config", "", "run only this configuration")
)

const repo = "/repo"

func main() {
	flag.Parse()
	start := time.Now()
	p, ok := plan.Find(*prop)
	if !ok {
		fatal("unknown property %q", *prop)
	}
	if *tier != "quick" && *tier != "thorough" {
		fatal("unknown tier %q", *tier)
	}

	type unit struct {
		cfg   plan.Config
		bin   string
		shard int
		n     int
	}
	var units []unit
	var notes []string
	for _, c := range p.Configs {
		if *cfgs != "" && *cfgs != c.Name {
			continue
		}
		if c.ThoroughOnly && *tier != "thorough" {
			continue
		}
		bin, note, err := build(c)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%v\n", err)
			os.Exit(3)
		}
		if note != "" {
			notes = append(notes, note)
		}
		n := c.Shards
		if n == 0 {
			n = runtime.NumCPU()
		}
		if *only != "" {
			n = 1
		}
		for i := 0; i < n; i++ {
			units = append(units, unit{c, bin, i, n})
		}
	}

	results := make([]lib.Result, len(units))
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := range units {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = runShard(p, units[i].cfg, units[i].bin, i, units[i].shard, units[i].n)
		}()
	}
	wg.Wait()
	_ = syscall.Sync

	total := lib.Result{Groups: map[string]int64{}, Notes: map[string]string{}}
	perConfig := map[string]int64{}
	sampled := map[string]bool{}
	for i, r := range results {
		total.Evaluations += r.Evaluations
		total.Nontrivial += r.Nontrivial
		total.States += r.States
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.Skipped += r.Skipped
		total.NumFailures += r.NumFailures
		for k, v := range r.Groups {
			total.Groups[k] += v
		}
		for k, v := range r.Notes {
			total.Notes[k] = v
		}
		if r.Rule != "" {
			total.Rule = r.Rule
		}
		if len(r.Assumptions) > len(total.Assumptions) {
			total.Assumptions = r.Assumptions
		}
		for _, s := range r.Samples {
			s = units[i].cfg.Name + ": " + s
			k := s
			if j := strings.IndexByte(s, '/'); j > 0 {
				k = s[:j]
			}
			if !sampled[k] && len(total.Samples) < 80 {
				sampled[k] = true
				total.Samples = append(total.Samples, s)
			}
		}
		perConfig[units[i].cfg.Name] += r.Evaluations
		for _, f := range r.Failures {
			f.Key = units[i].cfg.Name + ": " + f.Key
			total.Failures = append(total.Failures, f)
		}
	}
	sort.SliceStable(total.Failures, func(i, j int) bool { return len(total.Failures[i].Key) < len(total.Failures[j].Key) })

	// Known findings.
	known := readKnown(filepath.Join(*verif, "known_findings.txt"), *prop)
	var open []lib.Failure
	reported := map[string]bool{}
	for _, f := range total.Failures {
		if k, ok := matchKnown(known, f.Key); ok {
			if !reported[k] {
				reported[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			}
			continue
		}
		open = append(open, f)
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": total.Nontrivial,
		"rule":                total.Rule,
		"samples":             total.Samples,
		"groups":              total.Groups,
		"per_configuration":   perConfig,
		"skipped_by_deadline": total.Skipped,
		"exhaustive":          total.Skipped == 0 && total.Notes["not-exhaustive"] == "",
	}
	if p.Level == "model_checking" {
		cov["states"] = total.States
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Traces
	}
	for k, v := range total.Notes {
		cov["note_"+k] = v
	}
	if len(notes) > 0 {
		cov["build_notes"] = notes
	}
	ev := map[string]any{
		"property":    *prop,
		"tier":        *tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": total.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	if *only == "" {
		evDir := filepath.Join(*verif, "evidence")
		_ = os.MkdirAll(evDir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evDir, *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d states, %d transitions, %d skipped, %.1fs\n",
		*prop, *tier, total.Evaluations, total.Nontrivial, total.States, total.Transitions, total.Skipped, time.Since(start).Seconds())

	if len(open) > 0 {
		listed := map[string]int{}
		for i, f := range open {
			if *list {
				g := strings.SplitN(f.Key, "/", 3)[0]
				if listed[g]++; listed[g] > 4 {
					continue
				}
				fmt.Printf("FAIL %s: %s\n", f.Key, head(strings.ReplaceAll(f.Msg, "\n", " "), 160))
				continue
			}
			if i == 5 {
				fmt.Printf("... and more (%d failing cases in all)\n", total.NumFailures)
				break
			}
			path := replay(f)
			fmt.Printf("--- %s\n%s\n", f.Key, head(f.Msg, 2500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
		os.Exit(1)
	}
	if total.Evaluations == 0 {
		fatal("nothing was explored")
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func replay(f lib.Failure) string {
	dir := filepath.Join(*verif, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write([]byte(f.Key))
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.txt", *prop, h.Sum32()))
	cfg, key, _ := strings.Cut(f.Key, ": ")
	body := fmt.Sprintf("property: %s\nconfiguration: %s\ncase: %s\nreplay: %s/run.sh %s %s -config '%s' -only '%s'\n\n%s\n",
		*prop, cfg, key, *verif, *prop, *tier, cfg, key, f.Msg)
	_ = os.WriteFile(path, []byte(body), 0o644)
	return path
}

var buildCache = map[string]string{}

func build(c plan.Config) (string, string, error) {
	key := fmt.Sprintf("%v|%v|%v", c.Tags, c.Race, c.Conc)
	if b, ok := buildCache[key]; ok {
		return b, "", nil
	}
	bin := filepath.Join(*work, fmt.Sprintf("mc%d", len(buildCache)))
	args := []string{"build", "-o", bin}
	if c.Tags != "" {
		args = append(args, "-tags", c.Tags)
	}
	if c.Race {
		args = append(args, "-race")
	}
	target := "./cmd/mc"
	if c.Conc {
		target = "./cmd/conc"
		if _, err := os.Stat(filepath.Join(*work, "uninstrumented")); err == nil {
			return buildFree(key, bin, c)
		}
		ov := filepath.Join(*work, fmt.Sprintf("overlay%d", len(buildCache)))
		instr := filepath.Join(*work, "instr")
		if _, err := os.Stat(instr); err != nil {
			if out, err := goCmd("build", "-o", instr, "./cmd/instr"); err != nil {
				return "", "", fmt.Errorf("building the instrumenter: %v\n%s", err, out)
			}
		}
		cmd := exec.Command(instr, "-out", ov, "-tags", c.Tags)
		cmd.Dir = filepath.Join(*verif, "mc")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "the code cannot be instrumented: %v\n%s\n", err, head(string(out), 2000))
			return buildFree(key, bin, c)
		}
		args = append(args, "-overlay", filepath.Join(ov, "overlay.json"))
	}
	args = append(args, target)
	if out, err := goCmd(args...); err != nil {
		if c.Conc {
			fmt.Fprintf(os.Stderr, "the instrumented code does not build: %v\n%s\n", err, head(out, 2000))
			return buildFree(key, bin, c)
		}
		return "", "", fmt.Errorf("building %s: %v\n%s", target, err, out)
	}
	buildCache[key] = bin
	return bin, "", nil
}

// buildFree builds the explorations of schedules without the controlled
// scheduler: it is what remains when the code uses something which cmd/instr
// cannot rewrite. The scenarios then run freely, under the race detector, and
// the evidence says that the exploration is not exhaustive.
func buildFree(key, bin string, c plan.Config) (string, string, error) {
	_ = os.WriteFile(filepath.Join(*work, "uninstrumented"), nil, 0o644)
	args := []string{"build", "-race", "-o", bin}
	if c.Tags != "" {
		args = append(args, "-tags", c.Tags)
	}
	if out, err := goCmd(append(args, "./cmd/conc")...); err != nil {
		return "", "", fmt.Errorf("building ./cmd/conc: %v\n%s", err, out)
	}
	buildCache[key] = bin
	return bin, "the code could not be instrumented: the scenarios of " + c.Name + " ran freely, under the race detector", nil
}

func goCmd(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(*verif, "mc")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// runShard runs a shard of the check in a process of its own. If the process
// ends in any way other than completing its enumeration, what was being
// executed is a violation.
func runShard(p plan.Property, c plan.Config, bin string, id, shard, n int) lib.Result {
	out := filepath.Join(*work, fmt.Sprintf("out%d.json", id))
	crumb := filepath.Join(*work, fmt.Sprintf("crumb%d", id))
	scratch := filepath.Join(*work, fmt.Sprintf("scratch%d", id))
	_ = os.MkdirAll(scratch, 0o755)
	budget := 150 * time.Second
	if *tier == "thorough" {
		budget = 700 * time.Second
	}
	var extra lib.Result
	args := []string{"-p", *prop, "-tier", *tier, "-shard", strconv.Itoa(shard), "-n", strconv.Itoa(n),
		"-out", out, "-crumb", crumb, "-scratch", scratch, "-budget", budget.String(), "-config", c.Name}
	if *only != "" {
		args = append(args, "-only", *only)
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, c.Env...)
	if c.Race || c.Conc {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	}
	cmd.Dir = scratch
	var stderr tail
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	var err error
	last, lastAt := "", time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(crumb)
			if len(b) > 8 {
				b = b[:4]
			}
			if string(b) != last {
				last, lastAt = string(b), time.Now()
			}
			if time.Since(lastAt) > 120*time.Second && !hung {
				hung = true
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(10*time.Second, func() { _ = cmd.Process.Kill() })
			}
		}
	}

	if b, e := os.ReadFile(out); e == nil && !hung {
		var r lib.Result
		if json.Unmarshal(b, &r) == nil && r.Done && err == nil {
			return r
		}
	}

	where := "(unknown)"
	if b, e := os.ReadFile(crumb); e == nil && len(b) > 8 {
		b = b[8:]
		if i := bytes.IndexByte(b, 0); i >= 0 {
			b = b[:i]
		}
		where = string(b)
	}
	msg := stderr.String()
	if strings.Contains(msg, "VERIF-INTERNAL") {
		fatal("internal error of the check at %s:\n%s", where, msg)
	}
	if ws, ok := exitStatus(err); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && !hung {
		fatal("the check was killed (out of memory?) at %s", where)
	}
	what := fmt.Sprintf("the process ended: %v", err)
	if hung {
		what = "no progress for 120 seconds"
	}
	if strings.Contains(msg, "WARNING: DATA RACE") {
		what = "data race"
	}
	extra.NumFailures = 1
	extra.Evaluations = 1
	extra.Failures = []lib.Failure{{Key: where, Msg: what + "\n" + head(msg, 12000)}}
	return extra
}

func exitStatus(err error) (syscall.WaitStatus, bool) {
	if e, ok := err.(*exec.ExitError); ok {
		ws, ok := e.Sys().(syscall.WaitStatus)
		return ws, ok
	}
	return 0, false
}

// tail keeps the beginning of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func readKnown(file, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" case=")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " | ")
		out[key] = desc
	}
	return out
}

func matchKnown(known map[string]string, key string) (string, bool) {
	_, k, _ := strings.Cut(key, ": ")
	if d, ok := known[k]; ok {
		return k + ": " + d, true
	}
	return "", false
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(3)
}
