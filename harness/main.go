// Command vrun runs the monitors of one property against the go-hbci working
// tree it was built from. Parent mode supervises a worker (a copy of itself),
// so that crashes the runtime cannot recover from are observed too.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/vt"
)

type property struct {
	id   string
	rule string
	fn   func(r *vt.Run)
	race bool
	// assumptions go to the evidence file.
	assumptions []string
	// shards is the number of worker processes that share the cases, 0 for
	// as many as usual.
	shards int
	// inspect lets the parent look at the worker's captured output.
	inspect func(out []byte) []vt.Violation
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	CaseRe   string `json:"case"`
	What     string `json:"what"`
}

type findings struct {
	Known []finding `json:"known"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	only := flag.String("only", "", "run only this case")
	out := flag.String("out", "", "worker result file")
	verif := flag.String("verif", "/verif", "framework directory")
	worker := flag.Bool("worker", false, "worker mode")
	shard := flag.Int("shard", 0, "number of the worker")
	shards := flag.Int("shards", 1, "number of workers")
	progress := flag.String("progress", "", "progress file")
	scratch := flag.String("scratch", "", "scratch dir")
	flag.Parse()
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		runWorker(p, *tier, *seed, *only, *out, *progress, *scratch, *shard, *shards)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *only, *verif))
}

const progressSize = 64 << 10

func runWorker(p *property, tier string, seed int64, only, out, progress, scratch string, shard, shards int) {
	debug.SetMaxStack(256 << 20)
	r := vt.NewRun(p.id, tier, seed)
	r.Only = only
	r.Scratch = scratch
	r.Shard, r.Shards = shard, shards
	if os.Getenv("VERIF_TIMES") != "" {
		r.Times = map[string]time.Duration{}
		defer func() {
			for k, d := range r.Times {
				if f, err := os.OpenFile(os.Getenv("VERIF_TIMES"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
					fmt.Fprintf(f, "%s %.2f\n", k, d.Seconds())
					f.Close()
				}
			}
		}()
	}
	if progress != "" {
		f, err := os.OpenFile(progress, os.O_RDWR, 0)
		if err == nil {
			m, err := syscall.Mmap(int(f.Fd()), 0, progressSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				r.Progress = m
			}
			f.Close()
		}
	}
	p.fn(r)
	if err := r.Finish(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func cpuSeconds(pid int) (cpu float64, rssMB int) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.Atoi(f[21])
	return (u + s) / 100, rss * os.Getpagesize() >> 20
}

// shardResult is what became of one worker.
type shardResult struct {
	result   vt.Result
	states   []byte
	output   []byte
	err      error // of the worker process
	setup    error
	killed   string
	lastCase string
}

// runShard runs one worker and watches its progress.
func runShard(p *property, tier string, seed int64, only, dir string, shard, shards int) (sr shardResult) {
	prog := filepath.Join(dir, "progress")
	res := filepath.Join(dir, "result.json")
	if sr.setup = os.WriteFile(prog, make([]byte, progressSize), 0o644); sr.setup != nil {
		return
	}
	outf, err := os.Create(filepath.Join(dir, "output"))
	if err != nil {
		sr.setup = err
		return
	}
	cmd := exec.Command(os.Args[0], "-worker", "-prop", p.id, "-tier", tier, "-seed", fmt.Sprint(seed), "-only", only, "-out", res, "-progress", prog, "-scratch", dir,
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards))
	cmd.Stdout, cmd.Stderr = outf, outf
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66 history_size=4")
	if shards > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	if sr.setup = cmd.Start(); sr.setup != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var lastCount uint64
	lastCPU, lastWall := 0.0, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case sr.err = <-done:
			break loop
		case <-tick.C:
			cpu, rss := cpuSeconds(cmd.Process.Pid)
			n, _ := readProgress(prog)
			if n != lastCount {
				lastCount, lastCPU, lastWall = n, cpu, time.Now()
				continue
			}
			// A case is microseconds to a few seconds of work; it is judged by
			// the CPU time it burnt, and only as a last resort by the clock.
			switch {
			case cpu-lastCPU > 90:
				sr.killed = "hang"
			case rss > 20000/shards:
				sr.killed = "memory"
			case time.Since(lastWall) > 240*time.Second:
				sr.killed = "stall"
			}
			if sr.killed != "" {
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case sr.err = <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					sr.err = <-done
				}
				break loop
			}
		}
	}
	outf.Close()
	sr.output, _ = os.ReadFile(filepath.Join(dir, "output"))
	sr.states, _ = os.ReadFile(res + ".states")
	if b, err := os.ReadFile(res); err == nil {
		json.Unmarshal(b, &sr.result)
	}
	_, sr.lastCase = readProgress(prog)
	return
}

func supervise(p *property, tier string, seed int64, only, verif string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vrun-"+p.id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := p.shards
	if shards == 0 {
		shards = 8
	}
	if only != "" {
		shards = 1
	}
	results := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := range results {
		sub := filepath.Join(dir, fmt.Sprint("shard", i))
		if err := os.Mkdir(sub, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = runShard(p, tier, seed, only, sub, i, shards)
		}(i)
	}
	wg.Wait()
	result := vt.Result{Events: map[string]int{}, Required: map[string]int{}, Done: true}
	var viol []vt.Violation
	var output []byte
	var werr error
	states := map[uint64]struct{}{}
	perKey := map[string]int{}
	for _, sr := range results {
		if sr.setup != nil {
			fmt.Fprintln(os.Stderr, sr.setup)
			return 2
		}
		result.Evaluations += sr.result.Evaluations
		for k, n := range sr.result.Events {
			result.Events[k] += n
		}
		for k, n := range sr.result.Required {
			result.Required[k] = n
		}
		for i := 0; i+8 <= len(sr.states); i += 8 {
			states[binary.LittleEndian.Uint64(sr.states[i:])] = struct{}{}
		}
		for _, v := range sr.result.Violations {
			if perKey[v.Key]++; perKey[v.Key] <= 3 {
				viol = append(viol, v)
			}
		}
		if sr.killed != "" {
			viol = append(viol, vt.Violation{Case: sr.lastCase, Key: "no-progress:" + sr.killed, Detail: "the case made no progress (" + sr.killed + ")\n" + tail(sr.output, 5000)})
		} else if !sr.result.Done {
			viol = append(viol, vt.Violation{Case: sr.lastCase, Key: "crash:" + crashSite(sr.output), Detail: fmt.Sprintf("worker died: %v\n%s", sr.err, head(sr.output, 5000))})
		}
		if sr.err != nil && (werr == nil || strings.Contains(werr.Error(), "exit status 66")) {
			werr = sr.err
		}
		output = append(output, sr.output...)
	}
	result.Distinct = len(states)
	for n := 0; n < 12 && len(result.Samples) < 12; n++ {
		for _, sr := range results {
			if n < len(sr.result.Samples) && len(result.Samples) < 12 {
				result.Samples = append(result.Samples, sr.result.Samples[n])
			}
		}
	}
	if only == "" {
		for k, n := range result.Required {
			if result.Events[k] < n {
				result.Missing = append(result.Missing, fmt.Sprintf("%s: saw %d, need %d", k, result.Events[k], n))
			}
		}
		sort.Strings(result.Missing)
	}
	races := raceReports(output)
	for k, d := range races {
		viol = append(viol, vt.Violation{Case: "(race detector)", Key: "race:" + k, Detail: d})
	}
	if p.inspect != nil && only == "" {
		viol = append(viol, p.inspect(output)...)
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })

	var kf findings
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	var fresh []vt.Violation
	knownHit := map[string]bool{}
	for _, v := range viol {
		if f, ok := matchKnown(kf.Known, p.id, v); ok {
			knownHit[f.What] = true
			continue
		}
		fresh = append(fresh, v)
	}
	// A listed finding is always announced, so that it is not forgotten.
	for _, f := range kf.Known {
		if f.Property == p.id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, f.What)
		}
	}
	replayDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	for i, v := range fresh {
		if i >= 10 {
			fmt.Printf("... %d further violations not shown\n", len(fresh)-i)
			break
		}
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.txt", p.id, i+1))
		body := fmt.Sprintf("property: %s\nseed: %d\ntier: %s\ncase: %s\nkey: %s\nreplay: VERIF_SEED=%d %s/check.sh %s %s '%s'\n\n%s\n", p.id, seed, tier, v.Case, v.Key, seed, verif, p.id, tier, v.Case, v.Detail)
		os.WriteFile(path, []byte(body), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		fmt.Printf("  [%s] %s\n", v.Key, firstLines(v.Detail, 6))
	}
	if only == "" {
		writeEvidence(p, tier, seed, verif, result, time.Since(start), fresh, len(knownHit))
	}
	fmt.Printf("%s %s: %d cases, %d distinct states, events %v, %d violations, %.1fs\n", p.id, tier, result.Evaluations, result.Distinct, result.Events, len(fresh), time.Since(start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if werr != nil && !strings.Contains(werr.Error(), "exit status 66") {
		fmt.Fprintf(os.Stderr, "worker error: %v\n%s\n", werr, tail(output, 3000))
		return 2
	}
	if len(result.Missing) > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive, the workload did not reach what it must observe: %v\n", result.Missing)
		return 2
	}
	return 0
}

func matchKnown(known []finding, prop string, v vt.Violation) (finding, bool) {
	for _, f := range known {
		if f.Property != prop || f.Key != v.Key {
			continue
		}
		if f.CaseRe != "" {
			re, err := regexp.Compile("^(?:" + f.CaseRe + ")$")
			if err != nil || !re.MatchString(v.Case) {
				continue
			}
		}
		return f, true
	}
	return finding{}, false
}

func writeEvidence(p *property, tier string, seed int64, verif string, res vt.Result, wall time.Duration, fresh []vt.Violation, known int) {
	type viol struct {
		Case string `json:"case"`
		Key  string `json:"key"`
	}
	vs := []viol{}
	for _, v := range fresh {
		vs = append(vs, viol{v.Case, v.Key})
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": p.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         res.Evaluations,
			"distinct_nontrivial": res.Distinct,
			"rule":                p.rule,
			"samples":             samples,
			"events":              res.Events,
		},
		"wall_s":      wall.Seconds(),
		"violations":  len(vs),
		"assumptions": append([]string{}, p.assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), append(b, '\n'), 0o644)
}

func readProgress(path string) (uint64, string) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 12 {
		return 0, ""
	}
	n := int(binary.LittleEndian.Uint32(b[8:]))
	if n > len(b)-12 {
		n = 0
	}
	return binary.LittleEndian.Uint64(b), string(b[12 : 12+n])
}

var frameRe = regexp.MustCompile(`github\.com/mitch000001/go-hbci/([A-Za-z0-9_./()*]+)\(`)

func crashSite(out []byte) string {
	if m := frameRe.FindSubmatch(out); m != nil {
		return string(m[1])
	}
	return "unknown"
}

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

func raceReports(out []byte) map[string]string {
	reports := map[string]string{}
	for _, m := range raceRe.FindAll(out, -1) {
		var frames []string
		for _, f := range frameRe.FindAllSubmatch(m, 6) {
			frames = append(frames, string(f[1]))
		}
		key := "harness"
		if len(frames) > 0 {
			key = frames[0]
		}
		if _, ok := reports[key]; !ok {
			reports[key] = head(m, 5000)
		}
	}
	return reports
}

func head(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "..."
	}
	return string(b)
}

func tail(b []byte, n int) string {
	if len(b) > n {
		return "..." + string(b[len(b)-n:])
	}
	return string(b)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n    ")
	if len(r) > 1200 {
		r = r[:1200] + "..."
	}
	return r
}
