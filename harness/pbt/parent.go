package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is one line of known-findings.txt: `finding: {json}`.
type Finding struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case"`
}

func loadFindings(path, id string) ([]Finding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Finding
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(rest), &f); err != nil {
			return nil, fmt.Errorf("known-findings: %v in %q", err, line)
		}
		if f.Property == id {
			out = append(out, f)
		}
	}
	return out, nil
}

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
)

type workerResult struct {
	race   bool
	shard  int
	stats  *Stats
	err    error
	code   int
	stderr string
}

// Parent runs the whole check of one property and returns the exit code.
func Parent(id string) int {
	start := time.Now()
	p := Registry[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return exitError
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(os.Getenv("VERIF_SEED")))
		seed = h.Sum64() >> 1
		if os.Getenv("VERIF_SEED") == "" {
			seed = 1
		}
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		fmt.Fprintln(os.Stderr, "VERIF_SCRATCH not set")
		return exitError
	}
	out := filepath.Join(scratch, "out")
	if err := os.MkdirAll(out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	needRace, needPlain := false, false
	for _, s := range p.Subs {
		if s.Race {
			needRace = true
		} else {
			needPlain = true
		}
	}
	raceBin := filepath.Join(scratch, "h.race.test")
	if needRace {
		cmd := exec.Command("go", "test", "-race", "-c", "-o", raceBin, "./h")
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "race build failed: %v\n%s\n", err, b)
			return exitError
		}
	}
	for name, pkg := range p.Tools {
		cmd := exec.Command("go", "build", "-o", filepath.Join(scratch, name), pkg)
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "build of %s failed: %v\n%s\n", pkg, err, b)
			return exitError
		}
	}
	budget := "260"
	hard := 600 * time.Second
	if tier == "thorough" {
		budget = "1500"
		hard = 2400 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET"); b != "" {
		budget = b
	}
	shards := 8
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	baseEnv := append(os.Environ(), "VERIF_WORKER=1", "VERIF_PROP="+id, "VERIF_OUT="+out, "VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier, "VERIF_BUDGET="+budget, "GORACE=halt_on_error=1 exitcode=66")

	// replay mode
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		bin := self
		var v Violation
		b, err := os.ReadFile(rp)
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		for _, s := range p.Subs {
			if s.Name == v.Sub && s.Race {
				bin = raceBin
			}
		}
		code, outp, errp := runOne(bin, append(baseEnv, "VERIF_REPLAY="+rp), hard)
		fmt.Print(outp)
		fmt.Fprint(os.Stderr, errp)
		switch code {
		case 40:
			return exitOK
		case 41, 66, exitHang:
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			return exitViolation
		}
		if isCrash(errp + outp) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			return exitViolation
		}
		return exitError
	}

	findings, err := loadFindings(filepath.Join(verif, "known-findings.txt"), id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}

	var mu sync.Mutex
	var results []workerResult
	var wg sync.WaitGroup
	launch := func(bin string, race bool, shard int) {
		defer wg.Done()
		env := append(append([]string{}, baseEnv...), "VERIF_SHARD="+strconv.Itoa(shard), "VERIF_SHARDS="+strconv.Itoa(shards))
		if race {
			env = append(env, "VERIF_RACE=1")
		}
		code, outp, errp := runOne(bin, env, hard)
		res := workerResult{race: race, shard: shard, code: code, stderr: errp + outp}
		b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("stats-%v-%d.json", race, shard)))
		if err == nil {
			st := &Stats{}
			if err = json.Unmarshal(b, st); err == nil {
				res.stats = st
			}
		}
		res.err = err
		mu.Lock()
		results = append(results, res)
		mu.Unlock()
	}
	if needPlain {
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go launch(self, false, i)
		}
		wg.Wait()
	}
	if needRace {
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go launch(raceBin, true, i)
		}
		wg.Wait()
	}
	sort.Slice(results, func(i, j int) bool {
		if results[i].race != results[j].race {
			return !results[i].race
		}
		return results[i].shard < results[j].shard
	})

	var viol *Violation
	harnessErr := ""
	total := &Stats{Skipped: map[string]int{}, Subs: map[string]*SubStats{}, hashSet: map[uint64]bool{}}
	for _, r := range results {
		if r.stats != nil && r.stats.Done {
			total.Evaluations += r.stats.Evaluations
			total.Truncated += r.stats.Truncated
			for k, v := range r.stats.Skipped {
				total.Skipped[k] += v
			}
			for _, h := range r.stats.Hashes {
				total.hashSet[h] = true
			}
			total.Samples = append(total.Samples, r.stats.Samples...)
			for k, s := range r.stats.Subs {
				t := total.Subs[k]
				if t == nil {
					t = &SubStats{Labels: map[string]int{}, Rule: s.Rule}
					total.Subs[k] = t
				}
				t.Evaluations += s.Evaluations
				t.Nontrivial += s.Nontrivial
				for l, n := range s.Labels {
					t.Labels[l] += n
				}
			}
			if r.stats.Violation != nil && viol == nil {
				viol = r.stats.Violation
			}
			if r.stats.HarnessErr != "" && harnessErr == "" {
				harnessErr = fmt.Sprintf("shard %d: %s", r.shard, r.stats.HarnessErr)
			}
			continue
		}
		// the worker died
		if r.code == 66 || r.code == exitHang || isCrash(r.stderr) {
			sub, raw, done, ok := readCurrent(filepath.Join(out, fmt.Sprintf("cur-%v-%d", r.race, r.shard)))
			if done && r.code != 66 && !strings.Contains(r.stderr, "/repo/") {
				ok = false // died while the next case was generated
			}
			if ok && viol == nil {
				viol = &Violation{Property: id, Sub: sub, Case: json.RawMessage(raw), Error: "the process died while executing this case:\n" + tail(r.stderr, 6000)}
				continue
			}
		}
		if harnessErr == "" {
			harnessErr = fmt.Sprintf("shard %d (race=%v) ended with code %d and no result:\n%s", r.shard, r.race, r.code, tail(r.stderr, 4000))
		}
	}

	// known findings: re-run each recorded case
	for i, f := range findings {
		rp := filepath.Join(scratch, fmt.Sprintf("finding-%d.json", i))
		b, _ := json.Marshal(Violation{Property: id, Sub: f.Sub, Case: f.Case})
		os.WriteFile(rp, b, 0o644)
		bin := self
		for _, s := range p.Subs {
			if s.Name == f.Sub && s.Race {
				bin = raceBin
			}
		}
		code, outp, errp := runOne(bin, append(append([]string{}, baseEnv...), "VERIF_REPLAY="+rp, "VERIF_LIMIT=4"), 120*time.Second)
		switch {
		case code == 41 || code == 66 || code == exitHang || (code != 40 && isCrash(errp+outp)):
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		case code == 40:
			fmt.Printf("note: known finding no longer reproduces: property=%s %s\n", id, f.What)
		default:
			if harnessErr == "" {
				harnessErr = fmt.Sprintf("known finding replay failed with code %d: %s", code, tail(errp+outp, 2000))
			}
		}
	}

	nv := 0
	if viol != nil {
		nv = 1
	}
	if err := writeEvidence(verif, p, tier, seed, total, nv, start); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return exitError
	}
	if viol != nil {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		h := fnv.New32a()
		h.Write(viol.Case)
		rp := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", id, viol.Sub, h.Sum32()))
		b, _ := json.MarshalIndent(viol, "", " ")
		if err := os.WriteFile(rp, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		fmt.Printf("sub=%s\ncase=%s\n%s\n", viol.Sub, tail(string(viol.Case), 4000), tail(viol.Error, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return exitViolation
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "check error:", harnessErr)
		return exitError
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d truncated=%d wall=%.1fs\n", id, tier, seed, total.Evaluations, len(total.hashSet), total.Truncated, time.Since(start).Seconds())
	return exitOK
}

func isCrash(s string) bool {
	if strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory") {
		return false
	}
	return strings.Contains(s, "fatal error: concurrent map") || strings.Contains(s, "WARNING: DATA RACE") ||
		strings.Contains(s, "stack overflow") || strings.Contains(s, "goroutine stack exceeds") ||
		(strings.Contains(s, "panic: ") && strings.Contains(s, "GannettDigital/jstransform"))
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n…\n" + s[len(s)-n/2:]
}

func runOne(bin string, env []string, hard time.Duration) (int, string, string) {
	cmd := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0", "-test.count", "1")
	cmd.Env = env
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return -1, "", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return cmd.ProcessState.ExitCode(), ob.String(), eb.String()
	case <-time.After(hard):
		cmd.Process.Kill()
		<-done
		return -2, ob.String(), eb.String() + "\ntimed out (inconclusive)"
	}
}

func writeEvidence(verif string, p *Property, tier string, seed uint64, st *Stats, nv int, start time.Time) error {
	var rules []string
	subs := map[string]any{}
	for _, s := range p.Subs {
		rules = append(rules, s.Name+": "+s.Rule)
		if t := st.Subs[s.Name]; t != nil {
			subs[s.Name] = map[string]any{"evaluations": t.Evaluations, "nontrivial_evaluations": t.Nontrivial, "labels": t.Labels}
		}
	}
	samples := st.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         st.Evaluations,
			"distinct_nontrivial": len(st.hashSet),
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"per_sub":             subs,
			"skipped":             st.Skipped,
			"not_run_time_budget": st.Truncated,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nv,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644)
}
