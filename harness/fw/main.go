package fw

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func writeJSONLine(f io.Writer, v any) {
	b, _ := json.Marshal(v)
	_, _ = f.Write(append(b, '\n'))
}

type shardResult struct {
	Cases    int64          `json:"cases"`
	Evals    int64          `json:"evals"`
	Counters map[string]int `json:"counters"`
	Distinct []uint64       `json:"distinct"`
	Samples  []string       `json:"samples"`
	Hits     map[string]int `json:"hits"`
}

// Main is the entry point of every harness binary.
//
//	run ID            parent: all shards, evidence, verdict
//	worker ID dir shard shards startGen startIdx [onlyGen onlyIdx]
//	replay FILE       re-run the case of a replay file
//	case ID gen idx   re-run one case
func Main(checks []*Check) {
	byID := map[string]*Check{}
	for _, c := range checks {
		byID[c.ID] = c
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run|worker|replay|case ...")
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	thor := os.Getenv("VERIF_TIER") == "thorough"
	get := func(id string) *Check {
		c := byID[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		return c
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runParent(get(os.Args[2]), seed, thor))
	case "worker":
		runWorker(get(os.Args[2]), seed, thor, os.Args[3:])
	case "case", "replay":
		var c *Check
		var gen string
		var idx int
		if os.Args[1] == "replay" {
			b, err := os.ReadFile(os.Args[2])
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var r replayFile
			if err := json.Unmarshal(b, &r); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			c, gen, idx, seed, thor = get(r.Property), r.Gen, r.Idx, r.Seed, r.Tier == "thorough"
		} else {
			c, gen = get(os.Args[2]), os.Args[3]
			idx, _ = strconv.Atoi(os.Args[4])
		}
		w := newWorker(c, seed, thor)
		if c.Setup != nil {
			c.Setup()
		}
		for gi := range c.Gens {
			if c.Gens[gi].Name == gen {
				go w.watchdog()
				w.runCase(&c.Gens[gi], gi, idx, true)
			}
		}
		for _, v := range w.violations {
			fmt.Println(strings.ToValidUTF8(fmt.Sprintf("key=%s\n%s\n%s\n%s", v.Key, v.Msg, v.Desc, v.Stack), "\ufffd"))
		}
		if len(w.violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("no violation")
	default:
		os.Exit(2)
	}
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Violation
	How string `json:"how"`
}

func runWorker(c *Check, seed int64, thor bool, args []string) {
	dir := args[0]
	num := func(i int) int { n, _ := strconv.Atoi(args[i]); return n }
	w := newWorker(c, seed, thor)
	w.Shard, w.Shards = num(1), num(2)
	startGen, startIdx := num(3), num(4)
	onlyGen, onlyIdx := -1, -1
	if len(args) > 6 {
		onlyGen, onlyIdx = num(5), num(6)
	}
	lim := c.MemLimit
	if lim == 0 {
		lim = 4 << 30
	}
	if lim > 1 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	base := filepath.Join(dir, fmt.Sprintf("shard%d", w.Shard))
	if onlyGen >= 0 {
		base += "-only"
	}
	var err error
	if w.journal, err = os.OpenFile(base+".journal", os.O_CREATE|os.O_RDWR, 0o644); err != nil {
		panic(err)
	}
	if w.vfile, err = os.OpenFile(base+".viol", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err != nil {
		panic(err)
	}
	if c.Setup != nil {
		c.Setup()
	}
	go w.watchdog()
	for gi := range c.Gens {
		g := &c.Gens[gi]
		n := c.cases(g, thor)
		for idx := 0; idx < n; idx++ {
			if onlyGen >= 0 {
				if gi != onlyGen || idx != onlyIdx {
					continue
				}
			} else {
				if gi < startGen || (gi == startGen && idx < startIdx) {
					continue
				}
				// a cheap hash spreads neighbouring (often similarly expensive) indices
				if (idx*2654435761>>8+idx)%w.Shards != w.Shard {
					continue
				}
			}
			w.runCase(g, gi, idx, false)
		}
	}
	res := shardResult{Cases: w.cases, Evals: atomic.LoadInt64(&w.evals), Counters: w.counters, Samples: w.samples, Hits: w.perKey}
	for h := range w.distinct {
		res.Distinct = append(res.Distinct, h)
	}
	b, _ := json.Marshal(res)
	name := fmt.Sprintf("%s.%d-%d.result", base, startGen, startIdx)
	if err := os.WriteFile(name, b, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type crash struct {
	gi, idx int
	code    int
	sig     string
	stderr  string
	repro   bool
}

func runParent(c *Check, seed int64, thor bool) int {
	start := time.Now()
	shards := c.Shards
	if shards == 0 {
		shards = 7
	}
	tmp, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var mu sync.Mutex
	var crashes []crash
	inconclusive := []string{}
	wallLimit := 800 * time.Second
	if thor {
		wallLimit = 6 * time.Hour
	}
	deadline := start.Add(wallLimit)

	spawn := func(args []string, stderrPath string) (code int, sig string) {
		cmd := exec.Command(os.Args[0], append([]string{"worker", c.ID, tmp}, args...)...)
		cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatInt(seed, 10), "GOTRACEBACK=all")
		cmd.Env = append(cmd.Env, c.Env...)
		for i, e := range cmd.Env {
			cmd.Env[i] = strings.ReplaceAll(e, "@DIR@", tmp)
		}
		ef, _ := os.OpenFile(stderrPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		defer ef.Close()
		cmd.Stderr = ef
		cmd.Stdout = ef
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return -1, err.Error()
		}
		timer := time.AfterFunc(time.Until(deadline), func() { _ = cmd.Process.Kill() })
		_ = cmd.Wait()
		timer.Stop()
		st := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if st.Signaled() {
			return -2, st.Signal().String()
		}
		return st.ExitStatus(), ""
	}

	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sg, si := 0, 0
			for attempt := 0; attempt < 4; attempt++ {
				errPath := filepath.Join(tmp, fmt.Sprintf("shard%d.stderr%d", s, attempt))
				code, sig := spawn([]string{strconv.Itoa(s), strconv.Itoa(shards), strconv.Itoa(sg), strconv.Itoa(si)}, errPath)
				if code == 0 {
					return
				}
				if time.Now().After(deadline) {
					mu.Lock()
					inconclusive = append(inconclusive, "wall limit reached")
					mu.Unlock()
					return
				}
				jb, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("shard%d.journal", s)))
				if len(jb) < 16 {
					mu.Lock()
					tail := tailFile(errPath, 3000)
					inconclusive = append(inconclusive, fmt.Sprintf("shard died before the first case (code %d %s): %s", code, sig, tail))
					mu.Unlock()
					return
				}
				gi, idx := int(binary.LittleEndian.Uint64(jb)), int(binary.LittleEndian.Uint64(jb[8:]))
				cr := crash{gi: gi, idx: idx, code: code, sig: sig, stderr: tailFile(errPath, 6000)}
				// confirm on the single case
				only := filepath.Join(tmp, fmt.Sprintf("shard%d.only%d", s, attempt))
				code2, sig2 := spawn([]string{strconv.Itoa(s), strconv.Itoa(shards), "0", "0", strconv.Itoa(gi), strconv.Itoa(idx)}, only)
				cr.repro = code2 != 0
				if cr.repro {
					cr.code, cr.sig = code2, sig2
					cr.stderr = tailFile(only, 6000)
				}
				mu.Lock()
				crashes = append(crashes, cr)
				mu.Unlock()
				sg, si = gi, idx+1
			}
		}(s)
	}
	wg.Wait()

	// merge
	var viols []Violation
	counters := map[string]int{}
	distinct := map[uint64]struct{}{}
	var samples []string
	var cases, evals int64
	hits := map[string]int{}
	files, _ := filepath.Glob(filepath.Join(tmp, "*.result"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var r shardResult
		if json.Unmarshal(b, &r) != nil {
			continue
		}
		if strings.Contains(filepath.Base(f), "-only") {
			continue
		}
		cases += r.Cases
		evals += r.Evals
		for k, v := range r.Counters {
			counters[k] += v
		}
		for k, v := range r.Hits {
			hits[k] += v
		}
		for _, h := range r.Distinct {
			distinct[h] = struct{}{}
		}
		samples = append(samples, r.Samples...)
	}
	vf, _ := filepath.Glob(filepath.Join(tmp, "*.viol"))
	sort.Strings(vf)
	for _, f := range vf {
		fh, err := os.Open(f)
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var v Violation
			if json.Unmarshal(sc.Bytes(), &v) == nil {
				viols = append(viols, v)
			}
		}
		fh.Close()
	}
	for _, cr := range crashes {
		g := c.Gens[cr.gi].Name
		kind := ""
		switch {
		case cr.code == exitHang:
			kind = "hang"
		case cr.code == exitDeadlock:
			kind = "stuck"
		case strings.Contains(cr.stderr, "WARNING: DATA RACE"):
			kind = "race"
		case strings.Contains(cr.stderr, "out of memory") || strings.Contains(cr.stderr, "cannot allocate memory"):
			kind = "out-of-memory"
		case strings.Contains(cr.stderr, "stack overflow") || strings.Contains(cr.stderr, "stack exceeds"):
			kind = "stack-overflow"
		case strings.Contains(cr.stderr, "fatal error:"):
			kind = "fatal"
		case strings.Contains(cr.stderr, "panic:"):
			kind = "panic"
		case cr.repro && cr.code > 0:
			kind = "exit"
		}
		if kind == "" || (!cr.repro && (kind == "hang" || kind == "stuck" || kind == "out-of-memory")) {
			inconclusive = append(inconclusive, fmt.Sprintf("worker died (code %d %s) in %s#%d and did not reproduce: %s", cr.code, cr.sig, g, cr.idx, lastLines(cr.stderr, 15)))
			continue
		}
		viols = append(viols, Violation{Gen: g, Idx: cr.idx, Seed: seed, Key: kind + ":" + g, Msg: "process died: " + kind, Desc: cr.stderr})
	}
	if c.Extra != nil {
		viols = append(viols, c.Extra(tmp)...)
	}

	known := loadKnown(c.ID)
	exit := 0
	seenKey := map[string]int{}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Key != viols[j].Key {
			return viols[i].Key < viols[j].Key
		}
		if viols[i].Gen != viols[j].Gen {
			return viols[i].Gen < viols[j].Gen
		}
		return viols[i].Idx < viols[j].Idx
	})
	rdir := filepath.Join(verifDir(), "replays")
	printed, total := 0, 0
	for _, v := range viols {
		if known[v.Key] != "" {
			continue
		}
		total++
		exit = 1
		seenKey[v.Key]++
		if seenKey[v.Key] > 1 || printed >= 12 {
			continue
		}
		printed++
		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.ID, printed))
		tier := "quick"
		if thor {
			tier = "thorough"
		}
		b, _ := json.MarshalIndent(replayFile{Property: c.ID, Tier: tier, Violation: v, How: "check.sh " + c.ID + " replay " + path}, "", " ")
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Println(strings.ToValidUTF8(fmt.Sprintf("--- %s [%s #%d]: %s\n%s", v.Key, v.Gen, v.Idx, clip(v.Msg, 1500), clip(v.Desc, 1500)), "\ufffd"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	}
	for _, k := range SortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, known[k])
	}
	if exit == 0 {
		if len(distinct) < c.MinNonTriv {
			inconclusive = append(inconclusive, fmt.Sprintf("only %d non-trivial cases observed (need %d)", len(distinct), c.MinNonTriv))
		}
		for _, n := range c.Need {
			if counters[n] == 0 {
				inconclusive = append(inconclusive, "nothing observed for "+n)
			}
		}
	}
	sort.Strings(samples)
	byGen := map[string]int{}
	var keep []string
	for _, s := range samples {
		g, _, _ := strings.Cut(s, ":")
		if byGen[g] < 2 {
			byGen[g]++
			keep = append(keep, s)
		}
	}
	if len(keep) == 0 {
		keep = []string{"(no sample recorded)"}
	}
	gens := map[string]int{}
	for i, g := range c.Gens {
		gens[g.Name] = c.cases(&c.Gens[i], thor)
	}
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": c.ID, "tier": map[bool]string{true: "thorough", false: "quick"}[thor], "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations": cases + evals, "distinct_nontrivial": len(distinct), "rule": c.Rule, "samples": keep,
			"cases_run": cases, "generators": gens, "observed": counters, "violation_hits": hits, "inconclusive": inconclusive, "worker_crashes": len(crashes), "exhaustive": c.Exhaustive,
		},
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": total,
	}
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if exit == 0 && len(inconclusive) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, strings.Join(inconclusive, "; "))
		return 2
	}
	if exit == 0 {
		fmt.Printf("OK property=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", c.ID, cases, cases+evals, len(distinct), time.Since(start).Seconds())
	}
	return exit
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func tailFile(p string, n int) string {
	b, _ := os.ReadFile(p)
	// the head carries the fatal error line and the guilty goroutine
	if i := bytes.Index(b, []byte("fatal error:")); i > 0 {
		b = b[i:]
	} else if i := bytes.Index(b, []byte("WATCHDOG")); i > 0 {
		b = b[i:]
	}
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}
