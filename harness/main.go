package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

const shardCount = 8

type Config struct {
	Prop     string
	Arm      string // only this arm when set
	Tier     string
	Seed     uint64
	Scale    float64
	BinDir   string
	Scratch  string
	Deadline time.Time
	Shard    int
	Out      string
}

func main() {
	testing.Init()
	if len(os.Args) > 1 && os.Args[1] == "execlim" {
		execLimited(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "execfault" {
		execFault(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "execnocap" {
		execNoCap(os.Args[2:])
	}
	if len(os.Args) < 2 {
		fatal("usage: harness run ID | replay FILE | list")
	}
	// rapid's flags are set programmatically
	flag.CommandLine.Parse(nil)
	switch os.Args[1] {
	case "list":
		for _, id := range sortedKeys(properties) {
			fmt.Println(id)
		}
	case "run":
		run(os.Args[2])
	case "shard":
		shard(os.Args[2])
	case "replay":
		replay(os.Args[2])
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func scratchRoot() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// buildAll builds the tools, race-instrumented tools and drivers a property needs from the
// current working tree.  Everything goes to dir; nothing is written inside the repository.
func buildAll(p *Property, dir string) error {
	repo := repoDir()
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return err
		}
	}
	overlay := map[string]string{}
	goenv := os.Environ()
	goCmd := func(args ...string) *exec.Cmd {
		c := exec.Command("go", args...)
		c.Dir = repo
		c.Env = goenv
		return c
	}
	// The timestamp-counter calibration of gotsc (a third-party timing library) runs 100000 CPUID
	// instructions in every process start; under virtualisation that is 0.3 s per tool run.  The
	// stub calibrates with fewer rounds and is otherwise the same file.
	modfile := "-modfile=" + filepath.Join(dir, "go.mod")
	if out, err := goCmd("list", modfile, "-m", "-f", "{{.Dir}}", "github.com/dterei/gotsc").Output(); err == nil {
		if err := stubTSC(strings.TrimSpace(string(out)), filepath.Join(dir, "gotsc")); err == nil {
			goCmd("mod", "edit", "-replace=github.com/dterei/gotsc="+filepath.Join(dir, "gotsc"), filepath.Join(dir, "go.mod")).Run()
		}
	}
	drv := filepath.Join(verifDir(), "drivers")
	for _, d := range p.Drivers {
		overlay[filepath.Join(repo, "internal", "verifdrv_"+d, "main.go")] = filepath.Join(drv, d+".go")
		overlay[filepath.Join(repo, "internal", "verifdrv_"+d, "proto.go")] = filepath.Join(drv, "proto.go")
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return err
	}
	build := func(outDir string, pkgs []string, extra ...string) error {
		if len(pkgs) == 0 {
			return nil
		}
		if err := os.MkdirAll(outDir, 0o755); err != nil {
			return err
		}
		args := append([]string{"build", "-buildvcs=false", modfile, "-overlay=" + ov}, extra...)
		args = append(args, "-o", outDir+"/")
		out, err := goCmd(append(args, pkgs...)...).CombinedOutput()
		if err != nil {
			return fmt.Errorf("go build %v: %v\n%s", pkgs, err, out)
		}
		return nil
	}
	var pk, rpk []string
	for _, t := range p.Tools {
		pk = append(pk, "./cmd/"+t)
	}
	for _, t := range p.Race {
		rpk = append(rpk, "./cmd/"+t)
	}
	if err := build(filepath.Join(dir, "bin"), pk); err != nil {
		return err
	}
	var dpk []string
	for _, d := range p.Drivers {
		dpk = append(dpk, "./internal/verifdrv_"+d)
	}
	if build(filepath.Join(dir, "bin"), dpk) != nil {
		// a driver whose API is gone leaves its arms undecided, the others are decided all the same
		for i, d := range p.Drivers {
			if err := build(filepath.Join(dir, "bin"), dpk[i:i+1]); err != nil {
				fmt.Fprintf(os.Stderr, "note: driver %s cannot be built, what needs it is not run: %s\n", d, clipStr(err.Error(), 2000))
			}
		}
	}
	if err := build(filepath.Join(dir, "race"), rpk, "-race"); err != nil {
		return err
	}
	if len(p.Woven) == 0 {
		return nil
	}
	err := weave(repo, filepath.Join(dir, "weave"), overlay)
	if err == nil {
		b, _ := json.Marshal(map[string]any{"Replace": overlay})
		ov = filepath.Join(dir, "woven.json")
		err = os.WriteFile(ov, b, 0o644)
	}
	var wpk []string
	for _, t := range p.Woven {
		if d, ok := strings.CutPrefix(t, "driver:"); ok {
			wpk = append(wpk, "./internal/verifdrv_"+d)
		} else {
			wpk = append(wpk, "./cmd/"+t)
		}
	}
	if err == nil {
		err = build(filepath.Join(dir, "woven"), wpk)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "note: the code cannot be woven, what needs it is not run: %s\n", clipStr(err.Error(), 2000))
		os.RemoveAll(filepath.Join(dir, "woven"))
	}
	return nil
}

// stubTSC copies the gotsc module to dst with fewer calibration rounds.
func stubTSC(src, dst string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	hit := false
	for _, x := range ents {
		if x.IsDir() || strings.HasSuffix(x.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, x.Name()))
		if err != nil {
			return err
		}
		if x.Name() == "tsc.go" {
			hit = strings.Contains(string(b), "100000;")
			b = []byte(strings.Replace(string(b), "100000;", "200;", 1))
		}
		if err := os.WriteFile(filepath.Join(dst, x.Name()), b, 0o644); err != nil {
			return err
		}
	}
	if !hit {
		return fmt.Errorf("unexpected gotsc")
	}
	return os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module github.com/dterei/gotsc\n"), 0o644)
}

func envUint(name string, def uint64) uint64 {
	s := os.Getenv(name)
	if s == "" {
		return def
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		n, err2 := strconv.ParseInt(s, 10, 64)
		if err2 != nil {
			fatal("bad %s=%q", name, s)
		}
		return uint64(n)
	}
	return v
}

func run(id string) {
	start := time.Now()
	p := properties[id]
	if p == nil {
		fatal("no such property %q", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if tier != "quick" && tier != "thorough" {
		fatal("bad VERIF_TIER %q", tier)
	}
	seed := envUint("VERIF_SEED", 1)
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			fatal("VERIF_SCALE: %v", err)
		}
		scale = f
	}
	work, err := os.MkdirTemp(scratchRoot(), "osmverif-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	defer func() { os.RemoveAll(work); os.Exit(code) }()

	if err := buildAll(p, work); err != nil {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR: building: %v\n", err)
		return
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 1500 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, err := strconv.Atoi(s)
		if err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := time.Now().Add(budget)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR:", err)
		return
	}
	results := make([]*ShardResult, shardCount)
	errs := make([]string, shardCount)
	var wg sync.WaitGroup
	for i := 0; i < shardCount; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cfg := Config{Prop: id, Arm: os.Getenv("VERIF_ARM"), Tier: tier, Seed: seed, Scale: scale, BinDir: work, Deadline: deadline, Shard: i,
				Scratch: filepath.Join(work, fmt.Sprintf("s%d", i)), Out: filepath.Join(work, fmt.Sprintf("out%d.json", i))}
			must(os.MkdirAll(cfg.Scratch, 0o755))
			b, _ := json.Marshal(cfg)
			c := exec.Command(self, "shard", string(b))
			c.Env = append(os.Environ(), "GOMAXPROCS=2")
			out, err := c.CombinedOutput()
			if err != nil {
				o := string(out)
				if len(o) > 4000 {
					o = o[:4000]
				}
				errs[i] = fmt.Sprintf("shard %d: %v\n%s", i, err, o)
				return
			}
			var r ShardResult
			rb, err := os.ReadFile(cfg.Out)
			if err == nil {
				err = json.Unmarshal(rb, &r)
			}
			if err != nil {
				errs[i] = fmt.Sprintf("shard %d: %v", i, err)
				return
			}
			results[i] = &r
			os.RemoveAll(cfg.Scratch)
		}(i)
	}
	wg.Wait()

	var infra []string
	var viol *ShardResult
	merged := map[string]*ArmResult{}
	seen := map[string]map[uint64]bool{}
	var order []string
	for i, r := range results {
		if r == nil {
			infra = append(infra, errs[i])
			continue
		}
		if r.Infra != "" {
			infra = append(infra, r.Infra)
		}
		if r.Violation != "" && (viol == nil || len(r.Case) < len(viol.Case)) {
			viol = r
		}
		for _, a := range r.Arms {
			m := merged[a.Name]
			if m == nil {
				m = &ArmResult{Name: a.Name, Rule: a.Rule, Labels: map[string]int{}}
				merged[a.Name] = m
				seen[a.Name] = map[uint64]bool{}
				order = append(order, a.Name)
			}
			m.Evaluations += a.Evaluations
			m.Skipped += a.Skipped
			m.NoDriver = m.NoDriver || a.NoDriver
			for k, v := range a.Labels {
				m.Labels[k] += v
			}
			for _, h := range a.Nontrivial {
				seen[a.Name][h] = true
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, a.Samples...)
				if len(m.Samples) > 2 {
					m.Samples = m.Samples[:2]
				}
			}
		}
	}
	evals, nontriv, skipped := 0, 0, 0
	var noDriver []string
	var rules []string
	samples := []any{}
	arms := map[string]any{}
	for _, n := range order {
		m := merged[n]
		evals += m.Evaluations
		nontriv += len(seen[n])
		skipped += m.Skipped
		if m.NoDriver {
			noDriver = append(noDriver, n)
		}
		rules = append(rules, n+": "+m.Rule)
		for _, s := range m.Samples {
			samples = append(samples, map[string]any{"arm": n, "case": s})
		}
		arms[n] = map[string]any{"evaluations": m.Evaluations, "distinct_nontrivial": len(seen[n]), "not_run_budget": m.Skipped, "classes": m.Labels}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{"evaluations": evals, "distinct_nontrivial": nontriv, "rule": strings.Join(rules, " | "),
			"samples": samples, "arms": arms, "not_run_budget": skipped, "arms_without_driver": append([]string{}, noDriver...)},
		"assumptions": []string{"the harness's own PBF writer/reader, index readers and models follow the PBF documentation and ENCODING.md",
			"generated domain as described in DESIGN.md; search, not proof"},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	evd := filepath.Join(verifDir(), "evidence")
	if d := os.Getenv("VERIF_EVIDENCE_DIR"); d != "" {
		evd = d
	}
	must(os.MkdirAll(evd, 0o755))
	must(os.WriteFile(filepath.Join(evd, id+".json"), append(eb, '\n'), 0o644))

	if viol != nil {
		dir := filepath.Join(verifDir(), "replays")
		must(os.MkdirAll(dir, 0o755))
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, viol.Arm, seed))
		rb, _ := json.Marshal(map[string]any{"property": id, "arm": viol.Arm, "seed": seed, "message": viol.Violation, "case": viol.Case})
		must(os.WriteFile(path, append(rb, '\n'), 0o644))
		fmt.Printf("%s/%s: %s\n", id, viol.Arm, clipStr(viol.Violation, 3000))
		for _, s := range infra {
			fmt.Fprintln(os.Stderr, "note:", clipStr(s, 1000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
		return
	}
	if len(infra) > 0 {
		sort.Strings(infra)
		fmt.Fprintf(os.Stderr, "CHECK-ERROR: %s\n", clipStr(strings.Join(infra, "\n---\n"), 8000))
		return
	}
	if len(noDriver) > 0 {
		if evals == 0 {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR: no driver could be built")
			return
		}
		fmt.Printf("note: arms not run, as their driver cannot be built: %s\n", strings.Join(noDriver, " "))
	}
	for _, f := range openFindings(id) {
		fmt.Println("KNOWN-FINDING: " + f)
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial, %d not run for lack of time) in %.1fs, tier %s, seed %d\n",
		id, evals, nontriv, skipped, time.Since(start).Seconds(), tier, seed)
	code = 0
}

// openFindings are the recorded defects of a property: lines "property=ID what fails".
func openFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	must(err)
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(s, "property="+id+" ") {
			l = append(l, s)
		}
	}
	return l
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func shard(arg string) {
	var cfg Config
	must(json.Unmarshal([]byte(arg), &cfg))
	p := properties[cfg.Prop]
	e := newEnv(cfg)
	defer e.close()
	var res ShardResult
	for ai, a := range p.Arms {
		if cfg.Arm != "" && a.Name != cfg.Arm {
			continue
		}
		total := int(float64(a.Quick) * p.Scale * cfg.Scale)
		if cfg.Tier == "thorough" {
			total *= thoroughFactor
		}
		n := total / shardCount
		if cfg.Shard < total%shardCount {
			n++
		}
		if n == 0 {
			continue
		}
		// each arm gets an equal share of what is left of the time budget, but at least a third of it
		left := time.Until(cfg.Deadline)
		dl := time.Now().Add(left / time.Duration(min(len(p.Arms)-ai, 3)))
		seed := splitmix(cfg.Seed*1000003 + uint64(cfg.Shard)*101 + uint64(ai)*10007)
		runArm(e, p, a, n, seed, dl, &res)
		if res.Violation != "" || res.Infra != "" {
			break
		}
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(cfg.Out, b, 0o644))
	runtime.KeepAlive(e)
}

// replay re-runs one saved case without rapid: exit 0 if the property holds on it now.
func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property, Arm string
		Case          json.RawMessage
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	p := properties[r.Property]
	if p == nil {
		fatal("unknown property %q", r.Property)
	}
	for _, a := range p.Arms {
		if a.Name != r.Arm {
			continue
		}
		work, err := os.MkdirTemp(scratchRoot(), "osmverif-replay-")
		must(err)
		if err := buildAll(p, work); err != nil {
			os.RemoveAll(work)
			fatal("building: %v", err)
		}
		c, err := a.decode(r.Case)
		must(err)
		cfg := Config{Prop: p.ID, Tier: "quick", BinDir: work, Scratch: filepath.Join(work, "s")}
		must(os.MkdirAll(cfg.Scratch, 0o755))
		e := newEnv(cfg)
		// a case that depends on scheduling may need several attempts
		for i := 0; i < 10; i++ {
			if err = a.run(e, c); err != nil {
				break
			}
		}
		e.close()
		os.RemoveAll(work)
		if err == nil {
			fmt.Println("holds")
			os.Exit(0)
		}
		fmt.Println(err)
		if isViolation(err) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			os.Exit(1)
		}
		os.Exit(2)
	}
	fatal("unknown arm %q", r.Arm)
}
