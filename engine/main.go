package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessCfg struct {
	Fn       string            `json:"fn"`
	Quick    [][]int           `json:"quick"`
	Thorough [][]int           `json:"thorough"`
	BudgetQ  int               `json:"budget_quick"`    // seconds per parameter list
	BudgetT  int               `json:"budget_thorough"` // seconds per parameter list
	MaxSteps int64             `json:"max_steps"`
	Witness  []string          `json:"witness"` // labels that must be reached
	Bounds   string            `json:"bounds"`
	Finding  string            `json:"finding"` // known-finding id this harness demonstrates
	Labels   []string          `json:"labels"`  // finding: assertion labels that count
	NoReplay bool              `json:"no_replay"`
	Consts   map[string]string `json:"consts"` // overrides those of the check
	Pkg      string            `json:"pkg"`    // harness package of this harness, default that of the check
	Yield    bool              `json:"yield"`  // every statement of the code under test is a preemption point
}

type CheckCfg struct {
	Property    string            `json:"property"`
	Consts      map[string]string `json:"consts"`
	Harnesses   []HarnessCfg      `json:"harnesses"`
	Assumptions []string          `json:"assumptions"`
	Pkg         string            `json:"pkg"` // harness package, default h
}

type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // open | fixed
	What     string `json:"what"`
	Where    string `json:"where"`
	Commit   string `json:"commit,omitempty"`
}

type replayRes struct {
	Status string   `json:"status"` // ok | assert | panic | assume | error
	Label  string   `json:"label"`
	Obs    []ObsVal `json:"obs"`
}

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "", "quick|thorough")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagOnly    = flag.String("only", "", "run only this harness (debug)")
	flagParams  = flag.String("params", "", "override params: 1,2,3")
	flagBudget  = flag.Int("budget", 0, "override budget seconds")
	flagV       = flag.Bool("v", false, "verbose")
	flagWorkers = flag.Int("workers", 0, "workers")
	flagNoNat   = flag.Bool("nonative", false, "skip native build (debug)")
	flagKeep    = flag.Bool("keep", false, "keep scratch dir")
	flagReplay  = flag.String("replay", "", "replay a violation file natively")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(6 << 30)
	os.Exit(run())
}

func fatalf(f string, a ...any) int {
	fmt.Printf("ERROR "+f+"\n", a...)
	return 2
}

type native struct {
	bin  string
	done chan struct{}
	err  error
	out  string
	dir  string
	repo string
	race *native // built with the race detector of Go, on demand
}

func (n *native) wait() bool { <-n.done; return n.err == nil }

func startNative(repo, scratch string, ov map[string][]byte) *native {
	n := &native{bin: filepath.Join(scratch, "replaybin"), done: make(chan struct{}), dir: scratch, repo: repo}
	rep := map[string]string{}
	i := 0
	for p, b := range ov {
		i++
		f := filepath.Join(scratch, fmt.Sprintf("ov%d_%s", i, filepath.Base(p)))
		os.WriteFile(f, b, 0o644)
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, js, 0o644)
	go func() {
		defer close(n.done)
		n.out, n.err = n.build(ovf)
	}()
	return n
}

func (n *native) build(ovf string, flags ...string) (string, error) {
	args := append([]string{"build", "-overlay", ovf, "-o", n.bin}, flags...)
	cmd := exec.Command("/usr/lib/go-1.21/bin/go", append(args, "./zzverif/replay")...)
	cmd.Dir = n.repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on",
		"PATH=/usr/lib/go-1.21/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	if len(flags) > 0 {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// confirmRace replays a schedule with Go's race detector, from which the
// replayed scheduler hides itself; a report counts when both accesses are
// outside the harness.
func (n *native) confirmRace(v Vector) (bool, string) {
	if n.race == nil {
		n.race = &native{bin: n.bin + "_race", dir: n.dir, repo: n.repo}
		n.race.out, n.race.err = n.race.build(filepath.Join(n.dir, "overlay.json"), "-race")
	}
	if n.race.err != nil {
		return false, "race detector: " + n.race.err.Error() + " " + n.race.out
	}
	n.race.runVecs([]Vector{v}, 60*time.Second)
	for _, rep := range strings.Split(n.race.out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		var fns []string
		for _, part := range strings.Split(strings.TrimSpace(rep), "\n\n") {
			ls := strings.Split(part, "\n")
			if len(ls) < 3 || !strings.Contains(ls[0], " at 0x") {
				continue
			}
			for k := 1; k+1 < len(ls); k += 2 {
				f := strings.TrimSpace(ls[k])
				if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sync/atomic.") {
					continue
				}
				if !strings.Contains(ls[k+1], "/zzverif/") && !strings.HasPrefix(f, pebblePath) {
					fns = append(fns, f[strings.LastIndex(f, "/")+1:])
				}
				break
			}
		}
		if len(fns) == 2 {
			return true, "data race: " + fns[0] + " and " + fns[1]
		}
	}
	return false, "no data race reported"
}

// runVec replays vectors natively, one process per batch.
func (n *native) runVecs(vs []Vector, timeout time.Duration) ([]replayRes, string) {
	f := filepath.Join(n.dir, fmt.Sprintf("vec%d.json", atomic.AddInt64(&vecN, 1)))
	js, _ := json.Marshal(vs)
	os.WriteFile(f, js, 0o644)
	defer os.Remove(f)
	work, err := os.MkdirTemp(n.dir, "wk")
	if err != nil {
		return nil, "error"
	}
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, f)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "TMPDIR="+work)
	var se strings.Builder
	cmd.Stderr = &se
	out, err := cmd.Output()
	var res []replayRes
	for _, l := range strings.Split(string(out), "\n") {
		if s, ok := strings.CutPrefix(l, "@@RES "); ok {
			var r replayRes
			if json.Unmarshal([]byte(s), &r) == nil {
				res = append(res, r)
			}
		}
	}
	if ctx.Err() != nil {
		return res, "timeout"
	}
	n.out = se.String()
	if err != nil {
		lines := strings.Split(se.String(), "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
				lines = lines[i:]
				break
			}
		}
		if len(lines) > 6 {
			lines = lines[:6]
		}
		return res, "crash: " + strings.Join(lines, " | ")
	}
	return res, ""
}

var vecN int64

func sameObs(a, b []ObsVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Label != b[i].Label || len(a[i].B) != len(b[i].B) {
			return false
		}
		for j := range a[i].B {
			if a[i].B[j] != b[i].B[j] {
				return false
			}
		}
	}
	return true
}

// confirm replays one candidate violation on the real code.
func (n *native) confirm(v Vector) (bool, string) {
	if strings.HasPrefix(v.Label, "data race") {
		return n.confirmRace(v)
	}
	res, end := n.runVecs([]Vector{v}, 25*time.Second)
	if strings.HasPrefix(v.Label, "panic") {
		if len(res) == 1 && res[0].Status == "panic" {
			return true, "panic: " + res[0].Label
		}
		if strings.HasPrefix(end, "crash") {
			return true, end
		}
	}
	if v.Label == "nontermination" || strings.HasPrefix(v.Label, "deadlock") {
		if end == "timeout" {
			return true, "does not terminate"
		}
		if strings.Contains(end, "deadlock") {
			return true, end
		}
	}
	if strings.HasPrefix(v.Label, "fatal") && strings.HasPrefix(end, "crash") {
		return true, end
	}
	if len(res) == 1 && res[0].Status == "assert" {
		return true, res[0].Label
	}
	// any failure of the real code on this input counts, whatever the label
	if len(res) == 1 && res[0].Status == "panic" {
		return true, "panic: " + res[0].Label
	}
	s := end
	if len(res) == 1 {
		s += " " + res[0].Status + " " + res[0].Label
	}
	return false, s
}

type hres struct {
	g       *group
	cfg     HarnessCfg
	params  []int
	e       *Explorer
	dur     time.Duration
	valid   int
	mism    int
	mismTxt []string
	unconf  []string
}

func run() int {
	t0 := time.Now()
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var cfg CheckCfg
	b, err := os.ReadFile(filepath.Join(*flagVerif, "checks", *flagProp+".json"))
	if err != nil {
		return fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &cfg); err != nil {
		return fatalf("checks/%s.json: %v", *flagProp, err)
	}
	if cfg.Pkg == "" {
		cfg.Pkg = "h"
	}
	var finds []Finding
	if b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &finds); err != nil {
			return fatalf("known_findings.json: %v", err)
		}
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return fatalf("%v", err)
	}
	if !*flagKeep {
		defer os.RemoveAll(scratch)
	}
	if *flagReplay != "" {
		return replayOne(&cfg, scratch, *flagReplay)
	}
	// harnesses with the same source seams share one encoding
	var groups []*group
	for hi, hc := range cfg.Harnesses {
		if *flagOnly != "" && hc.Fn != *flagOnly {
			continue
		}
		cs := cfg.Consts
		if hc.Consts != nil {
			cs = hc.Consts
		}
		pkg := cfg.Pkg
		if hc.Pkg != "" {
			pkg = hc.Pkg
		}
		var g *group
		for _, x := range groups {
			if x.pkg == pkg && x.yield == hc.Yield && fmt.Sprint(x.consts) == fmt.Sprint(cs) {
				g = x
			}
		}
		if g == nil {
			g = &group{consts: cs, pkg: pkg, yield: hc.Yield, dir: filepath.Join(scratch, fmt.Sprint("g", len(groups)))}
			groups = append(groups, g)
		}
		g.hs = append(g.hs, hi)
	}
	if len(groups) == 0 {
		return fatalf("no harness")
	}
	for _, g := range groups {
		if err := g.start(); err != nil {
			return fatalf("%v", err)
		}
	}
	for _, g := range groups {
		if err := g.load(); err != nil {
			return fatalf("%v", err)
		}
	}
	loadT := time.Since(t0)
	workers := *flagWorkers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	sh := &Shared{binName: "z3-new", timeout: 20000}
	if _, err := exec.LookPath("z3-new"); err != nil {
		sh.binName = "z3"
	}
	var results []*hres
	hardEnd := t0.Add(780 * time.Second)
	if tier == "thorough" {
		hardEnd = t0.Add(3 * time.Hour)
	}
	nviol := 0
	var violLines []string
	replayDir := filepath.Join(*flagVerif, "replay")
	report := func(h *hres, v Vector, how string) {
		os.MkdirAll(replayDir, 0o755)
		rp := filepath.Join(replayDir, fmt.Sprintf("%s_%d.json", cfg.Property, len(violLines)))
		js, _ := json.MarshalIndent(map[string]any{"property": cfg.Property, "vector": v, "consts": h.g.consts, "yield": h.g.yield, "pkg": h.g.pkg, "observed": how}, "", " ")
		os.WriteFile(rp, js, 0o644)
		nviol++
		fmt.Printf("  violated: %s (harness %s %v): %s\n", v.Label, h.cfg.Fn, h.params, how)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", cfg.Property, rp)
		violLines = append(violLines, l)
	}
	foundKF := map[string]string{}
	natOK := !*flagNoNat
	for _, g := range groups {
		if g.nat != nil && !g.nat.wait() {
			return fatalf("native replay build: %v\n%s", g.nat.err, g.nat.out)
		}
	}
	buildT := time.Since(t0)
	var unconfirmed []string
	for hi, hc := range cfg.Harnesses {
		if *flagOnly != "" && hc.Fn != *flagOnly {
			continue
		}
		var g *group
		for _, x := range groups {
			for _, y := range x.hs {
				if y == hi {
					g = x
				}
			}
		}
		prog, nat, hp, inits := g.prog, g.nat, g.hp, g.inits
		lists, budget := hc.Quick, hc.BudgetQ
		if tier == "thorough" {
			if hc.Thorough != nil {
				lists = hc.Thorough
			}
			budget = hc.BudgetT
			if budget == 0 {
				budget = hc.BudgetQ * 4
			}
		}
		if budget == 0 {
			budget = 60
		}
		if *flagBudget > 0 {
			budget = *flagBudget
		}
		if len(lists) == 0 {
			lists = [][]int{{}}
		}
		if *flagParams != "" {
			lists = nil
			var l []int
			for _, s := range strings.Split(*flagParams, ",") {
				n, _ := strconv.Atoi(s)
				l = append(l, n)
			}
			lists = [][]int{l}
		}
		sf := hp.Func(hc.Fn)
		if sf == nil {
			return fatalf("no harness %s", hc.Fn)
		}
		ms := hc.MaxSteps
		if ms == 0 {
			ms = 20_000_000
		}
		for _, params := range lists {
			dl := time.Now().Add(time.Duration(budget) * time.Second)
			if dl.After(hardEnd) {
				dl = hardEnd
			}
			e := &Explorer{p: prog, sh: sh, fn: prog.fn(sf), params: params, name: hc.Fn, inits: inits, maxSteps: ms,
				deadline: dl, workers: workers, sampleN: 24, verbose: *flagV, stopViol: 200}
			if e.params == nil {
				e.params = []int{}
			}
			h := &hres{g: g, cfg: hc, params: params, e: e}
			st := time.Now()
			e.run()
			h.dur = time.Since(st)
			results = append(results, h)
			if *flagV {
				fmt.Fprintf(os.Stderr, "%s %v: paths=%d ok=%d cut=%d pending=%d unsup=%v asserts=%d/%d lost=%d viol=%d steps=%d %.1fs\n", hc.Fn, params,
					e.paths, e.okPaths, e.assumeCut, e.pending, e.unsup, e.asserts, e.assertQ, e.lost, e.nviol, e.steps, h.dur.Seconds())
			}
			if !natOK {
				for l, vs := range e.viol {
					fmt.Printf("  candidate: %s\n", l)
					js, _ := json.Marshal(vs[0])
					fmt.Printf("    %s\n", js)
				}
				continue
			}
			// translation validation on sampled paths
			if !hc.NoReplay && len(e.samples) > 0 {
				h.validate(nat, report, hc.Finding == "")
			}
			// confirmation of candidates
			var labels []string
			for l := range e.viol {
				labels = append(labels, l)
			}
			sort.Strings(labels)
			for _, l := range labels {
				ok := false
				how := ""
				var last Vector
				for _, v := range e.viol[l] {
					last = v
					if ok, how = nat.confirm(v); ok {
						break
					}
				}
				if hc.Finding != "" {
					if ok {
						match := len(hc.Labels) == 0
						for _, x := range hc.Labels {
							if x == l || x == how {
								match = true
							}
						}
						if match {
							foundKF[hc.Finding] = how
						} else {
							report(h, last, how)
						}
					} else {
						h.unconf = append(h.unconf, l+" ("+how+")")
					}
					continue
				}
				if ok {
					report(h, last, how)
				} else {
					h.unconf = append(h.unconf, l+" ("+how+")")
					unconfirmed = append(unconfirmed, l)
					fmt.Printf("  note: candidate %q of %s %v not reproduced by the real code: %s\n", l, hc.Fn, params, how)
					if *flagV {
						js, _ := json.Marshal(last)
						fmt.Fprintf(os.Stderr, "    %s\n", js)
					}
				}
			}
			if nviol > 0 && *flagOnly == "" {
				break
			}
		}
		if nviol > 0 && *flagOnly == "" {
			break
		}
	}
	for _, f := range finds {
		if f.Property != cfg.Property || f.Status != "open" {
			continue
		}
		if how, ok := foundKF[f.ID]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", cfg.Property, f.What, how)
		}
	}
	for id := range foundKF {
		listed := false
		for _, f := range finds {
			if f.ID == id && f.Status == "open" && f.Property == cfg.Property {
				listed = true
			}
		}
		if !listed {
			for _, h := range results {
				if h.cfg.Finding == id {
					for _, vs := range h.e.viol {
						report(h, vs[0], "finding "+id+" is not listed as open")
						break
					}
					break
				}
			}
		}
	}
	var progs []*Prog
	var notes []string
	for _, g := range groups {
		progs = append(progs, g.prog)
		notes = append(notes, g.notes...)
	}
	writeEvidence(&cfg, tier, seed, results, sh, progs, notes, loadT, buildT, time.Since(t0), nviol)
	for _, l := range violLines {
		fmt.Println(l)
	}
	if nviol > 0 {
		return 1
	}
	if natOK {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", cfg.Property, tier, time.Since(t0).Seconds())
	}
	return 0
}

func (h *hres) validate(nat *native, report func(*hres, Vector, string), count bool) {
	vs := h.e.samples
	res, end := nat.runVecs(vs, 120*time.Second)
	check := func(v Vector, r replayRes, end string) {
		switch {
		case r.Status == "ok" && sameObs(v.Obs, r.Obs):
			h.valid++
		case (r.Status == "assert" || r.Status == "panic") && count:
			v.Label = r.Label
			report(h, v, "sampled path: real code: "+r.Status+" "+r.Label)
		default:
			h.mism++
			if len(h.mismTxt) < 3 {
				js, _ := json.Marshal(v)
				rj, _ := json.Marshal(r)
				h.mismTxt = append(h.mismTxt, fmt.Sprintf("%s -> %s %s", js, rj, end))
				if *flagV {
					fmt.Fprintf(os.Stderr, "  MISMATCH %s\n", h.mismTxt[len(h.mismTxt)-1])
				}
			}
		}
	}
	if len(res) == len(vs) && end == "" {
		for i := range vs {
			check(vs[i], res[i], "")
			if i > 0 && len(h.mismTxt) > 20 {
				break
			}
		}
		return
	}
	for i := range vs {
		r, e := nat.runVecs(vs[i:i+1], 20*time.Second)
		if len(r) == 1 {
			check(vs[i], r[0], e)
		} else {
			check(vs[i], replayRes{Status: "error", Label: e}, e)
		}
	}
}

type group struct {
	pkg    string
	consts map[string]string
	yield  bool
	dir    string
	hs     []int
	ov     map[string][]byte
	notes  []string
	nat    *native
	prog   *Prog
	hp     *ssa.Package
	inits  []*Fn
}

// start builds the source seams and begins the native build.
func (g *group) start() error {
	hd := filepath.Join(*flagVerif, "harness")
	var err error
	g.ov, g.notes, err = buildOverlay(*flagRepo, hd, g.consts, g.yield, false)
	if err != nil {
		return fmt.Errorf("overlay: %v", err)
	}
	deps := map[string][]byte{}
	if g.pkg == "hbloom" {
		if deps, err = bloomHooks(*flagRepo); err != nil {
			return err
		}
	}
	if g.pkg == "hcli" {
		if deps, err = commands(*flagRepo, g.ov); err != nil {
			return err
		}
	}
	for k, v := range deps {
		g.ov[k] = v
	}
	if *flagNoNat {
		return nil
	}
	nov := map[string][]byte{}
	nv, _, err := buildOverlay(*flagRepo, hd, g.consts, g.yield, true)
	if err != nil {
		return fmt.Errorf("overlay: %v", err)
	}
	for k, v := range nv {
		nov[k] = v
	}
	for k, v := range deps {
		nov[k] = v
	}
	if g.pkg != "h" {
		f := filepath.Join(*flagRepo, "zzverif", "replay", "main.go")
		nov[f] = bytes.Replace(nov[f], []byte("/zzverif/h\""), []byte("/zzverif/h\"\n\t_ \""+modPath+"/zzverif/"+g.pkg+"\""), 1)
	}
	hk, err := pebbleHooks(*flagRepo)
	if err != nil {
		return err
	}
	for k, v := range hk {
		nov[k] = v
	}
	if hk, err = groupHooks(*flagRepo); err != nil {
		return err
	}
	for k, v := range hk {
		nov[k] = v
	}
	if err := os.MkdirAll(g.dir, 0o755); err != nil {
		return err
	}
	g.nat = startNative(*flagRepo, g.dir, nov)
	return nil
}

// load encodes the current sources.
func (g *group) load() error {
	var err error
	g.prog, err = loadProg(*flagRepo, g.ov, []string{"./zzverif/" + g.pkg, "./zzverif/model", "reflect", "fmt", "errors", "sync", "runtime", "internal/reflectlite"})
	if err != nil {
		return err
	}
	g.hp = g.prog.pkgs[modPath+"/zzverif/"+g.pkg]
	if g.hp == nil {
		return fmt.Errorf("harness package missing")
	}
	g.inits = g.prog.repoInits()
	return nil
}

func allCovered(ps []*Prog) []string {
	set := map[string]bool{}
	for _, p := range ps {
		for _, f := range p.coveredFns() {
			set[f] = true
		}
	}
	out := []string{}
	for f := range set {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func replayOne(cfg *CheckCfg, scratch, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return fatalf("%v", err)
	}
	var x struct {
		Vector Vector            `json:"vector"`
		Consts map[string]string `json:"consts"`
		Yield  bool              `json:"yield"`
		Pkg    string            `json:"pkg"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return fatalf("%v", err)
	}
	if x.Pkg == "" {
		x.Pkg = cfg.Pkg
	}
	g := &group{consts: x.Consts, pkg: x.Pkg, yield: x.Yield, dir: filepath.Join(scratch, "g")}
	if err := g.start(); err != nil {
		return fatalf("%v", err)
	}
	nat := g.nat
	if !nat.wait() {
		return fatalf("native build: %v %s", nat.err, nat.out)
	}
	ok, how := nat.confirm(x.Vector)
	fmt.Println("reproduced:", ok, how)
	if ok {
		return 1
	}
	return 0
}

func writeEvidence(cfg *CheckCfg, tier string, seed int, rs []*hres, sh *Shared, ps []*Prog, notes []string, loadT, buildT, wall time.Duration, nviol int) {
	type hj struct {
		Harness    string           `json:"harness"`
		Params     []int            `json:"params"`
		Bounds     string           `json:"bounds"`
		Paths      int64            `json:"paths"`
		Completed  int64            `json:"paths_completed"`
		Assumed    int64            `json:"paths_cut_by_assumption"`
		Pending    int              `json:"paths_left_unexplored"`
		StepCut    int64            `json:"paths_over_step_limit"`
		Unsup      map[string]int64 `json:"paths_not_encodable,omitempty"`
		Lost       int64            `json:"branches_lost_to_solver_unknown"`
		Asserts    int64            `json:"assertions_reached"`
		AssertQ    int64            `json:"assertion_queries"`
		Steps      int64            `json:"ssa_instructions"`
		Exhaustive bool             `json:"exhaustive_within_bounds"`
		Reached    map[string]int64 `json:"reachability_witnesses"`
		Vacuous    []string         `json:"witnesses_missing,omitempty"`
		Validated  int              `json:"sampled_paths_agreeing_with_real_code"`
		Mismatch   int              `json:"sampled_paths_disagreeing"`
		MismTxt    []string         `json:"disagreements,omitempty"`
		Unconf     []string         `json:"candidates_not_reproduced,omitempty"`
		Seconds    float64          `json:"seconds"`
		Finding    string           `json:"known_finding,omitempty"`
	}
	var hs []hj
	var states, trans, valid int64
	var samples []any
	exh := true
	for _, h := range rs {
		e := h.e
		x := hj{Harness: h.cfg.Fn, Params: h.params, Bounds: h.cfg.Bounds, Paths: e.paths, Completed: e.okPaths, Assumed: e.assumeCut, Pending: e.pending,
			StepCut: e.stepCut, Unsup: e.unsup, Lost: e.lost, Asserts: e.asserts, AssertQ: e.assertQ, Steps: e.steps, Reached: e.reached,
			Validated: h.valid, Mismatch: h.mism, MismTxt: h.mismTxt, Unconf: h.unconf, Seconds: h.dur.Seconds(), Finding: h.cfg.Finding}
		x.Exhaustive = e.pending == 0 && len(e.unsup) == 0 && e.lost == 0 && e.stepCut == 0
		for _, w := range h.cfg.Witness {
			if e.reached[w] == 0 {
				x.Vacuous = append(x.Vacuous, w)
				fmt.Printf("  note: witness %q not reached in %s %v\n", w, h.cfg.Fn, h.params)
			}
		}
		if !x.Exhaustive {
			exh = false
			fmt.Printf("  note: bound reduced in %s %v: pending=%d unsupported=%v lost=%d\n", h.cfg.Fn, h.params, e.pending, e.unsup, e.lost)
		}
		if h.mism > 0 {
			fmt.Printf("  note: %d sampled paths of %s %v disagree with the real code\n", h.mism, h.cfg.Fn, h.params)
		}
		hs = append(hs, x)
		states += e.paths
		trans += e.branches
		valid += int64(h.valid)
		for i, v := range e.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, v)
		}
	}
	if len(samples) == 0 {
		for _, h := range rs {
			for _, vs := range h.e.viol {
				samples = append(samples, vs[0])
			}
		}
	}
	ev := map[string]any{
		"property": cfg.Property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"exhaustive":               exh,
			"explanation":              "states = symbolic paths explored (each a set of concrete inputs described by its path condition); transitions = decisions (solver-decided branches, value choices, schedule choices) along them",
			"harnesses":                hs,
			"functions_encoded":        allCovered(ps),
			"solver":                   sh.binName,
			"solver_queries":           sh.queries,
			"solver_cache_hits":        sh.hits,
			"solver_sat":               sh.satN,
			"solver_unsat":             sh.unsatN,
			"solver_unknown":           sh.unknownN,
			"solver_fallbacks_cvc5":    sh.fallback,
			"solver_cross_checks_cvc5": sh.crossChk,
			"solver_cross_disagree":    sh.crossBad,
			"solver_seconds":           float64(sh.nanos) / 1e9,
			"encode_seconds":           loadT.Seconds(),
			"native_build_seconds":     buildT.Seconds(),
			"source_seams":             notes,
		},
		"assumptions": cfg.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	if cfg.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*flagVerif, "evidence", cfg.Property+".json"), js, 0o644)
}
