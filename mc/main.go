// Command mc is an explicit model checker for go-ipld-git: it enumerates every
// execution of small closed scenarios within a bound, runs the real code on each,
// and compares what it observes with a reference model of git objects.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
)

// A Property is what one check decides.
type Property struct {
	ID        string
	Scenarios []*Scenario
	Bounds    map[string]any // the finite domains, for the evidence
	Assume    []string
	MaxStack  int
	Shards    int // processes that share the scenarios, for code whose state is the process
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// The executions of a scenario are divided among shardN processes; this one takes
// those whose number is shardI modulo that.
var shardI, shardN = 0, 1

var (
	tier    = "quick"
	realOut *os.File
	known   []finding
)

func thorough() bool { return tier == "thorough" }

// pick returns q in the quick tier and t in the thorough one.
func pick[T any](q, t T) T {
	if thorough() {
		return t
	}
	return q
}

type scResult struct {
	Name        string           `json:"name"`
	Desc        string           `json:"desc"`
	Bound       int              `json:"deviation_bound"`
	Complete    bool             `json:"complete"`
	Executions  int64            `json:"executions"`
	ByLevel     []int64          `json:"executions_by_deviations"`
	States      int64            `json:"distinct_states"`
	Transitions int64            `json:"transitions"`
	Outcomes    map[string]int64 `json:"outcomes"`
	MaxPoints   int              `json:"max_choice_points"`
	Diverged    int64            `json:"executions_that_did_not_repeat"`
	WallS       float64          `json:"wall_s"`
	Samples     []string         `json:"-"`
}

type result struct {
	Scenarios []scResult
	Samples   []string
	Known     []string
	Fail      *jsonFailure
}

type jsonFailure struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Choices  []uint32 `json:"choices"`
	InputHex string   `json:"input_hex"`
	Input    string   `json:"input_text"`
	Message  string   `json:"message"`
	Repro    string   `json:"reproduced"`
	Tier     string   `json:"tier"`
	How      string   `json:"how_to_replay"`
}

func toJSONFailure(prop string, f *failure) *jsonFailure {
	in := f.input
	hx := ""
	if len(in) <= 1<<16 {
		hx = hex.EncodeToString(in)
	}
	return &jsonFailure{Property: prop, Scenario: f.scenario, Choices: f.choices, InputHex: hx,
		Input: fmt.Sprintf("%.2000q", in), Message: f.msg, Tier: tier}
}

func main() {
	var (
		prop     = flag.String("property", "", "property id")
		budget   = flag.Duration("budget", 0, "stop exploring after this long")
		evidence = flag.String("evidence", "", "evidence file to write")
		replayD  = flag.String("replaydir", "", "where replay files go")
		knownF   = flag.String("known", "", "known findings file")
		seed     = flag.Int("seed", 1, "recorded in the evidence; nothing here is random")
		child    = flag.String("child", "", "internal: result file")
		slots    = flag.String("slots", "", "internal: shared memory file")
		only     = flag.String("scenario", "", "explore only this scenario")
		replay   = flag.String("replay", "", "run the execution described by this replay file")
		choices  = flag.String("choices", "", "internal: run one execution of -scenario")
		par      = flag.Int("par", ncpu(), "workers")
		race     = flag.Bool("race", false, "internal: explore the scenarios for the race detector")
		list     = flag.Bool("list", false, "list properties and scenarios")
	)
	flag.IntVar(&shardI, "shard", 0, "internal: which share of the executions")
	flag.IntVar(&shardN, "shards", 1, "internal: number of shares")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.Parse()
	realOut = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the library may print; only verdicts go to standard output
	}
	if *list {
		for _, id := range propIDs() {
			for _, s := range properties[id].Scenarios {
				fmt.Fprintln(realOut, id, s.Name, s.Bound, s.Thorough, s.Desc)
			}
		}
		return
	}
	if *knownF != "" {
		loadFindings(*knownF, *prop)
	}
	p := properties[*prop]
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		die(err)
		var f jsonFailure
		die(json.Unmarshal(b, &f))
		tier = f.Tier
		p = properties[f.Property]
		if p == nil {
			die(fmt.Errorf("unknown property %q", f.Property))
		}
		loadFindingsFor(*knownF, f.Property)
		sc := scenario(p, f.Scenario)
		if bin := os.Getenv("MC_RACE_BIN"); sc.Race && bin != "" && !*race {
			die(syscall.Exec(bin, append(os.Args, "-race"), append(os.Environ(), "GORACE=halt_on_error=1 exitcode=1")))
		}
		x, err := runOne(sc, f.Choices, nil)
		fmt.Fprintf(realOut, "input: %.4000q\n", x.input)
		if err != nil {
			fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n%s\n", f.Property, *replay, printable(err.Error()))
			os.Exit(1)
		}
		fmt.Fprintln(realOut, "held")
		return
	}
	if p == nil {
		die(fmt.Errorf("unknown property %q", *prop))
	}
	if *child != "" {
		runChild(p, *child, *slots, *only, *choices, *budget, *par, *race)
		return
	}
	os.Exit(runParent(p, *evidence, *replayD, *knownF, *only, *budget, *par, *seed))
}

func propIDs() []string {
	var ids []string
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(2)
	}
}

func scenario(p *Property, name string) *Scenario {
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	die(fmt.Errorf("no scenario %q", name))
	return nil
}

func parseChoices(s string) []uint32 {
	var out []uint32
	if s == "-" {
		return out
	}
	for _, f := range strings.Split(s, ",") {
		n, err := strconv.ParseUint(f, 10, 32)
		die(err)
		out = append(out, uint32(n))
	}
	return out
}

func fmtChoices(c []uint32) string {
	if len(c) == 0 {
		return "-"
	}
	var s []string
	for _, v := range c {
		s = append(s, strconv.FormatUint(uint64(v), 10))
	}
	return strings.Join(s, ",")
}

func writeResult(path string, r *result) {
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(path+".tmp", b, 0o644))
	must(os.Rename(path+".tmp", path))
}

// runChild explores; it runs in its own process because some failures end it.
func runChild(p *Property, out, slots, only, choices string, budget time.Duration, par int, race bool) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "mc: harness error: %v\n%s\n", r, debug.Stack())
			os.Exit(3)
		}
	}()
	openSlots(slots)
	if p.MaxStack > 0 {
		debug.SetMaxStack(p.MaxStack)
	}
	debug.SetMemoryLimit(20 << 30)
	res := &result{}
	if choices != "" {
		sc := scenario(p, only)
		n := 5
		if sc.Serial {
			n = 3
		}
		fails := 0
		hang := time.AfterFunc(hangLimit, func() {
			// it did not end before, and it does not now
			f := &failure{scenario: sc.Name, choices: parseChoices(choices), msg: fmt.Sprintf("an execution did not end within %v", hangLimit)}
			res := &result{Fail: toJSONFailure(p.ID, f)}
			res.Fail.Repro = "yes"
			writeResult(out, res)
			os.Exit(0)
		})
		for i := 0; i < n; i++ {
			hang.Reset(hangLimit)
			x, err := runOne(sc, parseChoices(choices), nil)
			if err != nil {
				fails++
				res.Fail = toJSONFailure(p.ID, &failure{sc.Name, x.choices(), x.input, err.Error()})
			}
		}
		if fails != n {
			if res.Fail != nil {
				res.Fail.Repro = "no"
			}
		} else {
			res.Fail.Repro = "yes"
		}
		writeResult(out, res)
		return
	}
	deadline := time.Now().Add(budget)
	if budget == 0 {
		deadline = time.Now().Add(24 * time.Hour)
	}
	for i, sc := range p.Scenarios {
		if only != "" && sc.Name != only {
			continue
		}
		if sc.Only != "" && sc.Only != tier || sc.Race != race {
			continue
		}
		slotMem[(maxSlots-1)*slotSize+64] = byte(i)
		e := &explorer{sc: sc, bound: pick(sc.Bound, sc.Thorough), deadline: deadline}
		e.hung = func(w *worker) {
			pre := readSlots(w.slot[:slotSize:slotSize])
			f := &failure{scenario: sc.Name, msg: fmt.Sprintf("an execution did not end within %v", hangLimit)}
			if len(pre) > 0 {
				f.choices = pre[0]
			}
			res.Fail = toJSONFailure(p.ID, f)
			writeResult(out, res)
			os.Exit(0)
		}
		t0 := time.Now()
		e.explore(par)
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s %s: %d executions, %d states, %v, levels %v, outcomes %s\n", p.ID, sc.Name, e.execs.Load(), e.stateCount(), time.Since(t0), e.byLevel, firstN(fmt.Sprint(e.outcomes), 300))
		}
		res.Scenarios = append(res.Scenarios, scResult{sc.Name, sc.Desc, e.bound, !e.capped && e.fail == nil, e.execs.Load(), e.byLevel,
			e.stateCount(), e.transitions.Load(), e.outcomes, e.maxPts, e.diverged.Load(), time.Since(t0).Seconds(), nil})
		res.Samples = append(res.Samples, e.samples...)
		if e.fail != nil {
			res.Fail = toJSONFailure(p.ID, e.fail)
			break
		}
	}
	res.Known = knownHits()
	writeResult(out, res)
}

type childEnd struct {
	res   *result
	crash string // non-empty if the process died without a result
	slots []byte
}

func spawn(p *Property, dir, knownF, only, choices string, budget time.Duration, par int, race bool) childEnd {
	return spawnShard(p, dir, knownF, only, choices, budget, par, race, shardI, shardN)
}

// spawnAll runs all shares at once and puts their results together.
func spawnAll(p *Property, dir, knownF, only string, budget time.Duration, par int, race bool) childEnd {
	if p.Shards < 2 || race {
		return spawn(p, dir, knownF, only, "", budget, par, race)
	}
	n := max(1, min(p.Shards, ncpu()))
	ends := make([]childEnd, n)
	var wg sync.WaitGroup
	for i := range ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ends[i] = spawnShard(p, dir, knownF, only, "", budget, 1, race, i, n)
		}()
	}
	wg.Wait()
	all := &result{}
	for i, e := range ends {
		if e.crash != "" || e.res.Fail != nil {
			shardI, shardN = i, n // this one is looked into
			return e
		}
		for _, s := range e.res.Scenarios {
			found := false
			for k := range all.Scenarios {
				t := &all.Scenarios[k]
				if t.Name != s.Name {
					continue
				}
				found = true
				t.Complete = t.Complete && s.Complete
				t.Executions += s.Executions
				t.States += s.States
				t.Transitions += s.Transitions
				t.Diverged += s.Diverged
				t.MaxPoints = max(t.MaxPoints, s.MaxPoints)
				t.WallS = max(t.WallS, s.WallS)
				for j, v := range s.ByLevel {
					if j < len(t.ByLevel) {
						t.ByLevel[j] += v
					} else {
						t.ByLevel = append(t.ByLevel, v)
					}
				}
				for o, v := range s.Outcomes {
					t.Outcomes[o] += v
				}
			}
			if !found {
				all.Scenarios = append(all.Scenarios, s)
			}
		}
		if i == 0 {
			all.Samples = e.res.Samples
		}
		all.Known = e.res.Known
	}
	return childEnd{res: all}
}

func spawnShard(p *Property, dir, knownF, only, choices string, budget time.Duration, par int, race bool, si, sn int) childEnd {
	out := filepath.Join(dir, fmt.Sprintf("result%d.json", si))
	slots := filepath.Join(dir, fmt.Sprintf("slots%d", si))
	os.Remove(out)
	die(os.WriteFile(slots, make([]byte, slotSize*maxSlots), 0o644))
	args := []string{"-child", out, "-slots", slots, "-property", p.ID, "-tier", tier, "-scenario", only, "-choices", choices,
		"-budget", budget.String(), "-par", strconv.Itoa(par), "-known", knownF, "-shard", strconv.Itoa(si), "-shards", strconv.Itoa(sn)}
	bin := os.Args[0]
	if race {
		bin = os.Getenv("MC_RACE_BIN")
		args = append(args, "-race")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 16}
	if os.Getenv("MC_VERBOSE") != "" {
		cmd.Stderr = os.Stderr
	}
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		die(err)
	}
	if err == nil {
		b, rerr := os.ReadFile(out)
		die(rerr)
		r := &result{}
		die(json.Unmarshal(b, r))
		return childEnd{res: r}
	}
	if ee.ExitCode() == 3 {
		fmt.Fprint(os.Stderr, stderr.String())
		os.Exit(2)
	}
	b, _ := os.ReadFile(slots)
	msg := stderr.String()
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	return childEnd{crash: fmt.Sprintf("the process died (%v): %s", err, msg), slots: b}
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if m := l.n - l.w.Len(); m > 0 {
		if m > len(p) {
			m = len(p)
		}
		l.w.Write(p[:m])
	}
	return len(p), nil
}

func (p *Property) hasRace() bool {
	for _, s := range p.Scenarios {
		if s.Race {
			return os.Getenv("MC_RACE_BIN") != ""
		}
	}
	return false
}

// settle explores the scenarios that one binary can run, and makes sure of a
// failure before it is reported. It returns -1 as verdict, or an exit code if there
// is none.
func settle(p *Property, dir, knownF, only string, budget time.Duration, par int, race bool) (*result, *jsonFailure, int) {
	end := spawnAll(p, dir, knownF, only, budget, par, race)
	var fail *jsonFailure
	if end.res != nil {
		fail = end.res.Fail
	}
	confirmed := false
	switch {
	case end.crash != "":
		// name the execution that took the process down
		sc := p.Scenarios[int(end.slots[(maxSlots-1)*slotSize+64])]
		cands := readSlots(end.slots)
		for _, c := range cands {
			if again := spawn(p, dir, knownF, sc.Name, fmtChoices(c), 0, par, race); again.crash != "" {
				fail = &jsonFailure{Property: p.ID, Scenario: sc.Name, Choices: c, Message: again.crash, Tier: tier, Repro: "yes, in a process of its own"}
				confirmed = true
				break
			} else if again.res.Fail != nil && again.res.Fail.Repro == "yes" {
				fail, confirmed = again.res.Fail, true
				break
			}
		}
		if !confirmed && race && strings.Contains(end.crash, "DATA RACE") {
			// the race detector reports nothing that did not happen
			fail = &jsonFailure{Property: p.ID, Scenario: sc.Name, Message: end.crash, Tier: tier, Repro: "seen once; a reported race is real"}
			if len(cands) > 0 {
				fail.Choices = cands[0]
			}
			confirmed = true
		}
		if !confirmed {
			if again := spawn(p, dir, knownF, sc.Name, "", budget, par, race); again.crash != "" || again.res.Fail != nil {
				fail = &jsonFailure{Property: p.ID, Scenario: sc.Name, Message: end.crash, Tier: tier, Repro: "yes, exploring the scenario again; no execution does it alone"}
				if len(cands) > 0 {
					fail.Choices = cands[0]
				}
				confirmed = true
			} else {
				fmt.Fprintln(os.Stderr, "mc: died once, and not again:", end.crash)
				return nil, nil, 2
			}
		}
	case fail != nil:
		again := spawn(p, dir, knownF, fail.Scenario, fmtChoices(fail.Choices), 0, par, race)
		switch {
		case again.crash != "":
			confirmed, fail.Repro = true, "yes, and it ends the process"
		case again.res.Fail != nil && again.res.Fail.Repro == "yes":
			confirmed, fail.Repro = true, "yes, 5 of 5 in a process of its own"
		default:
			// not by itself: is it the code under test carrying something over
			// from other executions?
			t1 := time.Now()
			for i := 0; i < 6 && !confirmed && time.Since(t1) < 5*time.Minute; i++ {
				e2 := spawn(p, dir, knownF, fail.Scenario, "", budget, pickInt(i == 0, 1, par), race)
				if e2.crash != "" || e2.res.Fail != nil {
					confirmed = true
					fail.Repro = "yes, exploring the scenario again; the execution alone does not, so what happened before or beside it matters"
				}
			}
		}
		if !confirmed {
			fmt.Fprintln(os.Stderr, "mc: failed once, and not again:", fail.Message)
			fail = nil
		}
	}

	return end.res, fail, -1
}

func runParent(p *Property, evidence, replayD, knownF, only string, budget time.Duration, par, seed int) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc")
	die(err)
	defer os.RemoveAll(dir)

	res, fail, code := settle(p, dir, knownF, only, budget, par, false)
	if code >= 0 {
		return code
	}
	if fail == nil && p.hasRace() {
		more, f, code := settle(p, dir, knownF, only, budget, par, true)
		if code >= 0 {
			return code
		}
		fail = f
		if more != nil {
			res.Scenarios = append(res.Scenarios, more.Scenarios...)
			res.Samples = append(res.Samples, more.Samples...)
		}
	}
	if res == nil {
		res = &result{}
	}
	writeEvidence(p, evidence, res, fail, time.Since(t0), seed)
	for _, k := range res.Known {
		fmt.Fprintf(realOut, "KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if fail == nil {
		var n int64
		done := true
		for _, s := range res.Scenarios {
			n += s.Executions
			done = done && s.Complete
		}
		fmt.Fprintf(realOut, "OK property=%s tier=%s executions=%d complete=%v wall=%.1fs\n", p.ID, tier, n, done, time.Since(t0).Seconds())
		return 0
	}
	if replayD != "" {
		die(os.MkdirAll(replayD, 0o755))
	}
	path := filepath.Join(replayD, p.ID+".json")
	fail.How = "bash /verif/check.sh " + p.ID + " --replay " + path
	b, err := json.MarshalIndent(fail, "", " ")
	die(err)
	die(os.WriteFile(path, append(b, '\n'), 0o644))
	fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", p.ID, path)
	fmt.Fprintf(realOut, "scenario %s, choices %v\n%s\n", fail.Scenario, fail.Choices, printable(firstN(fail.Message, 3000)))
	return 1
}

// printable is text that can be read by whatever reads the output.
func printable(s string) string {
	var b strings.Builder
	for i, w := 0, 0; i < len(s); i += w {
		var r rune
		r, w = utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || r < ' ' && r != '\n' && r != '\t' || r == 0x7f {
			fmt.Fprintf(&b, "\\x%02x", s[i])
		} else {
			b.WriteString(s[i : i+w])
		}
	}
	return b.String()
}

func pickInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeEvidence(p *Property, path string, res *result, fail *jsonFailure, wall time.Duration, seed int) {
	if path == "" {
		return
	}
	var states, trans, execs int64
	done := fail == nil
	outs := map[string]int64{}
	for _, s := range res.Scenarios {
		states += s.States
		trans += s.Transitions
		execs += s.Executions
		done = done && s.Complete
		for k, v := range s.Outcomes {
			outs[s.Name+": "+k] += v
		}
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	viol := 0
	if fail != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"samples": samples, "exhaustive": done, "scenarios": res.Scenarios,
			"distinct_outcomes": len(outs), "outcomes": outs, "bounds": p.Bounds,
			"known_findings": res.Known,
			"counting":       "states: distinct contents of inputs, nodes and environment states reached; transitions: edges of the choice tree; traces: complete executions of the real code compared with the reference model",
		},
		"assumptions": append([]string{"values outside the enumerated alphabets and lengths, and executions with more deviations than the bound, are not covered"}, p.Assume...),
		"wall_s":      wall.Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	die(os.MkdirAll(filepath.Dir(path), 0o755))
	die(os.WriteFile(path, append(b, '\n'), 0o644))
}
