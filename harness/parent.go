package main

// Parent process: runs the children (plain and race builds), judges crashes
// and race reports, matches known findings, writes evidence and replay files.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type viol struct {
	part string
	n    int
	sig  string
	msg  string
	hist []string
	race bool
}

type result struct {
	viols []viol
	herrs []string
	stats []record
	races int
}

type knownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func runChild(bin, prop, tier string, seed int64, race bool, partName string, only int, scratch string) result {
	var res result
	name := "plain"
	if race {
		name = "race"
	}
	dir := filepath.Join(scratch, name)
	os.MkdirAll(dir, 0700)
	out := filepath.Join(dir, "out.jsonl")
	os.Remove(out)
	raceLog := filepath.Join(dir, "racelog")
	args := []string{"child", "-prop", prop, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-out", out, "-case", strconv.Itoa(only)}
	if partName != "" {
		args = append(args, "-part", partName)
	}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+raceLog, "GOTRACEBACK=all", "TMPDIR="+dir)
	so, _ := os.Create(filepath.Join(dir, "stdout"))
	se, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Dir = dir
	err := cmd.Run()
	so.Close()
	se.Close()

	done := false
	lastPart := ""
	if f, e := os.Open(out); e == nil {
		rd := bufio.NewReaderSize(f, 1<<20)
		for {
			line, e := rd.ReadBytes('\n')
			if len(line) > 0 {
				var r record
				if json.Unmarshal(line, &r) == nil {
					switch r.T {
					case "part":
						lastPart = r.Part
					case "viol":
						res.viols = append(res.viols, viol{r.Part, r.Case, r.Sig, r.Msg, r.Hist, race})
					case "herr":
						res.herrs = append(res.herrs, fmt.Sprintf("%s#%d: %s", r.Part, r.Case, r.Msg))
					case "stat":
						res.stats = append(res.stats, r)
					case "done":
						done = true
					}
				}
			}
			if e != nil {
				break
			}
		}
		f.Close()
	}
	if !done && len(res.viols) == 0 && len(res.herrs) == 0 {
		// crashed: judge the crash from stderr
		b, _ := ioutil.ReadFile(filepath.Join(dir, "stderr"))
		s := string(b)
		sig := judgeCrash(s)
		if sig != "" {
			res.viols = append(res.viols, viol{lastPart, -1, sig, "process crashed inside the code under test:\n" + dumpCut(s), nil, race})
		} else {
			res.herrs = append(res.herrs, fmt.Sprintf("child %s ended early (%v) in part %s:\n%s", name, err, lastPart, dumpCut(s)))
		}
	}
	if race {
		logs, _ := filepath.Glob(raceLog + ".*")
		seen := map[string]bool{}
		for _, l := range logs {
			b, _ := ioutil.ReadFile(l)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "WARNING: DATA RACE") {
					continue
				}
				res.races++
				sig, ok := judgeRace(blk)
				if seen[sig] {
					continue
				}
				seen[sig] = true
				if ok {
					res.viols = append(res.viols, viol{lastPart, -1, sig, blk, nil, true})
				} else {
					res.herrs = append(res.herrs, "data race in the harness itself:\n"+dumpCut(blk))
				}
			}
		}
	}
	return res
}

// judgeCrash: fatal errors (concurrent map access, unrecovered panics in other
// goroutines, stack overflow) with a frame of the code under test in the failing goroutine.
func judgeCrash(s string) string {
	i := strings.Index(s, "fatal error: ")
	j := strings.Index(s, "panic: ")
	if i < 0 && j < 0 {
		return ""
	}
	k := i
	what := "fatal"
	if k < 0 || (j >= 0 && j < k) {
		k = j
		what = "panic"
	}
	rest := s[k:]
	line := rest
	if n := strings.Index(rest, "\n"); n >= 0 {
		line = rest[:n]
	}
	if strings.Contains(line, "out of memory") || strings.Contains(line, "cannot allocate") {
		return ""
	}
	// first goroutine block after the message
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return ""
	}
	blk := rest[g+1:]
	if e := strings.Index(blk, "\n\n"); e >= 0 {
		blk = blk[:e]
	}
	for _, l := range strings.Split(blk, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, modPath) {
			return "crash:" + what + ":" + frameFunc(l)
		}
		if strings.HasPrefix(l, "main.") {
			return ""
		}
	}
	return ""
}

var lineNo = regexp.MustCompile(`:\d+`)

// judgeRace gives a signature made of the innermost frames of the code under
// test on the two conflicting accesses.
func judgeRace(blk string) (string, bool) {
	var accs []string
	cur := ""
	in := false
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") ||
			strings.HasPrefix(t, "Previous read at") || strings.HasPrefix(t, "Previous write at") ||
			strings.HasPrefix(t, "Atomic") || strings.HasPrefix(t, "Previous atomic"):
			if in {
				accs = append(accs, cur)
			}
			in = true
			cur = ""
		case strings.HasPrefix(t, "Goroutine"):
			if in {
				accs = append(accs, cur)
			}
			in = false
		case in && cur == "" && strings.Contains(t, modPath) && !strings.HasPrefix(t, "/"):
			cur = frameFunc(t)
		}
	}
	if in {
		accs = append(accs, cur)
	}
	ok := false
	for i := range accs {
		if accs[i] != "" {
			ok = true
		} else {
			accs[i] = "-"
		}
	}
	sort.Strings(accs)
	return "race:" + strings.Join(accs, "|"), ok
}

func parentMain(prop, tier string, seed int64, plain, raceBin, verif, onlyPart string, only int, replayRace int) int {
	t0 := time.Now()
	scratch, err := ioutil.TempDir("", "vmon-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	hasPlain, hasRace := false, false
	for _, p := range parts {
		if p.Prop == prop && (onlyPart == "" || onlyPart == p.Name) {
			if p.Race {
				hasRace = true
			} else {
				hasPlain = true
			}
		}
	}
	if !hasPlain && !hasRace {
		fmt.Fprintf(os.Stderr, "no monitor for %s\n", prop)
		return 2
	}
	if replayRace == 0 {
		hasRace = false
	} else if replayRace == 1 {
		hasPlain = false
	}
	var res [2]result
	var wg sync.WaitGroup
	if hasPlain {
		res[0] = runChild(plain, prop, tier, seed, false, onlyPart, only, scratch)
	}
	if hasRace {
		if raceBin == "" {
			fmt.Fprintln(os.Stderr, "race build missing")
			return 2
		}
		res[1] = runChild(raceBin, prop, tier, seed, true, onlyPart, only, scratch)
	}
	wg.Wait()

	var known knownFile
	if b, err := ioutil.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	repDir := filepath.Join(verif, "evidence", "replay", prop)
	if only < 0 {
		os.RemoveAll(repDir)
	}
	var fresh []viol
	knownHit := map[string]string{}
	for _, r := range res {
		for _, v := range r.viols {
			isKnown := false
			for _, k := range known.Findings {
				if k.Property == prop && k.Sig == v.sig {
					isKnown = true
					knownHit[k.Sig] = k.What
				}
			}
			if !isKnown {
				fresh = append(fresh, v)
			}
		}
	}
	rc := 0
	for _, k := range known.Findings {
		if k.Property == prop {
			if _, ok := knownHit[k.Sig]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, k.What, k.Sig)
			}
		}
	}
	seenSig := map[string]int{}
	for i, v := range fresh {
		rc = 1
		seenSig[v.sig]++
		if seenSig[v.sig] > 2 || len(seenSig) > 20 {
			continue
		}
		os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, fmt.Sprintf("%02d.json", i))
		rp := map[string]interface{}{"property": prop, "part": v.part, "case": v.n, "seed": seed, "tier": tier,
			"race": v.race, "sig": v.sig, "msg": v.msg, "history": v.hist,
			"how": fmt.Sprintf("cd /verif && ./run.sh %s replay %s", prop, path)}
		b, _ := json.MarshalIndent(rp, "", " ")
		ioutil.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		m := v.msg
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("  part=%s case=%d sig=%s\n  %s\n", v.part, v.n, v.sig, strings.ReplaceAll(m, "\n", "\n  "))
	}
	for _, r := range res {
		for _, h := range r.herrs {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE %s: %s\n", prop, h)
			if rc == 0 {
				rc = 3
			}
		}
	}
	if only < 0 && onlyPart == "" {
		ev := evidence(prop, tier, seed, res[:], len(fresh), time.Since(t0).Seconds(), knownHit)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		if err := ioutil.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, r := range res {
		for _, s := range r.stats {
			fmt.Printf("%s part %-22s cases=%d distinct=%d %.1fs %s\n", prop, s.Part, s.Cases, s.Dist, s.Secs, cntStr(s.Cnt))
		}
	}
	if rc == 0 {
		fmt.Printf("OK property=%s held on everything explored (tier=%s seed=%d, %.1fs)\n", prop, tier, seed, time.Since(t0).Seconds())
	}
	return rc
}

func cntStr(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(out, " ")
}

func evidence(prop, tier string, seed int64, res []result, nviol int, wall float64, known map[string]string) map[string]interface{} {
	evals, dist, races := 0, 0, 0
	var samples []string
	observed := map[string]map[string]int{}
	cases := map[string]int{}
	for _, r := range res {
		races += r.races
		for _, s := range r.stats {
			evals += s.Cases
			dist += s.Dist
			samples = append(samples, s.Samp...)
			observed[s.Part] = s.Cnt
			cases[s.Part] = s.Cases
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"(no sample recorded)"}
	}
	var kf []string
	for k := range known {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	return map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{"held on the executions produced by this run, not verified for all"}, assumptions[prop]...),
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": dist, "rule": rules[prop], "samples": samples,
			"cases_by_part": cases, "observed_events": observed, "race_reports": races, "known_findings_seen": kf,
		},
	}
}

func levelOf(prop string) string {
	switch prop {
	case "C05", "C13", "C19":
		return "fault_enumeration"
	}
	return "exploration"
}
