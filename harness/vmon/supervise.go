package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// supervise runs the workload in a child process and decides what a crash, a race report or a standstill means.
func supervise(p *Prop, seed uint64, tier, evidence, replay string, workers int) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vmon")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	progress := filepath.Join(tmp, "progress")

	args := []string{"-child", "-prop", p.ID, "-progress", progress, "-workers", fmt.Sprint(workers)}
	if replay != "" {
		b, err := os.ReadFile(replay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("cannot read replay file:", err)
			return 2
		}
		seed, tier = v.Seed, v.Tier
		args = append(args, "-replay", fmt.Sprint(v.Case))
	}
	args = append(args, "-seed", fmt.Sprint(seed), "-tier", tier, "-evidence", evidence)

	start := time.Now()
	errPath := filepath.Join(tmp, "stderr")
	errFile, err := os.Create(errPath)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(self, args...)
	cmd.Stdout = os.Stdout
	cmd.Stderr = errFile
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	// The watchdog never decides anything by itself: it only makes the child show what it is doing.
	stall, limit := 90*time.Second, 780*time.Second
	if tier == "thorough" {
		stall, limit = 15*time.Minute, 6*time.Hour
	}
	var last []byte
	lastChange := time.Now()
	quit := false
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-time.After(time.Second):
			b, _ := os.ReadFile(progress)
			if !bytes.Equal(b, last) {
				last, lastChange = b, time.Now()
			}
			if !quit && (time.Since(lastChange) > stall || time.Since(start) > limit) {
				quit = true
				cmd.Process.Signal(syscall.SIGQUIT)
				lastChange = time.Now()
			} else if quit && time.Since(lastChange) > 30*time.Second {
				cmd.Process.Kill()
			}
		}
	}
	errFile.Close()
	code := 0
	if werr != nil {
		code = -1
		if ee, ok := werr.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	stderr := readCapped(errPath, 8<<20)
	sig, detail := classify(stderr, quit)
	if code == 0 || (code == 1 && sig == "") {
		if code == 0 && sig != "" {
			// e.g. a race report that did not stop the process
			code = 2
		} else {
			return code
		}
	}
	if sig == "" {
		fmt.Printf("INCONCLUSIVE property=%s child exit %d\n%s\n", p.ID, code, clip(stderr, 6000))
		return 2
	}

	c := 0
	b, _ := os.ReadFile(progress)
	for _, l := range strings.Fields(string(b)) {
		if n, err := strconv.Atoi(l); err == nil && n >= 0 {
			c = n
			break
		}
	}
	v := Violation{Property: p.ID, Seed: seed, Tier: tier, Case: c, Sig: sig, Detail: detail}
	if evidence != "" && replay == "" {
		ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{"evaluations": c, "distinct_nontrivial": 0, "rule": p.Rule,
				"samples": []string{sig + ": " + clip(detail, 1000)}},
			"wall_s": time.Since(start).Seconds(), "violations": 1}
		j, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		os.WriteFile(evidence, append(j, '\n'), 0o644)
	}
	announce(v)
	return 1
}

func readCapped(path string, max int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, max)
	n, _ := f.Read(b)
	return string(b[:n])
}

const libPath = "xconnio/wampproto-go"

var goroutineRE = regexp.MustCompile(`(?m)^goroutine \d+ .*\[([^\]]*)\]:$`)

// classify decides whether what the child printed proves a violation.
func classify(stderr string, quit bool) (sig, detail string) {
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		report := clip(stderr[i:], 6000)
		if strings.Contains(stderr[i:], libPath) {
			return "data-race", report
		}
		return "", ""
	}
	if i := strings.Index(stderr, "fatal error: all goroutines are asleep - deadlock!"); i >= 0 {
		return "deadlock", clip(stderr[i:], 6000)
	}
	if quit {
		// A standstill is a deadlock only if nothing can ever run again: every goroutine of the program waits,
		// and at least one waits for a lock inside the library.
		stacks := strings.Split(stderr, "\n\n")
		blocked := 0
		for _, s := range stacks {
			m := goroutineRE.FindStringSubmatch(s)
			if m == nil || strings.Contains(s, "runtime.gcBgMarkWorker") || strings.Contains(s, "runtime.bgsweep") ||
				strings.Contains(s, "runtime.bgscavenge") || strings.Contains(s, "runtime.forcegchelper") ||
				strings.Contains(s, "runtime.runFinalizers") || strings.Contains(s, "runtime.runfinq") ||
				strings.Contains(s, "runtime.runCleanups") {
				continue
			}
			state := strings.TrimSpace(strings.Split(m[1], ",")[0])
			switch {
			case strings.HasPrefix(state, "sync.") || state == "semacquire":
				if strings.Contains(s, libPath) {
					blocked++
				}
			case strings.HasPrefix(state, "chan ") || strings.HasPrefix(state, "select"):
			case state == "idle" || strings.Contains(state, "GC ") || strings.Contains(state, "force gc") ||
				strings.Contains(state, "finalizer") || strings.Contains(state, "cleanup"):
			default:
				return "", ""
			}
		}
		if blocked > 0 {
			return "deadlock", clip(stderr, 6000)
		}
		return "", ""
	}
	for _, mark := range []string{"fatal error: ", "\npanic: ", "runtime error: ", "goroutine stack exceeds"} {
		i := strings.Index("\n"+stderr, mark)
		if i < 0 {
			continue
		}
		if strings.Contains(stderr, libPath) {
			return "crash", clip(stderr[max(0, i-1):], 6000)
		}
	}
	return "", ""
}
