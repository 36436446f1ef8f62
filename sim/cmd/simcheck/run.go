package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verifsim/scn"
)

// outcome of a scenario: of all starts of the process together.
type outcome struct {
	scn     *scn.Scenario
	res     []scn.Result
	viols   []scn.Violation // all properties
	trouble string          // of the harness
	wall    time.Duration
}

const (
	wallLimit    = 100 * time.Second
	raceProperty = "C20"
)

// execute runs a scenario in a scratch directory of its own.
func (e *environ) execute(dir string, s *scn.Scenario, trace bool) *outcome {
	begin := time.Now()
	o := &outcome{scn: s}
	defer func() { o.wall = time.Since(begin) }()
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		o.trouble = err.Error()
		return o
	}
	b, err := json.Marshal(s)
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "scenario.json"), b, 0o644)
	}
	if err != nil {
		o.trouble = err.Error()
		return o
	}
	for phase := 0; phase <= len(s.Crashes); phase++ {
		r, v, trouble := e.process(dir, s, phase, trace)
		o.res = append(o.res, r)
		o.viols = append(o.viols, r.Violations...)
		if v != nil {
			o.viols = append(o.viols, *v)
			break
		}
		if trouble != "" {
			o.trouble = trouble
			break
		}
		if !r.Crashed {
			break
		}
	}
	os.RemoveAll(dir)
	return o
}

// process starts the simulator once.
func (e *environ) process(dir string, s *scn.Scenario, phase int, trace bool) (r scn.Result, crash *scn.Violation, trouble string) {
	limit := wallLimit
	if e.race {
		limit *= 3
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{"scenario.json", strconv.Itoa(phase)}
	if trace {
		args = append(args, "trace")
	}
	cmd := exec.CommandContext(ctx, e.simrun, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=3GiB", "GOTRACEBACK=all", "SIMLOG=" + os.Getenv("SIMLOG")}
	pr, pw, err := os.Pipe()
	if err != nil {
		return r, nil, err.Error()
	}
	cmd.ExtraFiles = []*os.File{pw}
	if e.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 history_size=7")
	}
	var errb limited
	cmd.Stderr = &errb
	cmd.Stdout = io.Discard
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return r, nil, err.Error()
	}
	pw.Close()
	var out bytes.Buffer
	io.Copy(&out, pr)
	pr.Close()
	err = cmd.Wait()
	if os.Getenv("RACETEXT") != "" {
		os.Stderr.WriteString(unprintable.ReplaceAllString(errb.String(), ""))
	}
	if out.Len() > 0 {
		if jerr := json.Unmarshal(out.Bytes(), &r); jerr != nil {
			return r, nil, "result: " + jerr.Error()
		}
		if r.Error != "" {
			return r, nil, r.Error
		}
		if e.race {
			r.Violations = append(r.Violations, races(errb.String())...)
		}
		return r, nil, ""
	}
	if ctx.Err() != nil {
		return r, &scn.Violation{Property: "*", Class: "hang", Msg: "the process does not come to an end"}, ""
	}
	var x *exec.ExitError
	if !errors.As(err, &x) {
		return r, nil, "no result"
	}
	text := errb.String()
	class, msg := classify(text)
	if class == "" {
		return r, nil, "simulator ended with " + err.Error() + ": " + tail(text, 3000)
	}
	r.Hash = class + msg
	if trace {
		r.Trace = strings.Split(tail(text, 6000), "\n")
	}
	return r, &scn.Violation{Property: "*", Class: class, Msg: msg}, ""
}

// limited keeps the beginning of what is written.
type limited struct{ bytes.Buffer }

func (l *limited) Write(b []byte) (int, error) {
	if n := 8<<20 - l.Len(); n > 0 {
		l.Buffer.Write(b[:min(n, len(b))])
	}
	return len(b), nil
}

var frame = regexp.MustCompile(`github\.com/anivanovic/gotit/([\w/.()*]+)`)

// faketime output starts every write with a header of 17 bytes; ignore what
// is not printable.
var unprintable = regexp.MustCompile(`\x00\x00PB.{12}`)

// races returns the reports of the race detector about memory of the client:
// both accesses are the client's.
func races(text string) []scn.Violation {
	text = unprintable.ReplaceAllString(text, "")
	var vs []scn.Violation
	seen := map[string]bool{}
	for _, r := range strings.Split(text, "WARNING: DATA RACE\n")[1:] {
		r, _, _ = strings.Cut(r, "\n==================")
		parts := strings.Split(r, "\n\n")
		if len(parts) < 2 {
			continue
		}
		a, b := accessor(parts[0]), accessor(parts[1])
		if a == "" || b == "" {
			continue
		}
		if b < a {
			a, b = b, a
		}
		msg := "unsynchronised accesses to the same memory, at least one of them a write, in " + a + " and in " + b
		if !seen[msg] {
			seen[msg] = true
			vs = append(vs, scn.Violation{Property: raceProperty, Class: "race", Msg: msg})
		}
	}
	return vs
}

// accessor returns the function of the client which makes the access of a
// stack, or "" if it is one of the simulated world or of the standard library.
func accessor(stack string) string {
	for _, l := range strings.Split(stack, "\n")[1:] {
		if strings.HasPrefix(l, "      ") || !strings.HasPrefix(l, "  ") {
			if strings.Contains(l, "failed to restore") {
				return "" // cannot be told
			}
			continue
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verifsim/") {
			return ""
		}
		if frame.MatchString(l) {
			return where(l)
		}
	}
	return ""
}

// classify tells a crash of the client from one of the simulator.
func classify(text string) (class, msg string) {
	text = unprintable.ReplaceAllString(text, "")
	first := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			first = l
			break
		}
	}
	if first == "" {
		return "", ""
	}
	switch {
	case strings.Contains(first, "sim: no progress of time"):
		// who was running?
		return "spin", "the client spins: " + where(text)
	case strings.Contains(first, "out of memory"), strings.Contains(first, "cannot allocate memory"):
		return "memory", first + where(text)
	case strings.Contains(first, "all goroutines are asleep"):
		return "", ""
	}
	// the goroutine which panicked is the first one
	g := text[strings.Index(text, first):]
	if i := strings.Index(g, "\n\ngoroutine "); i > 0 {
		g = g[i+2:]
	} else if i := strings.Index(g, "\ngoroutine "); i > 0 {
		g = g[i+1:]
	}
	if i := strings.Index(g, "\n\n"); i > 0 {
		g = g[:i]
	}
	if !frame.MatchString(g) {
		return "", ""
	}
	if h := strings.Index(g, "main."); h >= 0 {
		// a panic in the harness, called by the client
		if f := frame.FindStringIndex(g); h < f[0] {
			return "", ""
		}
	}
	first = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+`).ReplaceAllString(first, "?")
	return "crash", first + " in " + where(g)
}

func where(g string) string {
	m := frame.FindStringSubmatch(g)
	if m == nil {
		return "?"
	}
	s := m[1]
	if i := strings.LastIndex(s, "("); i > 0 && !strings.HasPrefix(s[i:], "(*") {
		s = s[:i]
	}
	return s
}

func (o *outcome) hash() string {
	h := ""
	for _, r := range o.res {
		h += r.Hash + r.Sched
	}
	return h
}

// hit returns the violation which counts for a property.
func (o *outcome) hit(property string) *scn.Violation {
	for i := range o.viols {
		if v := &o.viols[i]; v.Property == property || v.Property == "*" {
			w := *v
			w.Property = property
			return &w
		}
	}
	return nil
}

func (o *outcome) hitClass(property, class string) *scn.Violation {
	for i := range o.viols {
		if v := &o.viols[i]; (v.Property == property || v.Property == "*") && v.Class == class {
			w := *v
			w.Property = property
			return &w
		}
	}
	return nil
}
