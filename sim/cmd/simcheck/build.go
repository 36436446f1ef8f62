package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"
)

// env is where everything is.
type environ struct {
	verif, repo string
	build       string // .build, not committed
	scratch     string // of this process, removed at the end
	simrun      string
	race        bool // built with the race detector
	buildS      float64
	reduced     []string // parts of the harness which do not build with this tree
}

func newEnviron() *environ {
	e := &environ{verif: os.Getenv("VERIF_DIR"), repo: os.Getenv("REPO_DIR")}
	if e.verif == "" {
		e.verif = "/verif"
	}
	if e.repo == "" {
		e.repo = "/repo"
	}
	e.build = filepath.Join(e.verif, ".build")
	var err error
	if e.scratch, err = os.MkdirTemp("", "gotit-sim-"); err != nil {
		fail("%v", err)
	}
	return e
}

func (e *environ) cleanup() {
	if strings.Contains(e.scratch, "gotit-sim-") {
		os.RemoveAll(e.scratch)
	}
}

func run(dir string, env []string, name string, args ...string) error {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, tail(out.String(), 4000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// makeSimrun builds the simulator with the client as it is in the repository
// now.
func (e *environ) makeSimrun() error {
	begin := time.Now()
	if err := os.MkdirAll(e.build, 0o755); err != nil {
		return err
	}
	lock, err := os.OpenFile(filepath.Join(e.build, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return err
	}
	sim := filepath.Join(e.verif, "sim")
	ov := filepath.Join(e.build, "ov")
	env := []string{"GOFLAGS=-mod=mod", "GOCACHE=" + filepath.Join(e.build, "gocache"), "GOWORK=off", "CGO_ENABLED=0"}
	gen := filepath.Join(e.scratch, "simgen")
	if err := run(sim, env, "go", "build", "-o", gen, "./cmd/simgen"); err != nil {
		return err
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	os.RemoveAll(ov)
	if err := run(sim, env, gen, "-goroot", strings.TrimSpace(string(root)), "-repo", e.repo, "-out", ov); err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("module verifsim\n")
	path := "github.com/anivanovic/gotit"
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = f[1]
			continue
		}
		b.WriteString(l + "\n")
	}
	fmt.Fprintf(&b, "require %s v0.0.0\nreplace %s => %s\n", path, path, e.repo)
	modfile := filepath.Join(e.build, "sim.mod")
	if err := os.WriteFile(modfile, []byte(b.String()), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(e.build, "sim.sum"), sum, 0o644); err != nil {
		return err
	}
	e.simrun = filepath.Join(e.scratch, "simrun")
	var first error
	// A tree whose inner packages have another interface than the harness for
	// single parts expects is still judged by whole downloads.
	for _, tags := range []string{"faketime", "faketime,noconn", "faketime,noannounce", "faketime,noconn,noannounce"} {
		args := []string{"build", "-modfile", modfile, "-tags", tags, "-overlay", filepath.Join(ov, "overlay.json"), "-o", e.simrun}
		if e.race {
			// the client, its dependencies and the standard library are
			// instrumented, the simulated world is not
			env[len(env)-1] = "CGO_ENABLED=1"
			if !slices.Contains(env, "GOEXPERIMENT=nosizespecializedmalloc") {
				// packages which are not instrumented would allocate behind
				// the detector's back
				env = append([]string{"GOEXPERIMENT=nosizespecializedmalloc"}, env...)
			}
			args = append(args, "-race", "-gcflags=verifsim/cmd/simrun=-race=false", "-gcflags=verifsim/scn=-race=false")
		}
		err = run(sim, env, "go", append(args, "./cmd/simrun")...)
		if err == nil {
			e.buildS = time.Since(begin).Seconds()
			if strings.Contains(tags, "noconn") {
				e.reduced = append(e.reduced, "conn")
			}
			if strings.Contains(tags, "noannounce") {
				e.reduced = append(e.reduced, "announce")
			}
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return first
}
