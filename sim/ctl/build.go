package main

import (
	"fmt"
	"go/build"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type builder struct {
	verif, repo, work string
	in                *instr
	took              map[string]float64
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GORACE=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "CGO_ENABLED=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "CGO_ENABLED=1")
}

func runCmd(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	out, err := c.CombinedOutput()
	return string(out), err
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func (b *builder) instrument(level int) error {
	t0 := time.Now()
	defer func() { b.took["instrument"] += time.Since(t0).Seconds() }()
	for _, d := range []string{"gse", "cedar"} {
		if err := os.RemoveAll(filepath.Join(b.work, d)); err != nil {
			return err
		}
	}
	in := newInstr()
	in.level = level
	ctx := build.Default
	ctx.BuildTags = []string{"ne", "race"}
	ctx.CgoEnabled = true
	out, err := runCmd(b.repo, goEnv(), "go", "list", "-m", "-f", "{{.Dir}}", cedarPath)
	cdir := strings.TrimSpace(out)
	if err != nil || cdir == "" {
		return fmt.Errorf("locating %s: %v %s", cedarPath, err, out)
	}
	if err := in.load(cedarPath, cdir, filepath.Join(b.work, "cedar"), &ctx); err != nil {
		return err
	}
	in.order = append(in.order, in.pkgs[cedarPath])
	for _, p := range []string{"", "/hmm", "/hmm/pos", "/hmm/idf", "/hmm/segment", "/tools/server"} {
		if err := in.closure(gsePath+p, b.repo, b.work, &ctx); err != nil {
			return err
		}
	}
	in.check()
	for _, p := range in.order {
		if err := in.rewrite(p); err != nil {
			return err
		}
	}
	b.in = in
	if err := os.WriteFile(filepath.Join(b.work, "gse", "vsim_embed.go"), []byte(in.embedSetter(b.repo)), 0o644); err != nil {
		return err
	}
	mod := "module " + gsePath + "\n\ngo 1.21\n\nrequire (\n\t" + cedarPath + " v0.0.0\n\tverif.local/rt v0.0.0\n)\n"
	if err := os.WriteFile(filepath.Join(b.work, "gse", "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	mod = "module " + cedarPath + "\n\ngo 1.21\n\nrequire verif.local/rt v0.0.0\n"
	if err := os.WriteFile(filepath.Join(b.work, "cedar", "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	return in.writeSites(b.work)
}

// prepare makes the work directory and everything in it that does not depend
// on the code under test.
func (b *builder) prepare() error {
	sim := filepath.Join(b.verif, "sim")
	for _, d := range []string{"rt", "worker"} {
		if err := copyTree(filepath.Join(sim, d), filepath.Join(b.work, d)); err != nil {
			return err
		}
	}
	mod := "module verif.local/worker\n\ngo 1.21\n\nrequire (\n\t" + gsePath + " v0.0.0\n\t" + cedarPath + " v0.0.0\n\tverif.local/rt v0.0.0\n)\n\nreplace " +
		gsePath + " => ../gse\n\nreplace " + cedarPath + " => ../cedar\n\nreplace verif.local/rt => ../rt\n"
	if err := os.WriteFile(filepath.Join(b.work, "worker", "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	// sync.Pool without pooling: what it hands out depends on the real
	// processor a goroutine runs on, and its hand-overs hide races.
	out, err := runCmd(b.work, goEnv(), "go", "env", "GOROOT")
	if err != nil {
		return fmt.Errorf("go env: %v %s", err, out)
	}
	root := strings.TrimSpace(out)
	pool := "package sync\n\nimport \"unsafe\"\n\n// Pool does not pool (simulation build).\ntype Pool struct {\n\tnoCopy noCopy\n\tNew    func() any\n}\n\n" +
		"// Put drops x.\nfunc (p *Pool) Put(x any) {}\n\n// Get makes a new value.\nfunc (p *Pool) Get() any {\n\tif p.New != nil {\n\t\treturn p.New()\n\t}\n\treturn nil\n}\n\n" +
		"var poolRaceHash [128]uint64\n\nfunc poolRaceAddr(x any) unsafe.Pointer {\n\tptr := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])\n\th := uint32((uint64(uint32(ptr)) * 0x85ebca6b) >> 16)\n\treturn unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])\n}\n"
	pf := filepath.Join(b.work, "pool.go.txt")
	if err := os.WriteFile(pf, []byte(pool), 0o644); err != nil {
		return err
	}
	ov := fmt.Sprintf("{\"Replace\": {%q: %q}}", filepath.Join(root, "src/sync/pool.go"), pf)
	return os.WriteFile(filepath.Join(b.work, "overlay.json"), []byte(ov), 0o644)
}

func (b *builder) args(race bool) []string {
	a := []string{"build", "-trimpath", "-tags", "ne", "-overlay", filepath.Join(b.work, "overlay.json")}
	if race {
		a = append(a, "-race")
	}
	return a
}

func (b *builder) bin(race bool) string {
	if race {
		return filepath.Join(b.work, "worker.race")
	}
	return filepath.Join(b.work, "worker.plain")
}

// build instruments /repo and compiles the worker.
func (b *builder) build(race bool) error {
	if b.took == nil {
		b.took = map[string]float64{}
	}
	if err := b.prepare(); err != nil {
		return err
	}
	// the standard library part compiles while the instrumenter works
	t0 := time.Now()
	warm := make(chan struct{})
	go func() {
		defer close(warm)
		a := append(b.args(race), "fmt", "bufio", "bytes", "encoding/json", "encoding/base64", "flag", "net/http", "net/http/httptest", "regexp", "sort", "strconv", "strings",
			"unicode", "math", "math/rand", "log", "os", "io", "runtime/debug", "time", "reflect", "io/ioutil", "context")
		runCmd(filepath.Join(b.work, "rt"), goEnv(), "go", a...)
	}()
	var last error
	for level := 0; level < 3; level++ {
		if err := b.instrument(level); err != nil {
			<-warm
			return fmt.Errorf("instrument: %v", err)
		}
		<-warm
		a := append(b.args(race), "-o", b.bin(race), ".")
		out, err := runCmd(filepath.Join(b.work, "worker"), goEnv(), "go", a...)
		if err == nil {
			b.took["build"] += time.Since(t0).Seconds()
			b.in.stats["level"] = level
			return nil
		}
		if len(out) > 4000 {
			out = out[:4000]
		}
		last = fmt.Errorf("build (instrumentation level %d): %v\n%s", level, err, out)
		fmt.Fprintln(os.Stderr, last)
	}
	return last
}
