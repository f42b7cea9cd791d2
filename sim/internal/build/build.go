package build

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// GoCmd is the only toolchain the runtime patches are written for.
const GoCmd = "/usr/local/go/bin/go"

// Workers is a built pair of simulated processes.
type Workers struct {
	Dir   string
	Plain string
	Race  string
	Wasm  string // the browser module, as it is
	Old   string // plain, of the released version
	Sites []Site
}

func env(race bool) []string {
	e := []string{}
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOFLAGS", "GOWORK", "GOTOOLCHAIN", "GOPROXY", "GOOS", "GOARCH", "CGO_ENABLED", "GODEBUG", "GOEXPERIMENT", "GOGC", "GOMAXPROCS", "GOMEMLIMIT":
			continue
		}
		e = append(e, kv)
	}
	e = append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	if race {
		e = append(e, "CGO_ENABLED=1")
	} else {
		e = append(e, "CGO_ENABLED=0")
	}
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	return e
}

func run(dir string, e []string, args ...string) (string, error) {
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	c.Env = e
	var out, serr bytes.Buffer
	c.Stdout, c.Stderr = &out, &serr
	if err := c.Run(); err != nil {
		return "", fmt.Errorf("%s: %v\n%s%s", strings.Join(args, " "), err, out.String(), serr.String())
	}
	return out.String(), nil
}

var requireRe = regexp.MustCompile(`(?m)^\s*(?:require\s+)?(github\.com/shellyln/[a-z-]+)\s+(v\S+)`)

// Build instruments repo and builds the workers in dir (created; the caller
// removes it).
func Build(verif, repo, dir string, plain, race bool) (*Workers, error) {
	w := &Workers{Dir: dir}
	e := env(false)
	goroot, err := run("/", e, GoCmd, "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	goroot = strings.TrimSpace(goroot)
	modcache, err := run("/", e, GoCmd, "env", "GOMODCACHE")
	if err != nil {
		return nil, err
	}
	modcache = strings.TrimSpace(modcache)

	overlay, err := WriteOverlay(goroot, filepath.Join(dir, "overlay"))
	if err != nil {
		return nil, err
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	skip := func(rel string) bool {
		return rel == "wasm" || rel == "web" || rel == "_assets" || rel == "examples" || rel == "main.go" || rel == "version.go"
	}
	if err := Instrument(repo, filepath.Join(dir, "repo"), "repo", skip, &w.Sites); err != nil {
		return nil, err
	}
	var reqs, repls string
	deps := requireRe.FindAllStringSubmatch(string(gomod), -1)
	sort.Slice(deps, func(i, j int) bool { return deps[i][1] < deps[j][1] })
	for _, m := range deps {
		name := m[1][strings.LastIndex(m[1], "/")+1:]
		src := filepath.Join(modcache, m[1]+"@"+m[2])
		if err := Instrument(src, filepath.Join(dir, "dep_"+name), name, func(rel string) bool {
			return rel == "wasm" || rel == "web" || rel == "main.go" || rel == "version.go"
		}, &w.Sites); err != nil {
			return nil, err
		}
		reqs += fmt.Sprintf("\t%s %s\n", m[1], m[2])
		repls += fmt.Sprintf("replace %s => ../dep_%s\n", m[1], name)
	}
	if len(deps) == 0 {
		return nil, errors.New("no dependencies found in go.mod")
	}
	for _, sub := range []string{"simrt", "worker", "sim/plan"} {
		ents, err := os.ReadDir(filepath.Join(verif, sub))
		if err != nil {
			return nil, err
		}
		for _, en := range ents {
			if !en.Type().IsRegular() {
				continue
			}
			b, err := os.ReadFile(filepath.Join(verif, sub, en.Name()))
			if err != nil {
				return nil, err
			}
			if err := writeFile(filepath.Join(dir, sub, en.Name()), b); err != nil {
				return nil, err
			}
		}
	}
	if err := writeFile(filepath.Join(dir, "sim", "go.mod"), []byte("module verif\n\ngo 1.23\n")); err != nil {
		return nil, err
	}
	mod := `module simworker

go 1.23

require (
	github.com/shellyln/go-open-soql-parser v0.0.0
	simrt v0.0.0
	verif v0.0.0
` + reqs + `)

replace github.com/shellyln/go-open-soql-parser => ../repo
replace simrt => ../simrt
replace verif => ../sim
` + repls
	if err := writeFile(filepath.Join(dir, "worker", "go.mod"), []byte(mod)); err != nil {
		return nil, err
	}
	var ds strings.Builder
	for _, s := range w.Sites {
		if s.Mod == "repo" {
			ds.WriteByte('0')
		} else {
			ds.WriteByte('1')
		}
	}
	if err := writeFile(filepath.Join(dir, "worker", "sites.go"), []byte("package main\n\nconst depSites = \""+ds.String()+"\"\n")); err != nil {
		return nil, err
	}
	var wg sync.WaitGroup
	errs := make([]error, 2)
	if plain {
		w.Plain = filepath.Join(dir, "worker.plain")
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, errs[0] = run(filepath.Join(dir, "worker"), env(false), GoCmd, "build", "-trimpath", "-overlay", overlay, "-o", w.Plain, ".")
		}()
	}
	if race {
		w.Race = filepath.Join(dir, "worker.race")
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, errs[1] = run(filepath.Join(dir, "worker"), env(true), GoCmd, "build", "-race", "-trimpath", "-overlay", overlay, "-o", w.Race, ".")
		}()
	}
	wg.Wait()
	return w, errors.Join(errs...)
}

// BuildPage builds the browser module; it gives the file and Go's glue code.
func BuildPage(repo, dir string) (wasm, glue string, err error) {
	var e []string
	for _, kv := range env(false) {
		if strings.HasPrefix(kv, "GOOS=") || strings.HasPrefix(kv, "GOARCH=") {
			continue
		}
		e = append(e, kv)
	}
	e = append(e, "GOOS=js", "GOARCH=wasm")
	goroot, err := run("/", e, GoCmd, "env", "GOROOT")
	if err != nil {
		return "", "", err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", "", err
	}
	wasm = filepath.Join(dir, "page.wasm")
	if _, err := run(repo, e, GoCmd, "build", "-trimpath", "-ldflags", "-X main.Version=v9.8.7 -X main.Revision=r6", "-o", wasm, "./wasm"); err != nil {
		return "", "", err
	}
	return wasm, filepath.Join(strings.TrimSpace(goroot), "lib", "wasm", "wasm_exec.js"), nil
}

// TreeHash identifies the state of the code under test.
func TreeHash(dir string) string {
	h := sha256.New()
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%s %d\n", strings.TrimPrefix(p, dir), len(b))
			h.Write(b)
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil))[:16]
}
