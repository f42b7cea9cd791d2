// Command dst is the deterministic simulation of go-open-soql-parser.
//
//	dst check C01     search for violations of a property
//	dst replay FILE   re-execute a recorded violation
//	dst setup         build everything once
//	dst selftest [n]  show that executions are exactly repeatable
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif/internal/orch"
)

func main() {
	code, err := run()
	if err != nil {
		fmt.Fprintln(os.Stderr, "dst:", err)
		if code < 2 {
			code = 2
		}
	}
	os.Exit(code)
}

func run() (int, error) {
	if len(os.Args) < 2 {
		return 2, fmt.Errorf("usage: dst check ID | replay FILE | setup | selftest")
	}
	e := &orch.Env{Verif: os.Getenv("VERIF_DIR"), Repo: os.Getenv("VERIF_REPO"), Tier: os.Getenv("VERIF_TIER"), Seed: 1}
	if e.Verif == "" {
		wd, err := os.Getwd()
		if err != nil {
			return 2, err
		}
		e.Verif = wd
		if _, err := os.Stat(filepath.Join(e.Verif, "properties.jsonl")); err != nil {
			return 2, fmt.Errorf("run me in /verif: %v", err)
		}
	}
	if e.Repo == "" {
		e.Repo = "/repo"
	}
	if e.Tier != "thorough" {
		e.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return 2, fmt.Errorf("VERIF_SEED: %v", err)
		}
		e.Seed = n
	}
	limit := 240 * time.Second
	if e.Tier == "thorough" {
		limit = 40 * time.Minute
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			return 2, err
		}
		limit = time.Duration(n) * time.Second
	}
	e.Deadline = time.Now().Add(limit)
	switch os.Args[1] {
	case "check":
		p := orch.Props[os.Args[2]]
		if p == nil {
			return 2, fmt.Errorf("unknown property %s", os.Args[2])
		}
		return orch.Check(e, p)
	case "replay":
		return orch.DoReplay(e, os.Args[2])
	case "setup":
		e.Page, e.Old = true, true
		err := e.Setup(true, true)
		e.Close()
		return 0, err
	case "selftest":
		n := 60
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		return orch.Repeatable(e, n)
	}
	return 2, fmt.Errorf("unknown command %s", os.Args[1])
}
