package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := verifDir()
	if len(os.Args) > 1 && os.Args[1] == "fn" {
		p, err := load(repo)
		if err != nil {
			panic(err)
		}
		debugFn(newWorld(p))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		p, err := load(repo)
		if err != nil {
			panic(err)
		}
		os.Args = os.Args[1:]
		debugEnc(newWorld(p))
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "setup" {
		return
	}
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		time.AfterFunc(30*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
	}
	code := 0
	for _, id := range ids {
		if r := runCheck(id, repo, dir); r > code {
			code = r
		}
	}
	if len(ids) == 0 {
		fmt.Println("usage: checker ID...")
		code = 2
	}
	os.Exit(code)
}
