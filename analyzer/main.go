package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

type check struct {
	id          string
	level       string
	technique   string
	assumptions []string
	run         func(r *repo, x *result)
}

var checks = map[string]*check{}

func register(c *check) {
	if c.level == "" {
		c.level = "other"
	}
	checks[c.id] = c
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vxverif PROPERTY...|all|dump ...")
		os.Exit(2)
	}
	start := time.Now()
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	r, err := loadRepo(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		dump(r, os.Args[2:])
		return
	}
	if os.Args[1] == "lex" {
		lexDump(r, os.Args[2:])
		return
	}
	if os.Args[1] == "rope" {
		ropeDump(r, os.Args[2:])
		return
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	status := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("no such check:", id)
			os.Exit(2)
		}
		x := newResult(id)
		c.run(r, x)
		if s := x.finish(verif, c.level, c.technique, c.assumptions, start); s > status {
			status = s
		}
	}
	os.Exit(status)
}

func dump(r *repo, args []string) {
	for _, a := range args {
		if f := r.fn(a); f != nil {
			f.WriteTo(os.Stdout)
			for _, g := range f.AnonFuncs {
				g.WriteTo(os.Stdout)
			}
		}
	}
}
