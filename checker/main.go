// Command wegocheck decides the properties of /verif/properties.jsonl for the
// source in a wego repository, without running it.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"sort"
)

func main() {
	repo := flag.String("repo", "/repo", "the repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings are")
	list := flag.Bool("functions", false, "list the functions that the code declares, for known_functions.txt")
	flag.Parse()
	if *list {
		ps, err := loadSyntax(*repo, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var out []string
		for _, p := range ps {
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						out = append(out, declName(p.PkgPath, fd))
					}
				}
			}
		}
		sort.Strings(out)
		for _, n := range uniq(out) {
			fmt.Println(n)
		}
		return
	}
	if flag.NArg() == 0 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Technique)
		}
		return
	}
	rc := 0
	if self, err := os.Executable(); err == nil && flag.NArg() > 1 {
		// tables are kept for one program and one check
		for _, id := range flag.Args() {
			cmd := exec.Command(self, "-repo", *repo, "-verif", *verif, id)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if err := cmd.Run(); err != nil {
				if n := cmd.ProcessState.ExitCode(); n > rc {
					rc = n
				} else if n < 0 {
					rc = 2
				}
			}
		}
		os.Exit(rc)
	}
	for _, id := range flag.Args() {
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "no check", id)
			os.Exit(2)
		}
		if n := runCheck(c, *repo, *verif); n > rc {
			rc = n
		}
	}
	os.Exit(rc)
}
