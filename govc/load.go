package main

// Loads /repo's current source and builds SSA.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*packages.Package
	funcs map[string]*ssa.Function
	all   map[*ssa.Function]bool
	repo  map[string]bool // package paths whose source is under /repo
}

// workspace writes a private go.work so that nothing is written in /repo.
func workspace(repo, dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.work"))
	if err != nil {
		return "", err
	}
	re := regexp.MustCompile(`(?m)^([ \t]*(?:use[ \t]+)?)\./`)
	s := re.ReplaceAllString(string(b), "${1}"+repo+"/")
	if !strings.Contains(s, "functions/golang/teamshooter") {
		s += "\nuse " + repo + "/functions/golang/teamshooter\n"
	}
	if err := os.WriteFile(filepath.Join(dir, "go.work"), []byte(s), 0o644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.work.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.work.sum"), b, 0o644)
	}
	return filepath.Join(dir, "go.work"), nil
}

func goEnv(work string) []string {
	env := os.Environ()
	return append(env, "GOWORK="+work, "GOPROXY=off", "GOFLAGS=-buildvcs=false", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

func Load(repo string, work string, patterns []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: goEnv(work)}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	P := &Program{pkgs: map[string]*packages.Package{}, funcs: map[string]*ssa.Function{}, repo: map[string]bool{}}
	packages.Visit(pk, nil, func(p *packages.Package) {
		P.pkgs[p.PkgPath] = p
		for _, f := range p.GoFiles {
			if strings.HasPrefix(f, repo+"/") {
				P.repo[p.PkgPath] = true
				for _, e := range p.Errors {
					errs = append(errs, e.Error())
				}
				break
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	for path := range P.pkgs {
		if inlinable(path) || P.repo[path] {
			if sp := prog.ImportedPackage(path); sp != nil {
				sp.Build()
			}
		}
	}
	P.prog = prog
	for path := range P.pkgs {
		if !P.repo[path] && !inlinable(path) {
			continue
		}
		sp := prog.ImportedPackage(path)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.funcs[m.RelString(nil)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							P.funcs[f.RelString(nil)] = f
						}
					}
				}
			}
		}
	}
	return P, nil
}

// packages outside /repo whose (small, pure) bodies are executed symbolically instead of being assumed.
func inlinable(path string) bool {
	switch path {
	case "slices", "maps", "cmp", "google.golang.org/protobuf/types/known/timestamppb":
		return true
	}
	return false
}

func (P *Program) typesPkg(path string) *types.Package {
	if p := P.pkgs[path]; p != nil {
		return p.Types
	}
	return nil
}
