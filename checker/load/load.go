// Package load type-checks both modules of the repository as one program and
// builds SSA for it.
package load

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ModPath = "github.com/Tom5521/gotext-tools/v2"
const CliPath = "github.com/Tom5521/gotext-tools/v2/cli"

type Program struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package          // repository packages, sorted by path
	ByID  map[string]*packages.Package // by import path (repository packages only)
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
}

// RepoDir is the tree under analysis.
func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Program, error) {
	repo := RepoDir()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   filepath.Join(repo, "cli"),
		Fset:  token.NewFileSet(),
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, "./...", ModPath+"/...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", repo, err)
	}
	p := &Program{Repo: repo, Fset: cfg.Fset, ByID: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var errs []string
	seen := map[string]bool{}
	for _, pk := range initial {
		if seen[pk.PkgPath] {
			continue
		}
		seen[pk.PkgPath] = true
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		if strings.HasPrefix(pk.PkgPath, ModPath) {
			p.Pkgs = append(p.Pkgs, pk)
			p.ByID[pk.PkgPath] = pk
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, pk := range p.Pkgs {
		p.SPkgs[pk.PkgPath] = prog.Package(pk.Types)
	}
	return p, nil
}

// InRepo reports whether the package belongs to the repository.
func InRepo(path string) bool { return path == ModPath || strings.HasPrefix(path, ModPath+"/") }

// IsLib reports whether the package is part of the library (not the cli module).
func IsLib(path string) bool { return InRepo(path) && !IsCli(path) }
func IsCli(path string) bool { return path == CliPath || strings.HasPrefix(path, CliPath+"/") }

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	po := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, po.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = po.Filename
	}
	return fmt.Sprintf("%s:%d", rel, po.Line)
}
