package rules

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/stdlib"
)

func init() { register("C25", c25) }

// maxMinor is the newest Go release the checker knows about.
const maxMinor = 26

var platforms = []string{
	"linux/amd64", "linux/386", "linux/arm", "linux/arm64", "linux/s390x", "linux/mips", "linux/ppc64", "linux/riscv64",
	"windows/amd64", "windows/386", "windows/arm64", "darwin/amd64", "darwin/arm64", "freebsd/amd64", "freebsd/386",
	"js/wasm", "wasip1/wasm", "plan9/386", "android/arm", "openbsd/arm", "solaris/amd64", "aix/ppc64", "netbsd/386", "ios/arm64",
	"linux/loong64", "linux/mips64", "linux/mips64le", "linux/mipsle", "linux/ppc64le", "dragonfly/amd64", "illumos/amd64",
	"freebsd/arm", "freebsd/arm64", "netbsd/amd64", "netbsd/arm", "netbsd/arm64", "openbsd/amd64", "openbsd/386", "openbsd/arm64", "plan9/amd64", "plan9/arm", "android/386", "android/amd64", "android/arm64",
}

var goDirective = regexp.MustCompile(`(?m)^go\s+1\.(\d+)`)

// stdSince gives the release a standard symbol appeared in; 0 when it predates Go 1.18.
type stdTable struct {
	sym map[string]int // "pkg|Name", "pkg|T.M"
	pkg map[string]int
}

func newStdTable() *stdTable {
	t := &stdTable{sym: map[string]int{}, pkg: map[string]int{}}
	for p, syms := range stdlib.PackageSymbols {
		min := 99
		for _, s := range syms {
			name := s.Name
			switch s.Kind {
			case stdlib.Method:
				_, recv, m := s.SplitMethod()
				name = recv + "." + m
			}
			v := int(s.Version)
			if old, ok := t.sym[p+"|"+name]; !ok || v < old {
				t.sym[p+"|"+name] = v
			}
			if v < min {
				min = v
			}
		}
		t.pkg[p] = min
	}
	return t
}

func (t *stdTable) since(obj types.Object) (int, string, bool) {
	if obj.Pkg() == nil {
		return 0, "", false
	}
	p := obj.Pkg().Path()
	if _, ok := t.pkg[p]; !ok {
		return 0, "", false
	}
	name := obj.Name()
	switch o := obj.(type) {
	case *types.Func:
		if r := o.Signature().Recv(); r != nil {
			name = typeName(r.Type()) + "." + name
		}
	case *types.Var:
		if o.IsField() {
			return 0, "", false // handled through selections
		}
	}
	v, ok := t.sym[p+"|"+name]
	return v, p + "." + name, ok
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		return n.Obj().Name()
	}
	return ""
}

type c25config struct {
	minor        int
	goos, goarch string
}

func c25(c *core.Ctx) {
	c.Rule = "For every package of the library, every Go release from the one its go.mod declares to the newest known, and every listed platform, " +
		"the files the build constraints select are type-checked with the module's language version (each file at the version its constraint grants) and the platform's word size; " +
		"every standard-library package, function, method, field, type and constant they use must exist in that release; generic aliases need release 1.24; " +
		"and the exported declarations selected must be the same for every release and platform. The command-line module is checked the same way from its own go directive on."
	c.Assumptions = []string{"third-party dependencies build for every declared release and platform", "the API history table of golang.org/x/tools (internal/stdlib) is right"}

	ext := map[string]*types.Package{}
	for _, p := range c.P.Pkgs {
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			if !load.InRepo(q.PkgPath) {
				ext[q.PkgPath] = q.Types
			}
		})
	}
	// Constants that depend on the word size: these packages are checked again for 32-bit platforms.
	wordDep := map[string]*packages.Package{}
	packages.Visit(c.P.Pkgs, nil, func(q *packages.Package) {
		if q.PkgPath == "math" || q.PkgPath == "math/bits" {
			wordDep[q.PkgPath] = q
		}
	})
	ext32 := map[string]*types.Package{}
	for path, q := range wordDep {
		conf := types.Config{Sizes: types.SizesFor("gc", "386"), Error: func(error) {}, IgnoreFuncBodies: true,
			Importer: importerFunc(func(p string) (*types.Package, error) {
				if p == "unsafe" {
					return types.Unsafe, nil
				}
				if t, ok := ext[p]; ok {
					return t, nil
				}
				return nil, fmt.Errorf("package %s is not available", p)
			})}
		ext32[path], _ = conf.Check(path, c.P.Fset, q.Syntax, nil)
	}
	tab := newStdTable()
	order := topo(c.P.Pkgs)

	type modinfo struct {
		dir   string
		minor int
		sel   func(string) bool
		name  string
	}
	mods := []modinfo{
		{c.P.Repo, 0, load.IsLib, "library"},
		{filepath.Join(c.P.Repo, "cli"), 0, load.IsCli, "cli"},
	}
	for i := range mods {
		b, err := os.ReadFile(filepath.Join(mods[i].dir, "go.mod"))
		m := goDirective.FindSubmatch(b)
		if err != nil || m == nil {
			c.Fail("go-directive", mods[i].name, "-", "go.mod has no go directive")
			return
		}
		mods[i].minor, _ = strconv.Atoi(string(m[1]))
	}

	type parsed struct {
		file *ast.File
		err  error
	}
	cache := map[string]parsed{}
	fset := token.NewFileSet()
	parse := func(path string) (*ast.File, error) {
		if p, ok := cache[path]; ok {
			return p.file, p.err
		}
		f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		cache[path] = parsed{f, err}
		return f, err
	}
	pos := func(p token.Pos) string {
		po := fset.Position(p)
		rel, err := filepath.Rel(c.P.Repo, po.Filename)
		if err != nil {
			rel = po.Filename
		}
		return fmt.Sprintf("%s:%d", rel, po.Line)
	}

	plats := platforms
	if c.Tier == "quick" {
		plats = platforms[:24]
	}
	type shape struct{ decls, cfg string }
	shapes := map[string]map[string]shape{} // package -> exported name -> shape of first config
	done := map[string]bool{}

	for minor := mods[0].minor; minor <= maxMinor; minor++ {
		for _, plat := range plats {
			goos, goarch, _ := strings.Cut(plat, "/")
			bc := build.Default
			bc.GOOS, bc.GOARCH, bc.CgoEnabled = goos, goarch, false
			bc.ReleaseTags = nil
			bc.ToolTags = nil
			bc.BuildTags = nil
			for i := 1; i <= minor; i++ {
				bc.ReleaseTags = append(bc.ReleaseTags, "go1."+strconv.Itoa(i))
			}
			sizes := types.SizesFor("gc", goarch)
			// Which files does this configuration select?
			key := fmt.Sprintf("%d|%d|", minor, sizes.Sizeof(types.Typ[types.Int]))
			files := map[string][]string{}
			for _, p := range order {
				mod := mods[0]
				if load.IsCli(p.PkgPath) {
					mod = mods[1]
				}
				if minor < mod.minor {
					continue
				}
				dir := pkgDir(c.P.Repo, p.PkgPath)
				ents, err := os.ReadDir(dir)
				if err != nil {
					c.Fail("load", p.PkgPath, "-", err.Error())
					return
				}
				for _, e := range ents {
					n := e.Name()
					if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
						continue
					}
					ok, err := bc.MatchFile(dir, n)
					if err != nil {
						c.Fail("constraint", p.PkgPath+"/"+n, "-", err.Error())
						continue
					}
					if ok {
						files[p.PkgPath] = append(files[p.PkgPath], filepath.Join(dir, n))
						key += n + ";"
					}
				}
				key += "|"
			}
			c.Count("configurations (release x platform)", 1)
			if done[key] {
				continue
			}
			done[key] = true
			c.Count("distinct configurations checked", 1)
			local := map[string]*types.Package{}
			for _, p := range order {
				mod := mods[0]
				if load.IsCli(p.PkgPath) {
					mod = mods[1]
				}
				if minor < mod.minor {
					continue
				}
				construct := p.PkgPath
				if len(files[p.PkgPath]) == 0 {
					c.Fail("builds", construct, "-", fmt.Sprintf("no file is selected for Go 1.%d on %s", minor, plat))
					continue
				}
				var asts []*ast.File
				for _, f := range files[p.PkgPath] {
					a, err := parse(f)
					if err != nil {
						c.Fail("builds", construct, "-", err.Error())
						continue
					}
					asts = append(asts, a)
				}
				info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
				bad := false
				conf := types.Config{
					GoVersion: fmt.Sprintf("go1.%d", mod.minor),
					Sizes:     sizes,
					Importer: importerFunc(func(path string) (*types.Package, error) {
						if q, ok := local[path]; ok {
							return q, nil
						}
						if q, ok := ext32[path]; ok && sizes.Sizeof(types.Typ[types.Int]) == 4 {
							return q, nil
						}
						if q, ok := ext[path]; ok {
							return q, nil
						}
						return nil, fmt.Errorf("package %s is not available", path)
					}),
					Error: func(err error) {
						if te, ok := err.(types.Error); ok {
							if te.Soft && strings.Contains(te.Msg, "imported and not used") {
								return
							}
							bad = true
							c.Fail("builds", construct+": "+te.Msg, pos(te.Pos), fmt.Sprintf("does not compile with Go 1.%d on %s: %s", minor, plat, te.Msg))
						}
					},
				}
				tp, _ := conf.Check(p.PkgPath, fset, asts, info)
				local[p.PkgPath] = tp
				if !bad {
					c.OK("builds", fmt.Sprintf("%s with Go 1.%d on %s", strings.TrimPrefix(construct, load.ModPath), minor, plat))
				}
				c25api(c, tab, asts, info, minor, pos)
				// The same exported declarations everywhere.
				if load.IsLib(p.PkgPath) && tp != nil {
					cfg := fmt.Sprintf("Go 1.%d on %s", minor, plat)
					first := shapes[p.PkgPath] == nil
					if first {
						shapes[p.PkgPath] = map[string]shape{}
					}
					now := map[string]string{}
					for _, n := range tp.Scope().Names() {
						o := tp.Scope().Lookup(n)
						if o.Exported() {
							now[n] = declShape(o)
						}
					}
					ref := shapes[p.PkgPath]
					for n, s := range now {
						if first {
							ref[n] = shape{s, cfg}
						} else if r, ok := ref[n]; !ok {
							c.Fail("same-declarations", p.PkgPath+"."+n, "-", fmt.Sprintf("%s.%s exists for %s but not for the first configuration", p.PkgPath, n, cfg))
							ref[n] = shape{s, cfg}
						} else if r.decls != s {
							c.Fail("same-declarations", p.PkgPath+"."+n, "-", fmt.Sprintf("%s.%s is %s for %s but %s for %s", p.PkgPath, n, r.decls, r.cfg, s, cfg))
						}
					}
					missing := false
					for n, r := range ref {
						if _, ok := now[n]; !ok {
							missing = true
							c.Fail("same-declarations", p.PkgPath+"."+n, "-", fmt.Sprintf("%s.%s exists for %s but not for %s", p.PkgPath, n, r.cfg, cfg))
						}
					}
					if !missing {
						c.OK("same-declarations", p.PkgPath+" for "+cfg)
					}
				}
			}
		}
	}
	c.Min("distinct configurations checked", 6)
	c.Min("standard-library uses", 300)
}

func c25api(c *core.Ctx, tab *stdTable, files []*ast.File, info *types.Info, minor int, pos func(token.Pos) string) {
	for _, f := range files {
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if v, ok := tab.pkg[path]; ok && v > minor {
				c.Fail("api-version", "import "+path, pos(im.Pos()), fmt.Sprintf("package %s exists since Go 1.%d, the file is also built with Go 1.%d", path, v, minor))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if ts, ok := n.(*ast.TypeSpec); ok && ts.Assign.IsValid() && ts.TypeParams != nil && minor < 24 {
				c.Fail("api-version", "generic alias "+ts.Name.Name, pos(ts.Pos()), fmt.Sprintf("generic type aliases need Go 1.24, the file is also built with Go 1.%d", minor))
			}
			return true
		})
	}
	for id, obj := range info.Uses {
		v, name, ok := tab.since(obj)
		if !ok {
			continue
		}
		c.Count("standard-library uses", 1)
		if v > minor {
			c.Fail("api-version", name, pos(id.Pos()), fmt.Sprintf("%s exists since Go 1.%d, the file is also built with Go 1.%d", name, v, minor))
		}
	}
	for se, sel := range info.Selections {
		obj := sel.Obj()
		if obj.Pkg() == nil {
			continue
		}
		if fv, ok := obj.(*types.Var); ok && fv.IsField() {
			recv := typeName(sel.Recv())
			if v, ok := tab.sym[obj.Pkg().Path()+"|"+recv+"."+obj.Name()]; ok && v > minor {
				name := obj.Pkg().Path() + "." + recv + "." + obj.Name()
				c.Fail("api-version", name, pos(se.Pos()), fmt.Sprintf("field %s exists since Go 1.%d, the file is also built with Go 1.%d", name, v, minor))
			}
		}
	}
}

func declShape(o types.Object) string {
	switch o := o.(type) {
	case *types.Func:
		s := o.Signature()
		return fmt.Sprintf("func with %d parameters and %d results (variadic %v)", s.Params().Len(), s.Results().Len(), s.Variadic())
	case *types.TypeName:
		n := 0
		switch t := o.Type().(type) {
		case *types.Named:
			n = t.TypeParams().Len()
		case *types.Alias:
			n = t.TypeParams().Len()
		}
		return fmt.Sprintf("type with %d parameters", n)
	case *types.Const:
		return "const"
	case *types.Var:
		return "var"
	}
	return "?"
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func pkgDir(repo, path string) string {
	return filepath.Join(repo, strings.TrimPrefix(path, load.ModPath))
}

func topo(pkgs []*packages.Package) []*packages.Package {
	in := map[string]*packages.Package{}
	for _, p := range pkgs {
		in[p.PkgPath] = p
	}
	seen := map[string]bool{}
	var out []*packages.Package
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var ims []string
		for k := range p.Imports {
			ims = append(ims, k)
		}
		sort.Strings(ims)
		for _, k := range ims {
			if q := in[p.Imports[k].PkgPath]; q != nil {
				visit(q)
			}
		}
		out = append(out, p)
	}
	for _, p := range pkgs {
		visit(p)
	}
	return out
}
