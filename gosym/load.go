package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goBin = "/opt/veriftools/go1.23.12/bin"

var modFlag string

// useModCopy makes the go command work with copies of go.mod and go.sum: it may add to them what a harness imports
func useModCopy(repo, work string) error {
	if err := os.MkdirAll(work, 0755); err != nil {
		return err
	}
	for from, to := range map[string]string{"go.mod": "verif.mod", "go.sum": "verif.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, from))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(work, to), b, 0644); err != nil {
			return err
		}
	}
	modFlag = " -modfile=" + filepath.Join(work, "verif.mod")
	return nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOROOT", "HOME", "GOCACHE", "GOMODCACHE", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"HOME=/root", "PATH="+goBin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod"+modFlag, "GOWORK=off", "CGO_ENABLED=1",
		"GOCACHE=/root/.cache/go-build", "GOMODCACHE=/root/go/pkg/mod")
}

type hfile struct {
	dir, base string // dir: package dir relative to the repository root
	src       []byte
	harness   []*Harness
	replaces  map[string]string // target -> func name
	repFrom   []string
	steps     []string          // files of the repository with a crash point before every statement
	common    bool
}

func readHarnessFiles(root string) ([]*hfile, error) {
	var out []*hfile
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		f := &hfile{dir: filepath.Dir(rel), base: filepath.Base(rel), src: src, replaces: map[string]string{}}
		f.common = strings.HasPrefix(f.base, "common_") || f.dir == "golibs/verifsym"
		if err := f.parse(); err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
		out = append(out, f)
		return nil
	})
	return out, err
}

func (f *hfile) parse() error {
	lines := strings.Split(string(f.src), "\n")
	funcAfter := func(i int) string {
		for ; i < len(lines); i++ {
			l := lines[i]
			if strings.HasPrefix(l, "func ") {
				l = strings.TrimPrefix(l, "func ")
				if j := strings.IndexByte(l, '('); j > 0 {
					return strings.TrimSpace(l[:j])
				}
			}
			if !strings.HasPrefix(l, "//") {
				break
			}
		}
		return ""
	}
	for i, l := range lines {
		if strings.HasPrefix(l, "//sym:harness ") {
			h := &Harness{Budget: 60 * time.Second, Steps: 4000000, Tiers: map[string]bool{"quick": true, "thorough": true}, File: f.dir + "/" + f.base, Pkg: f.dir}
			for _, kv := range strings.Fields(strings.TrimPrefix(l, "//sym:harness ")) {
				k, v, _ := strings.Cut(kv, "=")
				switch k {
				case "prop":
					h.Prop = v
				case "budget":
					d, err := time.ParseDuration(v)
					if err != nil {
						return err
					}
					h.Budget = d
				case "steps":
					n, err := strconv.ParseInt(v, 10, 64)
					if err != nil {
						return err
					}
					h.Steps = n
				case "reach":
					h.Reach = strings.Split(v, ",")
				case "tier":
					h.Tiers = map[string]bool{v: true}
				case "faults":
					// failing system calls: no validation of paths, replay with the failure at any call
					h.Faults = true
				case "nonative":
					h.NoNative = true
				case "repeat":
					h.Repeat, _ = strconv.Atoi(v)
				case "timeout":
					d, err := time.ParseDuration(v)
					if err != nil {
						return err
					}
					h.Timeout = d
				case "validate":
					n, err := strconv.Atoi(v)
					if err != nil {
						return err
					}
					h.Validate = &n
				case "race":
					h.Race = true
				case "nomerge":
					h.NoMerge = true
				case "allowpanic":
					h.AllowPanic = true
				default:
					return fmt.Errorf("line %d: unknown key %q", i+1, k)
				}
			}
			h.Name = funcAfter(i + 1)
			if h.Name == "" || h.Prop == "" {
				return fmt.Errorf("line %d: no function or property", i+1)
			}
			// the comment lines that follow describe the bound
			for j := i + 1; j < len(lines) && strings.HasPrefix(lines[j], "// "); j++ {
				h.Desc += strings.TrimPrefix(lines[j], "// ") + " "
			}
			f.harness = append(f.harness, h)
		}
		if strings.HasPrefix(l, "//sym:replace ") {
			fn := funcAfter(i + 1)
			if fn == "" {
				return fmt.Errorf("line %d: replace without function", i+1)
			}
			f.replaces[strings.TrimSpace(strings.TrimPrefix(l, "//sym:replace "))] = fn
		}
		if strings.HasPrefix(l, "//sym:steps ") {
			f.steps = append(f.steps, strings.Fields(strings.TrimPrefix(l, "//sym:steps "))...)
		}
		if strings.HasPrefix(l, "//sym:models ") {
			f.repFrom = append(f.repFrom, strings.TrimSpace(strings.TrimPrefix(l, "//sym:models ")))
		}
	}
	return nil
}

type Loaded struct {
	p        *Prog
	hs       []*Harness
	files    []*hfile
	overlay  map[string][]byte
	problems []string
}

func overlayName(repo string, f *hfile) string {
	if f.dir == "golibs/verifsym" {
		return filepath.Join(repo, f.dir, f.base)
	}
	return filepath.Join(repo, f.dir, "zz_verif_"+f.base)
}

// loadProp loads the packages holding the harnesses of the property.
func loadProp(repo, hroot, prop, tier, only string) (*Loaded, error) {
	all, err := readHarnessFiles(hroot)
	if err != nil {
		return nil, err
	}
	dirs := map[string]bool{}
	var sel []*hfile
	for _, f := range all {
		for _, h := range f.harness {
			if h.Prop == prop && h.Tiers[tier] && (only == "" || h.Name == only) {
				dirs[f.dir] = true
				sel = append(sel, f)
				break
			}
		}
	}
	if len(sel) == 0 {
		return nil, fmt.Errorf("no harness for property %s in tier %s", prop, tier)
	}
	for _, f := range all {
		if f.common && (dirs[f.dir] || f.dir == "golibs/verifsym") {
			sel = append(sel, f)
		}
	}
	ld := &Loaded{files: sel}
	for attempt := 0; attempt < 4; attempt++ {
		bad, err := ld.load(repo, dirs)
		if err != nil {
			return nil, err
		}
		if len(bad) == 0 {
			break
		}
		// drop harness files that do not compile against the current tree
		var keep []*hfile
		for _, f := range ld.files {
			if msg, isBad := bad[overlayName(repo, f)]; isBad {
				ld.problems = append(ld.problems, "harness "+f.dir+"/"+f.base+" does not compile against the current tree: "+msg)
				continue
			}
			keep = append(keep, f)
		}
		if len(keep) == len(ld.files) {
			for k, v := range bad {
				ld.problems = append(ld.problems, "package does not type-check: "+k+": "+v)
			}
			ld.files = nil
			ld.hs = nil
			return ld, nil
		}
		ld.files = keep
	}
	// resolve harness functions
	byDir := map[string]*ssa.Package{}
	for d := range dirs {
		byDir[d] = ld.p.prog.ImportedPackage(ld.p.repoMod + "/" + d)
	}
	for _, f := range ld.files {
		if !dirs[f.dir] {
			continue
		}
		pk := byDir[f.dir]
		if pk == nil {
			ld.problems = append(ld.problems, "package "+f.dir+" is missing")
			continue
		}
		pk.Build()
		rep := map[string]*ssa.Function{}
		srcs := []*hfile{f}
		for _, g := range ld.files {
			for _, m := range f.repFrom {
				if g.base == m && g.dir == f.dir {
					srcs = append(srcs, g)
				}
			}
		}
		for _, g := range srcs {
			for tgt, fn := range g.replaces {
				if r := pk.Func(fn); r != nil {
					rep[tgt] = r
				}
			}
		}
		for _, h := range f.harness {
			if h.Prop != prop || !h.Tiers[tier] || (only != "" && h.Name != only) {
				continue
			}
			h.fn = pk.Func(h.Name)
			if h.fn == nil {
				ld.problems = append(ld.problems, "no function "+h.Name)
				continue
			}
			h.replace = rep
			ld.hs = append(ld.hs, h)
		}
	}
	sort.SliceStable(ld.hs, func(i, j int) bool { return ld.hs[i].Name < ld.hs[j].Name })
	return ld, nil
}

func (ld *Loaded) load(repo string, dirs map[string]bool) (map[string]string, error) {
	ov := map[string][]byte{}
	for _, f := range ld.files {
		ov[overlayName(repo, f)] = f.src
		for _, st := range f.steps {
			p := filepath.Join(repo, st)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			out, _, err := withCalls(p, src, "CrashPoint")
			if err != nil {
				return nil, err
			}
			ov[p] = []byte(out)
		}
	}
	ld.overlay = ov
	var pats []string
	for d := range dirs {
		pats = append(pats, "./"+d)
	}
	sort.Strings(pats)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	bad := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "github.com/solarisdb/solaris") {
			return
		}
		for _, e := range p.Errors {
			f := e.Pos
			if i := strings.Index(f, ".go:"); i > 0 {
				f = f[:i+3]
			}
			if f == "" || f == "-" {
				f = p.PkgPath
			}
			if _, ok := bad[f]; !ok {
				bad[f] = e.Error()
			}
		}
	})
	if len(bad) > 0 {
		return bad, nil
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld.p = &Prog{prog: prog, fset: prog.Fset, replace: map[string]*ssa.Function{}, initSkip: map[string]bool{}, oneStep: map[string]bool{"context": true, "github.com/solarisdb/solaris/golibs/logging": true}, repoMod: "github.com/solarisdb/solaris"}
	for _, k := range []string{"github.com/solarisdb/solaris/api/gen/solaris/v1", "os", "net", "net/http", "crypto/tls", "reflect", "internal/reflectlite", "google.golang.org/grpc", "log", "github.com/solarisdb/solaris/golibs/verifsym"} {
		ld.p.initSkip[k] = true
	}
	return nil, nil
}

// ---- native side ----

type natCase struct {
	Harness string
	Inputs  map[string]string
	Repeat  int `json:",omitempty"`
	FailAt  int `json:",omitempty"`
	Timeout int `json:",omitempty"` // milliseconds
}
type natResult struct {
	Index   int
	Harness string
	Status  string
	Msg     string
	Obs     []string
	Missing int
}

type Native struct {
	repo, work string
	bins       map[string]string // dir -> binary
	overlayOn  string
	replaced   map[string]string
	modfile    string
	ld         *Loaded
	dirs       map[string]bool
	Err        string
}

func newNative(repo, work string, ld *Loaded) (*Native, error) {
	n := &Native{repo: repo, work: work, bins: map[string]string{}, ld: ld, dirs: map[string]bool{}}
	if err := os.MkdirAll(work, 0755); err != nil {
		return nil, err
	}
	rep := map[string]string{}
	k := 0
	byDir := map[string][]string{}
	for _, h := range ld.hs {
		byDir[h.Pkg] = append(byDir[h.Pkg], h.Name)
	}
	for name, src := range ld.overlay {
		p := filepath.Join(work, fmt.Sprintf("ov%d.go", k))
		k++
		if err := os.WriteFile(p, src, 0644); err != nil {
			return nil, err
		}
		rep[name] = p
	}
	for dir, hs := range byDir {
		n.dirs[dir] = true
		pkName := ld.p.prog.ImportedPackage(ld.p.repoMod + "/" + dir).Pkg.Name()
		src := "package " + pkName + "\n\nimport (\n\t\"testing\"\n\n\t\"github.com/solarisdb/solaris/golibs/verifsym\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifsym.RunReplay(map[string]func(){\n"
		for _, h := range hs {
			src += "\t\t\"" + h + "\": " + h + ",\n"
		}
		src += "\t})\n}\n"
		p := filepath.Join(work, fmt.Sprintf("ov%d.go", k))
		k++
		if err := os.WriteFile(p, []byte(src), 0644); err != nil {
			return nil, err
		}
		rep[filepath.Join(repo, dir, "zz_verif_replay_test.go")] = p
	}
	if err := n.hookULID(rep); err != nil {
		ld.problems = append(ld.problems, "ids cannot be replayed natively: "+err.Error())
	}
	buf, _ := json.Marshal(map[string]any{"Replace": rep})
	n.overlayOn = filepath.Join(work, "overlay.json")
	n.replaced = rep
	return n, os.WriteFile(n.overlayOn, buf, 0644)
}

// hookULID lets the native replay use the ids of the counterexample: the ulid module is replaced by a copy whose Make
// asks the harness first.
func (n *Native) hookULID(rep map[string]string) error {
	cmd := exec.Command(goBin+"/go", "list", "-m", "-f", "{{.Dir}}", "github.com/oklog/ulid/v2")
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	src := strings.TrimSpace(string(out))
	dst := filepath.Join(n.work, "ulid")
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	hooked := false
	for _, e := range es {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") || !strings.HasSuffix(e.Name(), ".go") && e.Name() != "go.mod" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		t := string(b)
		if strings.Contains(t, "func Make() (id ULID) {\n") {
			t = strings.Replace(t, "func Make() (id ULID) {\n", "func Make() (id ULID) {\n\tif VerifMake != nil {\n\t\tif x, ok := VerifMake(); ok {\n\t\t\treturn x\n\t\t}\n\t}\n", 1) + "\nvar VerifMake func() ([16]byte, bool)\n"
			hooked = true
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), []byte(t), 0644); err != nil {
			return err
		}
	}
	if !hooked {
		return fmt.Errorf("ulid.Make not found")
	}
	gm, err := os.ReadFile(filepath.Join(n.repo, "go.mod"))
	if err != nil {
		return err
	}
	gs, err := os.ReadFile(filepath.Join(n.repo, "go.sum"))
	if err != nil {
		return err
	}
	mf := filepath.Join(n.work, "replay.mod")
	if err := os.WriteFile(mf, append(gm, []byte("\nreplace github.com/oklog/ulid/v2 => "+dst+"\n")...), 0644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(n.work, "replay.sum"), gs, 0644); err != nil {
		return err
	}
	hp := filepath.Join(n.work, "ulidhook.go")
	if err := os.WriteFile(hp, []byte("package verifsym\n\nimport \"github.com/oklog/ulid/v2\"\n\nfunc init() { ulid.VerifMake = nextULID }\n"), 0644); err != nil {
		return err
	}
	rep[filepath.Join(n.repo, "golibs/verifsym/ulidhook.go")] = hp
	n.modfile = mf
	return nil
}

const (
	kindPlain   = ""
	kindPerturb = "#perturb"
	kindFaults  = "#faults"
)

func (n *Native) build(dir string, race bool, kind string) (string, error) {
	key := dir
	if race {
		key += "#race"
	}
	overlay := n.overlayOn
	key += kind
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	var err error
	switch kind {
	case kindPerturb:
		overlay, err = n.perturbed(dir)
	case kindFaults:
		overlay, err = n.faultOverlay()
	}
	if err != nil {
		return "", err
	}
	bin := filepath.Join(n.work, "replay_"+strings.ReplaceAll(key, "/", "_")+".test")
	args := []string{"test", "-c", "-vet=off"}
	if n.modfile != "" {
		args = append(args, "-modfile="+n.modfile)
	}
	args = append(args, "-overlay", overlay, "-o", bin)
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+dir)
	cmd := exec.Command(goBin+"/go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v\n%s", err, out)
	}
	n.bins[key] = bin
	return bin, nil
}

// run executes the cases natively in one process.
func (n *Native) run(dir string, cases []natCase, race bool, kind string, timeout time.Duration) ([]natResult, string, error) {
	bin, err := n.build(dir, race, kind)
	if err != nil {
		return nil, "", err
	}
	d, err := os.MkdirTemp(n.work, "run")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(d)
	cf, of := filepath.Join(d, "cases.json"), filepath.Join(d, "out.json")
	buf, _ := json.Marshal(cases)
	if err := os.WriteFile(cf, buf, 0644); err != nil {
		return nil, "", err
	}
	lim := "ulimit -v 12000000; " // a run which takes all memory ends alone
	if race {
		lim = ""
	}
	cmd := exec.Command("bash", "-c", lim+`exec "$@"`, "run", "timeout", "-k", "5", strconv.Itoa(int(timeout.Seconds())), bin, "-test.run", "TestVerifReplay", "-test.timeout", "0")
	cmd.Dir = d
	cmd.Env = append(goEnv(), "VERIF_CASES="+cf, "VERIF_OUT="+of, "TMPDIR="+d, "VERIF_REPEAT_MS="+strconv.Itoa(int(timeout.Milliseconds()*3/4)))
	if kind == kindPerturb {
		cmd.Env = append(cmd.Env, "VERIF_PERTURB=1")
	}
	out, _ := cmd.CombinedOutput()
	if u, err := os.ReadFile(of + ".user"); err == nil && strings.HasPrefix(string(u), "/tmp/verifuser") {
		os.RemoveAll(string(u)) // the scratch directory of an unprivileged run
	}
	var res []natResult
	ob, _ := os.ReadFile(of)
	for _, l := range strings.Split(string(ob), "\n") {
		if l == "" {
			continue
		}
		var r natResult
		if err := json.Unmarshal([]byte(l), &r); err == nil {
			res = append(res, r)
		}
	}
	o := string(out)
	if len(o) > 6000 {
		o = o[:6000]
	}
	return res, o, nil
}
