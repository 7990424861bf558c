package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// inlinePkgs are the dependencies some functions of which are executed from their source.
var inlinePkgs = []string{"github.com/twpayne/go-geom", "github.com/golang/geo/s2", "github.com/boltdb/bolt"}

func loadProg(dir string) (*ssa.Program, []*ssa.Package) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	if os.Getenv("GOVER_DEPS") == "" {
		cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile
	}
	ps, err := packages.Load(cfg, append([]string{"./..."}, inlinePkgs...)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, "load:", e)
				bad = true
			}
		}
	})
	if bad {
		os.Exit(2)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.NaiveForm*0)
	prog.Build()
	seen := map[*ssa.Package]bool{}
	_ = seen
	for _, p := range sp {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
			collectTypes(p.Pkg, typesSeen)
		}
	}
	return prog, sp
}

// allFuncs indexes the functions of the repository by contract key.
func allFuncs(prog *ssa.Program) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic != "" || !isRepoFn(f) {
			continue
		}
		m[fnKey(f)] = f
	}
	return m
}

type OblOut struct {
	Fn, Name, Pos string
	Tags          []string
	Proved        bool
	By            string
	Detail        string
	Secs          float64
	Query         string `json:",omitempty"`
}

type Out struct {
	Fn       string
	Contract string
	Props    []string
	Error    string
	Obls     []OblOut
	Exits    int
	Calls    []string
	Trusted  []string
	Inlined  []string
	Invs     []string
	Dead     []string
	Secs     float64
	BranchQ  int
	SolverQ  int
	SolverS  float64
	By       map[string]int
	Skipped  string
}

func main() {
	dir := flag.String("repo", "/repo", "repository")
	specDir := flag.String("specs", "/verif/specs", "contracts")
	prop := flag.String("prop", "", "property")
	flag.StringVar(&onlyProp, "only", "", "property whose obligations are generated")
	limit := flag.Int("limit", 0, "seconds for the whole run, 0 for none")
	fnName := flag.String("fn", "", "functions, comma separated")
	worker := flag.Bool("worker", false, "")
	jobs := flag.Int("j", 7, "workers")
	out := flag.String("o", "", "json report")
	verbose := flag.Bool("v", false, "")
	flag.IntVar(&oblSecs, "t", 20, "seconds per back end")
	flag.StringVar(&cacheDir, "cache", "", "solver cache directory")
	flag.StringVar(&keepDir, "keep", "", "keep failed queries here")
	list := flag.Bool("list", false, "list functions under contract of the property")
	flag.Parse()

	th, _ := filepath.Glob(filepath.Join(*specDir, "*.smt2"))
	sort.Strings(th)
	loadTheory(th...)
	sp := loadSpecs(*specDir)
	var names []string
	want := map[string]bool{}
	for _, n := range strings.Split(*fnName, ",") {
		if n != "" {
			want[n] = true
		}
	}
	for _, n := range sp.order {
		c := sp.merged0(sp.con[n])
		if c.Extern || c.Iface {
			continue
		}
		if len(want) > 0 {
			if want[n] {
				names = append(names, n)
			}
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range c.Props {
				if p == *prop {
					ok = true
				}
			}
			for _, cl := range c.Clauses {
				for _, t := range cl.tags {
					if t == *prop {
						ok = true
					}
				}
			}
			if !ok {
				continue
			}
		}
		names = append(names, n)
	}
	if *list {
		for _, n := range names {
			fmt.Println(n)
		}
		return
	}
	if *worker {
		slotR, slotW = os.NewFile(3, "slots"), os.NewFile(4, "slots")
		prog, _ := loadProg(*dir)
		fns := allFuncs(prog)
		enc := json.NewEncoder(os.Stdout)
		// functions arrive on stdin
		dec := json.NewDecoder(os.Stdin)
		for {
			var n string
			if dec.Decode(&n) != nil {
				return
			}
			enc.Encode(runOne(prog, sp, fns, n))
		}
	}
	outs := make([]*Out, len(names), len(names)+1)
	ch := make(chan int, len(names))
	for i := range names {
		ch <- i
	}
	close(ch)
	nw := *jobs
	if nw > len(names) {
		nw = len(names)
	}
	var wg sync.WaitGroup
	t0 := time.Now()
	remain := func() time.Duration {
		if *limit == 0 {
			return 1200 * time.Second
		}
		d := time.Duration(*limit)*time.Second - time.Since(t0)
		if d < time.Second {
			d = time.Second
		}
		return d
	}
	slotR, slotW, _ = os.Pipe()
	nslot := runtime.NumCPU()
	if nslot > 16 {
		nslot = 16
	}
	for i := 0; i < nslot; i++ {
		slotW.Write([]byte{'.'})
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var enc *json.Encoder
			var dec *json.Decoder
			start := func() {
				cmd = exec.Command(os.Args[0], "-worker", "-repo", *dir, "-specs", *specDir, "-t", fmt.Sprint(oblSecs), "-only", *prop, "-cache", cacheDir, "-keep", keepDir)
				cmd.Stderr = os.Stderr
				cmd.ExtraFiles = []*os.File{slotR, slotW}
				in, _ := cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					panic(err)
				}
				enc = json.NewEncoder(in)
				dec = json.NewDecoder(o)
			}
			for i := range ch {
				if cmd == nil {
					start()
				}
				enc.Encode(names[i])
				var o Out
				done := make(chan error, 1)
				go func() { done <- dec.Decode(&o) }()
				var err error
				select {
				case err = <-done:
				case <-time.After(remain()):
					cmd.Process.Kill()
					err = <-done
					if err == nil {
						err = fmt.Errorf("timeout")
					}
				}
				if err != nil {
					cmd.Process.Kill()
					slotW.Write(make([]byte, 8)) // it may have held some
					cmd.Wait()
					cmd = nil
					o = Out{Fn: names[i], Props: sp.merged0(sp.con[names[i]]).Props, Error: "verifier process died: " + err.Error()}
				}
				outs[i] = &o
				if cmd != nil { // a fresh process for every function: queries do not depend on what was verified before
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			if cmd != nil {
				cmd.Process.Kill()
				cmd.Wait()
			}
		}()
	}
	wg.Wait()
	if len(want) == 0 || want["lemmas"] {
		if lo := lemmas(oblSecs); len(lo.Obls) > 0 {
			outs = append(outs, lo)
		}
	}
	bad := 0
	for _, o := range outs {
		np := 0
		for _, b := range o.Obls {
			if b.Proved {
				np++
			}
		}
		st := "ok"
		if o.Error == "" && o.Skipped == "" && len(o.Obls) == 0 {
			o.Error = "no obligations"
		}
		if o.Error != "" || np < len(o.Obls) {
			st = "FAILED"
			bad++
		}
		if o.Skipped != "" {
			st = "skipped: " + o.Skipped
		}
		fmt.Printf("%-7s %s: %d/%d obligations, %d exits, %.1fs (%d solver runs, %.1fs)\n", st, o.Fn, np, len(o.Obls), o.Exits, o.Secs, o.SolverQ, o.SolverS)
		if o.Error != "" {
			fmt.Printf("        error: %s\n", o.Error)
		}
		for _, b := range o.Obls {
			if !b.Proved {
				fmt.Printf("        %s [%s] at %s: %s\n", b.Name, strings.Join(b.Tags, " "), b.Pos, trunc(b.Detail, 400))
			} else if *verbose {
				fmt.Printf("        ok %s at %s (%s %.2fs)\n", b.Name, b.Pos, b.By, b.Secs)
			}
		}
		if *verbose {
			for _, l := range o.Dead {
				fmt.Println("   dead branch", l)
			}
			for _, l := range o.Invs {
				fmt.Printf("        inv %s\n", l)
			}
		}
	}
	fmt.Printf("%d functions, %d failed, %.1fs\n", len(outs), bad, time.Since(t0).Seconds())
	if *out != "" {
		b, _ := json.MarshalIndent(outs, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func (sp *Specs) merged0(c *Contract) *Contract { return sp.merged(c) }

func runOne(prog *ssa.Program, sp *Specs, fns map[string]*ssa.Function, n string) *Out {
	c := sp.con[n]
	m := sp.merged(c)
	o := &Out{Fn: n, Props: m.Props, Contract: fmt.Sprintf("%s:%d", c.File, c.Line)}
	fn := fns[n]
	if fn == nil {
		if c.Opts["optional"] != "" {
			o.Skipped = "no such function"
			return o
		}
		o.Error = "function not found"
		return o
	}
	statQ, statSecs = 0, 0
	statBy = map[string]int{}
	r := verifyFn(prog, sp, fn, c)
	o.Error = r.Error
	o.Exits, o.Calls, o.Inlined, o.Invs, o.Secs, o.BranchQ = r.Exits, r.Calls, r.Inlined, r.Invs, r.Secs, r.BranchQ
	o.Dead = r.Dead
	o.SolverQ, o.SolverS = statQ, statSecs
	for _, c := range r.Calls {
		if k := sp.con[c]; strings.HasPrefix(c, "unconstrained ") || k != nil && (k.Extern || k.Iface) {
			o.Trusted = append(o.Trusted, c)
		}
	}
	o.By = map[string]int{}
	for i, b := range r.Obls {
		oo := OblOut{Fn: b.Fn, Name: b.Name, Pos: b.Pos, Tags: b.Tags, Proved: b.Res.Proved, By: b.Res.By, Detail: b.Res.Detail, Secs: b.Res.Secs}
		if b.Failed != "" {
			oo.Proved = false
			oo.Detail = b.Failed
		}
		if oo.Proved {
			o.By[oo.By]++
			oo.Detail = ""
		} else if keepDir != "" {
			os.MkdirAll(keepDir, 0o755)
			os.WriteFile(filepath.Join(keepDir, fmt.Sprintf("%s-%d.smt2", sanitize(n), i)), []byte("; "+b.Name+"\n"+b.Query+"(check-sat)\n"), 0o644)
		}
		o.Obls = append(o.Obls, oo)
	}
	return o
}
