// govc generates verification conditions for the lemmas of one property from /repo's current source and discharges them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"govc/internal/smt"
	"govc/internal/sym"
)

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagVerif = flag.String("verif", "/verif", "verification directory")
	flagProp  = flag.String("property", "", "property id")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagLemma = flag.String("lemma", "", "only lemmas matching this regexp (debugging: no evidence)")
	flagVerb  = flag.Bool("v", false, "print every obligation")
	flagTmp   = flag.String("tmp", "", "scratch directory")
	flagNoRep = flag.Bool("noreplay", false, "no replay")
	flagFast  = flag.Bool("fast", false, "short time limits (debugging)")
	flagDump  = flag.String("dump", "", "dump scripts of failed obligations to this directory")
)

type lemma struct {
	name  string
	pkg   string // import path
	dir   string // package directory relative to the repository
	props []string
	fn    *ssa.Function
	doc   string
	using []string
	con   *sym.Contract // the lemma is that the function satisfies this contract
	pname string
}

type task struct {
	ob      *sym.Obligation
	lemma   *lemma
	script  string
	ints    string
	exact   bool
	refs    []string
	want    []*smt.T
	facts   int
	status  string // proved, failed, unknown
	backend string
	ms      float64
	model   []sym.Arg
	cross   string
	known   bool
}

type lemmaResult struct {
	l       *lemma
	err     error
	tasks   []*task
	trivial int
	ex      *sym.Exec
	genMS   float64
	ses     *smt.Session
}

func main() {
	flag.Parse()
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	code := run(t0)
	smt.KillAll()
	pprof.StopCPUProfile()
	os.Exit(code)
}

func die(f string, a ...interface{}) int {
	// the check could not be carried out: the property is not established on this tree
	msg := fmt.Sprintf(f, a...)
	fmt.Fprintln(os.Stderr, msg)
	p := filepath.Join(*flagVerif, "evidence", "replay", *flagProp+"-setup.json")
	os.MkdirAll(filepath.Dir(p), 0o755)
	b, _ := json.MarshalIndent(map[string]string{"property": *flagProp, "failed": "verification conditions could not be generated", "output": msg}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *flagProp, p)
	writeEvidence(nil, nil, time.Now(), []string{msg}, 1)
	return 1
}

var world *sym.World

// elsewhere lists the contracts whose proof belongs to the check of another property.
var elsewhere map[string]bool
var began = time.Now()

func run(t0 time.Time) int {
	if *flagTmp == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			return die("%v", err)
		}
		defer os.RemoveAll(d)
		*flagTmp = d
	}
	overlay, dirs, err := buildOverlay()
	if err != nil {
		return die("overlay: %v", err)
	}
	bo := map[string][]byte{}
	for k, v := range overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return die("%v", err)
		}
		bo[k] = b
	}
	lemmas, prog, pkgs, err := load(bo, dirs)
	for i := 0; i < 30; i++ {
		te, ok := err.(typeErrors)
		if !ok || !prune(bo, te) {
			break
		}
		lemmas, prog, pkgs, err = load(bo, dirs)
	}
	if err != nil {
		return die("load: %v", err)
	}
	if len(dropped) > 0 {
		// what runs later sees the pruned files
		n := 0
		for k, v := range overlay {
			if b, _ := os.ReadFile(v); string(b) != string(bo[k]) {
				n++
				f := filepath.Join(*flagTmp, fmt.Sprintf("pruned%d.go", n))
				if err := os.WriteFile(f, bo[k], 0o644); err != nil {
					return die("%v", err)
				}
				overlay[k] = f
			}
		}
		fmt.Fprintf(os.Stderr, "note: the code these are written against is gone or has another type: %s\n", strings.Join(dropped, ", "))
	}
	tLoad := time.Since(t0)
	world = &sym.World{Prog: prog, Contracts: map[*ssa.Function]*sym.Contract{}, Dir: *flagRepo}
	_ = pkgs
	byName := contracts(lemmas)
	expand(lemmas, byName)
	kept := lemmas[:0]
	for _, l := range lemmas {
		if l.con == nil || l.con.Real != nil {
			kept = append(kept, l)
		}
	}
	lemmas = kept
	var re *regexp.Regexp
	if *flagLemma != "" {
		re = regexp.MustCompile(*flagLemma)
	}
	var sel []*lemma
	for _, l := range lemmas {
		if l.con != nil && l.con.Assumed {
			continue
		}
		if re != nil {
			if re.MatchString(l.name) {
				sel = append(sel, l)
			}
			continue
		}
		for _, p := range l.props {
			if p == *flagProp {
				sel = append(sel, l)
			}
		}
	}
	// a property needs the contracts its lemmas use
	have := map[*lemma]bool{}
	elsewhere = map[string]bool{}
	for _, l := range sel {
		have[l] = true
	}
	for i := 0; i < len(sel) && re == nil; i++ {
		for _, u := range sel[i].using {
			if c := byName[qual(sel[i], u)]; c != nil && !have[c] {
				if c.con.Assumed {
					continue
				}
				if c.con.Pure && len(c.props) == 1 && c.props[0] == "C01" && *flagProp != "C01" {
					elsewhere[c.con.Name] = true // only that it returns: proved by the check of C01
					continue
				}
				have[c] = true
				sel = append(sel, c)
			}
		}
	}
	if len(sel) == 0 {
		return die("no lemma for property %s", *flagProp)
	}
	if err := enumTables(overlay); err != nil {
		return die("enum tables: %v", err)
	}
	// workers
	work := make(chan *task, 100000)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range work {
				solve(t)
			}
		}()
	}
	var res []*lemmaResult
	for _, l := range sel {
		lt := time.Now()
		ses := smt.NewSession()
		ses.Use()
		ex := sym.NewExec(world, l.name)
		for _, u := range l.using {
			if c := byName[qual(l, u)]; c != nil {
				ex.Using[c.con.Real] = true
			}
		}
		var obls []*sym.Obligation
		var err error
		if l.con != nil {
			obls, err = ex.RunContract(l.con)
		} else {
			obls, err = ex.RunLemma(l.fn)
		}
		r := &lemmaResult{l: l, err: err, trivial: ex.Trivial(), ex: ex, ses: ses}
		if err == nil {
			for _, o := range obls {
				t := prepare(ex, l, o)
				r.tasks = append(r.tasks, t)
				if t.status == "" {
					work <- t
				}
			}
		}
		r.genMS = float64(time.Since(lt).Microseconds()) / 1000
		if *flagVerb {
			fmt.Fprintf(os.Stderr, "lemma %s: %d obligations, %d trivial, %.0f ms, houdini %d, err=%v\n", l.name, len(obls), ex.Trivial(), r.genMS, ex.HoudiniQueries, err)
			for _, n := range ex.LoopNotes {
				fmt.Fprintf(os.Stderr, "   loop %s\n", n)
			}
		}
		res = append(res, r)
	}
	close(work)
	wg.Wait()
	return report(res, overlay, t0, tLoad)
}

// buildOverlay maps the contract files into the repository's packages.
func buildOverlay() (map[string]string, []string, error) {
	ov := map[string]string{}
	base := filepath.Join(*flagVerif, "contracts")
	dirs := map[string]bool{}
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		d := filepath.Dir(rel)
		switch {
		case d == "vc":
			ov[filepath.Join(*flagRepo, "internal/vc", filepath.Base(p))] = p
		case d == "root":
			ov[filepath.Join(*flagRepo, filepath.Base(p))] = p
			dirs["."] = true
		default:
			ov[filepath.Join(*flagRepo, d, filepath.Base(p))] = p
			dirs[d] = true
		}
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds, err
}

var lemmaDoc = regexp.MustCompile(`(?m)^//vc:lemma (.*)$`)
var contractDoc = regexp.MustCompile(`(?m)^//vc:contract (.*)$`)
var usingDoc = regexp.MustCompile(`(?m)^//vc:using (.*)$`)

func load(ov map[string][]byte, dirs []string) ([]*lemma, *ssa.Program, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir:     *flagRepo,
		Overlay: ov,
	}
	pats := []string{"./internal/vc"}
	need := map[string]bool{".": true, "internal/dd": true, "internal/card": true, "internal/vu": true, "internal/security": true, "internal/cert": true, "internal/cert/certcache": true}
	for d := range need {
		pats = append(pats, "./"+d)
	}
	sort.Strings(pats)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, nil, err
	}
	var te typeErrors
	for _, p := range ps {
		for _, e := range p.Errors {
			te = append(te, e)
		}
	}
	if te != nil {
		return nil, nil, nil, te
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	var out []*lemma
	for i, p := range ps {
		for j, f := range p.Syntax {
			_ = j
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var doc []string
				for _, c := range fd.Doc.List {
					doc = append(doc, c.Text)
				}
				txt := strings.Join(doc, "\n")
				var con *sym.Contract
				var props []string
				if m := contractDoc.FindStringSubmatch(txt); m != nil {
					fs := strings.Fields(m[1])
					con = &sym.Contract{Name: fs[0]}
					for _, x := range fs[1:] {
						if x == "pure" {
							con.Pure = true
						} else if x == "assumed" {
							con.Pure, con.Assumed = true, true
						} else {
							props = append(props, x)
						}
					}
				} else if m := lemmaDoc.FindStringSubmatch(txt); m != nil {
					props = strings.Fields(m[1])
				} else {
					continue
				}
				var using []string
				for _, m := range usingDoc.FindAllStringSubmatch(txt, -1) {
					using = append(using, strings.Fields(m[1])...)
				}
				fn := sp[i].Func(fd.Name.Name)
				if fn == nil {
					return nil, nil, nil, fmt.Errorf("lemma %s not found", fd.Name.Name)
				}
				rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, sym.RepoPath), "/")
				if rel == "" {
					rel = "."
				}
				if con != nil {
					con.K = fn
				}
				out = append(out, &lemma{name: fd.Name.Name, pkg: p.PkgPath, dir: rel, props: props, fn: fn, doc: txt, con: con, using: using})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, prog, ps, nil
}

type typeErrors []packages.Error

func (e typeErrors) Error() string { return e[0].Error() }

// dropped lists the declarations of the contract files that do not fit the code.
var dropped []string

// prune takes the declarations with errors out of the contract files. Lemmas and contracts refer to functions of the
// code by name: where a function was renamed, removed or given another type, what is said about it is void, and the
// rest of the files is used without it.
func prune(ov map[string][]byte, errs typeErrors) bool {
	done := false
	lines := map[string]map[int]bool{}
	for _, e := range errs {
		ps := strings.Split(e.Pos, ":")
		if len(ps) < 2 {
			continue
		}
		if _, ok := ov[ps[0]]; !ok {
			continue
		}
		n, _ := strconv.Atoi(ps[1])
		if lines[ps[0]] == nil {
			lines[ps[0]] = map[int]bool{}
		}
		lines[ps[0]][n] = true
	}
	for f, ls := range lines {
		src := append([]byte(nil), ov[f]...)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			continue
		}
		hit := func(n ast.Node) bool {
			for l := fs.Position(n.Pos()).Line; l <= fs.Position(n.End()).Line; l++ {
				if ls[l] {
					return true
				}
			}
			return false
		}
		blank := func(a, b token.Pos) {
			for i := fs.Position(a).Offset; i < fs.Position(b).Offset; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			done = true
		}
		for _, im := range af.Imports {
			if hit(im) && (im.Name == nil || im.Name.Name != "_") {
				s := "_ " + im.Path.Value
				if im.Name == nil {
					// no room for the underscore: the import is not needed
					blank(im.Pos(), im.End())
					continue
				}
				blank(im.Pos(), im.End())
				copy(src[fs.Position(im.Pos()).Offset:], s)
			}
		}
		for _, d := range af.Decls {
			a := d.Pos()
			name := "declaration"
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
				if x.Doc != nil {
					a = x.Doc.Pos()
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					continue
				}
			}
			if hit(d) {
				blank(a, d.End())
				dropped = append(dropped, name)
			}
		}
		ov[f] = src
	}
	return done
}

// expand replaces the patterns in the using lists by the contracts they match.
func expand(ls []*lemma, by map[string]*lemma) {
	for _, l := range ls {
		var out []string
		for _, u := range l.using {
			if !strings.Contains(u, "~") {
				out = append(out, u)
				continue
			}
			re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(qual(l, u)), "~", "[A-Za-z0-9_]*") + "$")
			var ms []string
			for n, c := range by {
				if c != l && re.MatchString(n) {
					ms = append(ms, n)
				}
			}
			sort.Strings(ms)
			out = append(out, ms...)
		}
		l.using = out
	}
}

func qual(l *lemma, u string) string {
	if strings.Contains(u, "/") {
		return u
	}
	return l.dir + "/" + u
}

// contracts resolves the functions the contracts are about. A contract whose function is gone is void: callers are
// then verified against the code that took its place.
func contracts(ls []*lemma) map[string]*lemma {
	by := map[string]*lemma{}
	for _, l := range ls {
		if l.con == nil {
			continue
		}
		pkg := l.fn.Pkg
		var real *ssa.Function
		if i := strings.Index(l.con.Name, "."); i >= 0 {
			tn := strings.TrimPrefix(l.con.Name[:i], "*")
			if t := pkg.Type(tn); t != nil {
				var ty types.Type = t.Type()
				if strings.HasPrefix(l.con.Name, "*") {
					ty = types.NewPointer(ty)
				}
				if ms := world.Prog.MethodSets.MethodSet(ty).Lookup(pkg.Pkg, l.con.Name[i+1:]); ms != nil {
					real = world.Prog.MethodValue(ms)
				}
			}
		} else {
			real = pkg.Func(l.con.Name)
		}
		if real == nil || !fits(real, l.fn) {
			continue
		}
		l.con.Real = real
		by[l.dir+"/"+l.con.Name] = l
		world.Contracts[real] = l.con
	}
	return by
}

// fits tells whether k takes the arguments and results of f.
func fits(f, k *ssa.Function) bool {
	var ts []types.Type
	for _, p := range f.Params {
		ts = append(ts, p.Type())
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		ts = append(ts, f.Signature.Results().At(i).Type())
	}
	if len(ts) != len(k.Params) {
		return false
	}
	for i, t := range ts {
		if !types.Identical(t, k.Params[i].Type()) {
			return false
		}
	}
	return true
}

const dumpSrc = `package main

import (
	"encoding/json"
	"os"
	"reflect"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	_ "github.com/way-platform/tachograph-go/internal/card"
	_ "github.com/way-platform/tachograph-go/internal/vu"
	_ "github.com/way-platform/tachograph-go/internal/security"
)

type value struct {
	Number int32
	Name   string
	Ext    map[string]int64
	Msg    map[string]any
}
type table struct {
	Type   string
	Values []value
}

func camel(s string) string {
	var b strings.Builder
	up := true
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteRune(c)
		}
		up = c >= '0' && c <= '9'
	}
	return b.String()
}

func tree(v any) any {
	switch x := v.(type) {
	case protoreflect.EnumNumber:
		return int64(x)
	case bool, int32, int64, uint32:
		return x
	case protoreflect.List:
		l := []any{}
		for i := 0; i < x.Len(); i++ {
			l = append(l, tree(x.Get(i).Interface()))
		}
		return l
	case protoreflect.Message:
		m := map[string]any{}
		x.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			m[camel(string(fd.Name()))] = tree(v.Interface())
			return true
		})
		return m
	}
	return nil
}

func main() {
	var tabs []table
	kinds := map[string]string{}
	protoregistry.GlobalTypes.RangeEnums(func(et protoreflect.EnumType) bool {
		t := reflect.TypeOf(et.New(0))
		if !strings.Contains(t.PkgPath(), "/proto/gen/") {
			return true
		}
		tab := table{Type: t.PkgPath() + "." + t.Name()}
		vs := et.Descriptor().Values()
		for i := 0; i < vs.Len(); i++ {
			v := vs.Get(i)
			x := value{Number: int32(v.Number()), Name: string(v.Name()), Ext: map[string]int64{}}
			proto.RangeExtensions(v.Options(), func(xt protoreflect.ExtensionType, a any) bool {
				n := camel(string(xt.TypeDescriptor().Name()))
				switch y := a.(type) {
				case bool:
					kinds[n] = "bool"
					if y {
						x.Ext[n] = 1
					} else {
						x.Ext[n] = 0
					}
				case int32:
					kinds[n] = "int32"
					x.Ext[n] = int64(y)
				default:
					if e, ok := a.(protoreflect.Enum); ok {
						et := reflect.TypeOf(a)
						kinds[n] = et.PkgPath() + "." + et.Name()
						x.Ext[n] = int64(e.Number())
					} else if m, ok := a.(proto.Message); ok {
						et := reflect.TypeOf(a).Elem()
						kinds[n] = "*" + et.PkgPath() + "." + et.Name()
						if x.Msg == nil {
							x.Msg = map[string]any{}
						}
						x.Msg[n] = tree(m.ProtoReflect())
					}
				}
				return true
			})
			tab.Values = append(tab.Values, x)
		}
		tabs = append(tabs, tab)
		return true
	})
	json.NewEncoder(os.Stdout).Encode(map[string]any{"tables": tabs, "kinds": kinds})
}
`

// enumTables reads the enumeration tables and their protocol annotations from the compiled descriptors of the tree.
func enumTables(ov map[string]string) error {
	src := filepath.Join(*flagTmp, "dump.go")
	if err := os.WriteFile(src, []byte(dumpSrc), 0o644); err != nil {
		return err
	}
	of := filepath.Join(*flagTmp, "dump-overlay.json")
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(*flagRepo, "internal/zzverifdump/main.go"): src}})
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return err
	}
	cmd := exec.Command("go", "run", "-overlay", of, "./internal/zzverifdump")
	cmd.Dir = *flagRepo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	var d struct {
		Tables []*sym.EnumTable
		Kinds  map[string]string
	}
	if err := json.Unmarshal(out, &d); err != nil {
		return err
	}
	world.ExtKinds = d.Kinds
	world.Enums = map[string]*sym.EnumTable{}
	for _, t := range d.Tables {
		world.Enums[t.Type] = t
	}
	return nil
}

func prepare(ex *sym.Exec, l *lemma, o *sym.Obligation) *task {
	t := &task{ob: o, lemma: l}
	if o.Goal.IsTrue() {
		t.status, t.backend = "proved", "simplifier"
		return t
	}
	neg := smt.Not(o.Goal)
	seeds := []*smt.T{neg}
	rel := smt.Relevant(o.AllFacts(), seeds)
	t.facts = len(rel)
	asserts := append(append([]*smt.T{}, rel...), neg)
	t.want = ex.Wanted(asserts)
	t.script, t.refs = smt.Script(asserts, t.want)
	t.ints, _, t.exact = smt.IntScript(asserts, nil)
	return t
}

func solve(t *task) {
	start := time.Now()
	defer func() { t.ms = float64(time.Since(start).Microseconds()) / 1000 }()
	if t.ob.Cover {
		r := smt.Backends[0].CheckScript(t.script, nil, 5000)
		t.backend = r.Backend
		t.status = "proved"
		if r.Status == "unsat" {
			t.status = "failed"
		}
		return
	}
	sched := []struct {
		b  int
		ms int
	}{{-1, 1000}, {0, 2000}, {-2, 5000}, {-3, 8000}, {-4, 8000}, {2, 8000}, {1, 8000}, {-5, 20000}, {0, 40000}, {-6, 40000}, {2, 40000}}
	if *flagFast {
		sched = sched[:2]
	}
	if *flagTier == "thorough" {
		sched = append(sched, struct {
			b  int
			ms int
		}{0, 200000}, struct {
			b  int
			ms int
		}{2, 200000})
	}
	t.status = "unknown"
	for i, s := range sched {
		// many unproved obligations: leave time for the replay
		nf := atomic.LoadInt32(&unproved)
		if el := time.Since(began).Seconds(); *flagTier == "quick" && (i >= 8 && el > 450 || i >= 3 && el > 600 || el > 760) || nf >= 4 && i >= 8 || nf >= 12 && i >= 4 {
			break
		}
		var r smt.Result
		if s.b < 0 {
			r = smt.Backends[0].CheckIntSeed(t.ints, nil, t.exact, s.ms, -s.b-1)
		} else {
			r = smt.Backends[s.b].CheckScript(t.script, nil, s.ms)
		}
		t.backend = r.Backend
		if r.Status == "unsat" {
			t.status = "proved"
			if *flagTier == "thorough" {
				// a second opinion
				o := smt.Backends[2]
				if s.b == 2 {
					o = smt.Backends[0]
				}
				t.cross = o.CheckScript(t.script, nil, 20000).Status
			}
			return
		}
		if r.Status == "sat" {
			t.status = "failed"
			break
		}
	}
	atomic.AddInt32(&unproved, 1)
}

// unproved counts the obligations given up: with many, the rest get less time.
var unproved int32

func report(res []*lemmaResult, ov map[string]string, t0 time.Time, tLoad time.Duration) int {
	known := loadKnown()
	type failure struct {
		r    *lemmaResult
		t    []*task
		why  string
		args [][]sym.Arg
	}
	var fails []*failure
	nproved, nobl, ntriv := 0, 0, 0
	knownHit := map[string]bool{}
	for _, r := range res {
		ntriv += r.trivial
		var f *failure
		if r.err != nil {
			f = &failure{r: r, why: r.err.Error()}
		}
		for _, t := range r.tasks {
			nobl++
			if t.status == "proved" {
				nproved++
				if *flagVerb && t.ms > 2000 {
					fmt.Fprintf(os.Stderr, "  slow %s %s %.0fms %s\n", t.ob.Name, t.ob.Pos, t.ms, t.backend)
				}
				if t.cross == "sat" {
					f2 := "back ends disagree on " + t.ob.Name
					if f == nil {
						f = &failure{r: r, why: f2}
					}
				}
				continue
			}
			if k := known.match(*flagProp, t.ob.Name); k != "" {
				t.known = true
				if !knownHit[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, k)
					knownHit[k] = true
				}
				continue
			}
			if f == nil {
				f = &failure{r: r}
			}
			f.t = append(f.t, t)
			if *flagDump != "" {
				os.MkdirAll(*flagDump, 0o755)
				nm := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(t.ob.Name, "_")
				os.WriteFile(filepath.Join(*flagDump, nm+".smt2"), []byte(t.script+"(check-sat)\n"), 0o644)
				os.WriteFile(filepath.Join(*flagDump, nm+".int.smt2"), []byte(t.ints+"(check-sat)\n"), 0o644)
			}
			fmt.Fprintf(os.Stderr, "UNPROVED %s at %s (%s, %s, %.0f ms)\n", t.ob.Name, t.ob.Pos, t.status, t.backend, t.ms)
		}
		if r.err != nil {
			fmt.Fprintf(os.Stderr, "UNPROVED lemma %s: %v\n", r.l.name, r.err)
		}
		if f != nil {
			fails = append(fails, f)
		}
	}
	fmt.Fprintf(os.Stderr, "%s: %d lemmas, %d obligations, %d discharged, %d closed by the simplifier; %.1f s\n", *flagProp, len(res), nobl, nproved, ntriv, time.Since(t0).Seconds())
	viol := 0
	if len(fails) > 0 && !*flagNoRep {
		// models, then replay and search on the real code
		var reqs []replayReq
		for _, f := range fails {
			for i, t := range f.t {
				if i >= 4 || t.status != "failed" && i >= 2 {
					continue
				}
				if m := model(f.r, t); m != nil {
					f.args = append(f.args, m...)
				}
			}
			reqs = append(reqs, replayReq{f.r.l, f.args, f.r.ex.Consts()})
		}
		budget := 240.0
		if *flagTier == "thorough" {
			budget = 400
		}
		if left := 840 - time.Since(t0).Seconds(); budget > left {
			budget = left
		}
		reps := replay(reqs, ov, budget)
		found := false
		for _, rep := range reps {
			if rep != nil && rep.Failed {
				found = true
			}
		}
		for i, f := range fails {
			var what []string
			if f.why != "" {
				what = append(what, f.why)
			}
			for _, t := range f.t {
				what = append(what, fmt.Sprintf("%s at %s (%s by %s)", t.ob.Name, t.ob.Pos, t.status, t.backend))
			}
			p := filepath.Join(*flagVerif, "evidence", "replay", *flagProp+"-"+f.r.l.name+".json")
			os.MkdirAll(filepath.Dir(p), 0o755)
			doc := map[string]interface{}{"property": *flagProp, "lemma": f.r.l.name, "package": f.r.l.pkg, "failed_obligations": what, "verifier_models": f.args}
			suffix := " no-failing-input-found"
			if rep := reps[i]; rep != nil {
				doc["search"] = rep
				if rep.Failed {
					suffix = ""
					doc["failing_input"] = rep.Input
					doc["outcome"] = rep.What
				}
			}
			b, _ := json.MarshalIndent(doc, "", " ")
			os.WriteFile(p, b, 0o644)
			viol++
			if found && suffix != "" {
				// failing inputs are reported; the other failed obligations are in the replay files
				fmt.Fprintf(os.Stderr, "also unproved: %s (%s)\n", f.r.l.name, p)
				continue
			}
			fmt.Printf("VIOLATION property=%s replay=%s%s\n", *flagProp, p, suffix)
		}
	} else if len(fails) > 0 {
		viol = len(fails)
	}
	if *flagLemma == "" {
		writeEvidence(res, nil, t0, nil, viol)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

type knownList []struct{ prop, pat, desc string }

func loadKnown() knownList {
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var k knownList
	for _, ln := range strings.Split(string(b), "\n") {
		// known: property=<id> obligation=<name> <description>
		m := regexp.MustCompile(`^known: property=(\S+) obligation=(\S+) (.*)$`).FindStringSubmatch(ln)
		if m != nil {
			k = append(k, struct{ prop, pat, desc string }{m[1], m[2], m[3]})
		}
	}
	return k
}

func (k knownList) match(prop, name string) string {
	name = strings.ReplaceAll(name, " ", "_")
	for _, x := range k {
		if x.prop == prop && x.pat == name {
			return x.desc
		}
	}
	return ""
}

func itoa(n int) string { return strconv.Itoa(n) }
