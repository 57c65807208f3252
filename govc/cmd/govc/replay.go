package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"govc/internal/smt"
	"govc/internal/sym"
)

type replayReq struct {
	l    *lemma
	args [][]sym.Arg

	consts []int64
}

type replayRep struct {
	Lemma   string    `json:"lemma"`
	Failed  bool      `json:"failed"`
	What    string    `json:"what,omitempty"`
	Input   []sym.Arg `json:"input,omitempty"`
	Execs   int       `json:"execs"`
	Skipped int       `json:"skipped"`
	Source  string    `json:"source,omitempty"`
}

// model extracts concrete arguments from the solver, preferring short inputs. A model over the integers is a
// candidate only: the replay on the real code decides.
func model(r *lemmaResult, t *task) (out [][]sym.Arg) {
	r.ses.Use()
	neg := smt.Not(t.ob.Goal)
	rel := smt.Relevant(t.ob.AllFacts(), []*smt.T{neg})
	base := append(append([]*smt.T{}, rel...), neg)
	limits := []int64{64, 600, 5000, 70000}
	type q struct {
		want         []*smt.T
		is, bs       string
		irefs, brefs []string
		iv, bv       []uint64
	}
	qs := make([]q, len(limits))
	var wg sync.WaitGroup
	for k, lim := range limits {
		as := append([]*smt.T{}, base...)
		for _, p := range r.ex.Params() {
			if p.Len != nil {
				as = append(as, smt.Sle(p.Len, smt.Int(lim)), smt.Sle(p.Cap, smt.Int(lim+64)))
			}
		}
		x := &qs[k]
		x.want = r.ex.Wanted(as)
		x.is, x.irefs, _ = smt.IntScriptNL(as, x.want)
		x.bs, x.brefs = smt.Script(as, x.want)
		wg.Add(2)
		go func() {
			defer wg.Done()
			if q := smt.Backends[0].CheckInt(x.is, x.irefs, true, 8000); q.Status == "sat" {
				x.iv = q.Values
			}
		}()
		go func() {
			defer wg.Done()
			if q := smt.Backends[0].CheckScript(x.bs, x.brefs, 8000); q.Status == "sat" {
				x.bv = q.Values
			}
		}()
	}
	wg.Wait()
	for _, x := range qs {
		if m := r.ex.ModelArgs(x.want, x.bv); m != nil {
			out = append(out, m)
			break
		}
	}
	for _, x := range qs {
		if m := r.ex.ModelArgs(x.want, x.iv); m != nil {
			out = append(out, m)
		}
	}
	return out
}

const testSrc = `package %s

import (
	"testing"

	"github.com/way-platform/tachograph-go/internal/vc"
)

func TestVerifReplay(t *testing.T) {
	if err := vc.Main(map[string]any{
%s	}); err != nil {
		t.Fatal(err)
	}
}
`

// replay runs the failing lemmas as ordinary Go on concrete inputs against the real code.
func replay(reqs []replayReq, ov map[string]string, budget float64) []*replayRep {
	out := make([]*replayRep, len(reqs))
	byPkg := map[string][]int{}
	for i, r := range reqs {
		byPkg[r.l.dir] = append(byPkg[r.l.dir], i)
	}
	var corpus []string
	filepath.Walk(*flagRepo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.Contains(p, "/testdata/") && !strings.HasSuffix(p, ".json") {
			corpus = append(corpus, p)
		}
		return nil
	})
	sort.Strings(corpus)
	var dirs []string
	for d := range byPkg {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	per := budget / float64(len(reqs)+len(dirs))
	if per > 60 {
		per = 60
	}
	if per < 3 {
		per = 3
	}
	for _, d := range dirs {
		is := byPkg[d]
		pkgName := ""
		var lines string
		type request struct {
			Lemma   string      `json:"lemma"`
			Inputs  [][]sym.Arg `json:"inputs"`
			Seconds float64     `json:"seconds"`
			Seed    int64       `json:"seed"`
			Corpus  []string    `json:"corpus"`
			Names   []string    `json:"names"`
			Consts  []int64     `json:"consts"`
			Out     string      `json:"out"`
		}
		of := filepath.Join(*flagTmp, "report.json")
		os.Remove(of)
		var rq []request
		for _, i := range is {
			l := reqs[i].l
			pkgName = l.fn.Pkg.Pkg.Name()
			params := l.fn.Params
			if l.con != nil {
				f := l.con.Name
				if strings.HasPrefix(f, "*") {
					f = "(" + strings.Replace(f, ".", ").", 1)
				}
				lines += fmt.Sprintf("\t\t%q: vc.Contract{F: %s, K: %s},\n", l.name, f, l.name)
				params = l.con.Real.Params
			} else {
				lines += fmt.Sprintf("\t\t%q: %s,\n", l.name, l.name)
			}
			var names []string
			for _, p := range params {
				names = append(names, p.Name())
			}
			rq = append(rq, request{Lemma: l.name, Inputs: reqs[i].args, Seconds: per, Seed: 1, Corpus: corpus, Out: of, Names: names, Consts: reqs[i].consts})
		}
		tf := filepath.Join(*flagTmp, "replay_test.go")
		os.WriteFile(tf, []byte(fmt.Sprintf(testSrc, pkgName, lines)), 0o644)
		o2 := map[string]string{}
		for k, v := range ov {
			o2[k] = v
		}
		o2[filepath.Join(*flagRepo, d, "zz_verif_replay_test.go")] = tf
		ovf := filepath.Join(*flagTmp, "replay-overlay.json")
		b, _ := json.Marshal(map[string]map[string]string{"Replace": o2})
		os.WriteFile(ovf, b, 0o644)
		rf := filepath.Join(*flagTmp, "request.json")
		b, _ = json.Marshal(rq)
		os.WriteFile(rf, b, 0o644)
		cmd := exec.Command("go", "test", "-overlay", ovf, "-run", "^TestVerifReplay$", "-count=1", "-vet=off", "-timeout", fmt.Sprintf("%ds", int(per*float64(len(is)))+120), "./"+d)
		cmd.Dir = *flagRepo
		cmd.Env = append(os.Environ(), "VERIF_REQUEST="+rf, "GOMEMLIMIT=4GiB")
		start := time.Now()
		res, err := cmd.CombinedOutput()
		if err != nil {
			fmt.Fprintf(os.Stderr, "replay in %s: %v (%.0f s)\n%s\n", d, err, time.Since(start).Seconds(), tail(string(res), 2000))
		}
		rb, err := os.ReadFile(of)
		if err != nil {
			continue
		}
		var reps []replayRep
		if json.Unmarshal(rb, &reps) != nil {
			continue
		}
		for k := range reps {
			for _, i := range is {
				if reqs[i].l.name == reps[k].Lemma {
					out[i] = &reps[k]
				}
			}
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
