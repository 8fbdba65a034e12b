// Package verifkit is the monitoring harness. It is compiled into the
// repository's own packages through a build overlay (see /verif/run.py); no
// file of it exists in the repository.
//
// A "property" is a function that is run once per case. A case derives
// everything random from (seed, property, case index), drives the real command
// code against simulated outside systems that record an event log, and lets an
// oracle judge the log and the produced report.
package verifkit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/mrasu/GravityR/infra/aws"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/injection"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"testing/fstest"
)

// SuggestOpts are the options of the "db suggest" commands.
type SuggestOpts struct {
	Query    string
	Examine  bool
	Targets  []string
	JSONVars string // hasura only
	Output   string
}

// JaegerOpts are the options of "app dig jaeger".
type JaegerOpts struct {
	Service       string
	DurationMilli int
	Threshold     int
	Count         int
	Start, End    time.Time
	UIURL         string
	Output        string
}

// Host exposes the entry points of the package the harness is compiled into.
type Host struct {
	Name     string
	MySQL    func(o SuggestOpts, db *mysql.DB, dbName string) error
	Postgres func(o SuggestOpts, db *postgres.DB, schema string) error
	Hasura   func(o SuggestOpts, url, secret string) error
	Jaeger   func(o JaegerOpts, cli *ijaeger.Client) error
	PI       func(start, output string, rds *aws.Rds, pi *aws.PerformanceInsights) error
}

type propFn func(c *C)

var props = map[string]map[string]propFn{} // property -> host -> fn

func register(prop, host string, fn propFn) {
	if props[prop] == nil {
		props[prop] = map[string]propFn{}
	}
	props[prop][host] = fn
}

// Violation is one observed breach.
type Violation struct {
	Property string `json:"property"`
	Host     string `json:"host"`
	Case     int    `json:"case"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
	Detail   string `json:"detail"`
}

type shardOut struct {
	Cases      int               `json:"cases"`
	Evals      int64             `json:"evals"`
	Counters   map[string]int64  `json:"counters"`
	Sigs       []string          `json:"sigs"`
	Samples    []json.RawMessage `json:"samples"`
	Violations []Violation       `json:"violations"`
	NViol      int               `json:"n_violations"`
	Finished   bool              `json:"finished"`
}

// C is the context of one case.
type C struct {
	H     *Host
	Prop  string
	Idx   int
	Seed  int64
	Tier  string
	R     *rand.Rand
	Dir   string // scratch directory of the shard
	ctxMu sync.Mutex
	ctx   []string
	sh    *shard
	failN int
}

type shard struct {
	mu   sync.Mutex
	out  shardOut
	sigs map[uint64]bool
}

// Ctx attaches a line of context that is printed with a violation of the case.
func (c *C) Ctx(format string, a ...any) {
	c.ctxMu.Lock()
	defer c.ctxMu.Unlock()
	if len(c.ctx) < 200 {
		c.ctx = append(c.ctx, fmt.Sprintf(format, a...))
	}
}

// Fail records a violation of the property by this case.
func (c *C) Fail(key, format string, a ...any) {
	c.failN++
	c.sh.mu.Lock()
	defer c.sh.mu.Unlock()
	c.sh.out.NViol++
	if len(c.sh.out.Violations) >= 8 {
		return
	}
	c.ctxMu.Lock()
	detail := strings.Join(c.ctx, "\n")
	c.ctxMu.Unlock()
	if len(detail) > 20000 {
		detail = detail[:20000] + "...(cut)"
	}
	c.sh.out.Violations = append(c.sh.out.Violations, Violation{
		Property: c.Prop, Host: c.H.Name, Case: c.Idx, Key: key,
		Msg: fmt.Sprintf(format, a...), Detail: detail,
	})
}

// Failed tells if the case has recorded a violation.
func (c *C) Failed() bool { return c.failN > 0 }

// Eval counts n judgements of the oracle.
func (c *C) Eval(n int) {
	c.sh.mu.Lock()
	c.sh.out.Evals += int64(n)
	c.sh.mu.Unlock()
}

// Count adds to a named counter shown in the evidence.
func (c *C) Count(name string, n int) {
	c.sh.mu.Lock()
	c.sh.out.Counters[name] += int64(n)
	c.sh.mu.Unlock()
}

// Seen records a state/trace shape; distinct shapes are counted.
func (c *C) Seen(format string, a ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.sh.mu.Lock()
	c.sh.sigs[h.Sum64()] = true
	c.sh.mu.Unlock()
}

// Sample keeps a few example observations for the evidence file.
func (c *C) Sample(v any) {
	c.sh.mu.Lock()
	defer c.sh.mu.Unlock()
	if len(c.sh.out.Samples) < 3 {
		b, err := json.Marshal(v)
		if err == nil && len(b) < 4000 {
			c.sh.out.Samples = append(c.sh.out.Samples, b)
		}
	}
}

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

func caseRand(seed int64, prop, host string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, host, idx)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// InjectAssets installs stand-ins for the front-end bundle.
func InjectAssets() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":     {Data: []byte("console.log('main-js')")},
		"client/dist/assets/main.css":    {Data: []byte("body{--which:main-css}")},
		"client/dist/assets/mermaid.js":  {Data: []byte("console.log('mermaid-js')")},
		"client/dist/assets/mermaid.css": {Data: []byte("body{--which:mermaid-css}")},
	}
}

// Main runs the cases of one shard; everything comes from the environment.
func Main(t *testing.T, h *Host) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("not a verification run")
	}
	fn := props[prop][h.Name]
	if fn == nil {
		t.Fatalf("no property %s for host %s", prop, h.Name)
	}
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(io.Discard)
	InjectAssets()

	outPath := os.Getenv("VERIF_OUT")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sh := &shard{sigs: map[uint64]bool{}}
	sh.out.Counters = map[string]int64{}

	var idxs []int
	if one := os.Getenv("VERIF_ONE"); one != "" {
		i, _ := strconv.Atoi(one)
		idxs = []int{i}
	} else {
		n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
		s, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		k, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
		for i := s; i < n; i += k {
			idxs = append(idxs, i)
		}
	}
	flush := func(fin bool) {
		sh.mu.Lock()
		defer sh.mu.Unlock()
		sh.out.Finished = fin
		sh.out.Sigs = sh.out.Sigs[:0]
		for k := range sh.sigs {
			sh.out.Sigs = append(sh.out.Sigs, strconv.FormatUint(k, 36))
		}
		sort.Strings(sh.out.Sigs)
		b, _ := json.Marshal(&sh.out)
		_ = os.WriteFile(outPath+".tmp", b, 0o644)
		_ = os.Rename(outPath+".tmp", outPath)
	}
	cur := outPath + ".cur"
	dir := filepath.Dir(outPath) + "/scratch-" + filepath.Base(outPath)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	hang := 240 * time.Second
	maxViol := 8
	// Cases which start programs and talk over sockets are repeated when they
	// fail: only a failure which comes again is the program's.
	again := map[string]int{"P21": 3, "P22": 3, "P23": 3}[prop]
	reruns, nBefore, vBefore := 0, 0, 0
	for k := 0; k < len(idxs); k++ {
		i := idxs[k]
		_ = os.WriteFile(cur, []byte(strconv.Itoa(i)), 0o644)
		if reruns == 0 {
			nBefore, vBefore = sh.out.NViol, len(sh.out.Violations)
		}
		nRun := sh.out.NViol
		c := &C{H: h, Prop: prop, Idx: i, Seed: seed, Tier: os.Getenv("VERIF_TIER"),
			R: caseRand(seed, prop, h.Name, i), Dir: dir, sh: sh}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if len(st) > 6000 {
						st = st[:6000]
					}
					c.Fail("panic", "the command crashed: %v", p)
					c.sh.mu.Lock()
					v := c.sh.out.Violations
					if len(v) > 0 {
						v[len(v)-1].Detail += "\n" + st
					}
					c.sh.mu.Unlock()
				}
			}()
			fn(c)
		}()
		select {
		case <-done:
		case <-time.After(hang):
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			c.Ctx("%s", buf[:n])
			c.Fail("hang", "the command did not finish within %s", hang)
			if theBrowser != nil {
				_ = theBrowser.cmd.Process.Kill()
			}
			flush(true)
			return
		}
		sh.mu.Lock()
		nv := sh.out.NViol
		failed := nv > nRun
		if again > 0 && reruns == 0 && failed || reruns > 0 && !failed && reruns < again {
			reruns++
			sh.mu.Unlock()
			k--
			continue
		}
		if reruns > 0 && !failed {
			sh.out.NViol, sh.out.Violations = nBefore, sh.out.Violations[:vBefore]
			sh.out.Counters["failed_once_but_not_again"]++
		}
		reruns = 0
		nv = sh.out.NViol
		sh.out.Cases++
		sh.mu.Unlock()
		if nv >= maxViol {
			break
		}
	}
	_ = os.Remove(cur)
	_ = os.RemoveAll(dir)
	for name, n := range map[string]int64{
		"catalogue_requests_interpreted": catInterpreted.Load(),
		"catalogue_requests_refused":     catRefused.Load(),
		"catalogue_requests_recognized":  catGuessed.Load(),
	} {
		if n > 0 {
			sh.out.Counters[name] = n
		}
	}
	flush(true)
}

// ---- small helpers ---------------------------------------------------------

func pick[T any](r *rand.Rand, vs ...T) T { return vs[r.Intn(len(vs))] }

func pickS[T any](r *rand.Rand, vs []T) T { return vs[r.Intn(len(vs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// protect runs f and turns a panic of it into an error with the flag set.
func protect(f func() error) (err error, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	return f(), ""
}
