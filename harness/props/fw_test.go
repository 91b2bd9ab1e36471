package props

// Framework shared by every check: runs one generated-input search (a "facet"),
// counts what was generated, remembers the current case so that a crash of the
// code under test can still be reported, and writes the statistics used as evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	tier    = os.Getenv("VERIF_TIER")
	outDir  = os.Getenv("VP_OUT")
	cliPath = os.Getenv("VP_CLI")
	shard   = envInt("VP_SHARD", 0)
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func thorough() bool { return tier == "thorough" }

// C is one generated case.
type C struct {
	*rapid.T
	text  string
	key   string
	stats *stats
}

type stats struct {
	Test         string         `json:"test"`
	Rule         string         `json:"rule"`
	Evaluations  int            `json:"evaluations"`
	Nontrivial   int            `json:"nontrivial"`
	Distinct     int            `json:"distinct_nontrivial"`
	Classes      map[string]int `json:"classes"`
	Samples      []string       `json:"samples"`
	Wall         float64        `json:"wall_s"`
	Finished     bool           `json:"finished"`
	Requested    int            `json:"requested"`
	seen         map[uint64]bool
	longestSoFar int
}

var caseFile *os.File
var currentCase atomic.Value // string
var caseSerial atomic.Int64
var caseActive atomic.Bool
var caseStartCPU atomic.Int64

// Case records the text of the current case (input, program, history...).
func (c *C) Case(format string, args ...any) {
	if len(args) > 0 {
		c.text = fmt.Sprintf(format, args...)
	} else {
		c.text = format
	}
	setCurrent(c.text)
}

// Fatalf reports a failure of the current case, described with it.
func (c *C) Fatalf(format string, args ...any) {
	c.T.Helper()
	c.T.Fatalf(format+"\ncase: %s", append(args, c.text)...)
}

// Step appends a line to the current case.
func (c *C) Step(format string, args ...any) {
	c.text += fmt.Sprintf(format, args...) + "\n"
	setCurrent(c.text)
}

func setCurrent(s string) {
	currentCase.Store(s)
	if caseFile != nil {
		caseFile.Truncate(0)
		caseFile.WriteAt([]byte(s), 0)
	}
}

// Class counts the case in a named class.
func (c *C) Class(name string) { c.stats.Classes[name]++ }

// ClassIf counts the case in a named class if the condition is met.
func (c *C) ClassIf(cond bool, name string) {
	if cond {
		c.stats.Classes[name]++
	}
}

// Nontrivial marks the case as non trivial according to the rule of the check.
func (c *C) Nontrivial() { c.key = "y" }

// NontrivialIf marks the case as non trivial if the condition is met.
func (c *C) NontrivialIf(cond bool) {
	if cond {
		c.key = "y"
	}
}

func (s *stats) account(c *C) {
	s.Evaluations++
	if c.key == "" {
		return
	}
	s.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.text))
	if k := h.Sum64(); !s.seen[k] {
		s.seen[k] = true
		s.Distinct++
		// a few samples, spread over the run and of growing size
		if n := len(s.Samples); n < 3 && (s.Distinct == 1 || s.Distinct%97 == 0 || len(c.text) > 2*s.longestSoFar) && len(c.text) < 1500 {
			s.Samples = append(s.Samples, c.text)
			s.longestSoFar = len(c.text)
		}
	}
}

func (s *stats) write() {
	if outDir == "" {
		return
	}
	b, _ := json.Marshal(s)
	os.WriteFile(filepath.Join(outDir, s.Test+fmt.Sprintf(".%d.json", shard)), b, 0644)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

var watchdogOnce sync.Once

const hangCPU = 100 * time.Second // CPU time of the process within a single case; normal cases use milliseconds
const hangMB = 5000

func startWatchdog() {
	watchdogOnce.Do(func() {
		debug.SetMaxStack(128 << 20)
		go func() {
			var serial, start int64 = -1, 0
			for {
				time.Sleep(250 * time.Millisecond)
				now := int64(cpuTime())
				if s := caseSerial.Load(); s != serial || !caseActive.Load() {
					serial, start = s, now
					continue
				}
				reason := ""
				if now-start > int64(hangCPU) {
					reason = fmt.Sprintf("a single case used more than %v of CPU time", hangCPU)
				} else if rssMB() > hangMB {
					reason = fmt.Sprintf("a single case made the process use more than %d MB", hangMB)
				}
				if reason != "" {
					text, _ := currentCase.Load().(string)
					fmt.Printf("VP-RUNAWAY: %s\ncase:\n%s\n", reason, text)
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					os.Stdout.Write(buf)
					os.Exit(97)
				}
			}
		}()
	})
}

// check runs one generated search. quick and deep are the numbers of cases of each tier.
func check(t *testing.T, rule string, quick, deep int, prop func(c *C)) {
	t.Helper()
	n := quick
	if thorough() {
		n = deep
	}
	if v := envInt("VP_CASES", 0); v > 0 {
		n = v
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", t.Name(), seed, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	flag.Set("rapid.seed", fmt.Sprint(s))
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.shrinktime", "15s")
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}, Requested: n}
	if outDir != "" {
		caseFile, _ = os.Create(filepath.Join(outDir, t.Name()+fmt.Sprintf(".%d.case", shard)))
	}
	startWatchdog()
	start := time.Now()
	defer func() {
		st.Wall = time.Since(start).Seconds()
		st.Finished = true
		st.write()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, stats: st}
		caseSerial.Add(1)
		caseActive.Store(true)
		defer func() {
			caseActive.Store(false)
			st.account(c)
		}()
		prop(c)
	})
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func TestMain(m *testing.M) {
	flag.Parse()
	setupProcess()
	os.Exit(m.Run())
}
