package ctngverif

// Core of the harness: case bookkeeping, deadlines, the deadlock watchdog and
// the report each shard writes for the runner (check.py).

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

type report struct {
	Evaluations int            `json:"evaluations"`
	Skipped     int            `json:"skipped"`
	Nontrivial  []string       `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Failures    []string       `json:"failures"`
	Deadlock    bool           `json:"deadlock"`
	Inconcl     string         `json:"inconclusive"`
	Done        bool           `json:"done"`
}

var (
	statMu     sync.Mutex
	rep        = report{Classes: map[string]int{}}
	nontrivial = map[string]bool{}
	scale      = 1.0         // multiplier on the number of cases
	budget     time.Duration // per check, 0: none
	outPath    string
	caseStart  time.Time // zero when no case is running
	caseName   string
	realStart  = time.Now()
	lastFail   string
	workDir    string
)

// Case collects what happened in one generated case.
type Case struct {
	mu   sync.Mutex
	errs []string
	key  string
	text string
	head map[string]string // put on every request
}

func (c *Case) Errorf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.errs) < 30 {
		c.errs = append(c.errs, fmt.Sprintf(format, args...))
	}
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.errs) > 0
}

func class(label string) {
	statMu.Lock()
	rep.Classes[label]++
	statMu.Unlock()
}

// NonTrivial marks the case as non-trivial, key identifies it.
func (c *Case) NonTrivial(key string) {
	c.key += key + ";"
}

// Describe sets the text under which the case is reported as a sample.
func (c *Case) Describe(format string, args ...any) {
	c.text = fmt.Sprintf(format, args...)
}

// cases returns how many cases a shard runs for a base number.
func cases(base int) int {
	n := int(float64(base) * scale)
	if n < 1 {
		n = 1
	}
	return n
}

// check runs the property f on generated cases.
func check(t *testing.T, base int, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	flag.Set("rapid.checks", strconv.Itoa(cases(base)))
	deadline := time.Now().Add(budget)
	interesting := 0
	lastFail = ""
	defer func() { // rapid ends a failing test with Goexit
		if t.Failed() && lastFail != "" {
			statMu.Lock()
			rep.Failures = append(rep.Failures, lastFail)
			statMu.Unlock()
			lastFail = ""
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if budget > 0 && time.Now().After(deadline) && lastFail == "" {
			statMu.Lock()
			rep.Skipped++
			statMu.Unlock()
			return
		}
		c := &Case{}
		statMu.Lock()
		caseStart, caseName = time.Now(), t.Name()
		statMu.Unlock()
		func() {
			defer func() {
				statMu.Lock()
				caseStart = time.Time{}
				statMu.Unlock()
				if r := recover(); r != nil {
					// rapid ends a case with panics of its own types
					if !strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
						stack := string(debug.Stack())
						if !strings.Contains(stack, "jik18001/CTngV2") && !strings.Contains(fmt.Sprint(r), "deadlock") {
							statMu.Lock()
							rep.Inconcl = fmt.Sprintf("%s: the harness panics: %v\n%s", t.Name(), r, clip(stack, 4000))
							statMu.Unlock()
							panic(r)
						}
						lastFail = fmt.Sprintf("%s: panic: %v\n%s\ncase: %s", t.Name(), r, clip(stack, 4000), c.text)
					}
					panic(r)
				}
			}()
			f(rt, c)
		}()
		statMu.Lock()
		rep.Evaluations++
		if c.key != "" {
			h := sha256.Sum256([]byte(t.Name() + c.key))
			nontrivial[hex.EncodeToString(h[:8])] = true
			interesting++
			if c.text != "" && len(rep.Samples) < 6 && (interesting == 3 || interesting == 30 || interesting == 300 || interesting == 3000) {
				rep.Samples = append(rep.Samples, t.Name()+": "+clip(c.text, 1200))
			}
		}
		statMu.Unlock()
		if c.Failed() {
			lastFail = t.Name() + ": " + strings.Join(c.errs, "\n") + "\ncase: " + c.text
			rt.Logf("case: %s", c.text)
			rt.Fatalf("%s", strings.Join(c.errs, "\n"))
		}
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// bubble runs fn with a virtual clock that starts at the given minute and
// second of an hour. All goroutines fn starts have to end, or to sleep: the
// clock stops when fn is done, so what was left for later never happens.
func bubble(t *testing.T, c *Case, minute, second int, fn func()) {
	t.Helper()
	id := ""
	defer func() {
		if r := recover(); r != nil {
			if !strings.Contains(fmt.Sprint(r), "main bubble goroutine has exited") || !sleepers(id) {
				panic(r)
			}
			class("left for later")
		}
	}()
	synctest.Test(t, func(*testing.T) {
		if m := bubbleNumber.FindSubmatch(debug.Stack()); m != nil {
			id = string(m[1])
		}
		defer func() {
			if r := recover(); r != nil {
				c.Errorf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
			}
		}()
		time.Sleep(time.Duration(minute)*time.Minute + time.Duration(second)*time.Second)
		fn()
		if c.Failed() {
			time.Sleep(5 * time.Minute) // let the goroutines of the case end
		}
		synctest.Wait()
	})
}

// startTask runs a periodic task of the code, which may return or go on for ever.
func startTask(task func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		task()
	}()
	select {
	case <-done:
	case <-time.After(time.Millisecond):
	}
}

var bubbleNumber = regexp.MustCompile(`synctest bubble (\d+)\]`)

// sleepers tells whether code of the repository sleeps in a bubble, or waits
// for a timer or ticker of its own.
func sleepers(id string) bool {
	buf := make([]byte, 16<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.HasSuffix(head, "synctest bubble "+id+"]:") || !strings.Contains(g, "jik18001/CTngV2") {
			continue
		}
		if strings.Contains(head, "[sleep") {
			return true
		}
		_, frames, _ := strings.Cut(g, "\n")
		if (strings.Contains(head, "[chan receive") || strings.Contains(head, "[select")) && strings.HasPrefix(frames, "github.com/jik18001/CTngV2") {
			return true
		}
	}
	return false
}

// safely runs fn and reports a panic as a failure of the case.
func safely(c *Case, what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Errorf("%s: panic: %v\n%s", what, r, clip(string(debug.Stack()), 3000))
		}
	}()
	fn()
}

var goroutineHead = regexp.MustCompile(`^goroutine (\d+) [^\[]*\[([^\]]*)\]`)

// deadlocked tells whether a goroutine dump shows that nothing can run any
// more while code of the repository waits for a lock.
func deadlocked(dump string) (bool, string) {
	waiting := ""
	for _, g := range strings.Split(dump, "\n\n") {
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		state := m[2]
		if strings.Contains(g, ".watchdog(") {
			continue
		}
		if strings.HasPrefix(state, "running") || strings.HasPrefix(state, "runnable") || strings.HasPrefix(state, "syscall") || strings.HasPrefix(state, "GC") && !strings.Contains(state, "worker (idle)") {
			return false, ""
		}
		if strings.HasPrefix(state, "sleep") && strings.Contains(g, "jik18001/CTngV2") {
			// it may sleep with the lock: slow, but not a deadlock
			return false, ""
		}
		if strings.HasPrefix(state, "sync.") && strings.Contains(g, "jik18001/CTngV2") && !strings.HasPrefix(state, "sync.WaitGroup") {
			waiting = g
		}
	}
	return waiting != "", waiting
}

func watchdog() {
	buf := make([]byte, 8<<20)
	prev := ""
	for {
		time.Sleep(5 * time.Second)
		statMu.Lock()
		start, name := caseStart, caseName
		statMu.Unlock()
		if start.IsZero() || time.Since(start) < 40*time.Second {
			prev = ""
			continue
		}
		dump := string(buf[:runtime.Stack(buf, true)])
		if dead, where := deadlocked(dump); dead {
			if prev != "" && prev == name+start.String() {
				statMu.Lock()
				rep.Deadlock = true
				rep.Failures = append(rep.Failures, name+": deadlock, the code waits for a lock nobody will release\n"+clip(where, 3000))
				statMu.Unlock()
				writeReport()
				os.Exit(3)
			}
			prev = name + start.String()
			continue
		}
		prev = ""
		if time.Since(start) > 400*time.Second {
			rep.Inconcl = name + ": a case did not end in 400 s\n" + clip(dump, 6000)
			writeReport()
			os.Exit(4)
		}
	}
}

type lastLine struct {
	mu sync.Mutex
	f  *os.File
}

func (l *lastLine) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	q := append([]byte(clip(string(p), 400)), '\n')
	l.f.WriteAt(append(q, make([]byte, 410-min(len(q), 410))...), 0)
	return len(p), nil
}

func writeReport() {
	statMu.Lock()
	defer statMu.Unlock()
	for k := range nontrivial {
		rep.Nontrivial = append(rep.Nontrivial, k)
	}
	b, _ := json.Marshal(rep)
	if outPath != "" {
		os.WriteFile(outPath, b, 0644)
	} else {
		fmt.Fprintf(os.Stderr, "evaluations=%d nontrivial=%d skipped=%d classes=%v wall=%v\n", rep.Evaluations, len(nontrivial), rep.Skipped, rep.Classes, time.Since(realStart))
		fmt.Fprint(os.Stderr, rep.Inconcl)
		for _, f := range rep.Failures {
			fmt.Fprintln(os.Stderr, "FAILURE", f)
		}
	}
}

func TestMain(m *testing.M) {
	outPath = os.Getenv("VERIF_OUT")
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		d, _ := strconv.ParseFloat(s, 64)
		budget = time.Duration(d * float64(time.Second))
	}
	var err error
	workDir, err = os.MkdirTemp("", "ctngverif")
	if err != nil {
		panic(err)
	}
	flag.Parse()
	if os.Getenv("VERIF_NOISE") == "" {
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		os.Stdout = null
		log.SetOutput(io.Discard)
		if underRace {
			os.Stdout = nil // output takes locks, which would order what is printed for the race detector
		} else if outPath != "" {
			// the last line logged, in case the code ends the process
			if f, err := os.Create(outPath + ".log"); err == nil {
				log.SetOutput(&lastLine{f: f})
			}
		}
	}
	go watchdog()
	code := m.Run()
	rep.Done = true
	writeReport()
	os.RemoveAll(workDir)
	os.Exit(code)
}
