// jv checks the properties of the decoder by generated cases.
//
//	jv -prop C01 -tier quick -seed 1 -secs 20 -evidence FILE -replays DIR
//	jv -replay FILE
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/pbt"
)

// Replay reproduces a violation.
type Replay struct {
	Property string   `json:"property"`
	Failure  string   `json:"failure"`
	Case     string   `json:"case"`
	Tape     []uint64 `json:"tape,omitempty"` // the choices of a single failing case
	// Otherwise the cases From..To of a worker, run in one process.
	Seed     uint64 `json:"seed"`
	Worker   int    `json:"worker"`
	From     uint64 `json:"from"`
	To       uint64 `json:"to"`
	TypeSeed string `json:"type_seed,omitempty"` // the seed of generated types other than the committed
	Tier     string `json:"tier"`
	Thorough bool   `json:"thorough"`
	How      string `json:"how"`
}

type stats struct {
	Cases      uint64         `json:"cases"`
	NonTrivial uint64         `json:"nontrivial"`
	Samples    []string       `json:"samples"`
	Counts     map[string]int `json:"counts"`
	Hashes     string         `json:"hashes"`
	Violation  *Replay        `json:"violation"`
}

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Uint64("seed", 1, "seed")
	fSecs     = flag.Float64("secs", 20, "seconds of generation")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fAppend   = flag.Bool("append", false, "add to the evidence file")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fReplay   = flag.String("replay", "", "replay a file")
	fWorkers  = flag.Int("workers", 8, "worker processes")
	fTypeSeed = flag.String("typeseed", "", "seed of the generated types")
	fHashes   = flag.String("hashes", "", "file keeping the distinct cases of several runs")
	fKnown    = flag.String("known", "", "known findings file")
	// internal
	// For looking through many changes quickly.
	fNoShrink = flag.Bool("noshrink", false, "report violations without shrinking")

	fWorker = flag.Int("worker", -1, "")
	fDir    = flag.String("dir", "", "")
	fFrom   = flag.Uint64("from", 0, "")
	fTo     = flag.Uint64("to", 0, "")
	fTape   = flag.String("tape", "", "")
	fSink   = flag.String("sink", "", "")
)

func main() {
	flag.Parse()
	switch {
	case *fReplay != "":
		os.Exit(replayMain(*fReplay))
	case *fTape != "":
		tapeMain()
	case *fWorker >= 0:
		workerMain()
	case *fProp == "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(parentMain())
	}
}

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "jv: "+f+"\n", a...)
	os.Exit(code)
}

// --- worker

const (
	exitViolation = 3
	exitMemory    = 77
	memLimit      = 3 << 30 / (64 / strconv.IntSize)
)

func setup(p *Prop) {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(1 << 30)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapInuse > memLimit {
				fmt.Fprintf(os.Stderr, "jv: memory exhausted: %d bytes in use\n", m.HeapInuse)
				os.Exit(exitMemory)
			}
		}
	}()
}

func caseSeed(p *Prop, seed uint64, worker int, i uint64) uint64 {
	return pbt.Hash(seed, pbt.HashBytes(p.ID), uint64(worker), i)
}

// runCase runs a case, turning panics of the harness or the decoder into failures.
func runCase(p *Prop, e *Env, s *pbt.Src) (r *Res) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			r = &Res{Fail: fmt.Sprintf("panic: %v\n%s", x, st)}
		}
	}()
	r = p.Run(e, s)
	if r == nil {
		r = &Res{}
	}
	if r.Desc == "" && r.desc != nil && (r.Fail != "") {
		r.Desc = r.desc()
	}
	return r
}

func workerMain() {
	p := props[*fProp]
	setup(p)
	w := *fWorker
	prog := mapProgress(filepath.Join(*fDir, fmt.Sprintf("p%d", w)))
	lastCall = prog[16:]
	e := newEnv(*fTier == "thorough")
	st := &stats{Counts: map[string]int{}}
	hashes := map[uint64]struct{}{}
	deadline := time.Now().Add(time.Duration(*fSecs * float64(time.Second)))
	to := *fTo
	if to == 0 {
		to = 1 << 62
	}
	for i := *fFrom; i <= to; i++ {
		if i%16 == 0 && *fTo == 0 && time.Now().After(deadline) {
			break
		}
		binary.LittleEndian.PutUint64(prog, i+1)
		s := pbt.New(caseSeed(p, *fSeed, w, i))
		r := runCase(p, e, s)
		st.Cases++
		for _, c := range r.Counts {
			st.Counts[c]++
		}
		if r.Fail != "" {
			st.Violation = explain(p, s.Rec, r, w, i)
			break
		}
		if r.NonTrivial {
			st.NonTrivial++
			if len(hashes) < 600_000 {
				n := len(hashes)
				hashes[r.Key] = struct{}{}
				if len(hashes) > n && (n < 2 || n&(n-1) == 0 && n > 64) && r.desc != nil && len(st.Samples) < 12 {
					st.Samples = append(st.Samples, r.desc())
				}
			}
		}
	}
	binary.LittleEndian.PutUint64(prog, 0)
	st.Hashes = filepath.Join(*fDir, fmt.Sprintf("h%d", w))
	b := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	if err := os.WriteFile(st.Hashes, b, 0o644); err != nil {
		fatal(9, "%v", err)
	}
	writeJSON(filepath.Join(*fDir, fmt.Sprintf("s%d", w)), st)
	if st.Violation != nil {
		os.Exit(exitViolation)
	}
}

// explain shrinks a failing case, or finds how much history it needs.
func explain(p *Prop, tape []uint64, r *Res, w int, i uint64) *Replay {
	th := *fTier == "thorough"
	rp := &Replay{Property: p.ID, Failure: r.Fail, Case: r.Desc, Seed: *fSeed, Worker: w, From: i, To: i, TypeSeed: *fTypeSeed, Tier: *fTier, Thorough: th}
	prog := mapProgress(filepath.Join(*fDir, fmt.Sprintf("p%d", w)))
	beat := func() { binary.LittleEndian.PutUint64(prog[8:], binary.LittleEndian.Uint64(prog[8:])+1) }
	// What is known so far survives a crash while shrinking.
	writeJSON(filepath.Join(*fDir, fmt.Sprintf("v%d", w)), rp)
	if *fNoShrink {
		return rp
	}
	fails := func(t []uint64) (bool, []uint64) {
		beat()
		s := pbt.Replay(t)
		return runCase(p, newEnvLike(th), s).Fail != "", s.Rec
	}
	for try := 0; try < 3; try++ {
		if ok, _ := fails(tape); ok {
			best, _ := pbt.Shrink(tape, fails, 4000, 20*time.Second)
			s := pbt.Replay(best)
			if m := runCase(p, newEnvLike(th), s); m.Fail != "" {
				rp.Tape, rp.Failure, rp.Case = best, m.Fail, m.Desc
			} else {
				rp.Tape = tape
			}
			rp.How = "a single case: the choices on the tape, shrunk"
			return rp
		}
	}
	for n := uint64(1); ; n *= 2 {
		from := uint64(0)
		if i > n {
			from = i - n
		}
		e := newEnvLike(th)
		for k := from; k <= i; k++ {
			beat()
			m := runCase(p, e, pbt.New(caseSeed(p, *fSeed, w, k)))
			if m.Fail != "" && k == i {
				rp.From, rp.Failure, rp.Case = from, m.Fail, m.Desc
				rp.How = fmt.Sprintf("the cases %d to %d of the worker in one process", from, i)
				return rp
			}
		}
		if from == 0 || n > 100_000 {
			break
		}
	}
	rp.From = 0
	rp.How = "observed once in the cases 0 to " + fmt.Sprint(i) + " of the worker"
	return rp
}

func newEnvLike(th bool) *Env { return newEnv(th) }

// tapeMain runs a tape or a range once: exit 0 held, 3 violated.
func tapeMain() {
	var rp Replay
	readJSON(*fTape, &rp)
	p := props[rp.Property]
	setup(p)
	lastCall = mapFile(*fTape+".call", progSize)
	defer os.Remove(*fTape + ".call")
	e := newEnv(rp.Thorough)
	var r *Res
	if rp.Tape != nil {
		s := pbt.Replay(rp.Tape)
		s.Sink = mapSink()
		r = runCase(p, e, s)
	} else {
		for i := rp.From; i <= rp.To; i++ {
			s := pbt.New(caseSeed(p, rp.Seed, rp.Worker, i))
			if i == rp.To {
				s.Sink = mapSink()
			}
			if r = runCase(p, e, s); r.Fail != "" {
				break
			}
		}
	}
	if r.Fail != "" {
		fmt.Printf("failure: %s\ncase: %s\n", r.Fail, r.Desc)
		os.Remove(*fTape + ".call")
		os.Exit(exitViolation)
	}
	fmt.Println("held")
}

func replayMain(file string) int {
	var rp Replay
	readJSON(file, &rp)
	p := props[rp.Property]
	if p == nil {
		fatal(9, "unknown property %q", rp.Property)
	}
	c := exec.Command(os.Args[0], "-tape", file)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	c.Env = workerEnv(p, rp.Worker)
	if err := c.Run(); err != nil {
		if b, e := os.ReadFile(file + ".call"); e == nil {
			fmt.Println(callNoted(b))
			os.Remove(file + ".call")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	return 0
}

// --- parent

// workerEnv is the environment of worker w: some collect garbage all the time.
func workerEnv(p *Prop, w int) []string {
	env := append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	if w%4 == 1 {
		env = append(env, "GOGC=10", "GODEBUG=clobberfree=1")
	}
	return append(env, p.Env...)
}

func parentMain() int {
	p := props[*fProp]
	if p == nil {
		fatal(9, "unknown property %q", *fProp)
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "jv")
	if err != nil {
		fatal(9, "%v", err)
	}
	defer os.RemoveAll(dir)
	n := *fWorkers
	if p.Workers > 0 && n > p.Workers {
		n = p.Workers
	}
	sts := make([]*stats, n)
	var viol *Replay
	infra := ""
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	for w := 0; w < n; w++ {
		args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-secs", fmt.Sprint(*fSecs), "-worker", fmt.Sprint(w), "-dir", dir, "-typeseed", *fTypeSeed, fmt.Sprintf("-noshrink=%v", *fNoShrink)}
		c := exec.Command(os.Args[0], args...)
		out, _ := os.Create(filepath.Join(dir, fmt.Sprintf("out%d", w)))
		c.Stdout, c.Stderr = out, out
		c.Env = workerEnv(p, w)
		prog := mapProgress(filepath.Join(dir, fmt.Sprintf("p%d", w)))
		if err := c.Start(); err != nil {
			fatal(9, "%v", err)
		}
		cmds = append(cmds, c)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			hung := false
			var err error
			last, lastT := [2]uint64{}, time.Now()
		wait:
			for {
				select {
				case err = <-done:
					break wait
				case <-time.After(time.Second):
					now := [2]uint64{binary.LittleEndian.Uint64(prog), binary.LittleEndian.Uint64(prog[8:])}
					if now != last {
						last, lastT = now, time.Now()
					} else if time.Since(lastT) > 60*time.Second {
						hung = true
						_ = c.Process.Kill()
						err = <-done
						break wait
					}
				}
			}
			out.Close()
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				sts[w] = &stats{}
				readJSON(filepath.Join(dir, fmt.Sprintf("s%d", w)), sts[w])
				return
			}
			if viol != nil {
				return
			}
			code := -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			if code == exitViolation {
				sts[w] = &stats{}
				readJSON(filepath.Join(dir, fmt.Sprintf("s%d", w)), sts[w])
				viol = sts[w].Violation
			} else {
				b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", w)))
				text := string(b)
				if len(text) > 2500 {
					text = text[:2500]
				}
				// A violation found before a crash while shrinking.
				v := &Replay{}
				if b, e2 := os.ReadFile(filepath.Join(dir, fmt.Sprintf("v%d", w))); e2 == nil && json.Unmarshal(b, v) == nil {
					v.How = "one case (a crash ended the shrinking)"
					viol = v
				} else if *fNoShrink {
					viol = &Replay{Property: p.ID, Failure: text, Worker: w}
				} else if i := binary.LittleEndian.Uint64(prog); i > 0 && (hung || code == exitMemory || code == 2 || code == 66 || ended(err)) {
					why := "the process crashed"
					if hung {
						why = "the case did not terminate"
					}
					viol = crash(p, dir, w, i-1, why+": "+text+callNoted(prog[16:]), hung)
				} else {
					infra = fmt.Sprintf("worker %d: %v\n%s", w, err, text)
				}
			}
			for _, o := range cmds {
				if o != c && viol != nil {
					_ = o.Process.Kill()
				}
			}
		}(w)
	}
	wg.Wait()
	known := 0
	if viol == nil && infra == "" && *fKnown != "" {
		known = printKnown(*fKnown, p.ID)
	}
	_ = known
	code := 0
	if viol != nil && viol.Tape != nil && !*fNoShrink && !reproduces(p, dir, viol) {
		// What the process did before matters: search in processes of their own.
		v := crash(p, dir, viol.Worker, viol.To, viol.Failure, false)
		if reproduces(p, dir, v) {
			v.Case = strings.TrimSpace(v.Case + " (in a fresh process; first seen as: " + viol.Case + ")")
			viol = v
		} else {
			viol.How += "; depends on what the process did before: cases 0 to " + fmt.Sprint(viol.To) + " of the worker"
		}
	}
	if viol != nil {
		f := filepath.Join(*fReplays, fmt.Sprintf("%s-%d.json", p.ID, time.Now().UnixNano()))
		if err := os.MkdirAll(*fReplays, 0o755); err != nil {
			fatal(9, "%v", err)
		}
		writeJSON(f, viol)
		fmt.Printf("failure: %s\ncase: %s\n%s\n", viol.Failure, viol.Case, viol.How)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		code = 1
	} else if infra != "" {
		fmt.Fprintf(os.Stderr, "jv: no answer: %s\n", infra)
		return 2
	}
	evidence(p, sts, viol, time.Since(start))
	return code
}

// ended tells whether the process was ended by a signal that the code under
// test can cause (not by the memory guard of the sandbox).
func ended(err error) bool {
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return ws.Signal() != syscall.SIGKILL && ws.Signal() != syscall.SIGTERM
		}
	}
	return false
}

// reproduces tells whether the replay fails in a fresh process.
func reproduces(p *Prop, dir string, r *Replay) bool {
	f := filepath.Join(dir, "repro.json")
	for try := 0; try < 2; try++ {
		writeJSON(f, r)
		c := exec.Command(os.Args[0], "-tape", f)
		c.Env = workerEnv(p, r.Worker)
		t := time.AfterFunc(20*time.Second, func() { _ = c.Process.Kill() })
		err := c.Run()
		t.Stop()
		if err != nil {
			return true
		}
	}
	return false
}

// crash finds what reproduces the end of a worker process at case i.
func crash(p *Prop, dir string, w int, i uint64, text string, hung bool) *Replay {
	th := *fTier == "thorough"
	rp := &Replay{Property: p.ID, Failure: text, Seed: *fSeed, Worker: w, From: i, To: i, TypeSeed: *fTypeSeed, Tier: *fTier, Thorough: th}
	deadline := time.Now().Add(60 * time.Second)
	run := func(r *Replay) (bool, string) {
		f := filepath.Join(dir, "crash.json")
		writeJSON(f, r)
		c := exec.Command(os.Args[0], "-tape", f)
		c.Env = workerEnv(p, rp.Worker)
		t := time.AfterFunc(15*time.Second, func() { _ = c.Process.Kill() })
		out, err := c.CombinedOutput()
		t.Stop()
		if len(out) > 2500 {
			out = out[:2500]
		}
		if b, e := os.ReadFile(f + ".call"); e == nil && err != nil {
			out = append(out, callNoted(b)...)
			os.Remove(f + ".call")
		}
		return err != nil, string(out)
	}
	// The tape of the case, from a run of the generator that stops at the crash, is
	// not available; random choices are reproduced from the case's seed instead.
	for n := uint64(0); time.Now().Before(deadline); n = n*4 + 1 {
		r := *rp
		if r.From = 0; i > n {
			r.From = i - n
		}
		if ok, out := run(&r); ok {
			rp.From = r.From
			rp.Failure = text + "\nreproduced: " + out
			break
		}
		if r.From == 0 {
			break
		}
	}
	rp.How = fmt.Sprintf("the cases %d to %d of the worker in one process", rp.From, rp.To)
	if rp.From != rp.To || hung {
		return rp
	}
	// Shrink by running tapes in processes of their own.
	sink := filepath.Join(dir, "sink")
	tapeRun := func(r *Replay) (bool, []uint64) {
		f := filepath.Join(dir, "crash.json")
		writeJSON(f, r)
		_ = os.Remove(sink)
		c := exec.Command(os.Args[0], "-tape", f, "-sink", sink)
		c.Env = workerEnv(p, rp.Worker)
		t := time.AfterFunc(15*time.Second, func() { _ = c.Process.Kill() })
		out, err := c.CombinedOutput()
		t.Stop()
		if err != nil {
			if len(out) > 2500 {
				out = out[:2500]
			}
			rp.Failure = why(text) + string(out)
			if b, e := os.ReadFile(f + ".call"); e == nil {
				rp.Failure += "\n" + string(callNoted(b))
			}
		}
		b, _ := os.ReadFile(sink)
		var tape []uint64
		if len(b) > 8 {
			n := binary.LittleEndian.Uint64(b)
			for k := uint64(0); k < n && 16+8*k <= uint64(len(b)); k++ {
				tape = append(tape, binary.LittleEndian.Uint64(b[8+8*k:]))
			}
		}
		return err != nil, tape
	}
	if ok, tape := tapeRun(rp); ok && len(tape) > 0 {
		fails := func(t []uint64) (bool, []uint64) {
			if len(t) == 0 {
				return false, nil // would stand for no tape at all
			}
			r := *rp
			r.Tape = t
			return tapeRun(&r)
		}
		if ok, _ := fails(tape); ok {
			rp.Tape, _ = pbt.Shrink(tape, fails, 400, 25*time.Second)
			fails(rp.Tape)
			rp.How = "a single case: the choices on the tape, shrunk"
		}
	}
	return rp
}

func why(text string) string {
	if i := strings.IndexByte(text, ':'); i > 0 {
		return text[:i] + ": "
	}
	return ""
}

// mapSink returns a file-backed record of choices that outlives a crash.
func mapSink() []uint64 {
	if *fSink == "" {
		return nil
	}
	b := mapFile(*fSink, 1<<20)
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), len(b)/8)
}

const progSize = 16 + 1<<15

func mapProgress(f string) []byte { return mapFile(f, progSize) }

// lastCall is shared memory that survives a crash of the worker.
var lastCall []byte

// noteCall records the call that is about to be made.
func noteCall(what, typ string, text []byte, opts any) {
	if lastCall == nil {
		return
	}
	n := copy(lastCall[4:], what)
	n += copy(lastCall[4+n:], " of ")
	n += copy(lastCall[4+n:], typ)
	n += copy(lastCall[4+n:], ": ")
	n += copy(lastCall[4+n:], text)
	binary.LittleEndian.PutUint32(lastCall, uint32(n))
}

func callNoted(b []byte) string {
	if len(b) < 4 {
		return ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n == 0 || n > len(b)-4 {
		return ""
	}
	if n > 1500 {
		n = 1500
	}
	return "\nlast call: " + string(b[4:4+n])
}

func mapFile(f string, size int) []byte {
	fd, err := os.OpenFile(f, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal(9, "%v", err)
	}
	defer fd.Close()
	if err := fd.Truncate(int64(size)); err != nil {
		fatal(9, "%v", err)
	}
	b, err := syscall.Mmap(int(fd.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(9, "%v", err)
	}
	return b
}

func writeJSON(f string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(f, append(b, '\n'), 0o644)
	}
	if err != nil {
		fatal(9, "%v", err)
	}
}

func readJSON(f string, v any) {
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fatal(9, "%v", err)
	}
}

// --- evidence

func evidence(p *Prop, sts []*stats, viol *Replay, wall time.Duration) {
	if *fEvidence == "" {
		return
	}
	hs := map[uint64]struct{}{}
	var cases, nt uint64
	var samples []string
	counts := map[string]int{}
	for _, st := range sts {
		if st == nil {
			continue
		}
		cases += st.Cases
		nt += st.NonTrivial
		samples = append(samples, st.Samples...)
		for k, v := range st.Counts {
			counts[k] += v
		}
		b, _ := os.ReadFile(st.Hashes)
		for ; len(b) >= 8; b = b[8:] {
			hs[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	if *fHashes != "" {
		if *fAppend {
			b, _ := os.ReadFile(*fHashes)
			for ; len(b) >= 8; b = b[8:] {
				hs[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
		b := make([]byte, 0, 8*len(hs))
		for h := range hs {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		os.WriteFile(*fHashes, b, 0o644)
	}
	distinct := len(hs)
	wallS := wall.Seconds()
	var old map[string]any
	if *fAppend {
		if b, err := os.ReadFile(*fEvidence); err == nil && json.Unmarshal(b, &old) == nil {
			c := old["coverage"].(map[string]any)
			cases += uint64(c["evaluations"].(float64))
			for _, x := range c["samples"].([]any) {
				samples = append([]string{x.(string)}, samples...)
			}
			if m, ok := c["classes"].(map[string]any); ok {
				for k, v := range m {
					counts[k] += int(v.(float64))
				}
			}
			wallS += old["wall_s"].(float64)
		}
	}
	// Spread the samples, keep them short.
	if len(samples) > 16 {
		var pick []string
		for i := 0; i < 16; i++ {
			pick = append(pick, samples[i*len(samples)/16])
		}
		samples = pick
	}
	for i, s := range samples {
		if len(s) > 600 {
			samples[i] = strings.ToValidUTF8(s[:600], "") + "..."
		}
	}
	if samples == nil {
		samples = []string{}
	}
	vs := 0
	if viol != nil {
		vs = 1
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     *fTier,
		"seed":     *fSeed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             counts,
		},
		"wall_s":      wallS,
		"assumptions": append([]string{"encoding/json, strconv, math/big and reflect of the installed Go 1.21 are correct", "linux/amd64"}, p.Notes...),
		"violations":  vs,
	}
	if viol != nil {
		ev["violation"] = map[string]any{"failure": viol.Failure, "case": viol.Case}
	}
	writeJSON(*fEvidence, ev)
}
