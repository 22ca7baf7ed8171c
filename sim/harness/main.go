package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	rt "github.com/grepsuzette/joeson/verifrt"
)

type stats struct {
	Runs         int            `json:"runs"`
	Nontrivial   int            `json:"nontrivial"`
	Ops          int            `json:"ops"`
	Compared     int            `json:"compared"`
	Modelled     int            `json:"modelled"`
	Steps        uint64         `json:"steps"`
	SimRuns      uint64         `json:"simruns"`
	Clock        int64          `json:"clock_ns"`
	Preempts     int            `json:"preempts"`
	Disagree     int            `json:"disagree"`
	Inconclusive int            `json:"inconclusive"`
	Invalid      int            `json:"invalid"`
	Fired        map[string]int `json:"fired"`
	Probes       map[string]int `json:"probes"`
	Notes        []string       `json:"notes,omitempty"`
	Samples      []string       `json:"samples,omitempty"`
	MapRanges    uint64         `json:"mapranges"`
	Hashes       []uint64       `json:"hashes,omitempty"`
	Capped       bool           `json:"capped,omitempty"`
	Wall         float64        `json:"wall"`
	Log          uint64         `json:"log"`
	First        []runHash      `json:"first,omitempty"` // some runs, to be executed again
	Sites        []uint64       `json:"sites,omitempty"` // bitmap of the statements reached
}

type runHash struct {
	I    int    `json:"i"`
	Hash uint64 `json:"hash"`
}

type report struct {
	T        string    `json:"t"` // stats, viol
	I        int       `json:"i"`
	Viol     *Viol     `json:"viol,omitempty"`
	Scenario *Scenario `json:"scenario,omitempty"`
	Stats    *stats    `json:"stats,omitempty"`
}

// runOnce checks one scenario; a panic of the harness is an error, not a
// violation.
func runOnce(p *prop, sc *Scenario, in *info) *Viol { return p.check(sc, in) }

func genRun(p *prop, seed uint64, i int) *Scenario {
	return p.gen(newRng(seed, hashStr(p.id), uint64(i)))
}

func worker(p *prop, seed uint64, from, step, to int, status string, wall time.Duration, trace bool) {
	st := &stats{Fired: map[string]int{}, Probes: map[string]int{}}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var sf *os.File
	if status != "" {
		var err error
		if sf, err = os.Create(status); err != nil {
			panic(err)
		}
	}
	watch := make(chan int, 1)
	go func() { // a run that hangs in code the simulator cannot interrupt
		t := time.NewTimer(120 * time.Second)
		for {
			select {
			case <-watch:
				t.Reset(120 * time.Second)
			case <-t.C:
				fmt.Fprintln(os.Stderr, "watchdog: a run takes more than 120 s")
				os.Exit(3)
			}
		}
	}()
	t0 := time.Now()
	var buf [8]byte
	hashes := map[uint64]bool{}
	for i := from; i < to; i += step {
		if time.Since(t0) > wall {
			st.Capped = true
			break
		}
		if sf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
			sf.WriteAt(buf[:], 0)
		}
		select {
		case watch <- i:
		default:
		}
		sc := genRun(p, seed, i)
		in := newInfo()
		v := runOnce(p, sc, in)
		st.Runs++
		if in.nontrivial {
			st.Nontrivial++
			hashes[in.hash] = true
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, clip(describeScenario(sc)))
			}
		}
		st.Ops += in.ops
		st.Compared += in.compared
		st.Modelled += in.modelled
		st.Steps += in.steps
		st.Preempts += in.preempts
		st.Disagree += in.disagree
		st.Inconclusive += in.inconclusive
		if in.invalid {
			st.Invalid++
		}
		for k, n := range in.fired {
			st.Fired[k] += n
		}
		for k, n := range in.probes {
			st.Probes[k] += n
		}
		if len(in.notes) > 0 && len(st.Notes) < 5 {
			st.Notes = append(st.Notes, fmt.Sprintf("run %d: %s", i, in.notes[0]))
		}
		st.Log = mix(st.Log, mix(in.hash, in.steps))
		if k := (i - from) / step; k == 5 || k == 40 {
			st.First = append(st.First, runHash{i, mix(in.hash, in.steps)})
		}
		if trace {
			for _, l := range in.log {
				fmt.Fprintln(os.Stderr, "   ", l)
			}
			fmt.Fprintf(os.Stderr, "%d hash=%x steps=%d fired=%v nontriv=%v\n", i, in.hash, in.steps, in.fired, in.nontrivial)
		}
		if v != nil {
			enc.Encode(report{T: "viol", I: i, Viol: v, Scenario: sc})
			break
		}
	}
	st.SimRuns = simRuns
	for i, h := range rt.SiteHits {
		if h != 0 {
			for len(st.Sites) <= i/64 {
				st.Sites = append(st.Sites, 0)
			}
			st.Sites[i/64] |= 1 << (i % 64)
		}
	}
	st.Clock = int64(simClock)
	st.MapRanges = rt.MapRanges
	st.Wall = time.Since(t0).Seconds()
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	sort.Slice(st.Hashes, func(a, b int) bool { return st.Hashes[a] < st.Hashes[b] })
	enc.Encode(report{T: "stats", Stats: st})
	out.Flush()
}

// freshSolo runs the single operation of s in a new process.
func freshSolo(s *Scenario) (string, error) {
	b, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], "-mode", "solo")
	cmd.Stdin = bytes.NewReader(b)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v %s", err, clip(e.String()))
	}
	full, _, _ := strings.Cut(o.String(), "\x00OUT\x00")
	return full, nil
}

// freshRun runs s in a new process: outcome and output of the last operation
func freshRun(s *Scenario) (string, string, error) {
	b, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], "-mode", "solo")
	cmd.Stdin = bytes.NewReader(b)
	var o bytes.Buffer
	cmd.Stdout = &o
	if err := cmd.Run(); err != nil {
		return "", "", err
	}
	full, out, _ := strings.Cut(o.String(), "\x00OUT\x00")
	return full, out, nil
}

func solo() {
	var s Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		panic(err)
	}
	in := newInfo()
	w := start(&s, in)
	if w == nil {
		os.Exit(4)
	}
	w.runTasks(s.Tasks, s.Sched)
	t := s.Tasks[0]
	r := w.res[t[len(t)-1].ID]
	fmt.Print(r.Full + "\x00OUT\x00" + r.Out)
}

func main() {
	mode := flag.String("mode", "driver", "")
	id := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	step := flag.Int("step", 1, "")
	to := flag.Int("to", 100, "")
	status := flag.String("status", "", "")
	wall := flag.Duration("wall", time.Hour, "")
	trace := flag.Bool("trace", false, "")
	file := flag.String("file", "", "")
	tier := flag.String("tier", "quick", "")
	evid := flag.String("evidence", "", "")
	known := flag.String("known", "", "")
	replays := flag.String("replays", "", "")
	sites := flag.String("sites", "", "")
	nruns := flag.Int("runs", 0, "")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(300)
	keepLog = *trace
	rt.Env = nil
	sharedCompiler() // outside of any simulation
	if *mode == "solo" {
		solo()
		return
	}
	if *mode == "eval" {
		go func() {
			time.Sleep(180 * time.Second)
			fmt.Fprintln(os.Stderr, "watchdog: a run takes more than 180 s")
			os.Exit(3)
		}()
		evalMain()
		return
	}
	var p *prop
	if *mode != "replay" {
		p = props[*id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property:", *id)
			os.Exit(2)
		}
	}
	switch *mode {
	case "worker":
		worker(p, *seed, *from, *step, *to, *status, *wall, *trace)
	case "show":
		fmt.Print(describeScenario(genRun(p, *seed, *from)))
	case "replay":
		os.Exit(replayMain(*file))
	case "driver":
		os.Exit(driver(p, *seed, *tier, *evid, *known, *replays, *sites, *wall, *nruns))
	}
}
