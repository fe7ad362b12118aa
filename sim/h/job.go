package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	"vsim/simrt"
)

// Job is what the orchestrator asks a worker to do.
type Job struct {
	Mode  string   `json:"mode"` // run, shrink, replay
	Prop  string   `json:"prop"`
	Seeds []uint64 `json:"seeds"`
	Out   string   `json:"out"`
	List  []uint32 `json:"list"`
	Class string   `json:"class"`
	Trace bool     `json:"trace"`
	Debug bool     `json:"debug"`
	// stop starting new runs after this many seconds
	Seconds float64  `json:"seconds"`
	Known   []string `json:"known"`
}

// Line is one line of a worker's report.
type Line struct {
	Kind   string   `json:"kind"` // run, base, shrunk, replay, end
	Res    *Result  `json:"res,omitempty"`
	List   []uint32 `json:"list,omitempty"`
	Logs   []string `json:"logs,omitempty"`
	Err    string   `json:"err,omitempty"`
	Tried  int      `json:"tried,omitempty"`
	Faults string   `json:"faults,omitempty"`
	Rule   string   `json:"rule,omitempty"`
}

func mine(r *Result, prop string, known []string) *Violation {
	for i := range r.Viol {
		v := &r.Viol[i]
		if v.Prop != prop {
			continue
		}
		k := false
		for _, c := range known {
			if c == v.Class {
				k = true
			}
		}
		if !k {
			return v
		}
	}
	return nil
}

func (j *Job) Run(t *testing.T) {
	debugLog = j.Debug
	f, err := os.Create(j.Out)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	bw := bufio.NewWriter(f)
	defer bw.Flush()
	put := func(l Line) {
		b, err := json.Marshal(l)
		must(err)
		bw.Write(b)
		bw.WriteByte('\n')
		bw.Flush()
	}
	for _, k := range j.Known {
		knownClass[k] = true
	}
	prof := profiles[j.Prop]
	if prof == nil {
		put(Line{Kind: "base", Err: "no profile for " + j.Prop})
		return
	}
	for _, pw := range []string{storePass, ""} {
		im := bootstrap(t, pw)
		if im == nil {
			put(Line{Kind: "base", Err: BaseError})
			if !prof.NoBase {
				return
			}
		}
		images[pw] = im
	}
	put(Line{Kind: "base", Rule: prof.Rule, Faults: prof.Faults})
	start := time.Now()
	switch j.Mode {
	case "run":
		for _, s := range j.Seeds {
			if j.Seconds > 0 && time.Since(start).Seconds() > j.Seconds {
				break
			}
			put(Line{Kind: "start", Res: &Result{Seed: s}})
			r := RunOne(t, prof, simrt.NewChooser(s), j.Trace)
			r.Seed = s
			l := Line{Kind: "run", Res: r}
			if mine(r, j.Prop, nil) != nil {
				l.List = r.Choices
			}
			if j.Trace {
				l.Logs = r.Logs
			}
			put(l)
		}
	case "replay":
		r := RunOne(t, prof, simrt.ReplayChooser(j.List), true)
		put(Line{Kind: "replay", Res: r, Logs: r.Logs, List: r.Choices})
	case "shrink":
		list, n := j.shrink(t, prof)
		put(Line{Kind: "shrunk", List: list, Tried: n})
	}
	put(Line{Kind: "end"})
}

// shrink minimises the choice list of a failing run while the same violation
// remains.
func (j *Job) shrink(t *testing.T, prof *Profile) ([]uint32, int) {
	deadline := time.Now().Add(time.Duration(j.Seconds * float64(time.Second)))
	tried := 0
	var best []uint32
	try := func(l []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tried++
		r := RunOne(t, prof, simrt.ReplayChooser(l), false)
		for _, v := range r.Viol {
			if v.Prop == j.Prop && v.Class == j.Class {
				best = trim(r.Choices)
				if len(best) > len(l) {
					best = trim(l)
				}
				return true
			}
		}
		return false
	}
	if !try(j.List) {
		return nil, tried
	}
	// the first two choices are the world's seed
	for pass := 0; pass < 4; pass++ {
		before := len(best)
		sum := weight(best)
		// zero or delete blocks
		for size := len(best); size >= 1; size /= 2 {
			for i := 2; i < len(best); {
				if time.Now().After(deadline) {
					return best, tried
				}
				end := min(i+size, len(best))
				z := append([]uint32{}, best...)
				zero := true
				for k := i; k < end; k++ {
					if z[k] != 0 {
						zero = false
					}
					z[k] = 0
				}
				if zero {
					i = end
					continue
				}
				if try(z) {
					i = end
					continue
				}
				d := append(append([]uint32{}, best[:i]...), best[end:]...)
				if try(d) {
					continue
				}
				i = end
			}
			if len(best) > 3000 && size < len(best)/256 {
				break
			}
		}
		// smaller values
		for i := 2; i < len(best) && len(best) < 400; i++ {
			for best[i] > 0 {
				z := append([]uint32{}, best...)
				z[i] /= 2
				if !try(z) {
					break
				}
			}
		}
		if len(best) >= before && weight(best) >= sum {
			break
		}
	}
	return best, tried
}

func weight(l []uint32) (s uint64) {
	for _, x := range l {
		if x != 0 {
			s += uint64(x) + 1
		}
	}
	return
}

func trim(l []uint32) []uint32 {
	n := len(l)
	for n > 2 && l[n-1] == 0 {
		n--
	}
	return append([]uint32{}, l[:n]...)
}

var knownClass = map[string]bool{}

var _ = fmt.Sprint
