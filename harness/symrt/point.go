package symrt

import (
	"encoding/json"
	"os"
	"sync"
	"time"
)

// Delay holds up whoever reaches a point for the given time.
type Delay struct {
	ID    int   `json:"id"`
	After bool  `json:"after"`
	Hit   int   `json:"hit"`
	Us    int64 `json:"us"`
}

// sched is what a replay of a schedule is to do.
var sched struct {
	Delays    []Delay `json:"delays"`
	FromStart bool    `json:"from_start"` // the harness does not say where the exploration starts
	Out       string  `json:"out"`        // where to write how often each point was reached
}

var pts struct {
	sync.Mutex
	on       bool
	explored bool
	n        map[[2]int]int
}

func init() {
	s := os.Getenv("VERIF_SCHED")
	if s == "" {
		return
	}
	if err := json.Unmarshal([]byte(s), &sched); err != nil {
		panic(err)
	}
	pts.n = map[[2]int]int{}
	pts.on = sched.FromStart || sched.Out != ""
}

func startPoints() {
	pts.Lock()
	defer pts.Unlock()
	if pts.n == nil {
		return
	}
	pts.n = map[[2]int]int{}
	pts.on, pts.explored = true, true
}

// Point is called before and after the statements of an instrumented build.
func Point(id int, after bool) {
	if pts.n == nil {
		return
	}
	k := [2]int{id, 0}
	if after {
		k[1] = 1
	}
	pts.Lock()
	if !pts.on {
		pts.Unlock()
		return
	}
	pts.n[k]++
	n := pts.n[k]
	pts.Unlock()
	for _, d := range sched.Delays {
		if d.ID == id && d.After == after && d.Hit == n {
			time.Sleep(time.Duration(d.Us) * time.Microsecond)
		}
	}
}

// EndPoints writes what was reached.
func EndPoints() {
	if sched.Out == "" {
		return
	}
	pts.Lock()
	defer pts.Unlock()
	var out struct {
		Explored bool     `json:"explored"`
		Hits     [][3]int `json:"hits"`
	}
	out.Explored = pts.explored
	for k, n := range pts.n {
		out.Hits = append(out.Hits, [3]int{k[0], k[1], n})
	}
	b, _ := json.Marshal(out)
	os.WriteFile(sched.Out, b, 0o644)
}
