package mc

import (
	"hash/fnv"
	"time"
)

// Scenario is one closed system to explore: a body (environment plus code under
// test plus oracle) and the bounds within which every execution is visited.
type Scenario struct {
	Name  string
	Body  func()
	Cfg   Config
	Bound int  // deviation bound of the last pass
	Once  bool // no passes beyond the bound
}

// Job is a subtree of the choice tree of one scenario: every execution that
// extends Path[:Floor] and is not smaller than Path, within the cost bound.
type Job struct {
	Scen   int
	Path   []uint16
	Floor  int
	Bound  int
	Slice  int64 // time slice in ns
	Split  bool
	Replay bool // run Path once with tracing
	Log    bool // announce every execution before it runs (crash location)
}

// Reply of a worker.
type Reply struct {
	Log      []uint16 `json:",omitempty"` // announcement, not a final reply
	IsLog    bool     `json:",omitempty"`
	Execs    int64
	Steps    int64
	MaxSteps int
	Nodes    int64
	Depth    int
	Threads  int
	Diverged int64
	DivMsg   string `json:",omitempty"`
	Pruned   bool
	Outcomes []uint64 `json:",omitempty"`
	Sample   string   `json:",omitempty"`
	Fail     *Failure `json:",omitempty"`
	Choices  []uint16 `json:",omitempty"`
	Trace    []string `json:",omitempty"`
	Rest     []Job    `json:",omitempty"`
	Busy     int64
}

// next returns the lexicographically next path within the bound.
func next(pts []point, floor, bound int) (path []uint16, at int, pruned bool) {
	for i := len(pts) - 1; i >= floor; i-- {
		p := &pts[i]
		for k := int(p.pick) + 1; k < p.n; k++ {
			if p.cost+p.costOf(k) > bound {
				pruned = true
				continue
			}
			path = make([]uint16, i+1)
			for j := 0; j < i; j++ {
				path[j] = pts[j].pick
			}
			path[i] = uint16(k)
			return path, i, pruned
		}
	}
	return nil, -1, pruned
}

// runJob explores a job until it is finished or its time slice is used up.
func runJob(sc *Scenario, job Job, announce func([]uint16)) *Reply {
	rep := &Reply{}
	t0 := time.Now()
	seen := map[uint64]bool{}
	path, floor := job.Path, job.Floor
	fresh := len(path)
	if job.Replay {
		cfg := sc.Cfg
		cfg.Trace = true
		r := RunOnce(sc.Body, path, cfg)
		rep.Execs, rep.Fail, rep.Choices, rep.Trace, rep.DivMsg = 1, r.Fail, r.Choices, r.Trace, r.Diverged
		rep.Sample = r.Outcome
		return rep
	}
	for {
		if announce != nil {
			announce(path)
		}
		r := RunOnce(sc.Body, path, sc.Cfg)
		rep.Execs++
		rep.Steps += int64(r.Steps)
		rep.MaxSteps = max(rep.MaxSteps, r.Steps)
		rep.Nodes += int64(len(r.Points)-fresh) + 1
		rep.Depth = max(rep.Depth, len(r.Points))
		rep.Threads = max(rep.Threads, r.Threads)
		if r.Diverged != "" && r.Fail == nil {
			rep.Diverged++
			rep.DivMsg = r.Diverged
			// the run may have strayed from its path: continue from the path itself
			if len(r.Points) < len(path) {
				rep.Busy = time.Since(t0).Nanoseconds()
				return rep
			}
		}
		if r.Fail != nil {
			rep.Fail, rep.Choices = r.Fail, r.Choices
			rep.Busy = time.Since(t0).Nanoseconds()
			return rep
		}
		h := fnv.New64a()
		h.Write([]byte(r.Outcome))
		if k := h.Sum64(); !seen[k] && len(seen) < 4096 {
			seen[k] = true
			rep.Outcomes = append(rep.Outcomes, k)
			rep.Sample = r.Outcome
		}
		np, at, pruned := next(r.Points, floor, job.Bound)
		rep.Pruned = rep.Pruned || pruned
		if np == nil {
			break
		}
		fresh = at
		path = np
		if time.Since(t0).Nanoseconds() > job.Slice {
			base := Job{Scen: job.Scen, Bound: job.Bound}
			if job.Split {
				for i := floor; i < at && len(rep.Rest) < 24; i++ {
					p := &r.Points[i]
					for k := int(p.pick) + 1; k < p.n; k++ {
						if p.cost+p.costOf(k) > job.Bound {
							rep.Pruned = true
							continue
						}
						j := base
						j.Path = append(append([]uint16{}, r.Choices[:i]...), uint16(k))
						j.Floor = i + 1
						rep.Rest = append(rep.Rest, j)
					}
					floor = i + 1
				}
			}
			j := base
			j.Path, j.Floor = path, floor
			rep.Rest = append(rep.Rest, j)
			break
		}
	}
	rep.Busy = time.Since(t0).Nanoseconds()
	return rep
}
