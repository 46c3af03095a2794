package mc

import "time"

// Bounds of an exploration.  Every alternative choice costs one unit of its
// kind's budget; with FreeBlock a scheduling choice at a point where the
// running thread cannot continue is free (preemption bounding), without it
// every deviation from the default schedule costs one (delay bounding).
type Bounds struct {
	P, F, M   int
	FreeBlock bool
}

type node struct {
	parent  *node
	pos     int32
	alt     int32
	p, f, m int8
}

// Stats of an exploration.
type Stats struct {
	Execs       int64 // executions started
	Complete    int64 // executions run to the end
	Pruned      int64 // executions cut at an already explored state
	Points      int64 // choice points passed beyond the prefix (transitions)
	States      int64 // distinct states
	Diverged    int64
	Threads     int // most threads in one execution
	MaxPoints   int
	Level       int // highest total number of deviations completed
	Exhausted   bool
	Unbounded   bool // no alternative was skipped because of a bound
	Obs         int64
	Outcomes    map[uint64]int64
	Violation   *Violation
	VChoices    []int
	VTrace      []string
	Steps       int64
	Faults      int64
	WallSeconds float64
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	Cfg      Config
	Bounds   Bounds
	Run      func(x *Exec) // sets up and runs one execution
	Deadline time.Time
	MaxNodes int
	NoCache  bool
	Shard    int // explore only every Shards-th child of the first execution
	Shards   int
	St       Stats
	seen     map[uint64]int8
	fph      uint64
}

func (n *node) devs() []dev {
	k := 0
	for o := n; o.parent != nil; o = o.parent {
		k++
	}
	d := make([]dev, k)
	for o := n; o.parent != nil; o = o.parent {
		k--
		d[k] = dev{o.pos, o.alt}
	}
	return d
}

// Explore runs until the bounds are exhausted, a violation was found or the
// deadline passed.
func (e *Explorer) Explore() {
	start := time.Now()
	defer func() { e.St.WallSeconds = time.Since(start).Seconds() }()
	e.St.Outcomes = map[uint64]int64{}
	e.St.Unbounded = true
	e.seen = map[uint64]int8{}
	root := &node{}
	levels := [][]*node{{root}}
	total := 0
	e.St.Level = -1
	if e.MaxNodes == 0 {
		e.MaxNodes = 8000000
	}
	capped := false
	child := 0
	for lv := 0; lv < len(levels); lv++ {
		for qi := 0; qi < len(levels[lv]); qi++ {
			if e.St.Execs&15 == 0 && time.Now().After(e.Deadline) {
				return
			}
			n := levels[lv][qi]
			levels[lv][qi] = nil
			x := e.exec(n)
			if x.Viol != nil {
				e.St.Violation = x.Viol
				e.St.VChoices = append([]int(nil), x.Taken...)
				return
			}
			if x.diverged {
				e.St.Diverged++
				continue
			}
			for i := x.nprefix; i < len(x.Points); i++ {
				pt := x.Points[i]
				for alt := 1; alt < pt.N; alt++ {
					c := &node{n, int32(i), int32(alt), n.p, n.f, n.m}
					cost := 1
					switch pt.Kind {
					case KSched:
						if pt.CurEnabled || !e.Bounds.FreeBlock {
							c.p++
						} else {
							cost = 0
						}
						if int(c.p) > e.Bounds.P {
							e.St.Unbounded = false
							continue
						}
					case KEnv:
						c.f++
						if int(c.f) > e.Bounds.F {
							e.St.Unbounded = false
							continue
						}
					case KMap:
						c.m++
						if int(c.m) > e.Bounds.M {
							e.St.Unbounded = false
							continue
						}
					case KFree:
						cost = 0
					}
					if n == root && e.Shards > 1 {
						child++
						if child%e.Shards != e.Shard {
							continue
						}
					}
					total++
					if total > e.MaxNodes {
						capped = true
						continue
					}
					for len(levels) <= lv+cost {
						levels = append(levels, nil)
					}
					levels[lv+cost] = append(levels[lv+cost], c)
				}
			}
		}
		levels[lv] = nil
		if !capped {
			e.St.Level = lv
		}
	}
	e.St.Exhausted = !capped && e.St.Diverged == 0
	if e.St.Diverged > 0 {
		e.St.Unbounded = false
	}
}

func (e *Explorer) exec(n *node) *Exec {
	x := newExec(e.Cfg, n.devs())
	if !e.NoCache {
		fm := uint64(n.f)<<8 | uint64(n.m)
		p := n.p
		x.cache = func(fp uint64, pos int) bool {
			k := mix(fp, fm)
			if o, ok := e.seen[k]; ok && o <= p {
				return true
			}
			e.seen[k] = p
			e.St.States = int64(len(e.seen))
			return false
		}
	}
	e.Run(x)
	e.St.Execs++
	e.St.Steps += int64(x.Steps)
	if x.pruned {
		e.St.Pruned++
	} else if !x.diverged {
		e.St.Complete++
	}
	e.St.Points += int64(len(x.Points) - min(x.nprefix, len(x.Points)))
	e.St.Obs += int64(x.NObs)
	e.St.Faults += int64(x.EnvUsed)
	if len(x.threads) > e.St.Threads {
		e.St.Threads = len(x.threads)
	}
	if len(x.Points) > e.St.MaxPoints {
		e.St.MaxPoints = len(x.Points)
	}
	if x.Outcome != 0 && !x.pruned {
		e.St.Outcomes[x.Outcome]++
	}
	return x
}
