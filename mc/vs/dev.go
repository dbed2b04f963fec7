package vs

import (
	"fmt"
	"strconv"
	"strings"
)

// Dev is the default schedule (no preemption, oldest message first) with the deviations a
// plan asks for:
//
//	hold=SEQ            message SEQ (and what is behind it on its link) is delivered last
//	holdc=LABEL/F/T     every message of a class, from party F to party T (* any), last
//	late=LABEL/F/T      the same, after those of hold, holdc and slow
//	slow=F/T            everything on a link is delivered last (* any)
//	lifo                youngest message first
//	prio=LABEL/F/T      messages of a class first
//	pt=N/y|w|s          goroutine preempted at scheduling point N: yield, until quiescence,
//	                    or until nothing else can happen
//	ord=DIGITS          the Nth delivery with several candidates takes the digit's (modulo their number)
//	sel=N/I             the Nth select with several ready cases takes its Ith
//
// Held messages are released when nothing else can happen.
type Dev struct {
	Points   map[int]Action
	Sel      map[int]int
	HoldSeq  map[int]bool
	HoldC    []Class
	Late     []Class
	Prio     []Class
	LIFO     bool
	Ord      string
	nord     int
	released bool
	relLate  bool
	NSel     int
	SelWidth []int
	Hit      int // deviations that took effect
	RecPt    bool
	PtOf     map[int][]int // with RecPt, the scheduling points of each party, and
	PtLate   map[int][]int // those after the held messages were released
}

// Class is a set of messages.
type Class struct {
	Label    string
	From, To int // -1 any
}

//go:norace
func (c Class) match(u *Unit, l *Link) bool {
	if c.From >= 0 && c.From != l.From || c.To >= 0 && c.To != l.To {
		return false
	}
	if c.Label == "*" {
		return true
	}
	return u != nil && (u.Label() == c.Label || strings.HasPrefix(u.Label(), c.Label+"_"))
}

//go:norace
func parseClass(s string) (Class, error) {
	f := strings.Split(s, "/")
	if len(f) != 3 {
		return Class{}, fmt.Errorf("bad class %q", s)
	}
	n := func(x string) int {
		if x == "*" {
			return -1
		}
		v, _ := strconv.Atoi(x)
		return v
	}
	return Class{f[0], n(f[1]), n(f[2])}, nil
}

// ParseDev reads the schedule tokens of a plan; tokens it does not know are returned.
//
//go:norace
func ParseDev(plan string) (*Dev, []string) {
	d := &Dev{Points: map[int]Action{}, Sel: map[int]int{}, HoldSeq: map[int]bool{}}
	var rest []string
	for _, t := range strings.Fields(plan) {
		k, v := t, ""
		if i := strings.IndexByte(t, '='); i >= 0 {
			k, v = t[:i], t[i+1:]
		}
		switch k {
		case "hold":
			for _, x := range strings.Split(v, ",") {
				n, _ := strconv.Atoi(x)
				d.HoldSeq[n] = true
			}
		case "holdc":
			if c, err := parseClass(v); err == nil {
				d.HoldC = append(d.HoldC, c)
			}
		case "late":
			if c, err := parseClass(v); err == nil {
				d.Late = append(d.Late, c)
			}
		case "prio":
			if c, err := parseClass(v); err == nil {
				d.Prio = append(d.Prio, c)
			}
		case "slow":
			if c, err := parseClass("*/" + v); err == nil {
				d.HoldC = append(d.HoldC, c)
			}
		case "lifo":
			d.LIFO = true
		case "pt":
			f := strings.Split(v, "/")
			n, _ := strconv.Atoi(f[0])
			a := Yield
			if len(f) > 1 {
				switch f[1] {
				case "w":
					a = HoldWeak
				case "s":
					a = HoldStrong
				}
			}
			d.Points[n] = a
		case "ord":
			d.Ord = v
		case "sel":
			f := strings.Split(v, "/")
			n, _ := strconv.Atoi(f[0])
			i := 1
			if len(f) > 1 {
				i, _ = strconv.Atoi(f[1])
			}
			d.Sel[n] = i
		default:
			rest = append(rest, t)
		}
	}
	return d, rest
}

//go:norace
func (d *Dev) Point(g *G, n int) Action {
	if d.RecPt {
		if d.PtOf == nil {
			d.PtOf, d.PtLate = map[int][]int{}, map[int][]int{}
		}
		d.PtOf[g.Party] = append(d.PtOf[g.Party], n)
		if d.released {
			d.PtLate[g.Party] = append(d.PtLate[g.Party], n)
		}
	}
	if len(d.Points) == 0 {
		return Continue
	}
	a := d.Points[n]
	if a != Continue {
		d.Hit++
	}
	return a
}

//go:norace
func (d *Dev) Choose(g *G, n int) int {
	d.NSel++
	d.SelWidth = append(d.SelWidth, n)
	if i, ok := d.Sel[d.NSel]; ok && i < n {
		d.Hit++
		return i
	}
	return 0
}

//go:norace
func (d *Dev) held(l *Link) bool {
	u := l.Head()
	for _, c := range d.Late {
		if !d.relLate && c.match(u, l) {
			return true
		}
	}
	if d.released {
		return false
	}
	if u != nil && d.HoldSeq[u.Seq] {
		return true
	}
	for _, c := range d.HoldC {
		if c.match(u, l) {
			return true
		}
	}
	return false
}

//go:norace
func (d *Dev) Deliver(c []*Link) int {
	if len(c) > 1 && d.nord < len(d.Ord) {
		i := int(d.Ord[d.nord]-'0') % len(c)
		d.nord++
		if i > 0 {
			d.Hit++
		}
		if !d.held(c[i]) {
			return i
		}
	}
	best := -1
	for k := range c {
		i := k
		if d.LIFO {
			i = len(c) - 1 - k
		}
		if d.held(c[i]) {
			continue
		}
		if best < 0 {
			best = i
			if len(d.Prio) == 0 {
				break
			}
		}
		for _, p := range d.Prio {
			if p.match(c[i].Head(), c[i]) {
				d.Hit++
				return i
			}
		}
	}
	if d.LIFO && best >= 0 && len(c) > 1 {
		d.Hit++
	}
	return best
}

//go:norace
func (d *Dev) Stuck() bool {
	if !d.released && len(d.HoldSeq)+len(d.HoldC) > 0 {
		d.Hit++
		d.released = true
		return true
	}
	if !d.relLate && len(d.Late) > 0 {
		d.Hit++
		d.relLate, d.released = true, true
		return true
	}
	return false
}
