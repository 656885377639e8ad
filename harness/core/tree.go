package core

import (
	"strconv"
	"strings"
)

// Choices resolves the nondeterministic decisions of one run: it replays a trail and then always takes
// option 0, remembering how many options there were.
type Choices struct {
	trail  []int
	width  []int
	pos    int
	faults int
	limit  int
	names  []string
}

// Pick takes one of n options.
func (c *Choices) Pick(n int) int {
	if n <= 1 {
		return 0
	}
	x := 0
	if c.pos < len(c.trail) {
		x = c.trail[c.pos]
	} else {
		c.trail = append(c.trail, 0)
	}
	if c.pos < len(c.width) {
		c.width[c.pos] = n
	} else {
		c.width = append(c.width, n)
	}
	c.pos++
	if x >= n { // the run is not deterministic; the case will show up as unstable
		x = n - 1
	}
	return x
}

// Fault is Pick where the options other than 0 are faults, of which a run may have only so many.
func (c *Choices) Fault(n int) int {
	if c.faults >= c.limit {
		return 0
	}
	x := c.Pick(n)
	if x > 0 {
		c.faults++
	}
	return x
}

// Left says how many more faults the run may have.
func (c *Choices) Left() int { return c.limit - c.faults }

// Spend takes one off the budget of faults.
func (c *Choices) Spend() { c.faults++ }

// Trail is what is to be decided first.
func (c *Choices) Trail() []int { return c.trail }

// Limit is how many faults the run may have.
func (c *Choices) Limit() int { return c.limit }

// Adopt takes over the decisions of a run that were made elsewhere, following the trail.
func (c *Choices) Adopt(trail, width []int) {
	c.trail = append([]int{}, trail...)
	c.width = append([]int{}, width...)
	c.pos = len(trail)
}

func (c *Choices) String() string {
	s := make([]string, len(c.trail))
	for i, x := range c.trail {
		s[i] = strconv.Itoa(x)
	}
	return strings.Join(s, ".")
}

// Explore runs body for every sequence of decisions with at most limit faults, depth first. Each is a
// case of its own. It returns the number of runs.
func (r *Run) Explore(id string, limit int, body func(t *T, c *Choices) error) int {
	trail := []int{}
	n := 0
	for !r.Expired() {
		var last *Choices
		tr := append([]int{}, trail...)
		cid := id + "/"
		for i, x := range tr {
			if i > 0 {
				cid += "."
			}
			cid += strconv.Itoa(x)
		}
		r.Exec(cid, tr, func(t *T) error {
			c := &Choices{trail: append([]int{}, tr...), limit: limit}
			err := body(t, c)
			last = c
			return err
		})
		n++
		if last == nil {
			return n
		}
		trail = last.trail[:last.pos]
		w := last.width[:last.pos]
		for len(trail) > 0 && trail[len(trail)-1]+1 >= w[len(trail)-1] {
			trail = trail[:len(trail)-1]
		}
		if len(trail) == 0 {
			return n
		}
		trail[len(trail)-1]++
	}
	return n
}
