package mc

// Chooser enumerates sequences of choices inside one execution.
type Chooser struct {
	idx, n []int
	pos    int
}

// Choose picks one of n alternatives.
func (c *Chooser) Choose(n int) int {
	if n < 1 {
		panic("Choose of nothing")
	}
	if c.pos == len(c.idx) {
		c.idx, c.n = append(c.idx, 0), append(c.n, n)
	}
	v := c.idx[c.pos]
	c.pos++
	return v
}

// Bool is a choice of two.
func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

// Str picks one of the strings.
func (c *Chooser) Str(s ...string) string { return s[c.Choose(len(s))] }

func (c *Chooser) next() bool {
	for i := c.pos - 1; i >= 0; i-- {
		if c.idx[i]+1 < c.n[i] {
			c.idx[i]++
			c.idx, c.n = c.idx[:i+1], c.n[:i+1]
			return true
		}
	}
	return false
}

// Enum runs gen for every sequence of choices; the checks gen returns are run
// for this shard's part of them.
func Enum(x *X, gen func(c *Chooser) func()) {
	c := &Chooser{}
	for i := 0; ; i++ {
		c.pos = 0
		kept := len(c.idx)
		if i > 0 {
			kept--
		}
		f := gen(c)
		if x.w != nil && x.Shard == 0 {
			x.w.res.Edges += len(c.idx) - kept
		}
		if x.Shards <= 1 || i%x.Shards == x.Shard {
			if x.Expired() {
				return
			}
			if f != nil {
				x.Input(1)
				f()
			}
		}
		if !c.next() {
			return
		}
	}
}
