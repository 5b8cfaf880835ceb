package main

import "strings"

// labelled finds the first line that starts with a label, indented or not: the
// rest of it, and whether there is such a line.
func (x *Exec) labelled(r *Rope, label string) (*Rope, *B) {
	type hit struct {
		g *B
		r *Rope
	}
	c := x.c
	var hits []hit
	mark := label
	steps := 0
	breaks := map[*Rope]bool{}
	var hasBreak func(r *Rope) bool
	hasBreak = func(r *Rope) bool {
		if v, ok := breaks[r]; ok {
			return v
		}
		v := false
		for _, s := range r.segs {
			if s.isLit() && strings.Contains(s.lit, "\n") {
				v = true
			}
			for _, a := range s.alts {
				v = v || hasBreak(a.r)
			}
		}
		breaks[r] = v
		return v
	}
	mayBreak := func(s Seg) bool {
		for _, a := range s.alts {
			if hasBreak(a.r) {
				return true
			}
		}
		return false
	}
	join := func(a, b []Seg) []Seg {
		return append(append([]Seg{}, a...), b...)
	}
	// value collects the rest of the line
	var value func(g *B, got []Seg, rest []Seg)
	value = func(g *B, got []Seg, rest []Seg) {
		if steps++; steps > 20000 {
			unsup("label search too large")
		}
		for i, s := range rest {
			switch {
			case s.isLit():
				l := s.lit
				n := strings.IndexByte(l, '\n')
				if n >= 0 {
					l = l[:n]
				}
				if len(got) == 0 {
					l = strings.TrimLeft(l, " ")
				}
				if l != "" {
					got = append(got, Seg{lit: l})
				}
				if n >= 0 {
					hits = append(hits, hit{g, &Rope{segs: got}})
					return
				}
			case s.alts != nil && (mayBreak(s) || len(got) == 0):
				for _, a := range s.alts {
					if h := c.And(g, a.g); h != c.F {
						value(h, append([]Seg{}, got...), join(a.r.segs, rest[i+1:]))
					}
				}
				return
			default:
				got = append(got, s)
			}
		}
		hits = append(hits, hit{g, &Rope{segs: got}})
	}
	var find func(g *B, start bool, rest []Seg)
	find = func(g *B, start bool, rest []Seg) {
		if steps++; steps > 20000 {
			unsup("label search too large")
		}
		for i, s := range rest {
			switch {
			case s.isLit():
				for o := 0; o < len(s.lit); {
					if start && s.lit[o] == ' ' {
						o++
						continue
					}
					if start && strings.HasPrefix(s.lit[o:], mark) {
						value(g, nil, join([]Seg{{lit: s.lit[o+len(mark):]}}, rest[i+1:]))
						return
					}
					start = false
					n := strings.IndexByte(s.lit[o:], '\n')
					if n < 0 {
						break
					}
					o += n + 1
					start = true
				}
			case s.alts != nil:
				if !start && !mayBreak(s) {
					continue
				}
				for _, a := range s.alts {
					if h := c.And(g, a.g); h != c.F {
						find(h, start, join(a.r.segs, rest[i+1:]))
					}
				}
				return
			default:
				start = false
			}
		}
	}
	if label == "" {
		value(c.T, nil, r.segs)
	} else {
		find(c.T, true, r.segs)
	}
	found := c.F
	var res *Rope = &Rope{}
	for k := len(hits) - 1; k >= 0; k-- {
		found = c.Or(found, hits[k].g)
		m := concatRope(hits[k].r)
		if k == len(hits)-1 {
			res = m
		} else {
			res = x.mergeRope(hits[k].g, m, res)
		}
	}
	return res, found
}
