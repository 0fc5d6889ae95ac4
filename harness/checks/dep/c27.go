// Package dep checks internal/dependency.
package dep

import (
	"fmt"

	"aqwari.net/xml/internal/dependency"
	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

type graphCase struct {
	Edges [][2]int
	Other []int // a second order in which to add the edges (indices)
}

func flatten(edges [][2]int, order []int) (g *dependency.Graph, got []int) {
	g = new(dependency.Graph)
	if order == nil {
		for _, e := range edges {
			g.Add(e[0], e[1])
		}
	}
	for _, i := range order {
		g.Add(edges[i][0], edges[i][1])
	}
	g.Flatten(func(v int) { got = append(got, v) })
	return g, got
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkGraph(c graphCase, r *prop.Rec) error {
	g, got := flatten(c.Edges, nil)
	adj := map[int][]int{}
	targets := map[int]bool{}
	verts := map[int]bool{}
	for _, e := range c.Edges {
		adj[e[0]] = append(adj[e[0]], e[1])
		targets[e[0]], verts[e[0]], verts[e[1]] = true, true, true
	}
	if g.Len() != len(targets) {
		return fmt.Errorf("Len is %d, want %d targets of %v", g.Len(), len(targets), c.Edges)
	}
	pos := map[int]int{}
	for i, v := range got {
		if _, dup := pos[v]; dup {
			return fmt.Errorf("vertex %d visited twice: %v for %v", v, got, c.Edges)
		}
		if !verts[v] {
			return fmt.Errorf("visited %d, which is not in %v", v, c.Edges)
		}
		pos[v] = i
	}
	if len(got) != len(verts) {
		return fmt.Errorf("visited %v, want all %d vertices of %v", got, len(verts), c.Edges)
	}
	cyclic := false
	reach := func(from, to int) bool {
		seen := map[int]bool{from: true}
		todo := []int{from}
		for len(todo) > 0 {
			v := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if v == to {
				return true
			}
			for _, w := range adj[v] {
				if !seen[w] {
					seen[w] = true
					todo = append(todo, w)
				}
			}
		}
		return false
	}
	for _, e := range c.Edges {
		if pos[e[1]] < pos[e[0]] {
			continue
		}
		if e[0] == e[1] || reach(e[1], e[0]) {
			cyclic = true
			continue
		}
		return fmt.Errorf("%d depends on %d but is visited first: %v for %v", e[0], e[1], got, c.Edges)
	}
	var again []int
	g.Flatten(func(v int) { again = append(again, v) })
	if !same(got, again) {
		return fmt.Errorf("a second traversal gives %v, the first %v, for %v", again, got, c.Edges)
	}
	order := c.Other
	if order == nil {
		for i := len(c.Edges) - 1; i >= 0; i-- {
			order = append(order, i)
		}
	}
	if _, other := flatten(c.Edges, order); !same(got, other) {
		return fmt.Errorf("edges added in another order %v give %v, not %v, for %v", order, other, got, c.Edges)
	}
	// adding what is there already, and traversing before the end, change nothing
	h := new(dependency.Graph)
	for i, e := range c.Edges {
		h.Add(e[0], e[1])
		h.Add(c.Edges[i/2][0], c.Edges[i/2][1])
		if i == len(c.Edges)/2 {
			h.Flatten(func(int) {})
		}
	}
	var third []int
	h.Flatten(func(v int) { third = append(third, v) })
	if !same(got, third) || h.Len() != g.Len() {
		return fmt.Errorf("repeated edges give %v, not %v, for %v", third, got, c.Edges)
	}
	r.LabelIf(cyclic, "cyclic")
	r.LabelIf(!cyclic, "acyclic-or-lucky")
	r.Nontrivial(len(verts) > 2 && len(c.Edges) > 1)
	return nil
}

// nth decodes a digraph on n vertices from the bits of k.
func nth(k, n int) graphCase {
	c := graphCase{Edges: [][2]int{}}
	for b := 0; b < n*n; b++ {
		if k>>b&1 == 1 {
			c.Edges = append(c.Edges, [2]int{b / n, b % n})
		}
	}
	return c
}

func init() {
	sizes := []int{2, 16, 512, 65536}
	total := 0
	for _, s := range sizes {
		total += s
	}
	prop.Enumerate("C27", "small",
		"every digraph of up to four vertices, self-loops included; non-trivial: more than two vertices and more than one edge",
		func() int { return total },
		func(i int) graphCase {
			for n, s := range sizes {
				if i < s {
					return nth(i, n+1)
				}
				i -= s
			}
			panic("index")
		}, checkGraph)
	prop.Register("C27", "random",
		"random digraphs of up to 40 vertices (sparse, dense, layered, long chains, negative labels), edges added in two orders",
		func(t *rapid.T) graphCase {
			var c graphCase
			n := prop.Range(t, 2, 40)
			m := prop.Range(t, 1, 3*n)
			shape := prop.Int(t, 4)
			base := prop.Pick(t, 0, -5, 1000)
			for ; m > 0; m-- {
				u, v := prop.Int(t, n), prop.Int(t, n)
				switch {
				case shape == 1 && u < v: // acyclic
					u, v = v, u
				case shape == 2:
					v = (u + 1) % n
				}
				c.Edges = append(c.Edges, [2]int{base + u, base + v})
			}
			c.Other = prop.Perm(t, len(c.Edges))
			return c
		}, checkGraph, prop.Counts(20000, 400000))
	prop.Enumerate("C27", "long",
		"chains and stars of up to 20000 vertices",
		func() int { return 8 },
		func(i int) graphCase {
			var c graphCase
			n := []int{100, 1000, 5000, 20000}[i%4]
			for j := 0; j < n; j++ {
				if i < 4 {
					c.Edges = append(c.Edges, [2]int{j, j + 1})
				} else {
					c.Edges = append(c.Edges, [2]int{0, j + 1})
				}
			}
			return c
		}, checkGraph)
}
