package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
)

// Cases at a size no ordinary case has. Every group listed here is run again as GROUP-large: the
// same case, with the same oracle, over histories of hundreds to thousands of entries that hold
// long names, long keys, long values, entries with hundreds of keys, changes and labels, and with
// more users, remotes, devices and conflicts than usual. Breakage that needs a certain size is
// found here and nowhere else.
var largeCases = map[string]int{}

// checks that open their files very often are content with fewer entries
var largeMax = map[string]int{"C12": 400, "C14": 600, "C22": 2000}

// large cases are marked by their generator, which is what all the generating functions get
var largeOf sync.Map

func isLarge(r *rand.Rand) bool { _, ok := largeOf.Load(r); return ok }

// Large runs the case f at large size.
func (c *Ctx) large(group string, f func(t *T)) {
	n := largeCases[c.Check.ID+"/"+group]
	if n == 0 {
		return
	}
	c.run(group+"-large", c.N(n, 15*n), 8, func(t *T) {
		t.Large = true
		max := 3500
		if m := largeMax[c.Check.ID]; m > 0 {
			max = m
		}
		largeOf.Store(t.R, max)
		defer largeOf.Delete(t.R)
		t.Count("large_cases", 1)
		f(t)
	})
}

// scale picks the first bound for ordinary cases, the second for large ones.
func (t *T) scale(small, large int) int {
	if t.Large {
		return large
	}
	return small
}

func longText(r *rand.Rand, min, max int) string {
	n := min + r.Intn(max-min)
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(pick(r, "a", "Z", "9", "-", "_", "é", "漢", "x"))
	}
	return b.String()
}

// bulk puts the large history in front.
func (g *logGen) bulk(max int) {
	r := g.r
	n := 200 + r.Intn(max/3)
	if r.Intn(4) == 0 {
		n = max/2 + r.Intn(max/2)
	}
	step := g.step
	g.step = 100
	start := g.now
	g.now -= int64(n) * 3000
	names := map[string]bool{}
	keys := []string{"user", "email", "pass", "notes", "k1", "custom", "labels"}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%03d/%04d", r.Intn(40), i)
		if i%97 == 5 {
			name += "-" + longText(r, 200, 1200)
		}
		names[name] = true
		u := g.add(name)
		for k := r.Intn(4); k > 0; k-- {
			key := keys[r.Intn(len(keys))]
			v := fmt.Sprint("v", r.Intn(1000))
			if key == "labels" {
				v = pick(r, "a", "b", "work", "a,b", "b,work,0", "wörk")
			}
			g.set(u, key, v)
		}
	}
	some := func() string { return g.alive[r.Intn(len(g.alive))] }
	u := some() // many keys
	for i := 100 + r.Intn(400); i > 0; i-- {
		g.rec("setk", u, fmt.Sprint("key", i), fmt.Sprint("value ", i))
	}
	u = some() // many changes
	for i := 100 + r.Intn(500); i > 0; i-- {
		g.rec("setk", u, pick(r, "user", "email", "notes"), fmt.Sprint("change ", i))
	}
	u = some() // many labels
	var ls []string
	for i := 30 + r.Intn(40); i > 0; i-- {
		ls = append(ls, fmt.Sprint("l", i))
	}
	g.set(u, "labels", strings.Join(ls, ","))
	g.set(some(), longText(r, 260, 1500), "under a long key")
	g.set(some(), "notes", longText(r, 70000, 400000))
	g.set(some(), "pass", longText(r, 300, 3000))
	for i := r.Intn(n / 10); i > 0; i-- {
		g.del(some())
	}
	g.step = step
	if g.now < start {
		g.now = start
	}
}

func init() {
	for k, n := range map[string]int{
		"C01/sessions": 12, "C02/lib": 8, "C03/lib": 8, "C04/lib": 8, "C06/txlog": 16, "C06/blobs": 16, "C07/transactions": 16,
		"C07/wizards": 6, "C08/queries": 16, "C08/show": 6, "C09/moments": 8, "C10/histories": 16, "C11/library": 16, "C11/session": 8,
		"C14/sessions": 12, "C16/blobs": 16, "C16/duplicates": 32, "C16/session": 6, "C17/search": 24, "C17/session": 6,
		"C18/blobs": 60, "C18/session": 8, "C21/honest": 12, "C21/download": 16, "C21/upload": 16, "C22/import": 8, "C22/export": 8,
		"C23/edits": 6, "C25/program": 4, "C26/lines": 4, "C27/typed": 6, "C30/displays": 16, "C31/remotes": 8,
		"C32/files": 6, "C13/pairs": 6, "C12/worlds": 4, "C05/sessions": 4, "C20/pins": 4, "C24/endings": 4,
		"C33/hidden": 4, "C34/editing": 4,
	} {
		largeCases[k] = n
	}
}
