package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
)

// ---- C19 ----

const (
	clsUpper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	clsLower = "abcdefghijklmnopqrstuvwxyz"
	clsDigit = "0123456789"
	clsBasic = "!@#$%^&*"
	clsExtra = "()_+-=<>,.{}[]\\|?/~\"'`"
)

var clsAll = [5]string{clsUpper, clsLower, clsDigit, clsBasic, clsExtra}

func clsOf(c byte) int {
	for i, a := range clsAll {
		if strings.IndexByte(a, c) >= 0 {
			return i
		}
	}
	if c > ' ' && c < 0x7f {
		return 4 // other punctuation may join the extra symbols
	}
	return -1
}

// genSet is the state of the settings: 0 any, < 0 off, n at least n.
type genSet struct {
	length int
	min    [5]int
}

// must: 1 a password is due, -1 a refusal, 0 either (the size limit is the program's own affair)
func (g genSet) must() int {
	if g.length < 0 {
		return -1
	}
	need, on := 0, 0
	for _, m := range g.min {
		if m > g.length {
			return -1
		}
		if m >= 0 {
			need += m
			on++
		}
	}
	if need > g.length || on == 0 && g.length > 0 {
		return -1
	}
	if g.length > 60000 || g.length == 0 {
		return 0
	}
	return 1
}

// judge tells what is wrong with a password.
func (g genSet) judge(pw string) string {
	if len(pw) != g.length {
		return fmt.Sprintf("it has %d characters instead of %d", len(pw), g.length)
	}
	var n [5]int
	for i := 0; i < len(pw); i++ {
		c := clsOf(pw[i])
		if c < 0 {
			return fmt.Sprintf("it contains %q", pw[i])
		}
		n[c]++
	}
	for i, m := range g.min {
		if m < 0 && n[i] > 0 {
			return fmt.Sprintf("it contains characters of the disabled class %s", clsAll[i])
		}
		if n[i] < m {
			return fmt.Sprintf("it contains %d of %s instead of at least %d", n[i], clsAll[i], m)
		}
	}
	return ""
}

// even tells what is wrong with the frequencies in one long password.
func (g genSet) even(pw string) string {
	need, on := 0, 0
	for _, m := range g.min {
		if m >= 0 {
			need += m
			on++
		}
	}
	seen := map[string]bool{}
	for i := 0; i+20 <= len(pw) && on > 0; i++ {
		if seen[pw[i:i+20]] {
			return fmt.Sprintf("the characters %q are in it twice", pw[i:i+20])
		}
		seen[pw[i:i+20]] = true
	}
	if len(pw) < 2000 || on == 0 {
		return ""
	}
	var char [256]int
	for i := 0; i < len(pw); i++ {
		char[pw[i]]++
	}
	for i, a := range clsAll {
		if g.min[i] < 0 {
			continue
		}
		e := float64(g.min[i]) + float64(len(pw)-need)/float64(on)
		n := 0
		for j := range char {
			if char[j] > 0 && clsOf(byte(j)) == i {
				n += char[j]
			}
		}
		if off(n, e, 0.85, 1.15) {
			return fmt.Sprintf("it has %d characters of %s, about %.0f expected", n, a, e)
		}
		for j := 0; j < len(a); j++ {
			hi := 1.35
			if a[j] == '\\' {
				hi = 2.6
			}
			if off(char[a[j]], e/float64(len(a)), 0.7, hi) {
				return fmt.Sprintf("it has %q %d times, about %.0f expected", a[j], char[a[j]], e/float64(len(a)))
			}
		}
	}
	return ""
}

const refusedOut = "Could not generate password with these requirements"

// pwLedger remembers every password that is too long to repeat by chance.
type pwLedger struct {
	sync.Mutex
	seen map[string]string
}

func (l *pwLedger) add(t *T, where, pw string, g genSet) {
	bits := 0.0
	min := 999
	for i, m := range g.min {
		if m >= 0 && len(clsAll[i]) < min {
			min = len(clsAll[i])
		}
	}
	bits = float64(g.length) * math.Log2(float64(min))
	if bits < 110 || g.length > 200 {
		return
	}
	l.Lock()
	old, dup := l.seen[pw]
	l.seen[pw] = where
	l.Unlock()
	if dup {
		t.Fail("the same password %q was generated twice (%s, %s)", pw, old, where)
	}
}

// genRun feeds lines to the password wizard and returns what came back for the start and each
// line: a password or a refusal.
func genRun(t *T, s *Sess, login []string, lines []string, end []string) []string {
	dir := s.Dir
	_ = dir
	s.Input = strings.Join(append(append(append([]string{}, login...), lines...), end...), "\n") + "\n"
	if len(login)+len(lines)+len(end) == 0 {
		s.Input = ""
	}
	res := s.Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("the generator crashed on %s: %s", quoteInput(s.Input), c)
	}
	var out []string
	for _, l := range strings.Split(res.Out, "\n") {
		if strings.HasPrefix(l, "password: ") || l == "password:" {
			out = append(out, strings.TrimPrefix(strings.TrimPrefix(l, "password:"), " "))
		} else if l == refusedOut {
			out = append(out, refusedOut)
		}
	}
	if len(out) != len(lines)+1 {
		t.Set("output", tail(res.Out, 3000))
		t.Fail("the wizard answered %d of %d requests: %s\noutput: %s", len(out)-1, len(lines), quoteInput(s.Input), tail(res.Out, 1500))
	}
	return append(out, res.Out)
}

var clsLetter = [5]string{"u", "l", "n", "b", "e"}

// genLine2 makes a settings line and applies it to the model.
func (g *genSet) line(t *T) string {
	r := t.R
	num := func() int {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return -1 - r.Intn(3)
		case 2:
			return r.Intn(300)
		case 3:
			return g.length
		case 4:
			return g.length + 1
		case 5:
			if r.Intn(3) == 0 {
				return math.MaxInt64
			}
			return 1 << 40
		}
		return r.Intn(8)
	}
	switch r.Intn(10) {
	case 0, 1:
		return ""
	case 2, 3:
		n := num()
		switch r.Intn(5) {
		case 0:
			n = r.Intn(65)
		case 1:
			n = []int{255, 256, 257, 512, 1000, 1024, 4096, 9000, 16384, 20000, 40000, 65535, 65536, 65537, 70000, 1 << 20}[r.Intn(16)]
		case 2:
			// exactly what is needed
			n = 0
			for _, m := range g.min {
				if m > 0 && m < 1e6 {
					n += m
				}
			}
		}
		if n > 5000 && r.Intn(4) > 0 {
			n %= 5000
		}
		g.length = n
		return strconv.Itoa(n)
	case 4:
		return pick(r, "zz", "1.5", "99999999999999999999", "q", "0x10", "10 10", "up", "Y", "-")
	case 5:
		c := r.Intn(5)
		return clsLetter[c] + " " + pick(r, "x", "1.5", "99999999999999999999", "--1")
	case 6, 7:
		c := r.Intn(5)
		if g.min[c] >= 0 {
			g.min[c] = -1
		} else {
			g.min[c] = 0
		}
		return clsLetter[c]
	default:
		c := r.Intn(5)
		n := num()
		g.min[c] = n
		return clsLetter[c] + pick(r, " ", "  ") + strconv.Itoa(n)
	}
}

func genJudge(t *T, g genSet, out, where string, led *pwLedger) {
	switch m := g.must(); {
	case out == refusedOut:
		if m > 0 {
			t.Fail("%s: length %d with minimums %v (u l n b e) is refused", where, g.length, g.min)
		}
		t.Count("refused", 1)
	case m < 0:
		t.Fail("%s: length %d with minimums %v (u l n b e) is impossible but gave %q", where, g.length, g.min, tail(out, 200))
	default:
		if bad := g.judge(out); bad != "" {
			t.Fail("%s: length %d with minimums %v (u l n b e) gave %q: %s", where, g.length, g.min, tail(out, 300), bad)
		}
		if bad := g.even(out); bad != "" {
			t.Fail("%s: length %d with minimums %v (u l n b e): %s", where, g.length, g.min, bad)
		}
		led.add(t, where, out, g)
		t.Count("passwords", 1)
	}
}

// c19settings walks through the settings.
func c19settings(t *T, led *pwLedger) {
	r := t.R
	dir := t.Scratch()
	g := genSet{length: 32}
	var lines []string
	states := []genSet{g}
	for i := 5 + r.Intn(60); i > 0; i-- {
		lines = append(lines, g.line(t))
		states = append(states, g)
		if g.must() < 0 && r.Intn(2) == 0 {
			// back to something possible
			for j := range g.min {
				if g.min[j] > 100 || g.min[j] < 0 {
					g.min[j] = 0
					lines = append(lines, clsLetter[j]+" 0")
					states = append(states, g)
				}
			}
			g.length = 10 + r.Intn(400)
			lines = append(lines, strconv.Itoa(g.length))
			states = append(states, g)
		}
	}
	t.Set("lines", lines)
	login, s := []string(nil), &Sess{Dir: dir, Sub: []string{"gen"}}
	inFile := r.Intn(4) == 0
	var end []string
	if inFile {
		login = []string{"pw", "pw", "add zz", "", ""}
		s = &Sess{Dir: dir, File: dir + "/f"}
	}
	// accept the last one
	accept := states[len(states)-1].must() == 1
	if accept {
		end = append(end, "y")
	} else if inFile {
		end = append(end, "m", "x", "x")
	}
	out := genRun(t, s, login, lines, end)
	for i, g := range states {
		where := "at the start"
		if i > 0 {
			where = fmt.Sprintf("after line %d %q", i, lines[i-1])
		}
		genJudge(t, g, out[i], where, led)
	}
	last, all := out[len(states)-1], out[len(out)-1]
	if accept && inFile {
		v, _ := openView(t, dir+"/f", "", "pw")
		got := ""
		for _, e := range v {
			got = e["pass"]
		}
		if got != last {
			t.Fail("accepted %q but %q was stored", last, got)
		}
		t.Count("accepted", 1)
	} else if accept {
		ls := strings.Split(strings.TrimSuffix(all, "\n"), "\n")
		if ls[len(ls)-1] != last {
			t.Fail("accepted %q but gen printed %q", last, ls[len(ls)-1])
		}
		t.Count("accepted", 1)
	}
	t.Eval(fmt.Sprint(lines))
}

// c19rekeyall: the passphrases it invents are generated passwords as well.
func c19rekeyall(t *T, led *pwLedger) {
	dir := t.Scratch()
	f := dir + "/f"
	users := []fUserCred{{Name: "ann", Pass: "pw"}, {Name: "bob", Pass: "p2"}, {Name: "cy", Pass: "p3"}}
	m := newMulti(t, users, 1571887970e9)
	m.write(f, m.log)
	s := &Sess{Dir: dir, File: f, Args: []string{"--no-sync"}, Input: "ann\npw\nrekeyall\ny\n"}
	res := s.Run(t)
	res.MustOK(t, "rekeyall")
	n := 0
	for _, l := range strings.Split(res.Out, "\n") {
		for _, u := range users {
			if p := strings.TrimPrefix(strings.TrimSpace(l), u.Name+": "); p != strings.TrimSpace(l) {
				genJudge(t, genSet{length: 32}, p, "rekeyall", led)
				n++
			}
		}
	}
	if n < 2 {
		t.Fail("rekeyall printed %d of the new passphrases: %s", n, tail(res.Out, 600))
	}
	t.Eval(res.Out)
}

// ---- distribution ----

type genDist struct {
	set genSet
	sync.Mutex
	n       int
	pos     [][5]int // class by position
	char    [256]int
	first   [256]int    // the first character by itself
	pair    map[int]int // equal neighbours by distance
	joint   [][]int     // digits only: pairs of characters by pair of positions
	posChar [][]int
	runs    int
}

func (d *genDist) add(pw string) {
	d.n++
	d.first[pw[0]]++
	for i := 0; i < len(pw); i++ {
		d.pos[i][clsOf(pw[i])]++
		d.char[pw[i]]++
		for k := 1; k < 4; k++ {
			if i+k < len(pw) && pw[i] == pw[i+k] {
				d.pair[k]++
			}
		}
	}
	if d.joint != nil {
		k := 0
		for i := 0; i < len(pw); i++ {
			d.posChar[i][pw[i]]++
			for j := i + 1; j < len(pw); j++ {
				a, b := strings.IndexByte(d.alphabet(), pw[i]), strings.IndexByte(d.alphabet(), pw[j])
				d.joint[k][a*26+b]++
				k++
			}
		}
	}
}

func (d *genDist) alphabet() string {
	a := ""
	for i, m := range d.set.min {
		if m >= 0 {
			a += clsAll[i]
		}
	}
	return a
}

// c19dist collects passwords of one setting from several processes.
func c19dist(t *T, d *genDist, per int) {
	dir := t.Scratch()
	var lines []string
	for i, m := range d.set.min {
		if m < 0 {
			lines = append(lines, clsLetter[i])
		} else if m > 0 {
			lines = append(lines, clsLetter[i]+" "+strconv.Itoa(m))
		}
	}
	lines = append(lines, strconv.Itoa(d.set.length))
	skip := len(lines)
	for i := 0; i < per; i++ {
		lines = append(lines, "")
	}
	out := genRun(t, &Sess{Dir: dir, Sub: []string{"gen"}}, nil, lines, nil)
	d.Lock()
	defer d.Unlock()
	for _, pw := range out[skip : len(out)-1] {
		if bad := d.set.judge(pw); bad != "" {
			t.Fail("length %d with minimums %v gave %q: %s", d.set.length, d.set.min, tail(pw, 300), bad)
		}
		d.add(pw)
	}
	d.runs++
	t.Count("passwords", per)
	t.Eval(fmt.Sprintf("%v %d", d.set, d.runs))
}

// off tells whether a count is outside [lo, hi] times the expectation by more than chance.
func off(n int, exp, lo, hi float64) bool {
	if exp < 40 {
		return false
	}
	s := 7 * math.Sqrt(exp*hi)
	return float64(n) < exp*lo-s || float64(n) > exp*hi+s
}

func (d *genDist) verdict(t *T) {
	if d.n == 0 {
		return
	}
	what := fmt.Sprintf("%d passwords of length %d with minimums %v (u l n b e)", d.n, d.set.length, d.set.min)
	L := float64(d.set.length)
	var total [5]float64
	on := 0
	for i := range clsAll {
		for _, p := range d.pos {
			total[i] += float64(p[i])
		}
		if d.set.min[i] >= 0 {
			on++
		}
	}
	need := 0
	for _, m := range d.set.min {
		if m > 0 {
			need += m
		}
	}
	for i, a := range clsAll {
		m := d.set.min[i]
		if m < 0 {
			continue
		}
		// classes share what is left over
		exp := (float64(m) + (L-float64(need))/float64(on)) * float64(d.n)
		if off(int(total[i]), exp, 0.85, 1.15) {
			t.Fail("%s: characters of %s appear %.0f times, about %.0f expected", what, a, total[i], exp)
		}
		for p := range d.pos {
			if off(d.pos[p][i], exp/L, 0.6, 1.6) {
				t.Fail("%s: position %d holds a character of %s %d times, about %.0f expected", what, p, a, d.pos[p][i], exp/L)
			}
		}
		for j := 0; j < len(a); j++ {
			e := total[i] / float64(len(a))
			hi := 1.35
			if a[j] == '\\' {
				hi = 2.6 // it is listed twice
			}
			if off(d.char[a[j]], e, 0.7, hi) {
				t.Fail("%s: %q appears %d times, about %.0f expected", what, a[j], d.char[a[j]], e)
			}
			t.Count("frequencies_judged", 1)
			if need == 0 {
				if off(d.first[a[j]], e/L, 0.7, hi) {
					t.Fail("%s: %q is the first character %d times, about %.0f expected", what, a[j], d.first[a[j]], e/L)
				}
			}
		}
	}
	// neighbours are equal as often as independent characters would be
	if need == 0 {
		p := 0.0
		for _, n := range d.char {
			q := float64(n) / (float64(d.n) * L)
			p += q * q
		}
		for k := 1; k < 4 && k < d.set.length; k++ {
			e := p * float64(d.n) * (L - float64(k))
			if off(d.pair[k], e, 0.8, 1.25) {
				t.Fail("%s: characters %d apart are equal %d times, about %.0f expected", what, k, d.pair[k], e)
			}
		}
	}
	if d.joint != nil {
		al := d.alphabet()
		for p := range d.posChar {
			for j := 0; j < len(al); j++ {
				if e := float64(d.n) / float64(len(al)); off(d.posChar[p][al[j]], e, 0.75, 1.3) {
					t.Fail("%s: position %d holds %q %d times, about %.0f expected", what, p, al[j], d.posChar[p][al[j]], e)
				}
			}
		}
		for k := range d.joint {
			for a := 0; a < len(al); a++ {
				for b := 0; b < len(al); b++ {
					if e := float64(d.n) / float64(len(al)*len(al)); off(d.joint[k][a*26+b], e, 0.7, 1.4) {
						t.Fail("%s: the pair %q, %q appears %d times at positions pair %d, about %.0f expected", what, al[a], al[b], d.joint[k][a*26+b], k, e)
					}
					t.Count("frequencies_judged", 1)
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C19",
		Rule:        "every password the program prints fits the settings in force; impossible requests are refused; frequencies of classes and characters by position are near those of independent draws; no long password repeats",
		Assumptions: []string{"a frequency counts as close to even within about a third of the expectation, which allows the modulo bias of a byte and the naive shuffle", "the symbols of the extra class are those of the program's help; other ASCII punctuation would be accepted there", "a well seeded but not cryptographic generator cannot be told apart from outside"},
		Run: func(c *Ctx) {
			led := &pwLedger{seen: map[string]string{}}
			c.Cases("settings", c.N(5000, 60000), func(t *T) { c19settings(t, led) })
			c.Cases("rekeyall", c.N(60, 600), func(t *T) { c19rekeyall(t, led) })
			z := [5]int{}
			sets := []genSet{
				{8, z}, {1, z}, {40, z}, {4, [5]int{-1, -1, 0, -1, -1}}, {3, [5]int{-1, -1, -1, 0, -1}}, {6, [5]int{0, -1, -1, -1, -1}},
				{10, [5]int{2, 2, 2, 2, 2}}, {5, [5]int{1, 1, 1, 1, 1}}, {12, [5]int{1, -1, 3, 0, -1}}, {20, [5]int{0, 0, 1, 0, 0}},
				{300, [5]int{40, 0, 20, -1, 0}}, {600, [5]int{300, -1, 0, -1, 1}}, {2, [5]int{1, 1, -1, -1, -1}}, {16, [5]int{-1, 8, 8, -1, -1}}, {33, [5]int{-1, -1, 0, 0, 0}},
			}
			for i := range sets {
				d := &genDist{set: sets[i], pair: map[int]int{}}
				d.pos = make([][5]int, d.set.length)
				on := 0
				for _, m := range d.set.min {
					if m >= 0 {
						on++
					}
				}
				if on == 1 {
					d.joint = make([][]int, d.set.length*(d.set.length-1)/2)
					for k := range d.joint {
						d.joint[k] = make([]int, 26*26)
					}
					d.posChar = make([][]int, d.set.length)
					for k := range d.posChar {
						d.posChar[k] = make([]int, 256)
					}
				}
				per := c.N(15000, 100000)
				if d.set.length > 100 {
					per /= 10
				}
				g := fmt.Sprintf("dist%d", i)
				c.Cases(g, 8, func(t *T) { c19dist(t, d, per) })
				c.Cases(g, 1, func(t *T) { t.Case = -1; d.verdict(t) })
			}
		}})
}
