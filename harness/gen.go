package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/aarondl/bpass/txlogs"
)

// Generators of strings and logs shared by the checks.

func toM(l []txlogs.Tx) []mTx {
	out := make([]mTx, len(l))
	for i, t := range l {
		out[i] = mTx{t.Time, string(t.Kind), t.UUID, t.Key, t.Value}
	}
	return out
}

func fromM(l []mTx) []txlogs.Tx {
	if l == nil {
		return nil
	}
	out := make([]txlogs.Tx, len(l))
	for i, t := range l {
		out[i] = txlogs.Tx{Time: t.Time, Kind: txlogs.TxKind(t.Kind), UUID: t.UUID, Key: t.Key, Value: t.Value}
	}
	return out
}

func viewM(s map[string]txlogs.Entry) mView {
	v := mView{}
	for k, e := range s {
		m := map[string]string{}
		for a, b := range e {
			m[a] = b
		}
		v[k] = m
	}
	return v
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

var uuidSeq = func(r *rand.Rand) string {
	return fmt.Sprintf("%08x-%04x-4%03x-8%03x-%012x", r.Uint32(), r.Intn(1<<16), r.Intn(1<<12), r.Intn(1<<12), r.Int63()&0xffffffffffff)
}

// hostileRunes are characters that stress encoders and line handling.
var hostileRunes = []rune("aZ09 \"'\\/<>&%#{}[]:,;|é漢😀\u00a0\u2028\u2029\ufeff\u200b\ufffd\u0130\u0131ſK\t$`!*?~()=+")

// genText makes valid UTF-8 text.
func genText(r *rand.Rand, max int) string {
	n := r.Intn(max + 1)
	var b strings.Builder
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b.WriteByte(byte('a' + r.Intn(26)))
		case 1:
			b.WriteRune(hostileRunes[r.Intn(len(hostileRunes))])
		case 2:
			b.WriteByte(byte(32 + r.Intn(95)))
		default:
			for {
				c := rune(r.Intn(0x11000))
				if c >= 0xd800 && c < 0xe000 {
					continue
				}
				b.WriteRune(c)
				break
			}
		}
	}
	return b.String()
}

// genLine makes text that can be typed on one line and arrives unchanged: no control characters
// (the line editor interprets them), no leading or trailing white space.
func genLine(r *rand.Rand, max int) string {
	s := strings.Map(func(c rune) rune {
		if c < 32 || c == 127 || c >= 0x80 && c < 0xa0 {
			return -1
		}
		return c
	}, genText(r, max))
	return strings.TrimSpace(s)
}

// genWord is genLine without white space, never empty.
func genWord(r *rand.Rand, max int) string {
	for {
		s := strings.Join(strings.Fields(genLine(r, max)), "")
		if s != "" {
			return s
		}
	}
}

// genName makes entry names that often resemble one another.
func genName(r *rand.Rand) string {
	if isLarge(r) && r.Intn(8) == 0 {
		return longText(r, 200, 1500)
	}
	switch r.Intn(6) {
	case 0:
		return pick(r, "a", "b", "ab", "aB", "web", "Web", "mail", "bank")
	case 1:
		return pick(r, "web", "mail", "x") + "/" + pick(r, "site", "Site", "one", "two", "1")
	case 2:
		return pick(r, "web", "mail") + "/" + pick(r, "a", "b") + "/" + pick(r, "x", "y")
	case 3:
		return genWord(r, 8)
	case 4:
		return pick(r, "site", "name", "é", "漢") + fmt.Sprint(r.Intn(12))
	}
	return pick(r, "alpha", "beta", "gamma", "delta") + pick(r, "", "1", "11", "2")
}

// genKey makes key names, never protected ones.
func genKey(r *rand.Rand) string {
	if isLarge(r) && r.Intn(8) == 0 {
		return longText(r, 200, 1500)
	}
	if r.Intn(4) == 0 {
		for {
			k := genWord(r, 10)
			if !isProtected(k) && !strings.EqualFold(k, "labels") {
				return k
			}
		}
	}
	return pick(r, "user", "email", "pass", "notes", "url", "k1", "k2", "K1", "custom")
}

var protectedNames = []string{"totp", "name", "iv", "salt", "mkey", "updated"}

func isProtected(k string) bool {
	for _, p := range protectedNames {
		if strings.EqualFold(p, k) {
			return true
		}
	}
	return false
}

// genLog makes a valid log with realistic records at strictly increasing times.
type logGen struct {
	r     *rand.Rand
	now   int64
	step  int64
	alive []string
	names map[string]string
	all   []string
	log   []mTx
}

func plainLogGen(r *rand.Rand, start, step int64) *logGen {
	return &logGen{r: r, now: start, step: step, names: map[string]string{}}
}

func newLogGen(r *rand.Rand, start, step int64) *logGen {
	g := plainLogGen(r, start, step)
	if v, ok := largeOf.Load(r); ok && v.(int) > 0 {
		largeOf.Store(r, 0) // the first history of a case only
		g.bulk(v.(int))
	}
	return g
}

func (g *logGen) tick() int64 {
	g.now += 1 + g.r.Int63n(g.step)
	return g.now
}

func (g *logGen) rec(kind, uuid, key, val string) {
	g.log = append(g.log, mTx{Time: g.tick(), Kind: kind, UUID: uuid, Key: key, Value: val})
}

func (g *logGen) add(name string) string {
	u := uuidSeq(g.r)
	g.rec("add", u, "", "")
	g.rec("setk", u, "updated", fmt.Sprint(g.now))
	g.rec("setk", u, "name", name)
	g.alive = append(g.alive, u)
	g.all = append(g.all, u)
	g.names[u] = name
	return u
}

func (g *logGen) uniqueName() string {
	for i := 0; ; i++ {
		n := genName(g.r)
		if i > 20 {
			n += fmt.Sprint(i)
		}
		if strings.HasPrefix(n, "user/") || strings.HasPrefix(n, "sync/") {
			continue
		}
		taken := false
		for _, u := range g.alive {
			if g.names[u] == n {
				taken = true
			}
		}
		if !taken {
			return n
		}
	}
}

func (g *logGen) set(u, k, v string) {
	g.rec("setk", u, "updated", fmt.Sprint(g.now))
	g.rec("setk", u, k, v)
	if k == "name" {
		g.names[u] = v
	}
}

func (g *logGen) del(u string) {
	g.rec("del", u, "", "")
	for i, a := range g.alive {
		if a == u {
			g.alive = append(append([]string{}, g.alive[:i]...), g.alive[i+1:]...)
			return
		}
	}
}

// step adds one random operation.
func (g *logGen) op(deletes bool) {
	r := g.r
	if len(g.alive) == 0 || r.Intn(4) == 0 {
		g.add(g.uniqueName())
		return
	}
	u := g.alive[r.Intn(len(g.alive))]
	switch k := r.Intn(10); {
	case k == 0 && deletes:
		g.del(u)
	case k == 1:
		g.rec("setk", u, "updated", fmt.Sprint(g.now))
		g.rec("delk", u, genKey(r), "")
	case k == 2:
		g.set(u, "name", g.uniqueName())
	default:
		g.set(u, genKey(r), genText(r, 12))
	}
}

func (g *logGen) view() mView {
	v, err := mReplay(g.log)
	if err != nil {
		panic(inconclusive("generator made an invalid log: " + err.Error()))
	}
	return v
}
