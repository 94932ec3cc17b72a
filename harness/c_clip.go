package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base32"
	"encoding/binary"
	"fmt"
	"hash"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
)

// ---- codes ----

// refTOTP is RFC 6238 over RFC 4226.
func refTOTP(secret []byte, digits int, period int64, alg string, at int64) string {
	h := map[string]func() hash.Hash{"SHA1": sha1.New, "SHA256": sha256.New, "SHA512": sha512.New}[alg]
	m := hmac.New(h, secret)
	var c [8]byte
	binary.BigEndian.PutUint64(c[:], uint64(at/period))
	m.Write(c[:])
	s := m.Sum(nil)
	o := s[len(s)-1] & 15
	v := binary.BigEndian.Uint32(s[o:o+4]) & 0x7fffffff
	mod := uint32(1)
	for i := 0; i < digits && i < 9; i++ {
		mod *= 10
	}
	return fmt.Sprintf("%0*d", digits, v%mod)
}

func init() { // the examples of RFC 6238, appendix B
	for _, x := range []struct {
		at        int64
		alg, want string
	}{{59, "SHA1", "94287082"}, {59, "SHA256", "46119246"}, {59, "SHA512", "90693936"}, {1111111109, "SHA1", "07081804"}, {20000000000, "SHA512", "47863826"}, {2000000000, "SHA256", "90698825"}} {
		n := map[string]int{"SHA1": 20, "SHA256": 32, "SHA512": 64}[x.alg]
		k := strings.Repeat("1234567890", 7)[:n]
		if refTOTP([]byte(k), 8, 30, x.alg, x.at) != x.want {
			panic("refTOTP is wrong")
		}
	}
}

type totpKey struct {
	text   string // what is given to the program
	secret []byte
	digits int
	period int64
	alg    string
	bare   bool
}

func (k totpKey) codes(t0, t1 int64) map[string]bool {
	m := map[string]bool{}
	for s := t0/1e9 - 1; s <= t1/1e9+1; s++ {
		if s*1e9 < t0-2e8 && s < t0/1e9 || s > t1/1e9 {
			continue
		}
		m[refTOTP(k.secret, k.digits, k.period, k.alg, s)] = true
	}
	return m
}

// genTOTP makes a good key.
func genTOTP(t *T) totpKey {
	r := t.R
	k := totpKey{digits: 6, period: 30, alg: "SHA1"}
	k.secret = t.bytes([]int{1, 2, 5, 10, 16, 20, 32, 64, 65, 129, 1 + r.Intn(40)}[r.Intn(11)])
	s := base32.StdEncoding.EncodeToString(k.secret)
	if r.Intn(2) == 0 {
		s = strings.TrimRight(s, "=")
	}
	switch r.Intn(4) {
	case 0:
		s = strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		s = string(b)
	}
	if r.Intn(4) == 0 {
		k.bare, k.text = true, s
		return k
	}
	ps := []string{"secret=" + url.QueryEscape(s)}
	if r.Intn(2) == 0 {
		k.digits = 6 + r.Intn(4)
		ps = append(ps, fmt.Sprintf("digits=%d", k.digits))
	}
	if r.Intn(2) == 0 {
		k.period = []int64{1, 7, 15, 29, 30, 31, 45, 60, 90, 3600, 86400, 1 << 31, 1 + int64(r.Intn(300))}[r.Intn(13)]
		ps = append(ps, fmt.Sprintf("period=%d", k.period))
	}
	if r.Intn(2) == 0 {
		k.alg = pick(r, "SHA1", "SHA256", "SHA512")
		a := k.alg
		if r.Intn(3) == 0 {
			a = strings.ToLower(a)
		}
		ps = append(ps, "algorithm="+a)
	}
	if r.Intn(2) == 0 {
		ps = append(ps, pick(r, "issuer=Example", "issuer=A%20B", "image=http%3A%2F%2Fx", "issuer=", "x=1&y=2", "issuer=%C3%BC"))
	}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	k.text = "otpauth://totp/" + pick(r, "x", "Example:joe@example.com", "A%20B:c", "", "bpass:1-2", "é", "a/b", "issuer%3Aname") + "?" + strings.Join(ps, "&")
	return k
}

// badTOTP makes one that cannot be used.
func badTOTP(t *T) string {
	r := t.R
	const s = "JBSWY3DPEHPK3PXP"
	return pick(r, "otpauth://totp/x?secret="+pick(r, "0189", "JBSWY3D!", "ABC%20DEFG", "é", "JBSW=Y3D", "%00AAAAAAA"),
		"otpauth://hotp/x?counter=1&secret="+s, "otpauth://motp/x?secret="+s, "otpauth:///x?secret="+s,
		"otpauth://totp/x?secret="+s+"&digits="+pick(r, "0", "-6", "x", "6.5", "10", "99", "5", "1e1", "%20"),
		"otpauth://totp/x?secret="+s+"&algorithm="+pick(r, "MD5", "SHA3", "none", "SHA224", "SHA-1x", "0"),
		"otpauth://totp/x", "otpauth://totp/x?secret=", "otpauth://totp/x?SECRET="+s, "otpauth://totp/x?digits=6", "otpauth://totp/x?secret=%20",
		"otpauth://to tp/%zz", "otpauth://totp/%zz?secret="+s, "otpauth://[::1?secret="+s, "!!!", "1", "not a secret", "otpauth//totp/x?secret="+s, "ÄÖÜ")
}

func c25lib(t *T) {
	for i := 0; i < 20; i++ {
		k := genTOTP(t)
		db := &txlogs.DB{}
		b := blobformat.Blobs{DB: db}
		u, err := b.New("x")
		if err != nil {
			t.Fail("New: %v", err)
		}
		if err := b.SetTwofactor(u, k.text); err != nil {
			t.Fail("the secret %q is refused: %v", k.text, err)
		}
		db.UpdateSnapshot()
		e, _ := b.Find(u)
		stored := e["totp"]
		if !k.bare && stored != k.text {
			t.Fail("the secret %q is stored as %q", k.text, stored)
		}
		t0 := nowNano()
		code, err := e.TwoFactor()
		t1 := nowNano()
		if err != nil {
			t.Fail("the secret %q gives no code: %v", k.text, err)
		}
		if !k.codes(t0, t1)[code] {
			t.Fail("the secret %q gives %q at %d, want %v", k.text, code, t0/1e9, k.codes(t0, t1))
		}
		if e["totp"] != stored {
			t.Fail("showing the code of %q changed it to %q", stored, e["totp"])
		}
		t.Eval(k.text)
	}
	t.Count("codes", 20)
	for i := 0; i < 4; i++ {
		bad := badTOTP(t)
		db := &txlogs.DB{}
		b := blobformat.Blobs{DB: db}
		u, _ := b.New("x")
		if b.SetTwofactor(u, bad) != nil {
			t.Count("refused", 1)
			continue
		}
		db.UpdateSnapshot()
		e, _ := b.Find(u)
		if code, err := e.TwoFactor(); err == nil {
			t.Fail("the unusable secret %q gives a code: %q", bad, code)
		}
		t.Count("unusable", 1)
		t.Eval(bad)
	}
}

var codeLine = regexp.MustCompile(`(?m)(?:^|[^0-9A-Za-z])([0-9]{6,9})(?:[^0-9A-Za-z]|$)`)

func codesIn(out string) []string {
	var cs []string
	for _, m := range codeLine.FindAllStringSubmatch(out, -1) {
		cs = append(cs, m[1])
	}
	return cs
}

func c25prog(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	s := NewSession("pw", "pw")
	s.Cmd("add e", "", "u", "m", "p", "p")
	type step struct {
		seg  int
		bad  string
		k    *totpKey
		copy bool
	}
	var steps []step
	last := ""
	var lastKey *totpKey
	for i := 2 + r.Intn(4); i > 0; i-- {
		var k *totpKey
		bad := ""
		if r.Intn(3) == 0 {
			bad = strings.Join(strings.Fields(badTOTP(t)), "")
			if bad == "notasecret" {
				bad = "0189"
			}
			s.Cmd("set e totp " + bad)
			last, lastKey = bad, nil
		} else {
			x := genTOTP(t)
			k = &x
			s.Cmd("set e totp " + k.text)
			last, lastKey = k.text, k
		}
		steps = append(steps, step{s.Cmd("get e totp"), bad, k, false})
		steps = append(steps, step{s.Cmd("show e"), bad, k, false})
		steps = append(steps, step{s.Cmd(pick(r, "cp e totp", "totp e")), bad, k, true})
	}
	t0 := nowNano()
	res := (&Sess{Dir: dir, File: f, Input: s.String()}).Run(t)
	t1 := nowNano()
	res.MustOK(t, "two factor session")
	segs := res.Segments(t, s)
	clip := clipWrites(res)
	ci := 0
	for _, st := range steps {
		out := segs[st.seg]
		t.Set("output", out)
		if st.bad != "" {
			// a refused secret leaves the one before it
			continue
		}
		want := st.k.codes(t0, t1)
		if st.copy {
			for ci < len(clip) && !want[clip[ci]] {
				ci++ // from an earlier secret that a refused one left in place
			}
			if ci == len(clip) {
				t.Fail("the code of %q was not copied: %q, want one of %v", st.k.text, clip, want)
			}
			ci++
			for _, c := range codesIn(out) {
				if want[c] {
					t.Fail("the copied code is printed as well: %q", out)
				}
			}
			continue
		}
		ok := false
		for _, c := range codesIn(out) {
			ok = ok || want[c]
		}
		if !ok {
			t.Fail("the code of %q is not shown, want one of %v\noutput: %s", st.k.text, want, out)
		}
	}
	v, _ := openView(t, f, "", "pw")
	for _, e := range v {
		if lastKey != nil && !lastKey.bare && e["totp"] != last {
			t.Fail("%q was stored as %q", last, e["totp"])
		}
		if lastKey != nil && lastKey.bare {
			u, err := url.Parse(e["totp"])
			if err != nil || u.Query().Get("secret") != last {
				t.Fail("the bare secret %q was stored as %q", last, e["totp"])
			}
		}
	}
	t.Count("program_codes", len(steps))
	t.Eval(s.String())
}

// c25shown: bad keys that are in the file already only give errors.
func c25shown(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	bad := badTOTP(t)
	if !strings.HasPrefix(bad, "otpauth://") {
		bad = pick(r, bad, "otpauth://totp/x?secret="+url.QueryEscape(bad))
	}
	g.set(u, "totp", bad)
	g.set(u, "user", "theuser")
	craft(t, f, "pw", g.log)
	s := NewSession("pw")
	i := s.Cmd("get e totp")
	j := s.Cmd("show e")
	k := s.Cmd("totp e")
	s.Cmd("ls")
	res := (&Sess{Dir: dir, File: f, Input: s.String()}).Run(t)
	res.MustOK(t, fmt.Sprintf("two factor session with the key %q", bad))
	segs := res.Segments(t, s)
	for _, seg := range []int{i, j, k} {
		out := strings.ReplaceAll(segs[seg], bad, "")
		if seg != j {
			if c := codesIn(out); len(c) > 0 {
				t.Fail("the unusable key %q gives a code: %s", bad, out)
			}
		}
		if strings.TrimSpace(segs[seg]) == "" {
			t.Fail("nothing was said about the unusable key %q", bad)
		}
	}
	if c := clipWrites(res); len(c) > 0 {
		t.Fail("the unusable key %q put %q on the clipboard", bad, c)
	}
	v, _ := openView(t, f, "", "pw")
	if v[u]["totp"] != bad {
		t.Fail("the key %q became %q", bad, v[u]["totp"])
	}
	t.Count("unusable_shown", 1)
	t.Eval(bad)
}

// ---- C24 ----

func clipWrites(res *Result) (out []string) {
	for _, e := range res.Events {
		if (e.Prog == "xsel" || e.Prog == "xclip") && e.Note == "" {
			out = append(out, string(e.Stdin))
		}
	}
	return out
}

// opened waits for the browser stand-ins, which the program does not wait for.
func opened(logf func() []Event, want int) []string {
	var out []string
	for i := 0; i < 400; i++ {
		out = nil
		for _, e := range logf() {
			if e.Prog == "xdg-open" {
				out = append(out, strings.Join(e.Args, "\x00"))
			}
		}
		if len(out) >= want {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	sort.Strings(out)
	return out
}

func distinct(t *T, extra string) string {
	return fmt.Sprintf("%s%08x%s", extra, t.R.Uint32(), genWord(t.R, 6))
}

func c24case(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	ents := map[string]map[string]string{}
	keys := map[string]*totpKey{}
	unusable := map[string]bool{}
	var names []string
	for i := 0; i < 1+r.Intn(7); i++ {
		n := g.uniqueName()
		if strings.ContainsAny(n, " \t\u00a0\u2028\u2029") || ents[n] != nil {
			continue
		}
		u := g.add(n)
		names = append(names, n)
		e := map[string]string{}
		for _, k := range []string{"user", "email", "pass", "url", "totp", "notes", "k", "Ünï"} {
			if r.Intn(3) == 0 {
				continue
			}
			v := distinct(t, "")
			switch {
			case k == "url":
				v = pick(r, "https://", "http://", "ftp://", "file:///", "", "-", "--help", "javascript:", "mailto:") + v + pick(r, "", "/?q=a b", "#x", "?a=%20", "\"q\"", "$HOME", "`id`", ";ls", "&x", "*")
			case k == "totp":
				x := genTOTP(t)
				x.period = 30
				if x.bare || strings.Contains(x.text, "period=") {
					x = totpKey{text: "otpauth://totp/x?secret=" + base32.StdEncoding.EncodeToString([]byte(v)), secret: []byte(v), digits: 6, period: 30, alg: "SHA1"}
				}
				keys[n] = &x
				v = x.text
				if r.Intn(5) == 0 { // of no use: nothing to copy
					v, unusable[n] = badTOTP(t), true
				}
			default:
				switch r.Intn(7) {
				case 6:
					v = ""
				case 0:
					v += "\nsecond " + distinct(t, "") + "\n"
				case 1:
					v = strings.Repeat(v, 1+r.Intn(20000))
				case 2:
					v = pick(r, " ", "\t", "\n") + v + pick(r, " ", "\n", "\x00")
				case 3:
					v = genText(r, 5) + v + genText(r, 5)
				}
			}
			g.set(u, k, v)
			e[k] = v
		}
		ents[n] = e
	}
	if r.Intn(2) == 0 && len(names) > 1 { // two that are alike
		g.add(names[0] + "x")
		ents[names[0]+"x"] = map[string]string{}
		names = append(names, names[0]+"x")
	}
	craft(t, f, "pw", g.log)
	resolve := func(q string) string {
		hits := refSearch(names, q)
		if len(hits) == 1 {
			return hits[0]
		}
		for _, h := range hits {
			if h == q {
				return h
			}
		}
		return ""
	}
	readonly := r.Intn(6) == 0
	s := NewSession("pw")
	type exp struct {
		what string
		val  string
		code *totpKey
		seg  int
		wiz  []string // answers to the password wizard, this copy the last
	}
	var want []exp
	var opens []string
	maybe := map[string]bool{}
	secrets := map[int][]string{}
	ctx := ""
	onTTY := r.Intn(2) == 0
	made := 0
	for i := 3 + r.Intn(12); i > 0; i-- {
		if !onTTY && !readonly && r.Intn(10) == 0 {
			// the password wizard copies the password it shows
			made++
			n := fmt.Sprintf("made%d-%s", made, strings.ToLower(genWord(r, 4)))
			if ents[n] != nil {
				continue
			}
			lines := []string{"add " + n, "", ""}
			first := len(want)
			for n := 1 + r.Intn(8); n > 0; n-- {
				l := pick(r, "c", "c", "c", "c x", "", "?", "u", "l", "n", "12", "40", "l 5", "n 3", "e", "b", "u 60")
				lines = append(lines, l)
				if strings.HasPrefix(l, "c") {
					want = append(want, exp{what: fmt.Sprintf("the password shown after %q", lines[3:]), wiz: lines[3:len(lines):len(lines)]})
				}
			}
			lines = append(lines, "m", "x", "x")
			names = append(names, n)
			ents[n] = map[string]string{"pass": "x"}
			seg := s.Cmd(lines...)
			for j := first; j < len(want); j++ {
				want[j].seg = seg
			}
			continue
		}
		q := pick(r, "", "nope")
		if len(names) > 0 && r.Intn(12) > 0 {
			q = names[r.Intn(len(names))]
			if r.Intn(4) == 0 {
				q = strings.Join(strings.Fields(genQuery(t, []string{q})), "")
			}
		}
		if q == "" {
			q = "nope"
		}
		pre, n := " "+q, resolve(q)
		if ctx != "" {
			pre, n = "", ctx
		}
		e := ents[n]
		cp := func(k string, seg int) {
			v, ok := e[k]
			if !ok {
				return
			}
			x := exp{what: k + " of " + n, val: v, seg: seg}
			if k == "totp" && unusable[n] {
				t.Count("unusable_codes", 1)
				return
			}
			if k == "totp" {
				x.code = keys[n]
			}
			want = append(want, x)
			secrets[seg] = append(secrets[seg], v)
		}
		switch r.Intn(8) {
		case 0:
			if ctx != "" || n == "" {
				s.Cmd("cd")
				ctx = ""
				continue
			}
			s.Cmd("cd " + q)
			ctx = n
		case 1, 2:
			k := pick(r, "user", "email", "pass", "totp")
			cp(k, s.Cmd(k+pre))
		case 3, 4:
			k := pick(r, "user", "email", "pass", "totp", "url", "notes", "k", "Ünï", "missing", "name")
			seg := s.Cmd("cp" + pre + " " + k)
			if k == "name" {
				if n != "" {
					want = append(want, exp{what: "name of " + n, val: n, seg: seg})
				}
				continue
			}
			cp(k, seg)
		case 5, 6:
			if readonly {
				s.Cmd("login" + pre)
				continue
			}
			var ks []string
			for _, k := range []string{"user", "email", "pass", "totp"} {
				if _, ok := e[k]; ok && !(k == "totp" && unusable[n]) {
					ks = append(ks, k)
				}
			}
			lines := []string{"login" + pre}
			for i := 1; i < len(ks); i++ {
				lines = append(lines, pick(r, "", "", "x"))
			}
			seg := s.Cmd(lines...)
			for _, k := range ks {
				cp(k, seg)
			}
		case 7:
			s.Cmd("open" + pre)
			if l := e["url"]; l != "" {
				if _, err := url.Parse(l); err != nil {
					maybe[l] = true // not a url
				} else {
					opens = append(opens, l)
				}
			}
		}
	}
	if made > 0 { // not on a terminal
		opens, maybe = nil, map[string]bool{}
	}
	se := &Sess{Dir: dir, File: f, Input: s.String(), Clear: r.Intn(2) == 0}
	if made == 0 && (onTTY || len(opens) > 0 || len(maybe) > 0) { // the browser is only started from a terminal
		se.TTY = true
		se.Input += "exit\n"
		t.Count("on_terminal", 1)
	}
	if readonly {
		se.Args = []string{"-t", "2200-01-01 00:00:00"}
	}
	fail := r.Intn(10) == 0
	if fail {
		se.Env = []string{"VERIF_CLIP_FAIL=1"}
	}
	t.Set("input", s.String())
	t0 := nowNano()
	res := se.Run(t)
	t1 := nowNano()
	if !fail {
		res.MustOK(t, "session of copies")
	} else if c := res.Crashed(); c != "" {
		t.Fail("crash: %s", c)
	}
	segs := res.Segments(t, s)
	clip := clipWrites(res)
	if se.Clear {
		if len(clip) == 0 || clip[len(clip)-1] != "" {
			t.Fail("the clipboard was not cleared at the end: %d writes", len(clip))
		}
		clip = clip[:len(clip)-1]
	}
	asked := want
	want = nil
	for _, x := range asked {
		if len(x.wiz) > 0 {
			shown, ok := shownAt(segs[x.seg], x.wiz)
			if !ok {
				t.Fail("the password wizard did not show one each time in %q: %s", x.wiz, tail(segs[x.seg], 600))
			}
			if shown == "" { // none to these requirements
				continue
			}
			x.val = shown
			t.Count("wizard_copies", 1)
		}
		want = append(want, x)
	}
	for i := 0; i < len(want) || i < len(clip); i++ {
		if i >= len(want) {
			t.Fail("the clipboard got %q on top of what was asked for", tail(clip[i], 200))
		}
		if i >= len(clip) {
			t.Fail("%s was not copied\noutput: %s", want[i].what, tail(segs[want[i].seg], 300))
		}
		if want[i].code != nil {
			if !want[i].code.codes(t0, t1)[clip[i]] {
				t.Fail("the clipboard got %q as %s (%s)", tail(clip[i], 200), want[i].what, want[i].val)
			}
			for _, c := range codesIn(segs[want[i].seg]) {
				if c == clip[i] {
					t.Fail("the copied %s is printed: %s", want[i].what, tail(segs[want[i].seg], 300))
				}
			}
		} else if clip[i] != want[i].val {
			t.Fail("copying %s: the clipboard got %q, want %q", want[i].what, tail(clip[i], 300), tail(want[i].val, 300))
		}
		t.Count("copies", 1)
	}
	for seg, vs := range secrets {
		for _, v := range vs {
			if c := strings.TrimSpace(v); c != "" && strings.Contains(segs[seg], c) {
				t.Fail("the copied secret %q is printed: %s", tail(c, 100), tail(segs[seg], 300))
			}
			if len(v) > 400 && strings.Contains(segs[seg], v[:24]) {
				t.Fail("the copied secret %q is printed in part", v[:24])
			}
		}
	}
	got := opened(se.events, len(opens))
	sort.Strings(opens)
	var got2 []string
	for _, g := range got {
		if !maybe[g] {
			got2 = append(got2, g)
		}
	}
	if strings.Join(got2, "\x01") != strings.Join(opens, "\x01") {
		t.Fail("the browser was given %q, want %q\noutput: %s\nstderr: %s", got2, opens, tail(res.Out, 1500), tail(res.Err, 300))
	}
	t.Count("opens", len(opens))
	t.Eval(s.String())
}

var wizardStep = regexp.MustCompile(`password: (.*)\n|Could not generate password`)

// shownAt is the password on show when the wizard asked for the last of these answers: it makes a
// new one unless the last answer was to copy or to explain, and shows the one it has every time.
func shownAt(seg string, answers []string) (shown string, ok bool) {
	ms := wizardStep.FindAllStringSubmatch(seg, -1)
	for i := range answers {
		if i > 0 && shown == "" && (answers[i-1] == "?" || strings.HasPrefix(answers[i-1], "c")) {
			continue
		}
		if len(ms) == 0 {
			return "", false
		}
		shown, ms = ms[0][1], ms[1:]
	}
	return shown, true
}

// c24end: however a session ends, the clipboard is cleared last.
func c24end(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	u := g.add("e")
	secret := distinct(t, "s3cret")
	g.set(u, "pass", secret)
	g.set(u, "notes", strings.Repeat("n", 600))
	endings := []string{"exit", "eof", "ctrl-d", "ctrl-c", "ctrl-c in add", "eof in add", "ctrl-c in login", "eof in login", "eof in passwd", "ctrl-c in wizard",
		"wrong passphrase", "no passphrase", "ctrl-c at the passphrase", "folder", "garbage", "cut", "empty file", "new, empty passphrase", "new, other passphrase", "new", "new, missing folder",
		"save fails", "sync fails", "sync interrupted", "import fails", "import", "import declined", "export", "export fails", "read-only", "read-only ctrl-c", "multi-user", "multi-user wrong user", "clipboard fails"}
	how := endings[(t.Case+int(t.Seed))%len(endings)]
	se := &Sess{Dir: dir, File: f, Clear: true}
	copied := true
	copyCmd := "pass e\n"
	pre := "pw\n"
	ok := -1 // whether it must succeed
	data := fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: g.log}).encode())
	if strings.HasPrefix(how, "multi-user") {
		mu := newMulti(t, []fUserCred{{Name: "ann", Pass: "pw"}}, 1571887970e9)
		data = fWriteMulti(mu.users, mu.master, mu.ivm, (&mDB{Log: append(append([]mTx{}, mu.log...), g.log...)}).encode())
		pre = "ann\npw\n"
		if how != "multi-user" {
			pre, copied = "bob\npw\n", false
		}
	}
	switch how {
	case "new", "new, empty passphrase", "new, other passphrase", "new, missing folder":
	case "folder":
		os.Mkdir(f, 0700)
	case "garbage":
		mustWriteFile(f, t.bytes(300))
	case "cut":
		mustWriteFile(f, data[:len(data)-1-r.Intn(100)])
	case "empty file":
		mustWriteFile(f, nil)
	default:
		mustWriteFile(f, data)
	}
	end := ""
	switch how {
	case "exit", "sync fails", "multi-user":
		end, ok = "exit\n", 1
	case "eof":
		ok = 1
	case "ctrl-d":
		end, ok = "\x04", 1
	case "ctrl-c":
		end, ok = "\x03", 0
	case "ctrl-c in add":
		end = "add x\n\x03"
	case "eof in add":
		end = "add x\n"
	case "ctrl-c in login":
		g.set(u, "user", "usr")
		mustWriteFile(f, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: g.log}).encode()))
		end = "login e\n\x03"
	case "eof in login":
		g.set(u, "user", "usr")
		mustWriteFile(f, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: g.log}).encode()))
		end = "login e\n"
	case "eof in passwd":
		end = "passwd\n"
	case "ctrl-c in wizard":
		end = "set e pass\n\x03"
	case "wrong passphrase":
		pre, copied, ok = "pwx\n", false, 0
	case "no passphrase", "empty file", "garbage", "cut", "folder":
		copied, ok = false, 0
		if how == "no passphrase" {
			pre = ""
		}
	case "ctrl-c at the passphrase":
		pre, copied, ok = "\x03", false, 0
	case "new, empty passphrase":
		pre, copied, ok = "\n\n", false, 0
	case "new, other passphrase":
		pre, copied, ok = "pw\npx\n", false, 0
	case "new":
		pre, ok = "pw\npw\n", 1
		copyCmd = "add e\n\nu\nm\n" + secret + "\n" + secret + "\npass e\n"
	case "new, missing folder":
		se.File = dir + "/no/such/f"
		pre, ok = "pw\npw\n", 0
		copyCmd = "add e\n\nu\nm\n" + secret + "\n" + secret + "\npass e\n"
	case "save fails":
		se.FSize = 1
		end, ok = "set e notes "+strings.Repeat("m", 900)+"\n", 0
	case "import", "import fails", "import declined":
		se.Sub, copied = []string{"lpassimport"}, false
		se.Lpass = []byte(lpHeader + "\nhttp://x,u,p,,imported,,0\n")
		pre, ok = "pw\ny\n", 1
		if how == "import fails" {
			se.Lpass, ok = []byte("junk\n1,2\n"), 0
		}
		if how == "import declined" {
			pre = "pw\nn\n"
		}
	case "export":
		se.Sub, copied, ok = []string{"export", "out.csv"}, false, 1
	case "export fails":
		se.Sub, copied, ok = []string{"export", "no/such.csv"}, false, 0
	case "read-only":
		se.Args, ok = []string{"-t", "2200-01-01 00:00:00"}, 1
	case "read-only ctrl-c":
		se.Args, end, ok = []string{"-t", "2200-01-01 00:00:00"}, "\x03", 0
	case "multi-user wrong user":
		ok = 0
	case "sync interrupted":
		end = "sync\n\x03"
	case "clipboard fails":
		se.Env = []string{"VERIF_CLIP_FAIL=1"}
		end = "exit\n"
	}
	if strings.HasPrefix(how, "sync") {
		rem := dir + "/rem"
		s := g.add("sync/r")
		g.set(s, "url", "file://"+rem)
		g.set(s, "sync", "true")
		mustWriteFile(f, fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: g.log}).encode()))
		if how == "sync fails" {
			mustWriteFile(rem, t.bytes(100))
		} else {
			se.Args = []string{"--no-sync"}
			mustWriteFile(rem, fWriteSingle("other", t.bytes(fSalt), t.bytes(fIV), (&mDB{Log: g.log}).encode()))
		}
	}
	if !copied {
		copyCmd, end = "", ""
	}
	se.Input = pre + copyCmd + end
	keep := r.Intn(4) == 0 // told not to clear
	se.Clear = !keep
	res := se.Run(t)
	t.Set("output", tail(res.Out, 1500))
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", how, c)
	}
	if how == "clipboard fails" {
		ok = 1
		if !keep { // what stays on the clipboard is not to be passed over
			ok = 0
		}
	}
	if ok == 1 && res.Code != 0 || ok == 0 && res.Code == 0 {
		t.Fail("%s: exit status %d\noutput: %s", how, res.Code, tail(res.Out, 500))
	}
	clip := clipWrites(res)
	if copied {
		found := false
		for _, c := range clip {
			found = found || c == secret
		}
		if !found {
			t.Fail("%s: the password was not copied: %q\noutput: %s", how, clip, tail(res.Out, 500))
		}
	}
	last := ""
	if len(clip) > 0 {
		last = clip[len(clip)-1]
	}
	if !keep && (len(clip) == 0 || last != "") {
		t.Fail("%s: the clipboard was not cleared, it got %q\noutput: %s", how, clip, tail(res.Out, 500))
	}
	if keep {
		for _, c := range clip {
			if c == "" {
				t.Fail("%s: the clipboard was cleared although told not to", how)
			}
		}
	}
	t.Count("endings", 1)
	t.Count("ending_"+strings.Map(func(c rune) rune {
		if c == ' ' || c == ',' || c == '-' {
			return '_'
		}
		return c
	}, how), 1)
	t.Eval(how + strconv.FormatBool(keep))
}

func init() {
	register(&Check{ID: "C25",
		Rule:        "codes of generated secrets and otpauth URLs against an independent RFC 6238 implementation (checked with the RFC's examples), through the library and the program",
		Assumptions: []string{"the clock is the machine's, periods from one second to years stand for other times", "malformed periods may be ignored"},
		Run: func(c *Ctx) {
			c.Cases("lib", c.N(6000, 150000), c25lib)
			c.Cases("program", c.N(1500, 15000), c25prog)
			c.Cases("shown", c.N(1000, 10000), c25shown)
		}})
	register(&Check{ID: "C24",
		Rule:        "everything written to stand-in clipboard programs and given to a stand-in browser compared with the stored values; the last clipboard write of every kind of session is empty",
		Assumptions: []string{"being killed by a signal is not an ending of the session", "a url that does not parse may be refused"},
		Run: func(c *Ctx) {
			c.Cases("copies", c.N(1000, 15000), c24case)
			c.Cases("endings", c.N(700, 8000), c24end)
		}})
}
