package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- C22 ----

type lpRec struct{ url, user, pass, extra, name, group, fav string }

func (r lpRec) fields() []string {
	return []string{r.url, r.user, r.pass, r.extra, r.name, r.group, r.fav}
}

const lpHeader = "url,username,password,extra,name,grouping,fav"

// csvField quotes when it must, and sometimes when it need not.
func csvField(t *T, s string) string {
	if strings.ContainsAny(s, "\",\n\r") || t.R.Intn(4) == 0 {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func lpText(t *T, lines bool) string {
	r := t.R
	if t.Large && r.Intn(150) == 0 {
		return longText(r, 4000, 200000)
	}
	var s string
	switch r.Intn(6) {
	case 0:
		s = ""
	case 1:
		s = pick(r, `"`, `""`, `a"b`, `,`, `a,b,c`, `;`, ` lead`, `trail `, `'`, `\`, `\.`, `#x`, `=1+1`, `-`, `0`, `null`, `%s`, "\t", " ", "\xc2\xa0x", strings.Repeat("long", 400), "http://sn", "é", "😀😀", "<&>")
	default:
		s = genText(r, 16)
	}
	if lines && r.Intn(3) == 0 {
		s += pick(r, "\n", "a\nb\n\nc", "\n\"q\"\n,", "NoteType:Server\nHostname:x\nUsername:y", "\rx", "\n\n")
	}
	s = strings.ReplaceAll(s, "\r\n", "\n") // the CSV reader does the same
	return strings.ReplaceAll(s, "\x00", "")
}

func (t *T) lpRecord() lpRec {
	r := t.R
	rec := lpRec{url: lpText(t, false), user: lpText(t, false), pass: lpText(t, false), extra: lpText(t, true), fav: pick(r, "0", "0", "0", "1", "")}
	switch r.Intn(5) {
	case 0:
		rec.name = pick(r, "Site", "site", "SITE", "My Site", "my_site", "my site1", "site1", "site11", "a", "A")
	case 1:
		rec.name = pick(r, "Äpfel Ärger", "ÉTÉ", "İstanbul", "K", "two  spaces", " lead", "trail ", "a/b", "x,y", `q"q`, "line\nbreak", "", "漢字", "sync/lp", "User/Bob", "http://x y")
	default:
		rec.name = genName(r)
	}
	rec.group = pick(r, "", "", "Work", "work", "Some Group", `Deep\Er`, "Ünïcode", `"quoted"`, "(none)", "a;b", "MiXeD")
	return rec
}

// importName is the name a record gets if it is not taken.
func importName(rec lpRec) string {
	return strings.ReplaceAll(strings.ToLower(rec.name), " ", "_")
}

func c22import(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	var old []mTx
	exists := r.Intn(2) == 0
	if exists {
		old = oldLog(t, r.Intn(25))
		craft(t, f, "pw", old)
	}
	oldView, _ := mReplay(old)
	used := map[string]bool{}
	for _, e := range oldView {
		used[e["name"]] = true
	}
	var recs []lpRec
	n := r.Intn(8)
	if r.Intn(20) == 0 {
		n = 60
	}
	if t.Large {
		n = 200 + r.Intn(2500)
	}
	for i := 0; i < n; i++ {
		rec := t.lpRecord()
		if r.Intn(5) == 0 && len(oldView) > 0 { // a name that is taken
			var names []string
			for k := range used {
				names = append(names, k)
			}
			sort.Strings(names)
			rec.name = names[r.Intn(len(names))]
		}
		recs = append(recs, rec)
	}
	nl := pick(r, "\n", "\n", "\r\n")
	var b strings.Builder
	b.WriteString(lpHeader + nl)
	var rows []string
	for _, rec := range recs {
		var fs []string
		for _, s := range rec.fields() {
			fs = append(fs, csvField(t, s))
		}
		rows = append(rows, strings.Join(fs, ","))
	}
	b.WriteString(strings.Join(rows, nl))
	if len(rows) > 0 && r.Intn(3) > 0 {
		b.WriteString(nl)
	}
	data := b.String()
	rc := 0
	bad, empty := "", false
	spoil := func(why, with string) { bad, data = why, with }
	at := 0
	if len(rows) > 0 {
		at = r.Intn(len(rows))
	}
	withRow := func(row string) string {
		rs := append([]string{}, rows...)
		if len(rs) == 0 {
			rs = []string{row}
		} else if r.Intn(2) == 0 {
			rs[at] = row
		} else {
			rs = append(rs[:at+1], append([]string{row}, rs[at+1:]...)...)
		}
		return lpHeader + "\n" + strings.Join(rs, "\n") + "\n"
	}
	switch r.Intn(24) {
	case 0:
		rc = 1 + r.Intn(3)
		bad = fmt.Sprintf("lpass fails with status %d", rc)
	case 1:
		h := pick(r, "url,username,password,totp,extra,name,grouping,fav", "name,url,username,password,extra,grouping,fav", "url,username,password,extra,name,grouping",
			strings.ToUpper(lpHeader), "\xef\xbb\xbf"+lpHeader, "url,username,password,extra,name,grouping,fav,", " "+lpHeader, "url;username;password;extra;name;grouping;fav",
			"url,username,password,extra,name,grouping,favorite", "url,password,username,extra,name,grouping,fav", "id,username,password,extra,name,grouping,fav")
		spoil("another header", h+"\n"+strings.Join(rows, "\n")+"\n")
		if len(rows) == 0 {
			bad, empty = "", true
		}
	case 2:
		spoil("a row too short", withRow(`http://x,u,p,e,short,`))
	case 3:
		spoil("a row too long", withRow(`http://x,u,p,e,long,g,0,more`))
	case 4:
		spoil("a stray quote", withRow(`http://x,u"v,p,e,stray,g,0`))
	case 5:
		spoil("text behind a quoted field", withRow(`http://x,"u"v,p,e,behind,g,0`))
	case 6:
		spoil("a quote that never ends", lpHeader+"\n"+strings.Join(append(append([]string{}, rows...), `http://x,"u,p,e,open,g,0`), "\n")+"\n")
	case 7:
		spoil("an error message", pick(r, "Error: Could not find decryption key. Perhaps you need to login with `lpass login`.\n", "lpass: command failed\n", "\n\n\nsorry\n", "<html></html>\n"))
	case 8:
		spoil("no header", strings.Join(rows, "\n")+"\n")
		if len(rows) == 0 {
			bad, empty = "", true
		}
	}
	if r.Intn(40) == 0 {
		data, bad, empty, rc = "", "", true, 0
	}
	what := fmt.Sprintf("import of %d records into %s", len(recs), map[bool]string{true: "a file", false: "a new file"}[exists])
	if bad != "" {
		what += ", " + bad
	}
	answer := pick(r, "y", "y", "y", "y", "Y", "n", "", "N", "yes", "x")
	login := []string{"pw", "pw"}
	if exists {
		login = []string{"pw", answer}
		if answer != "y" && answer != "Y" {
			what += fmt.Sprintf(", answer %q", answer)
		}
	}
	declined := exists && answer != "y" && answer != "Y"
	t.Note("%s", what)
	t.Set("lpass", data)
	t0 := nowNano()
	res := (&Sess{Dir: dir, File: f, Sub: []string{"lpassimport"}, Lpass: []byte(data), LpassRC: rc, Input: strings.Join(login, "\n") + "\n"}).Run(t)
	t1 := nowNano()
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", what, c)
	}
	t.Set("output", tail(res.Out, 2000))
	if declined && len(res.Events) > 0 {
		t.Fail("%s: lpass was run although the question was declined", what)
	}
	if !declined {
		if len(res.Events) != 1 || strings.Join(res.Events[0].Args, " ") != "export --color=never" && res.Events[0].Args[0] != "export" {
			t.Fail("%s: lpass was run as %v", what, res.Events)
		}
	}
	if bad != "" && !declined || empty {
		if bad != "" && res.Code == 0 {
			t.Fail("%s: nothing wrong was reported\noutput: %s", what, tail(res.Out, 500))
		}
	} else if res.Code != 0 {
		t.Fail("%s: exit status %d\noutput: %s", what, res.Code, tail(res.Out, 900))
	}
	if _, err := os.Stat(f); err != nil && !exists && (bad != "" || empty) {
		t.Count("refused", 1)
		t.Eval(what)
		return
	}
	v, db := openView(t, f, "", "pw")
	if len(db.Log) < len(old) || !logsEqual(db.Log[:len(old)], old) {
		t.Fail("%s: the records that were there changed", what)
	}
	if bad != "" || empty || declined {
		if len(db.Log) != len(old) {
			t.Fail("%s: imported %v", what, db.Log[len(old):])
		}
		t.Count("refused", 1)
		t.Eval(what)
		return
	}
	if len(v) != len(oldView)+len(recs) {
		t.Fail("%s: %d entries were made\noutput: %s", what, len(v)-len(oldView), tail(res.Out, 900))
	}
	by := v.byName()
	if len(by) != len(v) {
		t.Fail("%s: names are not unique afterwards", what)
	}
	var fresh []string // the new entries
	for u := range v {
		if oldView[u] == nil {
			fresh = append(fresh, u)
		}
	}
	sort.Strings(fresh)
	fits := func(rec lpRec, u string) string {
		want := map[string]string{}
		put := func(k, val string) {
			if val != "" {
				want[k] = val
			}
		}
		put("user", rec.user)
		put("pass", rec.pass)
		put("url", rec.url)
		put("notes", rec.extra)
		l := strings.ToLower(rec.group)
		if rec.fav == "1" {
			if l != "" {
				l += ","
			}
			l += "lpfav"
		}
		put("labels", l)
		got := map[string]string{}
		for k, val := range v[u] {
			got[k] = val
		}
		if up, err := strconv.ParseInt(got["updated"], 10, 64); err != nil || up < t0 || up > t1 {
			return fmt.Sprintf("marked as updated at %q", got["updated"])
		}
		if base := importName(rec); !strings.HasPrefix(got["name"], base) {
			return fmt.Sprintf("named %q, want %q", got["name"], base)
		}
		delete(got, "name")
		delete(got, "updated")
		if lw, lg := strings.Split(want["labels"], ","), strings.Split(got["labels"], ","); len(lw) == 2 && len(lg) == 2 && lw[0] == lg[1] && lw[1] == lg[0] {
			want["labels"] = got["labels"] // labels have no order
		}
		if !mapsEqual(want, got) {
			return fmt.Sprintf("stored as %q, want %q", got, want)
		}
		return ""
	}
	of := map[string]int{} // entry to record
	var assign func(i int, tried map[string]bool) bool
	assign = func(i int, tried map[string]bool) bool {
		for _, u := range fresh {
			if tried[u] || fits(recs[i], u) != "" {
				continue
			}
			tried[u] = true
			j, taken := of[u]
			if !taken || assign(j, tried) {
				of[u] = i
				return true
			}
		}
		return false
	}
	for i, rec := range recs {
		if !assign(i, map[string]bool{}) {
			near := ""
			for _, u := range fresh {
				if strings.HasPrefix(v[u]["name"], importName(rec)) {
					near += "\n  " + fits(rec, u)
				}
			}
			t.Fail("%s: record %d %q has no entry of its own%s", what, i, rec.fields(), near)
		}
		if by[importName(rec)] == "" {
			t.Fail("%s: record %d %q did not get the name %q, which is not taken", what, i, rec.fields(), importName(rec))
		}
	}
	for u, e := range oldView {
		if !mapsEqual(v[u], e) {
			t.Fail("%s: the old entry %q changed to %q", what, e, v[u])
		}
	}
	t.Count("imported", len(recs))
	if r.Intn(3) == 0 { // and out again
		out := dir + "/out.csv"
		(&Sess{Dir: dir, File: f, Sub: []string{"export", out}, Input: "pw\n"}).Run(t).MustOK(t, what+", export")
		judgeExport(t, what+", export", mustRead(t, out), v)
	}
	t.Eval(fmt.Sprintf("%s %x", what, hashOf(data)))
}

func hashOf(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// listing is every file below a folder with its content, except the harness's own.
func listing(t *T, dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if strings.HasPrefix(rel, "run") {
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = string(b)
		return nil
	})
	return m
}

func c22export(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	g := newLogGen(r, 1571887976e9, 5e12)
	for i := r.Intn(30); i > 0; i-- {
		g.op(true)
	}
	for i := r.Intn(4); i > 0 && len(g.alive) > 0; i-- {
		u := g.alive[r.Intn(len(g.alive))]
		k := pick(r, "notes", "user", "pass", "url", `k"q`, "k,c", "a b", "labels", "twofactor", "zz", "A", "Ünï", `\.`, "")
		if k == "" {
			k = "k\nl"
		}
		g.set(u, k, pick(r, lpText(t, true), "\r\n", "a\r\nb", "\r", `\.`, `"`, " ", "", ",,", "\n"))
	}
	craft(t, f, "pw", g.log)
	v := g.view()
	out := "out.csv"
	where := r.Intn(12)
	arg := out
	fails := ""
	switch where {
	case 0:
		arg = dir + "/" + out
	case 1:
		mustWriteFile(dir+"/"+out, []byte(strings.Repeat("old contents,\"\n", 2000)))
	case 2:
		os.Mkdir(dir+"/sub", 0700)
		out = "sub/x y.csv"
		arg = out
	case 3:
		arg, fails = "no/such/folder.csv", "a missing folder"
	case 4:
		os.Mkdir(dir+"/fold", 0700)
		arg, fails = "fold", "a folder"
	case 5:
		if len(v) > 0 {
			arg, fails = "/dev/full", "a full device"
		}
	}
	before := listing(t, dir)
	what := fmt.Sprintf("export of %d entries to %q", len(v), arg)
	if fails != "" {
		what += ", " + fails
	}
	pass := "pw"
	wrong := r.Intn(15) == 0
	if wrong {
		pass = "pw "[:2] + "x"
		what += ", wrong passphrase"
	}
	res := (&Sess{Dir: dir, File: f, Sub: []string{"export", arg}, Input: pass + "\n"}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", what, c)
	}
	after := listing(t, dir)
	if fails == "" && !wrong {
		if res.Code != 0 {
			t.Fail("%s: exit status %d\noutput: %s", what, res.Code, tail(res.Out, 500))
		}
		judgeExport(t, what, mustRead(t, dir+"/"+out), v)
		if fi, err := os.Stat(dir + "/" + out); err == nil && before[out] == "" && fi.Mode().Perm()&0077 != 0 {
			t.Fail("%s: others may read the new file (mode %o)", what, fi.Mode().Perm())
		}
	} else if res.Code == 0 {
		t.Fail("%s: nothing wrong was reported\noutput: %s", what, tail(res.Out, 500))
	}
	for p := range after {
		if p == "f" || p == out && !wrong && fails == "" {
			continue
		}
		if old, ok := before[p]; !ok || old != after[p] {
			t.Fail("%s: the file %q was written as well", what, p)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			t.Fail("%s: the file %q is gone", what, p)
		}
	}
	_, db := openView(t, f, "", "pw")
	if !logsEqual(db.Log, g.log) {
		t.Fail("%s: the exported file's log changed", what)
	}
	if (wrong || fails != "") && after["f"] != before["f"] {
		t.Fail("%s: the export failed but the file was written", what)
	}
	t.Count("exports", 1)
	t.Eval(fmt.Sprintf("%s %d", what, len(g.log)))
}

func init() {
	register(&Check{ID: "C22",
		Rule:        "entries made from a generated LastPass export compared with its records one by one, exports parsed by an independent CSV reader and compared with the replayed log",
		Assumptions: []string{"group names hold no commas (they separate labels)", "CRLF inside a field is read as LF, as encoding/csv documents", "lpass writes nothing on its standard error"},
		Run: func(c *Ctx) {
			c.Cases("import", c.N(3000, 40000), c22import)
			c.Cases("export", c.N(2400, 30000), c22export)
		}})
}
