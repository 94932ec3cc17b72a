package main

import (
	"bytes"
	"crypto/sha256"
	"embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/aarondl/bpass/crypt"
)

// ---- files and credentials ----

type cred struct{ user, pass string }

type genFile struct {
	n       int // users
	data    []byte
	creds   []cred
	payload []byte
	how     string
}

// genPass makes passphrases of any bytes. HMAC ignores trailing zero bytes of short keys, so there are none.
func genPass(t *T) string {
	r := t.R
	var p string
	switch r.Intn(5) {
	case 0:
		p = string(t.bytes(1 + r.Intn(40)))
	case 1:
		p = genText(r, 30)
	case 2:
		p = strings.Repeat(genWord(r, 8), 1+r.Intn(40))
	default:
		p = pick(r, "pw", "pass", "hunter2", "correct horse", "é漢") + fmt.Sprint(r.Intn(100))
	}
	p = strings.TrimRight(p, "\x00")
	if p == "" {
		p = "x"
	}
	return p
}

// genUsers is a number of users: mostly up to max, now and then more, past where the count takes two digits.
func genUsers(t *T, max int) int {
	if t.Large {
		return pickInt(t.R, 0, 20, 31, 32, 33, 63, 64, 65, 70, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257)
	}
	if t.R.Intn(15) == 0 {
		return pickInt(t.R, 5, 7, 8, 9, 10, 11, 16)
	}
	return t.R.Intn(max + 1)
}

func genCreds(t *T, n int) []cred {
	if n == 0 {
		return []cred{{"", genPass(t)}}
	}
	seen := map[string]bool{}
	var cs []cred
	for len(cs) < n {
		u := pick(t.R, fmt.Sprint("n", len(cs)), "ann", "Ann", "ann ", "ann2", "bob", "é", "a/b", "x", genText(t.R, 12), string(t.bytes(1+t.R.Intn(20))))
		if u == "" || seen[u] {
			continue
		}
		seen[u] = true
		p := genPass(t)
		if len(cs) > 0 && t.R.Intn(5) == 0 {
			p = cs[t.R.Intn(len(cs))].pass
		}
		cs = append(cs, cred{u, p})
	}
	return cs
}

// some picks a few of the credentials, the last among them; in ordinary cases it gives all.
func (t *T) some(cs []cred, n int) []cred {
	if !t.Large || len(cs) <= n {
		return cs
	}
	out := []cred{cs[len(cs)-1]}
	for _, i := range t.R.Perm(len(cs) - 1)[:n-1] {
		out = append(out, cs[i])
	}
	return out
}

func genPayload(t *T) []byte {
	if t.Large && t.R.Intn(3) != 0 {
		n := pickInt(t.R, 1<<16, 1<<20, 1<<20, 1<<22, 17<<20)
		if t.Check.ID == "C02" {
			n = pickInt(t.R, 1<<12, 1<<16, 1<<18) // many logins per file
		}
		return t.bytes(n - 20 + t.R.Intn(40))
	}
	switch t.R.Intn(5) {
	case 0:
		return t.bytes(t.R.Intn(70))
	case 1:
		return []byte{}
	case 2:
		return bytes.Repeat([]byte{byte(t.R.Intn(256))}, t.R.Intn(300))
	case 3:
		return (&mDB{Log: oldLog(t, 1+t.R.Intn(10))}).encode()
	}
	return []byte(genText(t.R, 400))
}

// libEncrypt makes a file with the code under test.
func libEncrypt(t *T, cs []cred, payload []byte) []byte {
	p := &crypt.Params{}
	if cs[0].user == "" {
		k, s, err := crypt.DeriveKey(1, []byte(cs[0].pass))
		if err != nil {
			t.Fail("DeriveKey: %v", err)
		}
		p.Keys, p.Salts = [][]byte{k}, [][]byte{s}
	} else {
		m, ivm, err := crypt.NewMasterKey(1)
		if err != nil {
			t.Fail("NewMasterKey: %v", err)
		}
		p.Master, p.IVM, p.NUsers = m, ivm, len(cs)
		p.User = t.R.Intn(len(cs))
		for i, c := range cs {
			k, s, err := crypt.DeriveKey(1, []byte(c.pass))
			if err != nil {
				t.Fail("DeriveKey: %v", err)
			}
			mk, iv, err := crypt.EncryptMasterKey(1, k, m)
			if err != nil {
				t.Fail("EncryptMasterKey: %v", err)
			}
			h := sha256.Sum256([]byte(c.user))
			if i != p.User && t.R.Intn(2) == 0 {
				k = nil
			}
			p.Keys, p.Salts, p.Users = append(p.Keys, k), append(p.Salts, s), append(p.Users, h[:])
			p.IVs, p.MKeys = append(p.IVs, iv), append(p.MKeys, mk)
		}
	}
	in := append([]byte{}, payload...)
	out, err := crypt.Encrypt(1, p, in)
	if err != nil {
		t.Fail("Encrypt: %v", err)
	}
	if !bytes.Equal(in, payload) {
		t.Fail("Encrypt changed its input")
	}
	return out
}

func makeGenFile(t *T, n int) *genFile {
	g := &genFile{n: n, creds: genCreds(t, n), payload: genPayload(t)}
	if t.R.Intn(2) == 0 {
		g.how = "written by the program's code"
		g.data = libEncrypt(t, g.creds, g.payload)
	} else {
		g.how = "written by the independent writer"
		if n == 0 {
			g.data = fWriteSingle(g.creds[0].pass, t.bytes(fSalt), t.bytes(fIV), g.payload)
		} else {
			var us []fUserCred
			for _, c := range g.creds {
				us = append(us, fUserCred{c.user, c.pass, t.bytes(fSalt), t.bytes(fIV)})
			}
			g.data = fWriteMulti(us, t.bytes(fKey), t.bytes(fIV), g.payload)
		}
	}
	g.how = fmt.Sprintf("%d users, %d bytes of content, %s", n, len(g.payload), g.how)
	return g
}

// libDecrypt calls Decrypt and checks that it leaves its arguments alone.
func libDecrypt(t *T, user, pass, key, salt, data []byte) (int, crypt.Params, []byte, error) {
	args := [][]byte{user, pass, key, salt, data}
	var before [][]byte
	for _, a := range args {
		before = append(before, append([]byte{}, a...))
	}
	v, p, pt, err := crypt.Decrypt(user, pass, key, salt, data)
	for i, a := range args {
		if !bytes.Equal(a, before[i]) {
			t.Fail("Decrypt changed its argument %d", i)
		}
	}
	return v, p, pt, err
}

// ---- C02 ----

func c02lib(t *T) {
	r := t.R
	n := genUsers(t, 4)
	g := makeGenFile(t, n)
	t.Note("%s", g.how)
	if !t.Large {
		t.Set("file", hex.EncodeToString(g.data))
	}
	ref, err := fOpen(g.data, g.creds[0].user, g.creds[0].pass)
	if err != nil {
		t.Fail("the independent reader cannot open it: %v", err)
	}
	open := func(what string, c cred, user, pass, key, salt []byte) crypt.Params {
		v, p, pt, err := libDecrypt(t, user, pass, key, salt, g.data)
		if err != nil {
			t.Fail("%s: user %q passphrase %q refused: %v", what, c.user, c.pass, err)
		}
		if v != 1 {
			t.Fail("%s: version %d", what, v)
		}
		if !bytes.Equal(pt, g.payload) {
			t.Fail("%s: content %q, want %q", what, pt, g.payload)
		}
		if p.NUsers != n {
			t.Fail("%s: %d users, want %d", what, p.NUsers, n)
		}
		var sl fSlot
		if n == 0 {
			sl.Salt = ref.Salt
		} else {
			h := sha256.Sum256([]byte(c.user))
			at := -1
			for i, s := range ref.Slots {
				if bytes.Equal(s.NameHash, h[:]) {
					at, sl = i, s
				}
				if !bytes.Equal(p.Users[i], s.NameHash) || !bytes.Equal(p.Salts[i], s.Salt) || !bytes.Equal(p.IVs[i], s.IV) || !bytes.Equal(p.MKeys[i], s.MKey) {
					t.Fail("%s: key material of slot %d is not that of the file", what, i)
				}
			}
			if p.User != at {
				t.Fail("%s: user index %d, want %d", what, p.User, at)
			}
			if !bytes.Equal(p.Master, ref.Master) || !bytes.Equal(p.IVM, ref.IV) {
				t.Fail("%s: master key material is not that of the file", what)
			}
		}
		if !bytes.Equal(p.Keys[p.User], fDerive(c.pass, sl.Salt)) || !bytes.Equal(p.Salts[p.User], sl.Salt) {
			t.Fail("%s: the user's key or salt is not that of the passphrase", what)
		}
		// what came out can save the file again, for everybody
		np := t.bytes(r.Intn(200))
		out, err := crypt.Encrypt(1, &p, np)
		if err != nil {
			t.Fail("%s: saving again: %v", what, err)
		}
		for _, o := range t.some(g.creds, 4) {
			f, err := fOpen(out, o.user, o.pass)
			if err != nil {
				t.Fail("%s: after saving again user %q passphrase %q does not open it: %v", what, o.user, o.pass, err)
			}
			if !bytes.Equal(f.Payload, np) {
				t.Fail("%s: after saving again user %q gets other content", what, o.user)
			}
		}
		t.Count("accepted", 1)
		return p
	}
	refuse := func(what string, user, pass, key, salt []byte, wants ...error) {
		_, _, pt, err := libDecrypt(t, user, pass, key, salt, g.data)
		if err == nil {
			t.Fail("%s: user %q passphrase %q key %x opens the file", what, user, pass, key)
		}
		if len(pt) != 0 {
			t.Fail("%s: content %q comes with the error", what, pt)
		}
		ok := false
		for _, w := range wants {
			ok = ok || errors.Is(err, w)
		}
		if !ok {
			t.Fail("%s: user %q passphrase %q: the error is %v", what, user, pass, err)
		}
		t.Count("refused", 1)
	}
	bad := []error{crypt.ErrWrongPassphrase}
	badU := []error{crypt.ErrWrongPassphrase, crypt.ErrUnknownUser}
	ok := map[cred]bool{}
	for _, c := range g.creds {
		ok[c] = true
	}
	for _, c := range t.some(g.creds, 3) {
		u, p := []byte(c.user), []byte(c.pass)
		if n == 0 {
			u = nil
		}
		pr := open("passphrase", c, u, p, nil, nil)
		if n == 0 && r.Intn(2) == 0 {
			open("passphrase and a needless user", c, []byte("somebody"), p, nil, nil)
		}
		key, salt := pr.Keys[pr.User], pr.Salts[pr.User]
		open("cached key", c, u, p, key, salt)
		open("cached key only", c, u, nil, key, salt)
		ks, ss := t.bytes(fKey), t.bytes(fSalt)
		open("passphrase and a foreign cached key", c, u, p, ks, ss)
		open("passphrase and a cached key of another salt", c, u, p, key, ss)
		refuse("foreign cached key", u, nil, ks, ss, bad...)
		refuse("cached key of another salt", u, nil, key, ss, bad...)
		refuse("wrong cached key", u, nil, ks, salt, bad...)
		k2 := append([]byte{}, key...)
		k2[r.Intn(len(k2))] ^= byte(1 << r.Intn(8))
		if bytes.Equal(k2[64:], key[64:]) || true {
			refuse("cached key with one other bit", u, nil, k2, salt, bad...)
		}
		refuse("nothing", u, nil, nil, nil, bad...)
		var wrong []string
		wrong = append(wrong, c.pass+"x", " "+c.pass, c.pass+" ", strings.ToUpper(c.pass), strings.ToLower(c.pass), c.pass+c.pass, genPass(t), c.user)
		if len(c.pass) > 1 {
			wrong = append(wrong, c.pass[:len(c.pass)-1], c.pass[1:], strings.TrimSpace(c.pass))
		}
		for _, o := range t.some(g.creds, 3) {
			wrong = append(wrong, o.pass)
		}
		for _, w := range wrong {
			w = strings.TrimRight(w, "\x00")
			if w == c.pass || w == "" {
				continue
			}
			refuse("wrong passphrase", u, []byte(w), nil, nil, bad...)
			refuse("wrong passphrase and a foreign cached key", u, []byte(w), ks, ss, bad...)
		}
		if n > 0 {
			refuse("no user", nil, p, nil, nil, crypt.ErrNeedUser)
			refuse("no user, cached key", nil, p, key, salt, crypt.ErrNeedUser)
			for _, w := range []string{c.user + "x", c.user + " ", strings.ToUpper(c.user), strings.ToLower(c.user), c.user[:len(c.user)-1], genWord(r, 6), c.pass} {
				if w == "" || ok[cred{w, c.pass}] {
					continue
				}
				known := false
				for _, o := range g.creds {
					known = known || o.user == w
				}
				if known {
					refuse("another user's passphrase", []byte(w), p, nil, nil, bad...)
				} else {
					refuse("unknown user", []byte(w), p, nil, nil, badU...)
					refuse("unknown user, cached key", []byte(w), p, key, salt, badU...)
				}
			}
			// another user's cached key
			for _, o := range t.some(g.creds, 3) {
				if o.user == c.user {
					continue
				}
				refuse("another user's cached key", []byte(o.user), nil, key, salt, bad...)
				open("passphrase and another user's cached key", o, []byte(o.user), []byte(o.pass), key, salt)
			}
		}
	}
	if m, err := crypt.IsMultiUser(g.data); err != nil || m != (n > 0) {
		t.Fail("IsMultiUser says %v, %v for %d users", m, err, n)
	}
	t.Eval(fmt.Sprintf("%d %x", n, sha256.Sum256(g.data)))
	t.Sample(g.how)
}

// c02program: a matrix of logins through the program.
func c02program(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	c := newCreds(t, pick(r, "pw", "pass word", "é漢", "x'\"%$"))
	secret := "top" + hex.EncodeToString(t.bytes(6))
	g := newLogGen(r, 1571887976e9, 1000)
	g.set(g.add("thing"), "k", secret)
	craft(t, f, c.pass, g.log)
	for i := 1 + r.Intn(3); i > 0; i-- {
		s := NewSession(c.login("")...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			c.op(s)
		}
		s.Raw("exit")
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
		res.MustOK(t, "user management")
		c.settle(res.Segments(t, s))
	}
	users := append([]string{"", "nobody", "ANN"}, c.list()...)
	if c.users == nil {
		users = []string{""}
	}
	passes := []string{"", "wrong"}
	for p := range c.seenP {
		passes = append(passes, p, p+"x")
	}
	var combos []cred
	for _, u := range users {
		for _, p := range passes {
			combos = append(combos, cred{u, p})
		}
	}
	sortCreds(combos)
	r.Shuffle(len(combos), func(i, j int) { combos[i], combos[j] = combos[j], combos[i] })
	var try []cred
	if c.users == nil {
		try = append(try, cred{"", c.pass})
	}
	for _, u := range c.list() {
		try = append(try, cred{u, c.users[u]})
	}
	for _, x := range combos {
		if len(try) < 14 {
			try = append(try, x)
		}
	}
	for _, x := range try {
		good := false
		if c.users == nil {
			good = x.pass == c.pass
		} else {
			p, is := c.users[x.user]
			good = is && p == x.pass
		}
		b0 := mustRead(t, f)
		lines := []string{x.pass}
		if c.users != nil {
			lines = []string{x.user, x.pass}
		}
		var s Script
		s.Raw(lines...)
		s.Raw("get thing k", "exit")
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
		if m := res.Crashed(); m != "" {
			t.Fail("login %q %q: crash: %s", x.user, x.pass, m)
		}
		shows := strings.Contains(res.Out+res.Err, secret)
		if good && (res.Code != 0 || !shows) {
			t.Fail("user %q passphrase %q does not open the file (status %d)\n%s", x.user, x.pass, res.Code, tail(res.Out, 500))
		}
		if !good {
			if shows {
				t.Fail("user %q passphrase %q shows content", x.user, x.pass)
			}
			if res.Code == 0 {
				t.Fail("user %q passphrase %q: refused with status 0\n%s", x.user, x.pass, tail(res.Out, 500))
			}
			if !bytes.Equal(b0, mustRead(t, f)) {
				t.Fail("user %q passphrase %q: the refused login changed the file", x.user, x.pass)
			}
		}
		t.Count("logins", 1)
	}
	t.Eval(c.ops.String() + fmt.Sprint(try))
}

func sortCreds(c []cred) {
	for i := range c {
		for j := i; j > 0 && fmt.Sprint(c[j]) < fmt.Sprint(c[j-1]); j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
}

// ---- C03 ----

// mutate damages a file in one of many ways.
func mutate(t *T, d, other []byte, nusers int) ([]byte, string) {
	r := t.R
	m := append([]byte{}, d...)
	at := func() int { return r.Intn(len(m)) }
	hdr := 16 + fSalt + fIV
	if nusers > 0 {
		hdr = 16 + nusers*fUser + fIV
	}
	switch r.Intn(16) {
	case 0:
		i := at()
		m[i] ^= byte(1 << r.Intn(8))
		return m, fmt.Sprintf("bit flipped in byte %d", i)
	case 1:
		n := 2 + r.Intn(6)
		for k := 0; k < n; k++ {
			m[at()] ^= byte(1 + r.Intn(255))
		}
		return m, fmt.Sprintf("%d bytes changed", n)
	case 2:
		n := at()
		return m[:n], fmt.Sprintf("cut to %d bytes", n)
	case 3:
		n := (1 + r.Intn(20)) * pickInt(r, 8, 16)
		if n > len(m) {
			n = len(m)
		}
		return m[:len(m)-n], fmt.Sprintf("last %d bytes cut", n)
	case 4:
		n := pickInt(r, 1, 8, 16, 24, 48, 64, 7)
		return append(m, t.bytes(n)...), fmt.Sprintf("%d bytes appended", n)
	case 5:
		n := pickInt(r, 8, 16, 48)
		if len(m)-n < 0 {
			n = 8
		}
		return append(m, m[len(m)-n:]...), "last block repeated"
	case 6: // swap blocks
		bs := pickInt(r, 8, 16)
		nb := (len(m) - hdr) / bs
		if nb < 2 {
			return m[:len(m)-1], "cut by one byte"
		}
		i, j := hdr+bs*r.Intn(nb), hdr+bs*r.Intn(nb)
		for k := 0; k < bs; k++ {
			m[i+k], m[j+k] = m[j+k], m[i+k]
		}
		return m, fmt.Sprintf("blocks at %d and %d swapped", i, j)
	case 7: // drop a block in the middle
		bs := pickInt(r, 8, 16, 48)
		if len(m)-hdr <= bs {
			return m[:hdr], "nothing but the header"
		}
		i := hdr + r.Intn(len(m)-hdr-bs)
		return append(m[:i:i], m[i+bs:]...), fmt.Sprintf("%d bytes dropped at %d", bs, i)
	case 8:
		v := pick(r, "0000", "0002", "9999", "-001", "+001", " 001", "0x01", "00 1", "1e00", "\x00\x00\x00\x01", "١000")
		copy(m[8:12], v)
		return m, fmt.Sprintf("version %q", v)
	case 9:
		v := pick(r, "0000", "0001", "0002", "0003", "9999", "-001", "-000", "+001", "+000", "000x", "    ", "1000", "\x00\x00\x00\x00")
		copy(m[12:16], v)
		return m, fmt.Sprintf("user count %q", v)
	case 10:
		copy(m, pick(r, "knioaass", "blobpasz", "BLOBPASS", "kniopass00000001", "\x00\x00"))
		return m, "other magic"
	case 11: // header or payload of another file of the same credentials
		oh := hdr
		if len(other) < oh {
			return other[:len(other)/2], "half of another file"
		}
		if r.Intn(2) == 0 {
			return append(append([]byte{}, m[:hdr]...), other[oh:]...), "payload of another file"
		}
		k := 16 + r.Intn(hdr-16)
		return append(append([]byte{}, other[:k]...), m[k:]...), fmt.Sprintf("first %d bytes of another file", k)
	case 12: // slots
		if nusers < 2 {
			i := 16 + r.Intn(fSalt+fIV)
			copy(m[i:], t.bytes(4))
			return m, fmt.Sprintf("header changed at %d", i)
		}
		a, b := r.Intn(nusers), r.Intn(nusers)
		sa, sb := 16+a*fUser, 16+b*fUser
		switch r.Intn(4) {
		case 0:
			tmp := append([]byte{}, m[sa:sa+fUser]...)
			copy(m[sa:], m[sb:sb+fUser])
			copy(m[sb:], tmp)
			return m, "slots swapped"
		case 1:
			copy(m[sa:], m[sb:sb+fUser])
			return m, "slot copied over another"
		case 2:
			copy(m[sa:], m[sb:sb+32])
			return m, "slot given another's name"
		}
		m = append(m[:sa:sa], m[sa+fUser:]...)
		copy(m[12:16], fmt.Sprintf("%04d", nusers-1))
		return m, "slot removed"
	case 13: // a slot added
		if nusers == 0 {
			return append(m[:16:16], append(t.bytes(8), m[16:]...)...), "bytes inserted into the header"
		}
		sl := append([]byte{}, other[16:16+fUser]...)
		m = append(m[:16:16], append(sl, m[16:]...)...)
		copy(m[12:16], fmt.Sprintf("%04d", nusers+1))
		return m, "slot of another file added"
	case 14:
		n := r.Intn(3 * len(m))
		m = t.bytes(n)
		if r.Intn(2) == 0 {
			copy(m, "blobpass0001")
			if len(m) > 16 {
				copy(m[12:], fmt.Sprintf("%04d", r.Intn(4)))
			}
		}
		return m, fmt.Sprintf("%d random bytes", n)
	}
	i := at()
	n := 1 + r.Intn(40)
	for k := i; k < i+n && k < len(m); k++ {
		m[k] = 0
	}
	return m, fmt.Sprintf("%d zeroed bytes at %d", n, i)
}

func c03judge(t *T, g *genFile, m []byte, what string, keys map[cred]crypt.Params) {
	if bytes.Equal(m, g.data) {
		return
	}
	if mu, err := crypt.IsMultiUser(m); err == nil && len(m) < 16 {
		t.Fail("%s: IsMultiUser accepts it: %v", what, mu)
	}
	for _, c := range g.creds {
		u := []byte(c.user)
		p := keys[c]
		for k := 0; k < 2; k++ {
			var pt []byte
			var err error
			if k == 0 {
				_, _, pt, err = libDecrypt(t, u, []byte(c.pass), nil, nil, m)
			} else {
				_, _, pt, err = libDecrypt(t, u, []byte(c.pass), p.Keys[p.User], p.Salts[p.User], m)
			}
			if err == nil {
				if !t.Large {
					t.Set("damaged", hex.EncodeToString(m))
				}
				t.Fail("%s (%s): opens as %q and gives %d bytes", g.how, what, c.user, len(pt))
			}
			if len(pt) != 0 {
				t.Fail("%s (%s): content comes with the error %v", g.how, what, err)
			}
			t.Count("rejected", 1)
		}
	}
}

func c03setup(t *T) (*genFile, []byte, map[cred]crypt.Params) {
	n := genUsers(t, 3)
	g := makeGenFile(t, n)
	if !t.Large {
		t.Set("file", hex.EncodeToString(g.data))
	}
	// another file of the same credentials, in one third with the same master key and salts
	other := libEncrypt(t, t.some(g.creds, 4), genPayload(t))
	keys := map[cred]crypt.Params{}
	g.creds = t.some(g.creds, 4)
	for _, c := range g.creds {
		_, p, _, err := libDecrypt(t, []byte(c.user), []byte(c.pass), nil, nil, g.data)
		if err != nil {
			t.Fail("undamaged file refused: %v", err)
		}
		keys[c] = p
		if t.R.Intn(2) == 0 {
			if o, err := crypt.Encrypt(1, &p, genPayload(t)); err == nil {
				other = o
			}
		}
	}
	return g, other, keys
}

func c03lib(t *T) {
	g, other, keys := c03setup(t)
	n := g.n
	for i := 0; i < t.scale(60, 4); i++ {
		m, what := mutate(t, g.data, other, n)
		if t.R.Intn(6) == 0 {
			m2, w2 := m, ""
			if len(m) > 120 {
				m2, w2 = mutate(t, m, other, 0)
			}
			m, what = m2, what+", "+w2
		}
		if bytes.Equal(m, other) {
			continue
		}
		c03judge(t, g, m, what, keys)
		t.Eval(fmt.Sprintf("%x", sha256.Sum256(m)))
	}
	t.Sample(g.how)
}

// c03bits: every single bit flip and every truncation of one file.
func c03bits(t *T) {
	g, _, keys := c03setup(t)
	if len(g.data) > 900 {
		g.payload = g.payload[:0]
	}
	for i := range g.data {
		m := append([]byte{}, g.data...)
		m[i] ^= byte(1 << t.R.Intn(8))
		c03judge(t, g, m, fmt.Sprintf("bit flipped in byte %d", i), keys)
		c03judge(t, g, g.data[:i:i], fmt.Sprintf("cut to %d bytes", i), keys)
		t.Eval(fmt.Sprintf("%x", sha256.Sum256(m)))
	}
}

// c03program: the program refuses a damaged file and leaves it alone.
func c03program(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	secret := "sec" + hex.EncodeToString(t.bytes(8))
	lg := newLogGen(r, 1571887976e9, 1000)
	lg.set(lg.add("thing"), "k", secret)
	log := lg.log
	login := []string{"pw"}
	n := 0
	var data, other []byte
	var pay []byte
	write := func(payload []byte) []byte {
		if n == 0 {
			return fWriteSingle("pw", t.bytes(fSalt), t.bytes(fIV), payload)
		}
		mu := newMulti(t, []fUserCred{{Name: "ann", Pass: "pw"}, {Name: "bob", Pass: "pw2"}}, 1571887970e9)
		return fWriteMulti(mu.users, mu.master, mu.ivm, payload)
	}
	if r.Intn(2) == 0 {
		n = 2
		login = []string{"ann", "pw"}
	}
	pay = (&mDB{Log: log}).encode()
	data, other = write(pay), write(pay)
	var m []byte
	var what string
	if r.Intn(4) == 0 { // damaged payload under intact encryption
		p := append([]byte{}, pay...)
		switch r.Intn(6) {
		case 0:
			p = p[:1+r.Intn(len(p)-1)]
			what = "payload cut"
		case 1:
			p = append(p, "}{"...)
			what = "payload with more behind"
		case 2:
			p = []byte(strings.Replace(string(p), `"kind":"add"`, `"kind":7`, 1))
			what = "kind of another type"
		case 3:
			p = []byte(`{"log":"nope"}`)
			what = "log of another type"
		case 4:
			p = []byte("not json " + secret)
			what = "not JSON"
		default:
			p = []byte(`[]`)
			what = "payload is a list"
		}
		m = write(p)
	} else {
		for {
			m, what = mutate(t, data, other, n)
			if !bytes.Equal(m, data) && !bytes.Equal(m, other) {
				break
			}
		}
	}
	mustWriteFile(f, m)
	os.Chmod(f, 0640)
	var s Script
	s.Raw(login...)
	s.Raw("get thing k", "set thing k other", "exit")
	in := s.String()
	if n > 0 {
		in = strings.Join(login, "\n") + "\n" + in
	}
	res := (&Sess{Dir: dir, File: f, Input: in, Args: []string{"--no-sync"}}).Run(t)
	if c := res.Crashed(); c != "" {
		t.Fail("%s: crash: %s", what, c)
	}
	if res.Code == 0 {
		t.Fail("%s: the program ends with status 0\n%s", what, tail(res.Out, 600))
	}
	if strings.Contains(res.Out, secret) {
		t.Fail("%s: content is shown\n%s", what, tail(res.Out, 600))
	}
	if !bytes.Equal(mustRead(t, f), m) {
		t.Fail("%s: the damaged file was changed", what)
	}
	if st, err := os.Stat(f); err != nil || st.Mode().Perm() != 0640 {
		t.Fail("%s: the damaged file's mode was changed", what)
	}
	t.Count("program_refusals", 1)
	t.Eval(fmt.Sprintf("%x", sha256.Sum256(m)))
}

// ---- C04 ----

// reseal writes what was read once more; a conforming file comes out byte for byte.
func reseal(t *T, what string, data []byte, f *fFile) {
	_, off, err := fParse(data)
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
	want := fmt.Sprintf("blobpass0001%04d", f.NUsers)
	if string(data[:16]) != want {
		t.Fail("%s: begins with %q, want %q", what, data[:16], want)
	}
	key := f.Key
	if f.NUsers > 0 {
		key = f.Master
	}
	if !bytes.Equal(fSeal(data[:off], key, f.IV, f.Payload), data) {
		t.Fail("%s: is not what the documented format gives for its header and content", what)
	}
}

func c04lib(t *T) {
	n := genUsers(t, 5)
	cs := genCreds(t, n)
	pay := genPayload(t)
	data := libEncrypt(t, cs, pay)
	if !t.Large {
		t.Set("file", hex.EncodeToString(data))
	}
	cs = t.some(cs, 3)
	for _, c := range cs {
		f, err := fOpen(data, c.user, c.pass)
		if err != nil {
			t.Fail("%d users, %d bytes: the independent reader cannot open it as %q: %v", n, len(pay), c.user, err)
		}
		if f.NUsers != n || !bytes.Equal(f.Payload, pay) {
			t.Fail("%d users, %d bytes: other content", n, len(pay))
		}
		reseal(t, "file", data, f)
	}
	// several more saves with what decryption returned
	c := cs[t.R.Intn(len(cs))]
	_, p, _, err := libDecrypt(t, []byte(c.user), []byte(c.pass), nil, nil, data)
	if err != nil {
		t.Fail("cannot read its own file: %v", err)
	}
	pay2 := genPayload(t)
	data2, err := crypt.Encrypt(1, &p, pay2)
	if err != nil {
		t.Fail("second save: %v", err)
	}
	for _, c := range cs {
		f, err := fOpen(data2, c.user, c.pass)
		if err != nil || !bytes.Equal(f.Payload, pay2) {
			t.Fail("second save: the independent reader as %q: %v", c.user, err)
		}
		reseal(t, "second save", data2, f)
	}
	t.Count("files", 2)
	t.Eval(fmt.Sprintf("%d %d %x", n, len(pay), sha256.Sum256(data)))
}

// strictPayload checks the documented JSON shape.
func strictPayload(t *T, what string, pt []byte) {
	d := json.NewDecoder(bytes.NewReader(pt))
	d.DisallowUnknownFields()
	var db mDB
	if err := d.Decode(&db); err != nil {
		t.Fail("%s: payload is not the documented JSON: %v", what, err)
	}
	var top map[string]json.RawMessage
	if err := json.Unmarshal(pt, &top); err != nil {
		t.Fail("%s: %v", what, err)
	}
	for k := range top {
		if k != "version" && k != "snapshot" && k != "log" {
			t.Fail("%s: payload has a field %q", what, k)
		}
	}
	var recs []map[string]json.RawMessage
	if l, ok := top["log"]; ok {
		if err := json.Unmarshal(l, &recs); err != nil {
			t.Fail("%s: log: %v", what, err)
		}
	}
	for i, rec := range recs {
		for k := range rec {
			switch k {
			case "time", "kind", "uuid", "key", "value":
			default:
				t.Fail("%s: record %d has a field %q", what, i, k)
			}
		}
		if db.Log[i].Time <= 0 || !uuidRe.MatchString(db.Log[i].UUID) {
			t.Fail("%s: record %d has time %d and uuid %q", what, i, db.Log[i].Time, db.Log[i].UUID)
		}
	}
	checkStored(t, what, &db)
}

var uuidRe = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$`)

// c04program: everything the program writes has the documented format.
func c04program(t *T) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	c := newCreds(t, "pw")
	first := true
	for i := 2 + r.Intn(3); i > 0; i-- {
		var login []string
		if first {
			login = []string{"pw", "pw"}
			first = false
		} else {
			login = c.login("")
		}
		s := NewSession(login...)
		if len(login) == 2 && login[0] == "pw" && login[1] == "pw" && i > 0 {
			s.Cmd("add thing", "", "joe", "m", "x", "x")
		}
		for k := r.Intn(4); k > 0; k-- {
			s.Cmd("set thing " + genKey(r) + " v" + genLine(r, 30))
		}
		for k := r.Intn(3); k > 0; k-- {
			c.op(s)
		}
		s.Raw("exit")
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}}).Run(t)
		res.MustOK(t, "session")
		c.settle(splitLoose(res, s))
		data := mustRead(t, f)
		n := 0
		try := []cred{{"", c.pass}}
		if c.users != nil {
			try, n = nil, len(c.users)
			for _, u := range c.list() {
				try = append(try, cred{u, c.users[u]})
			}
		}
		for _, x := range try {
			ff, err := fOpen(data, x.user, x.pass)
			if err != nil {
				t.Fail("the independent reader cannot open the program's file as %q %q: %v (%s)", x.user, x.pass, err, c.ops.String())
			}
			if ff.NUsers != n {
				t.Fail("user count %d, want %d", ff.NUsers, n)
			}
			reseal(t, "the program's file", data, ff)
			strictPayload(t, "the program's file", ff.Payload)
		}
		t.Count("files", 1)
	}
	t.Eval(c.ops.String() + fmt.Sprint(t.Case))
}

// splitLoose splits the output like Segments, but unknown commands of the script itself count too.
func splitLoose(res *Result, s *Script) []string {
	return res.Segs()
}

//go:embed golden
var goldenFS embed.FS

type goldenCase struct {
	file  string
	creds []cred
}

var goldens = []goldenCase{
	{"single.bp", []cred{{"", "golden pass é"}}},
	{"multi.bp", []cred{{"ann", "pw1"}, {"bob", "bobs pass"}}},
	{"empty.bp", []cred{{"", "pw0"}}},
}

// c04golden: files written by the version before any change open, with the real key derivation.
func c04golden(t *T) {
	var g goldenCase
	var c cred
	k := 0
	for _, x := range goldens {
		for _, y := range x.creds {
			if k == t.Case {
				g, c = x, y
			}
			k++
		}
	}
	data, err := fs.ReadFile(goldenFS, "golden/"+g.file)
	if err != nil {
		panic(inconclusive(err.Error()))
	}
	ref, err := fOpen(data, c.user, c.pass)
	if err != nil {
		panic(inconclusive("golden " + g.file + ": " + err.Error()))
	}
	var want mDB
	json.Unmarshal(ref.Payload, &want)
	dir := t.Scratch()
	f := dir + "/f"
	mustWriteFile(f, data)
	login := []string{c.pass}
	if c.user != "" {
		login = []string{c.user, c.pass}
	}
	s := NewSession(login...)
	d := s.Cmd("dumpall")
	s.Raw("exit")
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}, RealKDF: true}).Run(t)
	res.MustOK(t, "golden "+g.file)
	var got mDB
	if err := json.Unmarshal([]byte(res.Segments(t, s)[d]), &got); err != nil {
		t.Fail("golden %s: dumpall: %v", g.file, err)
	}
	if !logsEqual(got.Log, want.Log) || !viewsEqual(got.Snapshot, want.Snapshot) || got.Version != want.Version {
		t.Fail("golden %s shows another database than it holds", g.file)
	}
	// saved once more, it opens with the real derivation
	data2 := mustRead(t, f)
	f2, err := fOpen(data2, c.user, c.pass)
	if err != nil {
		t.Fail("golden %s: after saving it, the independent reader says %v", g.file, err)
	}
	reseal(t, "golden "+g.file+" saved again", data2, f2)
	var again mDB
	json.Unmarshal(f2.Payload, &again)
	if !logsEqual(again.Log, want.Log) {
		t.Fail("golden %s: saving it changed the log", g.file)
	}
	strictPayload(t, "golden "+g.file+" saved again", f2.Payload)
	t.Count("real_kdf_files", 1)
	t.Eval("golden " + g.file + c.user)
}

// c04real: files written with the real key derivation.
func c04real(t *T) {
	dir := t.Scratch()
	f := dir + "/f"
	p := genLine(t.R, 20) + "pw"
	s := NewSession(p, p)
	s.Raw("add one", "", "joe", "m", "abc", "abc", "exit")
	res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: []string{"--no-sync"}, RealKDF: true}).Run(t)
	res.MustOK(t, "session")
	data := mustRead(t, f)
	ff, err := fOpen(data, "", p)
	if err != nil {
		t.Fail("the independent reader with the documented key derivation does not open the program's file: %v", err)
	}
	reseal(t, "file", data, ff)
	strictPayload(t, "file", ff.Payload)
	t.Count("real_kdf_files", 1)
	t.Eval("real " + p)
}

// ---- C05 ----

// freshness watches all random values of a run: no 8 byte window may occur twice.
type freshness struct {
	mu   sync.Mutex
	seen map[[8]byte]string
	hist [256]int
	n    int
}

func (w *freshness) add(t *T, what string, b []byte) {
	w.mu.Lock()
	bad := ""
	for i := 0; i+8 <= len(b); i++ {
		var k [8]byte
		copy(k[:], b[i:])
		if old, ok := w.seen[k]; ok {
			bad = fmt.Sprintf("%s contains bytes (%x) seen before in %s", what, k, old)
			break
		}
		w.seen[k] = fmt.Sprintf("%s of case %d", what, t.Case)
	}
	for _, c := range b {
		w.hist[c]++
	}
	w.n += len(b)
	w.mu.Unlock()
	t.Count("fresh_values", 1)
	if bad != "" {
		t.Fail("%s", bad)
	}
}

// needles are all the forms in which a secret could show up.
func needles(s string) []string {
	out := []string{s, strings.ToLower(s), strings.ToUpper(s), hex.EncodeToString([]byte(s)), strings.ToUpper(hex.EncodeToString([]byte(s)))}
	rev := []byte(s)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	out = append(out, string(rev))
	for k := 0; k < 3; k++ {
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			x := e.EncodeToString([]byte(strings.Repeat("A", k) + s))
			if len(x) > 8 {
				out = append(out, x[4:len(x)-3])
			}
		}
	}
	var u16 []byte
	for _, c := range []byte(s) {
		u16 = append(u16, c, 0)
	}
	return append(out, string(u16))
}

// prober finds any of many needles in one pass, by their first 8 bytes.
type prober struct {
	byPrefix map[[8]byte][]probe
}
type probe struct{ needle, secret, what string }

func newProber(secrets map[string]string) *prober {
	p := &prober{map[[8]byte][]probe{}}
	for s, what := range secrets {
		for _, n := range needles(s) {
			if len(n) < 8 {
				continue
			}
			var k [8]byte
			copy(k[:], n)
			p.byPrefix[k] = append(p.byPrefix[k], probe{n, s, what})
		}
	}
	return p
}

func c05scan(t *T, where string, b []byte, p *prober) {
	for i := 0; i+8 <= len(b); i++ {
		var k [8]byte
		copy(k[:], b[i:])
		for _, x := range p.byPrefix[k] {
			if bytes.HasPrefix(b[i:], []byte(x.needle)) {
				t.Fail("%s contains the %s %q", where, x.what, x.secret)
			}
		}
	}
	t.Count("scanned_files", 1)
}

func c05structure(t *T, what string, b []byte) {
	seen := map[string]bool{}
	for i := 0; i+8 <= len(b); i += 8 {
		k := string(b[i : i+8])
		if seen[k] {
			t.Fail("%s: the block %x occurs twice in the ciphertext", what, k)
		}
		seen[k] = true
	}
	if len(b) >= 4096 {
		var h [256]int
		for _, c := range b {
			h[c]++
		}
		x := chi2(h[:], len(b))
		if x > 500 || x < 90 {
			t.Fail("%s: byte frequencies of the ciphertext are off: chi-square %.0f for 255 degrees of freedom", what, x)
		}
		t.Count("chi_square_tests", 1)
	}
}

func chi2(h []int, n int) float64 {
	e := float64(n) / float64(len(h))
	x := 0.0
	for _, c := range h {
		x += (float64(c) - e) * (float64(c) - e) / e
	}
	return x
}

// c05case follows one file and a remote through a series of sessions.
func c05case(t *T, w *freshness) {
	r := t.R
	dir := t.Scratch()
	f := dir + "/f"
	remote := dir + "/remote"
	word := func(p string) string { return p + hex.EncodeToString(t.bytes(5)) }
	secrets := map[string]string{}
	sec := func(what, s string) string { secrets[s] = what; return s }
	pass := sec("passphrase", word("pp"))
	users := map[string]string{}
	me := ""
	umask := pick(r, "000", "022", "077")
	wrap := []string{"/bin/sh", "-c", `umask ` + umask + `; exec "$@"`, "sh"}
	var prev *fFile
	var prevData []byte
	var names []string
	ops := umask
	sync := false
	for i := 0; i < 4+r.Intn(3); i++ {
		var s *Script
		if i == 0 {
			s = NewSession(pass, pass)
		} else if me == "" {
			s = NewSession(pass)
		} else {
			s = NewSession(me, users[me])
		}
		freshSalt, rekeyed := false, false
		added := map[string]bool{}
		for k := r.Intn(4); k > 0; k-- {
			n := sec("entry name", word("nm"))
			names = append(names, n)
			v := sec("password", word("vv"))
			s.Raw("add "+n, "", sec("user name", word("un")), "m", v, v)
			s.Raw("set " + n + " " + sec("key", word("kk")) + " " + sec("value", word("va")))
			if r.Intn(3) == 0 {
				s.Raw("set " + n + " notes " + strings.Repeat(pick(r, "A", "AB", "0123456789abcdef", " x"), 400)[:380] + strings.Repeat("A", 3000+r.Intn(2000)) + ".")
			}
		}
		if i == 0 && r.Intn(2) == 0 {
			sync = true
			s.Raw("addsync file", remote)
		}
		switch op := r.Intn(6); {
		case op == 0:
			np := sec("passphrase", word("pp"))
			s.Raw("passwd", "m", np, np)
			if me == "" {
				pass = np
			} else {
				users[me] = np
			}
			freshSalt = true
			ops += "|passwd"
		case op == 1 || op == 2:
			u := sec("account", word("us"))
			if me == "" {
				s.Raw("adduser " + u)
				users[u], me = pass, u
			} else {
				np := sec("passphrase", word("pp"))
				if r.Intn(3) == 0 { // as somebody else has already
					np = users[me]
				}
				s.Raw("adduser "+u, "m", np, np)
				users[u] = np
				added[u] = true
			}
			ops += "|adduser"
		case op == 3 && me != "":
			s.Raw("rekeyall", "y")
			rekeyed = true
			ops += "|rekeyall"
		case op == 4:
			// a different passphrase stays; the same one again is a change of passphrase too
			np := pass
			if me != "" {
				np = users[me]
			}
			s.Raw("passwd", "m", np, np)
			freshSalt = true
			ops += "|same"
		default:
			ops += "|-"
		}
		s.Raw("exit")
		t.Note("%s", ops)
		args := []string{"--no-sync"}
		if sync && r.Intn(2) == 0 {
			args = nil
			os.Remove(remote) // it could have older credentials
		}
		res := (&Sess{Dir: dir, File: f, Input: s.String(), Args: args, Wrap: wrap}).Run(t)
		res.MustOK(t, "session")
		if rekeyed {
			for u := range users {
				m := regexp.MustCompile(`(?m)^\s*` + u + `: (.*)$`).FindStringSubmatch(res.Out)
				if m == nil {
					t.Fail("rekeyall does not print a passphrase for %q:\n%s", u, tail(res.Out, 800))
				}
				users[u] = sec("passphrase", m[1])
			}
		}
		data := mustRead(t, f)
		p := pass
		if me != "" {
			p = users[me]
		}
		cur, err := fOpen(data, me, p)
		if err != nil {
			t.Fail("the file does not open as %q %q: %v (%s)", me, p, err, ops)
		}
		// modes
		for _, x := range []string{f, remote} {
			if st, err := os.Stat(x); err == nil && st.Mode().Perm()&0077 != 0 {
				t.Fail("%s has mode %o under umask %s", filepath.Base(x), st.Mode().Perm(), umask)
			}
		}
		// freshness
		if cur.NUsers == 0 {
			w.add(t, "IV", cur.IV)
			if prev == nil || freshSalt {
				w.add(t, "salt", cur.Salt)
			} else if prev != nil && prev.NUsers == 0 && !bytes.Equal(prev.Salt, cur.Salt) {
				w.add(t, "salt", cur.Salt)
			}
		} else {
			converted := prev == nil || prev.NUsers == 0
			if converted || rekeyed {
				w.add(t, "master IV", cur.IV)
				w.add(t, "master key", cur.Master)
			}
			old := map[string]fSlot{}
			if prev != nil {
				for _, sl := range prev.Slots {
					old[string(sl.NameHash)] = sl
				}
			}
			for u := range users {
				h := sha256.Sum256([]byte(u))
				for _, sl := range cur.Slots {
					if !bytes.Equal(sl.NameHash, h[:]) {
						continue
					}
					o, was := old[string(h[:])]
					changed := rekeyed || added[u] || freshSalt && u == me
					switch {
					case converted && !added[u]:
						// the first user keeps key and salt unless the passphrase changed too
						w.add(t, "IV of a master key", sl.IV)
					case changed || !was:
						w.add(t, "IV of a master key", sl.IV)
						w.add(t, "salt of a user", sl.Salt)
					case !bytes.Equal(o.IV, sl.IV):
						w.add(t, "IV of a master key", sl.IV)
					}
				}
			}
		}
		// leaks
		all := map[string]string{}
		for k, v := range secrets {
			all[k] = v
		}
		all[string(cur.Key)] = "user's key"
		all[string(cur.Key[:32])] = "first part of the user's key"
		if cur.Master != nil {
			all[string(cur.Master)] = "master key"
			all[string(cur.Master[:32])] = "first part of the master key"
		}
		pb := newProber(all)
		filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || strings.HasPrefix(filepath.Base(path), "run") {
				return nil
			}
			b, err := os.ReadFile(path)
			if err == nil {
				c05scan(t, filepath.Base(path), b, pb)
			}
			return nil
		})
		_, off, _ := fParse(data)
		c05structure(t, "file", data[off:])
		if cur.NUsers == 0 && prevData != nil {
			n := 0
			a, b := data[off:], prevData
			if _, po, err := fParse(b); err == nil {
				b = b[po:]
			}
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			if n >= 8 {
				t.Fail("two saves of the file share the first %d bytes of ciphertext", n)
			}
		}
		prev, prevData = cur, data
	}
	t.Eval(ops + fmt.Sprint(names))
	t.Sample(ops)
}

func c05lib(t *T, w *freshness) {
	for i := 0; i < 20; i++ {
		_, s, err := crypt.DeriveKey(1, []byte("pw"))
		if err != nil {
			t.Fail("DeriveKey: %v", err)
		}
		w.add(t, "salt", s)
		m, iv, err := crypt.NewMasterKey(1)
		if err != nil {
			t.Fail("NewMasterKey: %v", err)
		}
		w.add(t, "master key", m)
		w.add(t, "master IV", iv)
		_, iv, err = crypt.EncryptMasterKey(1, t.bytes(fKey), m)
		if err != nil {
			t.Fail("EncryptMasterKey: %v", err)
		}
		w.add(t, "IV of a master key", iv)
		d, err := crypt.Encrypt(1, &crypt.Params{Keys: [][]byte{t.bytes(fKey)}, Salts: [][]byte{s}}, []byte("same content"))
		if err != nil {
			t.Fail("Encrypt: %v", err)
		}
		f, _, err := fParse(d)
		if err != nil {
			t.Fail("Encrypt: %v", err)
		}
		w.add(t, "IV", f.IV)
	}
	t.Eval(fmt.Sprint("lib", t.Case))
}

func realKDF(f func()) {
	old := os.Getenv("VERIF_KDF")
	os.Unsetenv("VERIF_KDF")
	defer os.Setenv("VERIF_KDF", old)
	f()
}

func pickInt(r interface{ Intn(int) int }, xs ...int) int { return xs[r.Intn(len(xs))] }

func init() {
	register(&Check{ID: "C02",
		Rule:        "Single- and multi-user files made by the code under test or by an independent writer; every registered credential must open them (with and without cached keys) and its result must save them again for everybody; wrong, empty, foreign and near-miss passphrases, users and keys must be refused with the matching error. The same as a login matrix through the program. Non-trivial: every file; distinct by bytes.",
		Assumptions: []string{"scrypt is replaced by a fast keyed hash except in C04's real-derivation groups"},
		Run: func(c *Ctx) {
			c.Cases("lib", c.N(6000, 200000), c02lib)
			c.Cases("program", c.N(300, 6000), c02program)
		}})
	register(&Check{ID: "C03",
		Rule:        "Stored files altered by bit flips, truncation, block and slot edits, header edits, splices with other files of the same credentials and junk (all positions for the bits group); every credential, with and without a cached key, must be refused without content. The program must fail with a non-zero status and leave file and mode alone, also for damaged content under intact encryption. Non-trivial: altered bytes differ from the original; distinct by bytes.",
		Assumptions: []string{"scrypt is replaced by a fast keyed hash"},
		Run: func(c *Ctx) {
			c.Cases("lib", c.N(3000, 100000), c03lib)
			c.Cases("bits", c.N(80, 1500), c03bits)
			c.Cases("program", c.N(1200, 20000), c03program)
		}})
	register(&Check{ID: "C04",
		Rule: "Files written by the crypt package and by program sessions are read by an independent implementation of the documented format and must come out byte for byte when that implementation writes the same header and content; the payload must be the documented JSON. Files written by an earlier version must open; real scrypt in the golden and real groups. Non-trivial: every file; distinct by bytes.",
		Run: func(c *Ctx) {
			c.Cases("lib", c.N(1500, 60000), c04lib)
			c.Cases("program", c.N(120, 3000), c04program)
			realKDF(func() {
				c.CasesW("golden", 4, 4, c04golden)
				c.CasesW("real", c.N(2, 12), 2, c04real)
			})
		}})
	register(&Check{ID: "C05",
		Rule:        "Series of program sessions (edits, passphrase changes, users, rekeys, pushes) under several umasks; after each, everything on disk is searched for every secret in several encodings and for derived keys, the ciphertext for repeated blocks and uneven byte frequencies, the modes for other users' access, and every value that has to be fresh is entered into one run-wide table in which no 8 byte window may occur twice. Non-trivial: every series; distinct by commands.",
		Assumptions: []string{"the IV of a multi-user payload is kept between saves by design and only has to be fresh after a conversion or full rekey", "the first user of a file keeps the key and salt of the single-user file", "the CSV export is plain text by design"},
		Run: func(c *Ctx) {
			w := &freshness{seen: map[[8]byte]string{}}
			c.Cases("sessions", c.N(300, 8000), func(t *T) { c05case(t, w) })
			c.Cases("lib", c.N(250, 5000), func(t *T) { c05lib(t, w) })
			c.CasesW("spread", 1, 1, func(t *T) {
				if w.n < 20000 {
					return
				}
				x := chi2(w.hist[:], w.n)
				if x > 500 || x < 90 {
					t.Fail("bytes of the salts, IVs and keys are unevenly spread: chi-square %.0f for 255 degrees of freedom, %d bytes", x, w.n)
				}
				t.Eval("spread")
			})
		}})
}
