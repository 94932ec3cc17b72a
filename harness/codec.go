package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
	"golang.org/x/crypto/scrypt"
)

// Independent implementation of the version 1 file format, written from its documentation.

const (
	fSalt = 32
	fIV   = 40
	fKey  = 80
	fHash = 64
	fUser = 32 + fSalt + fIV + fKey
)

type fSlot struct {
	NameHash []byte
	Salt     []byte
	IV       []byte
	MKey     []byte
}

type fFile struct {
	NUsers  int
	Salt    []byte // single user
	IV      []byte // payload IV (single: iv, multi: ivm)
	Slots   []fSlot
	Key     []byte // key that opened it (user key)
	Master  []byte
	Payload []byte
}

func fDerive(pass string, salt []byte) []byte {
	k, err := scrypt.Key([]byte(pass), salt, 524288, 8, 1, fKey)
	if err != nil {
		panic(err)
	}
	return k
}

func fBlocks(key []byte) []cipher.Block {
	a, err := aes.NewCipher(key[0:32])
	if err != nil {
		panic(err)
	}
	b, err := camellia.NewCipher(key[32:64])
	if err != nil {
		panic(err)
	}
	c, err := cast5.NewCipher(key[64:80])
	if err != nil {
		panic(err)
	}
	return []cipher.Block{a, b, c}
}

var fIVOff = []int{0, 16, 32, 40}

func fEncryptLayers(key, iv, data []byte, pad bool) []byte {
	work := append([]byte{}, data...)
	for i, b := range fBlocks(key) {
		bs := b.BlockSize()
		if pad {
			n := bs - len(work)%bs
			for j := 0; j < n; j++ {
				work = append(work, byte(n))
			}
		}
		cipher.NewCBCEncrypter(b, iv[fIVOff[i]:fIVOff[i+1]]).CryptBlocks(work, work)
	}
	return work
}

var errFBad = errors.New("does not decrypt")

func fDecryptLayers(key, iv, data []byte, pad bool) ([]byte, error) {
	work := append([]byte{}, data...)
	bl := fBlocks(key)
	for i := 2; i >= 0; i-- {
		bs := bl[i].BlockSize()
		if len(work) == 0 || len(work)%bs != 0 {
			return nil, errFBad
		}
		cipher.NewCBCDecrypter(bl[i], iv[fIVOff[i]:fIVOff[i+1]]).CryptBlocks(work, work)
		if pad {
			n := int(work[len(work)-1])
			if n == 0 || n > bs || n > len(work) {
				return nil, errFBad
			}
			for _, x := range work[len(work)-n:] {
				if int(x) != n {
					return nil, errFBad
				}
			}
			work = work[:len(work)-n]
		}
	}
	return work, nil
}

// fParse splits the header.
func fParse(data []byte) (*fFile, int, error) {
	if len(data) < 16 {
		return nil, 0, fmt.Errorf("only %d bytes", len(data))
	}
	if string(data[:8]) != "blobpass" {
		return nil, 0, fmt.Errorf("bad magic %q", data[:8])
	}
	if string(data[8:12]) != "0001" {
		return nil, 0, fmt.Errorf("bad version %q", data[8:12])
	}
	n := 0
	for _, ch := range data[12:16] {
		if ch < '0' || ch > '9' {
			return nil, 0, fmt.Errorf("bad user count %q", data[12:16])
		}
		n = n*10 + int(ch-'0')
	}
	f := &fFile{NUsers: n}
	off := 16
	need := 16 + fSalt + fIV
	if n > 0 {
		need = 16 + n*fUser + fIV
	}
	if len(data) < need {
		return nil, 0, fmt.Errorf("header truncated: %d < %d", len(data), need)
	}
	take := func(k int) []byte {
		b := append([]byte{}, data[off:off+k]...)
		off += k
		return b
	}
	if n == 0 {
		f.Salt = take(fSalt)
		f.IV = take(fIV)
	} else {
		for i := 0; i < n; i++ {
			f.Slots = append(f.Slots, fSlot{NameHash: take(32), Salt: take(fSalt), IV: take(fIV), MKey: take(fKey)})
		}
		f.IV = take(fIV)
	}
	return f, off, nil
}

// fOpen decodes a file completely, strictly.
func fOpen(data []byte, user, pass string) (*fFile, error) {
	f, off, err := fParse(data)
	if err != nil {
		return nil, err
	}
	var key []byte
	if f.NUsers == 0 {
		f.Key = fDerive(pass, f.Salt)
		key = f.Key
	} else {
		h := sha256.Sum256([]byte(user))
		found := false
		for _, s := range f.Slots {
			if !bytes.Equal(s.NameHash, h[:]) {
				continue
			}
			found = true
			f.Key = fDerive(pass, s.Salt)
			m, err := fDecryptLayers(f.Key, s.IV, s.MKey, false)
			if err != nil {
				return nil, err
			}
			f.Master = m
			break
		}
		if !found {
			return nil, errors.New("no such user")
		}
		key = f.Master
	}
	pt, err := fDecryptLayers(key, f.IV, data[off:], true)
	if err != nil {
		return nil, err
	}
	if len(pt) < fHash {
		return nil, errFBad
	}
	h := sha512.New()
	h.Write(data[:off])
	h.Write(pt[fHash:])
	if !bytes.Equal(h.Sum(nil), pt[:fHash]) {
		return nil, errFBad
	}
	f.Payload = pt[fHash:]
	return f, nil
}

func fSeal(header, key, iv, payload []byte) []byte {
	h := sha512.New()
	h.Write(header)
	h.Write(payload)
	work := append(h.Sum(nil), payload...)
	return append(append([]byte{}, header...), fEncryptLayers(key, iv, work, true)...)
}

func fWriteSingle(pass string, salt, iv, payload []byte) []byte {
	hdr := []byte("blobpass00010000")
	hdr = append(hdr, salt...)
	hdr = append(hdr, iv...)
	return fSeal(hdr, fDerive(pass, salt), iv, payload)
}

type fUserCred struct {
	Name, Pass string
	Salt, IV   []byte
}

func fWrapMaster(key, iv, master []byte) []byte { return fEncryptLayers(key, iv, master, false) }

func fWriteMulti(users []fUserCred, master, ivm, payload []byte) []byte {
	hdr := []byte(fmt.Sprintf("blobpass0001%04d", len(users)))
	for _, u := range users {
		h := sha256.Sum256([]byte(u.Name))
		hdr = append(hdr, h[:]...)
		hdr = append(hdr, u.Salt...)
		hdr = append(hdr, u.IV...)
		hdr = append(hdr, fWrapMaster(fDerive(u.Pass, u.Salt), u.IV, master)...)
	}
	hdr = append(hdr, ivm...)
	return fSeal(hdr, master, ivm, payload)
}

func (t *T) bytes(n int) []byte {
	b := make([]byte, n)
	t.R.Read(b)
	return b
}
