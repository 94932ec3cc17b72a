From 9191968b8df89d3cdb40db22dc32078580f763d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 01/68] fix: pkcs7.Unpad accepted a padding of zero bytes

---
 pkcs7/pad.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..d9a74e8 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,11 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	if padBytes == 0 {
+		// There is always at least one byte of padding
+		return nil, errPaddingInvalid
+	}
+
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From 68b686c34df8ce6d065d822f075a4255d6b4649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 02/68] fix: crypt.Decrypt crashed on malformed files, wrong
 passphrases and unknown users

---
 crypt/crypto.go    |  8 +++++--
 crypt/crypto_v1.go | 53 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..871455e 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..f716c35 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -210,7 +210,7 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 
 	var nUsers int
 	i, err := strconv.ParseInt(string(nUserBytes), 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return p, nil, ErrInvalidFileFormat
 	}
 
@@ -231,6 +231,11 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, err
 	}
 
+	headerSize := magicLen + c.saltSize + c.blockSize
+	if !validPayloadSize(suite, len(encrypted)-headerSize) {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	// Pull salt out and derive key
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
@@ -266,6 +271,11 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// With the wrong key an outer layer can lose any amount of "padding"
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +286,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -313,6 +327,17 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	s := sha256.Sum256(user)
 	userHash := s[:]
 
+	suite, err := cipherSuite(c)
+	if err != nil {
+		return p, nil, err
+	}
+
+	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	headerSize := magicLen + (userSize * nUsers) + c.blockSize
+	if !validPayloadSize(suite, len(encrypted)-headerSize) {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	plaintextHeader := encrypted[magicLen:]
 
 	for i := 0; i < nUsers; i++ {
@@ -341,11 +366,11 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		// Here we could return ErrUnknownUser, but this is bad
 		// for security, lets just create some 0 bytes for the headers etc
 		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
+		p.Users = append(p.Users, make([]byte, sha256.Size))
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = nUsers
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -373,10 +398,6 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	p.Keys[p.User] = key
 	p.Salts[p.User] = salt
 
-	suite, err := cipherSuite(c)
-	if err != nil {
-		return p, nil, err
-	}
 	ciphers, err := makeCiphers(key, suite)
 	if err != nil {
 		return p, nil, err
@@ -418,6 +439,11 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// With the wrong key an outer layer can lose any amount of "padding"
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -428,12 +454,15 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
-	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:headerSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
@@ -444,6 +473,12 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	return p, plaintext, nil
 }
 
+// validPayloadSize checks that there is something to decrypt and that it is
+// made of whole blocks of the outermost cipher.
+func validPayloadSize(suite []cipherAlg, size int) bool {
+	return size > 0 && size%suite[len(suite)-1].BlockSize == 0
+}
+
 func deriveKeyV1(c config, passphrase, salt []byte) ([]byte, error) {
 	return scrypt.Key(passphrase, salt, 524288 /* 2<<18 */, 8, 1, c.keySize)
 }
-- 
2.43.0


From 8ea3570dde3403f670aa57af13e9cf94e1187b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 03/68] fix: Rollback kept a snapshot that contained the first
 change of the transaction

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..5f87782 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -160,7 +160,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From 309a51ee2049569ef52cdb690d88a8530e1652c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 04/68] fix: history queries crashed on a negative number of
 versions

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5f87782..c8bb11d 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -231,7 +231,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -250,7 +250,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From aee3543bfddb01f2ab6751b6ce65a0fe2aab3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 05/68] fix: Merge crashed on empty logs and blamed the wrong
 change for a conflict after a rejoined fork

---
 txlogs/txlogs.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index c8bb11d..846cbbe 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -336,6 +336,13 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
+	if lena == 0 {
+		return b, nil
+	}
+	if lenb == 0 {
+		return a, nil
+	}
+
 	if lena == lenb &&
 		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
 		// These are the same list of events
@@ -432,7 +439,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		// If ids are the same, append and move on, haven't reached fork
 		if a[i].Time == b[j].Time {
 			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
+				deleted[a[i].UUID] = len(c)
 			}
 
 			c = append(c, a[i])
-- 
2.43.0


From 0b9525c134fe7257f41d2a69714e1d0ee89c4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 06/68] fix: RemoveLabel kept only the last label

---
 blobformat/blobs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..c4d5587 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -441,7 +441,7 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
@@ -451,7 +451,7 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
-- 
2.43.0


From a2bb96607bea0fabb919ecc66c9615affb79ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 07/68] fix: SearchLabels counted repeated labels more than
 once

---
 blobformat/blobs.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c4d5587..72ed731 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -156,12 +156,8 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 		found := 0
 		for _, want := range labels {
 			for _, have := range haveLabels {
-				if have != want {
-					continue
-				}
-
-				found++
-				if found == len(labels) {
+				if have == want {
+					found++
 					break
 				}
 			}
-- 
2.43.0


From c07cc94a548d64eda3ab5588dc871005b1a7cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 08/68] fix: RenameDuplicates gave entries names that were
 already taken

---
 blobformat/blobs.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 72ed731..dbb0819 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -50,25 +50,33 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 		return nil, err
 	}
 
-	names := make(map[string]struct{})
+	// taken has every name in use, kept has those whose one holder that may
+	// keep the name has been seen.
+	taken := make(map[string]struct{})
+	kept := make(map[string]struct{})
 	renames := make(map[string]string)
 
+	for _, entry := range b.Snapshot {
+		taken[Blob(entry).Name()] = struct{}{}
+	}
+
 	for uuid, entry := range b.Snapshot {
 		blob := Blob(entry)
 		name := blob.Name()
 
-		_, ok := names[name]
+		_, ok := kept[name]
 		if !ok {
-			names[name] = struct{}{}
+			kept[name] = struct{}{}
 			continue
 		}
 
 		oldName := name
 		for ok {
 			name = name + "1"
-			_, ok = names[name]
+			_, ok = taken[name]
 		}
 
+		taken[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-- 
2.43.0


From 60c431ac773536289312eacfdc3faeee78a305fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 09/68] fix: removing an entry's last label did not refresh its
 updated time

---
 blobformat/blobs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index dbb0819..49116f3 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -450,6 +450,7 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	if len(labels) == 1 {
+		b.touchUpdated(uuid)
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
-- 
2.43.0


From 773cb9d0023b35fb3bdde9e912078fc67fbbab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 10/68] fix: fuzzy.Match crashed on invalid UTF-8 and missed
 matches of different encoded length

---
 fuzzy/fuzzy.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..6601fcb 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,13 +13,7 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
+	if s == search {
 		return true
 	}
 
@@ -28,7 +22,8 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				_, width := utf8.DecodeRuneInString(s[i:])
+				s = s[i+width:]
 				continue Search
 			}
 		}
-- 
2.43.0


From fa21232a0d9783fdb69adf310616e0faf953ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 11/68] fix: a user's key material could be deleted, after
 which the file could not be saved

---
 blobformat/blobs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 49116f3..fed7cfc 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -376,7 +376,7 @@ func (b Blobs) Set(uuid, key, value string) error {
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
 func (b Blobs) DeleteKey(uuid, key string) error {
 	switch key {
-	case KeyName, KeyUpdated:
+	case KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey:
 		return keyNotAllowed(key)
 	}
 
-- 
2.43.0


From 60c73c93dda03079beedcdf37ea68b6c7c68eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 12/68] fix: scpsync crashed on a negative file length

---
 scpsync/scpsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..07cc69f 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -260,6 +260,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	length, err := strconv.ParseInt(fields[1], 10, 32)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
+	} else if length < 0 {
+		return file, fmt.Errorf("negative length: %d", length)
 	}
 
 	// Acknowledge we've received the initial header
-- 
2.43.0


From 70551eefe89f800f9816f47af283091c31900080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 13/68] fix: password generator crashed on lengths divisible by
 256 and left the end of long passwords unshuffled

---
 passwd_gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..1f139c9 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -36,7 +36,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+(length*2))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -92,9 +92,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := (int(entropy[eOffset])<<8 | int(entropy[eOffset+1])) % length
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 2
 	}
 
 	return string(password), nil
-- 
2.43.0


From eeb615ec80451ddc3b8a095bb5c3839bff269a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 14/68] fix: password generator crashed on absurdly large
 lengths and counts

---
 passwd_gen.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/passwd_gen.go b/passwd_gen.go
index 1f139c9..45c77b0 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -17,9 +17,19 @@ var (
 	errPasswordImpossible = errors.New("password cannot be generated")
 )
 
+// maxPasswordLength is also the most that two bytes of entropy can shuffle
+const maxPasswordLength = 1 << 16
+
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length > maxPasswordLength {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
-- 
2.43.0


From 35f163c5ad24cbcff57aacaf25e9442f0a126fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 15/68] fix: passwd and rekey changed the wrong user, crashed
 on unknown users and forgot the new key

---
 commands.go | 57 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/commands.go b/commands.go
index b5b025b..60abba0 100644
--- a/commands.go
+++ b/commands.go
@@ -48,7 +48,39 @@ const (
 	syncFile = "file"
 )
 
+// findUserEntry finds the user entry that a passwd/rekey command must update.
+// If user is empty it's the current user's. In single-user files there is no
+// such entry and uuid is empty. If ok is false an error was printed.
+func (u *uiContext) findUserEntry(user string) (uuid string, ok bool, err error) {
+	if len(u.master) == 0 {
+		if len(user) != 0 {
+			errColor.Println("this is a single-user file, it has no users")
+			return "", false, nil
+		}
+		return "", true, nil
+	}
+
+	if len(user) == 0 {
+		user = u.user
+	}
+	uuid, _, err = u.store.FindUser(user)
+	if err != nil {
+		return "", false, err
+	}
+	if len(uuid) == 0 {
+		errColor.Printf("user %q not found\n", user)
+		return "", false, nil
+	}
+
+	return uuid, true, nil
+}
+
 func (u *uiContext) passwd(user string) error {
+	uuid, ok, err := u.findUserEntry(user)
+	if err != nil || !ok {
+		return err
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -65,7 +97,7 @@ func (u *uiContext) passwd(user string) error {
 	}
 
 	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
+	if len(user) == 0 || u.user == user {
 		u.pass = pass
 		u.key = key
 		u.salt = salt
@@ -73,11 +105,6 @@ func (u *uiContext) passwd(user string) error {
 
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -145,8 +172,12 @@ func (u *uiContext) adduser(user string) error {
 func (u *uiContext) rekey(user string) error {
 	isCurrentUser := len(user) == 0
 
+	uuid, ok, err := u.findUserEntry(user)
+	if err != nil || !ok {
+		return err
+	}
+
 	var pass string
-	var err error
 	if isCurrentUser {
 		pass = u.pass
 	} else {
@@ -167,7 +198,7 @@ func (u *uiContext) rekey(user string) error {
 		return err
 	}
 
-	if isCurrentUser {
+	if isCurrentUser || u.user == user {
 		// Update fast-path credentials
 		u.pass = pass
 		u.key = key
@@ -176,16 +207,6 @@ func (u *uiContext) rekey(user string) error {
 
 	if len(u.master) != 0 {
 		// If we're multi-user we need to update the corresponding user entry
-		username := u.user
-		if len(user) != 0 {
-			username = user
-		}
-
-		uuid, _, err := u.store.MustFindUser(username)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
-- 
2.43.0


From 2b6fa71e65e8a01292e7d77c9e99c61f9caabaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 16/68] fix: rekeyall wrapped the old master key, after which
 nobody could open the file

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 60abba0..81b4c79 100644
--- a/commands.go
+++ b/commands.go
@@ -280,7 +280,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a913e75ddba5320f6cc9f5ec1cdc8a28bed82767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 17/68] fix: deleting an entry like x/user/me was taken for
 deleting the user me

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index fed7cfc..e12c5e7 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -499,12 +499,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 74a5af4e93c9ad69c809d76139b9927226d671f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 18/68] fix: adduser created users with an empty passphrase
 that can never open the file

---
 commands.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index 81b4c79..e06bc60 100644
--- a/commands.go
+++ b/commands.go
@@ -120,12 +120,12 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	uuid, _, err := u.store.FindUser(user)
+	if err != nil {
+		return err
+	} else if len(uuid) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
 	var key, salt []byte
@@ -133,7 +133,7 @@ func (u *uiContext) adduser(user string) error {
 	if len(u.master) == 0 {
 		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		u.user = user
@@ -145,12 +145,22 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
 		}
 	}
 
+	uuid, err = u.store.NewUser(user)
+	if err != nil {
+		return err
+	}
+
 	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 	if err != nil {
 		return err
-- 
2.43.0


From 81a5142c11ba609a5deb44976ad87cb9dd8eefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 19/68] fix: renaming users or adding entries under user/ could
 make the file impossible to save

---
 commands.go  |  6 ++++++
 uicontext.go | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index e06bc60..c7f8a4d 100644
--- a/commands.go
+++ b/commands.go
@@ -571,6 +571,12 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if len(u.master) != 0 && len(u.user) != 0 && blobformat.SplitUsername(src) == u.user {
+		if newUser := blobformat.SplitUsername(dst); len(newUser) != 0 {
+			u.user = newUser
+		}
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
diff --git a/uicontext.go b/uicontext.go
index fee873b..5750696 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -55,7 +55,8 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
 		if len(name) == 0 {
-			return nil, errors.New("params name was not a username")
+			// user/ has no username to log in with
+			continue
 		}
 
 		username := sha256.Sum256([]byte(name))
@@ -65,6 +66,11 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 			return nil, errors.New("could not find user we just found")
 		}
 
+		if len(blob[blobformat.KeySalt]) == 0 || len(blob[blobformat.KeyIV]) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			// A regular entry that happens to be named like a user
+			continue
+		}
+
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
@@ -92,6 +98,12 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 		index++
 	}
 
+	if p.NUsers == 0 {
+		// Nobody is left to wrap the master key for, it's a single-user file
+		u.master, u.ivm = nil, nil
+		return u.makeParams()
+	}
+
 	p.IVM = u.ivm
 	p.Master = u.master
 
-- 
2.43.0


From f33e81022c85ab7ffe15e19c6f2621f1fa410fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 20/68] fix: answering a merge conflict asked the same question
 forever

---
 merging.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..5161bc7 100644
--- a/merging.go
+++ b/merging.go
@@ -244,7 +244,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -256,7 +256,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
-				for {
+				for resolved := false; !resolved; {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
 						return nil, err
@@ -265,10 +265,10 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						resolved = true
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						resolved = true
 					}
 				}
 			}
-- 
2.43.0


From a555e0990738fd37af80aa010984588e11a144c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 21/68] fix: conflicts uncovered by resolving others made the
 merge ask about those again

---
 merging.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index 5161bc7..14cd4bf 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -256,7 +256,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
-				for resolved := false; !resolved; {
+				for answered := false; !answered; {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
 						return nil, err
@@ -265,14 +265,17 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
-						resolved = true
+						answered = true
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-						resolved = true
+						answered = true
 					}
 				}
 			}
 		}
+
+		// Resolving a conflict can uncover another, keep all the answers
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 5bb172453380fa34f447579afe3db51d2105d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 22/68] fix: syncing with an empty file crashed

---
 merging.go | 12 ++++++++++--
 sync.go    |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/merging.go b/merging.go
index 14cd4bf..ef47e33 100644
--- a/merging.go
+++ b/merging.go
@@ -83,8 +83,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				lastTimeLocal := lastTime(m.Log)
+				lastTimeRemote := lastTime(r.Log)
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
@@ -202,6 +202,14 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	return m, nil
 }
 
+// lastTime is the time of the latest change in the log, 0 for an empty one
+func lastTime(log []txlogs.Tx) int64 {
+	if len(log) == 0 {
+		return 0
+	}
+	return log[len(log)-1].Time
+}
+
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
 the local and the remote file. What this probably means is that the wrong
 file is in the sync location, and proceeding would mean that both files become
diff --git a/sync.go b/sync.go
index 706fd9b..61489dc 100644
--- a/sync.go
+++ b/sync.go
@@ -116,7 +116,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
+		if len(log) != 0 && len(log) == len(u.store.DB.Log) &&
 			log[0].Time == u.store.DB.Log[0].Time &&
 			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
 			infoColor.Printf("skip: %s (no changes)\n", name)
-- 
2.43.0


From 3f0bfa6de4859e49a2861dab844ba973fedc9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 23/68] fix: parsing the log of a null database crashed

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 846cbbe..c976468 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 9611076bc96ffb68158580c5af46c15dc743d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 24/68] fix: syncing with an entry without a usable url crashed

---
 sync.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 61489dc..30c8d53 100644
--- a/sync.go
+++ b/sync.go
@@ -55,6 +55,11 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 			return nil
 		}
 
+		if !validSyncURL(u.store.Snapshot[uuid][blobformat.KeyURL]) {
+			errColor.Printf("%q has no url that can be synchronized with\n", name)
+			return nil
+		}
+
 		syncs = []string{uuid}
 	} else {
 		syncs, err = collectSyncs(u.store)
@@ -260,6 +265,16 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 	return validSyncs, nil
 }
 
+// validSyncURL checks for an url that pullBlob and pushBlob understand
+func validSyncURL(uri string) bool {
+	u, err := url.Parse(uri)
+	if err != nil {
+		return false
+	}
+
+	return u.Scheme == syncSCP || u.Scheme == syncFile
+}
+
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
@@ -377,7 +392,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From 979050ee1dab93ae829eb5647669441fa6f9b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 25/68] fix: a malformed known host line crashed the sync

---
 sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync.go b/sync.go
index 30c8d53..5c4d4ba 100644
--- a/sync.go
+++ b/sync.go
@@ -446,6 +446,9 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 		if vals[0] != hostname {
 			continue
 		}
+		if len(vals) < 4 {
+			return errors.New("known host entry is malformed")
+		}
 
 		// Same host, double check key is same
 		if vals[2] != keyType {
-- 
2.43.0


From 3fdd77614c41c6ec6a6a1d21f55b0795417e44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 26/68] fix: confirming the host of a sync entry deleted by the
 same sync poisoned the log

---
 sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 5c4d4ba..2b49385 100644
--- a/sync.go
+++ b/sync.go
@@ -209,7 +209,11 @@ Syncs:
 
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
-		entry := store.Snapshot[uuid]
+		entry, ok := store.Snapshot[uuid]
+		if !ok {
+			// The merge deleted the entry
+			continue
+		}
 		hosts := entry[blobformat.KeyKnownHosts]
 		if len(hosts) == 0 {
 			store.Set(uuid, blobformat.KeyKnownHosts, hostentry)
-- 
2.43.0


From 40e7c77afcc7bbbfe0357cd2c9fcb6369bd72cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 27/68] fix: login ended the session without saving if the two
 factor secret was unusable

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index c7f8a4d..5d67744 100644
--- a/commands.go
+++ b/commands.go
@@ -792,7 +792,8 @@ func (u *uiContext) login(search string) error {
 			if k == blobformat.KeyTwoFactor {
 				value, err = blob.TwoFactor()
 				if err != nil {
-					return err
+					errColor.Println(err)
+					continue
 				}
 			}
 			keyVals = append(keyVals, keyVal{Key: k, Val: value})
-- 
2.43.0


From e4f405b2d14e13f42fbc12175284426e4c143eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 28/68] fix: lastpass import created an entry from the header
 line

---
 import.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import.go b/import.go
index ef60100..d69e89f 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,7 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From 77d5cfd7083b1bf61d8a68cbd368623894219594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 29/68] fix: export missed changes made since the snapshot was
 last saved

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 385f189..a41144a 100644
--- a/export.go
+++ b/export.go
@@ -11,6 +11,10 @@ import (
 )
 
 func export(u *uiContext) error {
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
-- 
2.43.0


From d3d5a7ea3155f3204fe8277ace9c64e4c919e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 30/68] fix: set and edit claimed to have changed protected
 keys

---
 commands.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 5d67744..c180f61 100644
--- a/commands.go
+++ b/commands.go
@@ -860,7 +860,10 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		if err := u.store.Set(uuid, key, value); err != nil {
+			errColor.Println(err)
+			return nil
+		}
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
@@ -970,11 +973,17 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	if len(newValue) == 0 {
+		if err := u.store.DeleteKey(uuid, key); err != nil {
+			errColor.Println(err)
+			return nil
+		}
 		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
 	} else {
+		if err := u.store.Set(uuid, key, string(newValue)); err != nil {
+			errColor.Println(err)
+			return nil
+		}
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
 	}
 
 	return nil
-- 
2.43.0


From 42dbf04fd3403520dba573d80bec1e02366ddf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 31/68] fix: edit left the value in the tmp file and ended the
 session if the editor failed

---
 commands.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index c180f61..9c9e95d 100644
--- a/commands.go
+++ b/commands.go
@@ -944,11 +944,12 @@ func (u *uiContext) edit(search, key string) error {
 	// Run the editor for the OS and wait until it exits
 	editExit := 0
 	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
+		editExit = -1
+		if e, ok := err.(*exec.ExitError); ok {
+			editExit = e.ExitCode()
+		} else {
+			errColor.Println("failed to run editor:", err)
 		}
-		editExit = e.ExitCode()
 	}
 
 	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
@@ -957,6 +958,10 @@ func (u *uiContext) edit(search, key string) error {
 		return nil
 	}
 
+	if info, err := tmp.Stat(); err == nil && info.Size() > int64(maxLen) {
+		maxLen = int(info.Size())
+	}
+
 	if editExit != 0 {
 		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
 		return nil
-- 
2.43.0


From 91ba5645491856e4ace75aeb4cedadea9e4e6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 32/68] fix: two factor codes ignored the digits, period and
 algorithm of the otpauth url

---
 blobformat/blob.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..8b5bdad 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -2,6 +2,7 @@ package blobformat
 
 import (
 	"fmt"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -68,7 +69,37 @@ func (b Blob) TwoFactor() (string, error) {
 		return "", fmt.Errorf("two factor key for %s was not a totp key", b.Name())
 	}
 
-	code, err := totp.GenerateCode(key.Secret(), time.Now().UTC())
+	opts := totp.ValidateOpts{
+		Period:    uint(key.Period()),
+		Digits:    otp.DigitsSix,
+		Algorithm: otp.AlgorithmSHA1,
+	}
+
+	uri, err := url.Parse(key.URL())
+	if err != nil {
+		return "", err
+	}
+	params := uri.Query()
+
+	if digits := params.Get("digits"); len(digits) != 0 {
+		n, err := strconv.Atoi(digits)
+		if err != nil || n < 6 || n > 9 {
+			return "", fmt.Errorf("two factor uri for %s has bad digits: %q", b.Name(), digits)
+		}
+		opts.Digits = otp.Digits(n)
+	}
+
+	switch alg := strings.ToUpper(params.Get("algorithm")); alg {
+	case "", "SHA1":
+	case "SHA256":
+		opts.Algorithm = otp.AlgorithmSHA256
+	case "SHA512":
+		opts.Algorithm = otp.AlgorithmSHA512
+	default:
+		return "", fmt.Errorf("two factor uri for %s has unknown algorithm: %q", b.Name(), alg)
+	}
+
+	code, err := totp.GenerateCodeCustom(key.Secret(), time.Now().UTC(), opts)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From f8f3a593197e94d81ed46262254e6a7fda6f56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 33/68] fix: a failed or interrupted save or push destroyed the
 previous file

---
 main.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 sync.go |  2 +-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 1bf94b4..0ab5f0a 100644
--- a/main.go
+++ b/main.go
@@ -269,7 +269,50 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data)
+}
+
+// writeFile replaces the contents of a file in one step, so that the previous
+// contents survive if writing the new ones fails at any point.
+func writeFile(filename string, data []byte) (err error) {
+	// Replace what a symlink points to, not the symlink
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	mode := os.FileMode(0600)
+	if info, err := os.Stat(filename); err == nil {
+		if !info.Mode().IsRegular() {
+			return ioutil.WriteFile(filename, data, mode)
+		}
+		mode = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), ".bpass.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Chmod(mode); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), filename)
 }
 
 func shortPath(filename string) string {
diff --git a/sync.go b/sync.go
index 2b49385..7d6a8ea 100644
--- a/sync.go
+++ b/sync.go
@@ -316,7 +316,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload)
 	}
 
 	return hostentry, err
-- 
2.43.0


From 9f346d70d7752fb7a5fbe8c41c79dfdc6ef3e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 34/68] fix: failures to open, synchronize or save the file
 exited with status 0

---
 main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 0ab5f0a..6f76c1c 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,19 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
+			if err == nil {
+				err = clipErr
+			}
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if closeErr := ctx.in.Close(); closeErr != nil {
+		fmt.Println("failed to close terminal properly:", closeErr)
+		if err == nil {
+			err = closeErr
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From e5a11311350e57ee1e783a6b249864853d9df721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 35/68] fix: long passphrases entered with pinentry were
 refused

The protocol limits the length of a line, long data comes in several.
---
 pinentry/pinentry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index d785262..9c1dac6 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -124,8 +124,11 @@ func Password(prompt string) (password string, err error) {
 
 	resp := getLine()
 	if strings.HasPrefix(resp, "D ") {
-		password = resp[2:]
-		resp = getLine()
+		// Long passwords are split across several lines
+		for strings.HasPrefix(resp, "D ") {
+			password += resp[2:]
+			resp = getLine()
+		}
 	} else if strings.HasPrefix(resp, "ERR") && strings.Contains(resp, "Operation cancelled") {
 		return "", nil
 	}
-- 
2.43.0


From 729f50dbff1702192895fdd72bf5626e7d608577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 36/68] fix: syncing with a file whose log cannot be replayed
 ended the session

The local changes were lost and the remaining remotes were not synchronized.
---
 sync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync.go b/sync.go
index 7d6a8ea..d3d3df2 100644
--- a/sync.go
+++ b/sync.go
@@ -121,6 +121,13 @@ Syncs:
 			continue
 		}
 
+		// A log that is broken by itself would poison everything it's merged with
+		if err = (&txlogs.DB{Log: log}).UpdateSnapshot(); err != nil {
+			errColor.Printf("failed replaying log %q: %v\n", name, err)
+			syncs[i] = ""
+			continue
+		}
+
 		if len(log) != 0 && len(log) == len(u.store.DB.Log) &&
 			log[0].Time == u.store.DB.Log[0].Time &&
 			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
-- 
2.43.0


From b2035d64e98a0da937edc2f2b1af507e8d8c3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 37/68] fix: opening at a time between an entry's creation and
 its naming crashed

---
 blobformat/blob.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 8b5bdad..48473af 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -24,14 +24,10 @@ func (b Blob) Keys() (keys []string) {
 	return keys
 }
 
-// Name returns the name of the blob. Panics if the key is not found.
+// Name returns the name of the blob. It's empty if there is none, which happens
+// when looking at a point in time between an entry's creation and its naming.
 func (b Blob) Name() string {
-	name, ok := b[KeyName]
-	if !ok {
-		panic("name was not set")
-	}
-
-	return name
+	return b[KeyName]
 }
 
 // Get a specific value. Panics if name is not found. Special keys require the
-- 
2.43.0


From 2e72f0752164c4a3ed3785a51fb588a5548e52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 38/68] fix: rekey refused the passphrase of a file created in
 the same session

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 6f76c1c..3552ac8 100644
--- a/main.go
+++ b/main.go
@@ -186,6 +186,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From e043ec6e24618d54068edf67310cca40cdc713f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 39/68] fix: the session hung when the input ended at a prompt
 of a command

---
 readline.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index 085b53a..b4aa6c1 100644
--- a/readline.go
+++ b/readline.go
@@ -53,7 +53,7 @@ func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 		InterruptPrompt: "interrupt",
 		EOFPrompt:       "exit",
 
-		Stdin:  os.Stdin,
+		Stdin:  &stdinReader{File: os.Stdin, last: '\n'},
 		Stdout: out,
 		Stderr: os.Stderr,
 
@@ -61,6 +61,35 @@ func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 	}
 }
 
+const ctrlD = 4
+
+// stdinReader reports the end of the input as a ctrl-d to each prompt that
+// follows. The readline library reports it to only one prompt and never returns
+// from the others.
+type stdinReader struct {
+	*os.File
+	last byte
+}
+
+func (s *stdinReader) Read(p []byte) (n int, err error) {
+	n, err = s.File.Read(p)
+	if n > 0 {
+		s.last = p[n-1]
+		return n, nil
+	}
+	if err != io.EOF || len(p) == 0 {
+		return n, err
+	}
+
+	// The last line may lack its end, and ctrl-d only counts on an empty line
+	p[0] = ctrlD
+	if s.last != '\n' && s.last != '\r' && s.last != ctrlD {
+		p[0] = '\n'
+	}
+	s.last = p[0]
+	return 1, nil
+}
+
 // Line implements LineEditor.Line
 func (r readlineEditor) Line(prompt string) (string, error) {
 	if r.currentPrompt != prompt || r.promptNeedsReset {
-- 
2.43.0


From c37160bd5234aa2ea195fe19e79078383d4f8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 40/68] fix: de-duplicating names never renamed anything

---
 blobformat/blobs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index e12c5e7..0cdb21e 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -80,7 +80,7 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, name)
 	}
 
 	return renames, nil
-- 
2.43.0


From a8256a172c47110f6838160ce7852d7d5731efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 41/68] fix: forks that begin and end alike were taken for the
 same log and never merged

---
 sync.go          | 19 ++++++++++++++++---
 txlogs/txlogs.go | 22 ++++++++++++++--------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/sync.go b/sync.go
index d3d3df2..882598b 100644
--- a/sync.go
+++ b/sync.go
@@ -128,9 +128,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) != 0 && len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if len(log) != 0 && sameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
@@ -214,6 +212,21 @@ Syncs:
 	return nil
 }
 
+// sameLog checks if two logs hold the same transactions in the same order
+func sameLog(a, b []txlogs.Tx) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry, ok := store.Snapshot[uuid]
diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index c976468..9db3d59 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -343,14 +343,20 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		return a, nil
 	}
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
-		return a, nil
+	if lena == lenb {
+		// These are the same list of events if all their unique IDs are the
+		// same. Comparing the ends alone is not enough: forks that have been
+		// merged with the same third log can begin and end alike.
+		same := true
+		for i := range a {
+			if a[i].Time != b[i].Time {
+				same = false
+				break
+			}
+		}
+		if same {
+			return a, nil
+		}
 	}
 
 	most := lena
-- 
2.43.0


From ecfacd6821aee10664b806160dfa26b9e9a18a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 42/68] fix: with several remotes, credentials taken from one
 were forgotten when merging the next

---
 merging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/merging.go b/merging.go
index ef47e33..a805312 100644
--- a/merging.go
+++ b/merging.go
@@ -77,8 +77,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -96,7 +96,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -106,20 +106,20 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
-- 
2.43.0


From 5f4a206f2fd7a5e60e12b1d309521c36e726be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 43/68] fix: nobody could open the file after two copies both
 added their first user

---
 uicontext.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/uicontext.go b/uicontext.go
index 5750696..54ded6f 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -51,7 +51,33 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 		panic(err)
 	}
 
+	// A merge can leave several entries with our name, and the keys in some of
+	// them may be for another master key. There's one slot for a name in the
+	// file, so it has to be made for the key that we have.
+	twins := 0
+	for _, name := range users {
+		if blobformat.SplitUsername(name) == u.user {
+			twins++
+		}
+	}
+
 	index := 0
+	if twins > 1 {
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, u.key, u.master)
+		if err != nil {
+			return nil, err
+		}
+
+		username := sha256.Sum256([]byte(u.user))
+		p.Users = append(p.Users, username[:])
+		p.Keys = append(p.Keys, u.key)
+		p.Salts = append(p.Salts, u.salt)
+		p.IVs = append(p.IVs, iv)
+		p.MKeys = append(p.MKeys, mkey)
+		p.NUsers++
+		index++
+	}
+
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
 		if len(name) == 0 {
@@ -59,6 +85,10 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 			continue
 		}
 
+		if twins > 1 && name == u.user {
+			continue
+		}
+
 		username := sha256.Sum256([]byte(name))
 
 		blob, err := u.store.MustFind(uuid)
-- 
2.43.0


From 89f9b90f2aae096d30d551f428898a430a0be92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 44/68] fix: accepting a password that could not be generated
 stored an empty one

---
 uihelpers.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..727b68c 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -238,20 +238,20 @@ func (u *uiContext) getPassword() (string, error) {
 	}
 	help()
 
-	var err error
+	var err, genErr error
 	var choice, password string
 	regen := true
 	for {
 		if regen {
-			password, err = genPassword(length, upper, lower, number, basic, extra)
-			if err == errPasswordImpossible {
+			password, genErr = genPassword(length, upper, lower, number, basic, extra)
+			if genErr == errPasswordImpossible {
 				errColor.Println("Could not generate password with these requirements")
-			} else if err != nil {
-				return "", err
+			} else if genErr != nil {
+				return "", genErr
 			}
 		}
 
-		if err == nil {
+		if genErr == nil {
 			fmt.Fprintln(u.out, promptColor.Sprint("password:"), passColor.Sprint(password))
 		}
 
@@ -266,6 +266,9 @@ func (u *uiContext) getPassword() (string, error) {
 		switch {
 		case choice == "":
 			// Just regen
+		case genErr != nil && (choice == "y" || splits[0] == "c"):
+			errColor.Println("There is no password, change the requirements")
+			regen = false
 		case choice == "y":
 			return password, nil
 		case choice == "m":
-- 
2.43.0


From f4c845bd154d38b66f08e78f7c323821feead492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 45/68] fix: a missing remote file was not recognised when the
 server hung up first

---
 scpsync/scpsync.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 07cc69f..2c9de96 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -327,8 +327,9 @@ func readResponse(stream io.Reader) error {
 // IsNotFoundErr checks to see if the error was a file not found error
 // from the server.
 func IsNotFoundErr(err error) bool {
-	e, ok := err.(Err)
-	if !ok {
+	// The error is wrapped when closing the connection fails as well
+	var e Err
+	if !errors.As(err, &e) {
 		return false
 	}
 
-- 
2.43.0


From 98aa6773fac1fb329fc63ec67c7e3dfbc311b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 46/68] fix: an upload was taken for a success when the server
 reported a failure after its first response

---
 scpsync/scpsync.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 2c9de96..6fa72d7 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -169,6 +169,15 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
+	// There's a response to each step of the transfer, only one of them has
+	// been read and any of those that follow can report a failure.
+	for err == nil {
+		err = readResponse(read)
+	}
+	if err != io.EOF {
+		return err
+	}
+
 	if err = session.Wait(); err != nil {
 		return fmt.Errorf("failed to wait for scp: %w", err)
 	}
@@ -309,18 +318,25 @@ func readResponse(stream io.Reader) error {
 		return errors.New("failed to read a response byte")
 	}
 
-	switch response[0] {
-	case 0:
+	// There may be several responses at once
+	response = response[:nRead]
+	for len(response) > 0 && response[0] == 0 {
+		response = response[1:]
+	}
+	if len(response) == 0 {
 		return nil
+	}
+
+	switch response[0] {
 	case 1, 2:
 		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
+		if len(response) > 2 {
+			e.Msg = string(response[1:])
 		}
 		e.Code = int(response[0])
 		return e
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", response)
 	}
 }
 
-- 
2.43.0


From 93bd313abf76ac3acd86f19773bed9b4a0499311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 47/68] fix: an absolute path given to addsync scp was taken
 relative to the home directory

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 9c9e95d..a12e15b 100644
--- a/commands.go
+++ b/commands.go
@@ -423,7 +423,8 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	uri.Scheme = syncSCP
 	uri.User = url.User(user)
 	uri.Host = net.JoinHostPort(host, port)
-	uri.Path = file
+	// The slash before the path is not a part of it, absolute paths have another
+	uri.Path = "/" + file
 
 	promptColor.Println("Key type:")
 	choice, err := u.getMenuChoice(promptColor.Sprint("> "), []string{"ED25519", "RSA 4096", "Password"})
-- 
2.43.0


From 3cfa797f126da55716fdf200b6e3284bce47d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 48/68] fix: a finished download failed when the server hung up
 before the client did

---
 scpsync/scpsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 6fa72d7..3f064bb 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -107,7 +107,8 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, err
 	}
 
-	if err = write.Close(); err != nil {
+	// The server may have hung up already, it has nothing left to do
+	if err = write.Close(); err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to close write stream: %w", err)
 	}
 
-- 
2.43.0


From 01b5ef6705d7d6d5ef19a81b63c8ed0fb0d1fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 49/68] fix: edit went on with a part of the value when the tmp
 file could not hold it

---
 commands.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/commands.go b/commands.go
index a12e15b..c7e1ccf 100644
--- a/commands.go
+++ b/commands.go
@@ -910,13 +910,7 @@ func (u *uiContext) edit(search, key string) error {
 		}
 	}()
 
-	// Write the old value
 	oldValue := blob[key]
-	if len(oldValue) != 0 {
-		if _, err = io.WriteString(tmp, oldValue); err != nil {
-			errColor.Println("failed to write to tmp file")
-		}
-	}
 	maxLen := len(oldValue)
 
 	// At this point, we want to ensure that we wipe the file of any
@@ -937,6 +931,14 @@ func (u *uiContext) edit(search, key string) error {
 		}
 	}()
 
+	// Write the old value
+	if len(oldValue) != 0 {
+		if _, err = io.WriteString(tmp, oldValue); err != nil {
+			errColor.Println("failed to write to tmp file")
+			return nil
+		}
+	}
+
 	if err = tmp.Close(); err != nil {
 		errColor.Println("failed to close file:", err)
 		return nil
-- 
2.43.0


From deaf693f55389675a566d7afa9a56f05b80e49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 50/68] fix: edit claimed to have stored bytes that are not
 UTF-8 but saved something else

---
 commands.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/commands.go b/commands.go
index c7e1ccf..01a1369 100644
--- a/commands.go
+++ b/commands.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -980,6 +981,12 @@ func (u *uiContext) edit(search, key string) error {
 		maxLen = len(newValue)
 	}
 
+	// The database holds text, anything else would be altered when saved
+	if !utf8.Valid(newValue) {
+		errColor.Println("value is not valid UTF-8, not saving value")
+		return nil
+	}
+
 	if len(newValue) == 0 {
 		if err := u.store.DeleteKey(uuid, key); err != nil {
 			errColor.Println(err)
-- 
2.43.0


From 1c3ef9a5cce83e03a5c0ad1423934764996b0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 51/68] fix: a two factor key without a secret gave codes of an
 empty secret

---
 blobformat/blob.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 48473af..d568c72 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -65,6 +65,10 @@ func (b Blob) TwoFactor() (string, error) {
 		return "", fmt.Errorf("two factor key for %s was not a totp key", b.Name())
 	}
 
+	if len(strings.TrimSpace(key.Secret())) == 0 {
+		return "", fmt.Errorf("two factor key for %s has no secret", b.Name())
+	}
+
 	opts := totp.ValidateOpts{
 		Period:    uint(key.Period()),
 		Digits:    otp.DigitsSix,
-- 
2.43.0


From 8cbdda7d118f3df3ba13516dd73fc1ec07643280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 52/68] fix: hung after the passphrase when pinentry waited for
 the end of its input

---
 pinentry/pinentry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index 9c1dac6..e39fc83 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"strings"
@@ -138,6 +139,10 @@ func Password(prompt string) (password string, err error) {
 
 	mustWrite(fmt.Fprintln(in, "BYE"))
 
+	// Some programs only end with their input, or with all their output read
+	in.Close()
+	io.Copy(ioutil.Discard, out)
+
 	if err = cmd.Wait(); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 8757abcfb7a68b4d68401e9bf9da9695b7591204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 53/68] fix: a line break in a file's name broke the pinentry
 dialogue

---
 pinentry/pinentry.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index e39fc83..b835d6c 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -25,6 +25,12 @@ var (
 		"pinentry-tty",
 	}
 
+	pinEntryEscape = strings.NewReplacer(
+		"%", "%25",
+		"\r", "%0D",
+		"\n", "%0A",
+	)
+
 	pinEntryReplace = strings.NewReplacer(
 		"%25", "%",
 		"%0D", "\r",
@@ -103,7 +109,7 @@ func Password(prompt string) (password string, err error) {
 
 	setup := []string{
 		fmt.Sprintf("SETTITLE %s\n", "Bpass password entry"),
-		fmt.Sprintf("SETDESC %s\n", prompt),
+		fmt.Sprintf("SETDESC %s\n", pinEntryEscape.Replace(prompt)),
 		fmt.Sprintf("OPTION lc-ctype %s\n", "UTF-8"),
 	}
 	if term := os.Getenv("TERM"); len(term) != 0 {
-- 
2.43.0


From b39cf80cf8b6641eaa9da7ae6d573c18aa4d5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 54/68] fix: passphrases with other percent escapes from
 pinentry were misread

---
 pinentry/pinentry.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index b835d6c..1768922 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -3,6 +3,7 @@ package pinentry
 
 import (
 	"bufio"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io"
@@ -31,12 +32,6 @@ var (
 		"\n", "%0A",
 	)
 
-	pinEntryReplace = strings.NewReplacer(
-		"%25", "%",
-		"%0D", "\r",
-		"%0A", "\n",
-	)
-
 	cachedPinEntry string
 )
 
@@ -153,7 +148,28 @@ func Password(prompt string) (password string, err error) {
 		return "", err
 	}
 
-	return pinEntryReplace.Replace(password), nil
+	return unescape(password)
+}
+
+// unescape the %XX sequences of assuan data lines
+func unescape(s string) (string, error) {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '%' {
+			b.WriteByte(s[i])
+			continue
+		}
+		if i+2 >= len(s) {
+			return "", errors.New("rogue pinentry program")
+		}
+		c, err := hex.DecodeString(s[i+1 : i+3])
+		if err != nil {
+			return "", errors.New("rogue pinentry program")
+		}
+		b.Write(c)
+		i += 2
+	}
+	return b.String(), nil
 }
 
 func mustWrite(_ int, err error) {
-- 
2.43.0


From a8254da41677fbfcd65c7835a35e31da15d50ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 55/68] fix: a passphrase could end up in the history of the
 commands

---
 readline.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index b4aa6c1..d69872e 100644
--- a/readline.go
+++ b/readline.go
@@ -114,7 +114,13 @@ func (r readlineEditor) Line(prompt string) (string, error) {
 
 // LineHidden implements LineEditor.LineHidden
 func (r readlineEditor) LineHidden(prompt string) (string, error) {
-	byt, err := r.instance.ReadPassword(prompt)
+	// The library would save the line to whichever history is current by the
+	// time it gets there, which can be that of the commands.
+	cfg := r.instance.GenPasswordConfig()
+	cfg.Prompt = prompt
+	cfg.DisableAutoSaveHistory = true
+
+	byt, err := r.instance.ReadPasswordWithConfig(cfg)
 	switch err {
 	case nil:
 		return string(byt), nil
-- 
2.43.0


From bc2814ba8c77db87c8acd9b19d319a86ca7f8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 56/68] fix: blanks entered in the password wizard crashed the
 session

---
 uihelpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uihelpers.go b/uihelpers.go
index 727b68c..4b908a1 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -264,7 +264,7 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
 		case genErr != nil && (choice == "y" || splits[0] == "c"):
 			errColor.Println("There is no password, change the requirements")
-- 
2.43.0


From aef934f4cb455f424eb8de6ebc46af77e2ca2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 57/68] fix: rekey after a sync brought back the passphrase
 changed elsewhere

---
 merging.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/merging.go b/merging.go
index a805312..d1c1fdf 100644
--- a/merging.go
+++ b/merging.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bytes"
+	"encoding/hex"
 	"errors"
 	"time"
 
@@ -189,6 +190,19 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			}
 		}
 
+		if !takeRemoteCreds && len(m.Master) != 0 && m.User == r.Creds.User && bytes.Equal(m.Master, r.Params.Master) {
+			// Our own passphrase may have changed, we can see whose is current
+			// by looking at which salt ends up in the merged log
+			store := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			_, user, err := store.FindUser(m.User)
+			if err != nil {
+				return m, err
+			}
+
+			salt := r.Params.Salts[r.Params.User]
+			takeRemoteCreds = !bytes.Equal(salt, m.Salt) && hex.EncodeToString(salt) == user[blobformat.KeySalt]
+		}
+
 		if takeRemoteCreds {
 			infoColor.Printf("local credentials updated from remote: %q\n", r.Name)
 			m.User, m.Pass = r.Creds.User, r.Creds.Pass
-- 
2.43.0


From 25d9492407582035a5715ab235409982ad244f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 58/68] fix: saving through a symlink whose target did not
 exist replaced the symlink

---
 main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/main.go b/main.go
index 3552ac8..9e43e6a 100644
--- a/main.go
+++ b/main.go
@@ -285,6 +285,18 @@ func writeFile(filename string, data []byte) (err error) {
 	// Replace what a symlink points to, not the symlink
 	if target, err := filepath.EvalSymlinks(filename); err == nil {
 		filename = target
+	} else if os.IsNotExist(err) {
+		// What it points to does not exist yet, create that
+		if target, err := os.Readlink(filename); err == nil {
+			if !filepath.IsAbs(target) {
+				dir, err := filepath.EvalSymlinks(filepath.Dir(filename))
+				if err != nil {
+					return err
+				}
+				target = filepath.Join(dir, target)
+			}
+			return writeFile(target, data)
+		}
 	}
 
 	mode := os.FileMode(0600)
-- 
2.43.0


From 9a53928b4c3cace14e1d0c05d02b59c65d551c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 59/68] fix: saving or pushing to an existing file changed its
 owner and group

---
 main.go                  |  7 ++++++-
 osutil/osutil_darwin.go  | 14 ++++++++++++++
 osutil/osutil_linux.go   | 13 +++++++++++++
 osutil/osutil_windows.go |  3 +++
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9e43e6a..f306b40 100644
--- a/main.go
+++ b/main.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
+	"github.com/aarondl/bpass/osutil"
 	"github.com/aarondl/bpass/txlogs"
 
 	"github.com/aarondl/color"
@@ -300,7 +301,8 @@ func writeFile(filename string, data []byte) (err error) {
 	}
 
 	mode := os.FileMode(0600)
-	if info, err := os.Stat(filename); err == nil {
+	info, err := os.Stat(filename)
+	if err == nil {
 		if !info.Mode().IsRegular() {
 			return ioutil.WriteFile(filename, data, mode)
 		}
@@ -321,6 +323,9 @@ func writeFile(filename string, data []byte) (err error) {
 	if _, err = tmp.Write(data); err != nil {
 		return err
 	}
+	if info != nil {
+		osutil.CopyOwner(tmp, info)
+	}
 	if err = tmp.Chmod(mode); err != nil {
 		return err
 	}
diff --git a/osutil/osutil_darwin.go b/osutil/osutil_darwin.go
index 315bd2b..fbd1837 100644
--- a/osutil/osutil_darwin.go
+++ b/osutil/osutil_darwin.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"syscall"
 )
 
 // OpenURL uses the open program on darwin
@@ -44,3 +45,16 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner gives the file the owner and group in info, as far as the user is
+// allowed to
+func CopyOwner(file *os.File, info os.FileInfo) {
+	stat, ok := info.Sys().(*syscall.Stat_t)
+	if !ok {
+		return
+	}
+
+	if err := file.Chown(int(stat.Uid), int(stat.Gid)); err != nil {
+		_ = file.Chown(-1, int(stat.Gid))
+	}
+}
diff --git a/osutil/osutil_linux.go b/osutil/osutil_linux.go
index 7ee88d1..7ab8825 100644
--- a/osutil/osutil_linux.go
+++ b/osutil/osutil_linux.go
@@ -53,3 +53,16 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner gives the file the owner and group in info, as far as the user is
+// allowed to
+func CopyOwner(file *os.File, info os.FileInfo) {
+	stat, ok := info.Sys().(*syscall.Stat_t)
+	if !ok {
+		return
+	}
+
+	if err := file.Chown(int(stat.Uid), int(stat.Gid)); err != nil {
+		_ = file.Chown(-1, int(stat.Gid))
+	}
+}
diff --git a/osutil/osutil_windows.go b/osutil/osutil_windows.go
index 31fd494..a843bd2 100644
--- a/osutil/osutil_windows.go
+++ b/osutil/osutil_windows.go
@@ -49,3 +49,6 @@ func RunEditor(filename string) error {
 	cmd.Stderr = os.Stderr
 	return cmd.Run()
 }
+
+// CopyOwner does nothing on windows, files get their owner from the folder
+func CopyOwner(file *os.File, info os.FileInfo) {}
-- 
2.43.0


From d6cbd6c456664964e72e7912404dff2a8ca98f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 60/68] fix: giving the default file explicitly opened the file
 in $BPASS

---
 cli.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli.go b/cli.go
index 0b97a9f..3ce65c9 100644
--- a/cli.go
+++ b/cli.go
@@ -40,6 +40,9 @@ func parseCli() {
 	if err == nil && len(homeDir) != 0 {
 		defaultFilePath = filepath.Join(homeDir, defaultFilePath)
 	}
+	if envFile := os.Getenv("BPASS"); len(envFile) != 0 {
+		defaultFilePath = envFile
+	}
 	flagFile = defaultFilePath
 
 	parser := flaggy.NewParser("bpass")
@@ -77,12 +80,6 @@ func parseCli() {
 	parser.AttachSubcommand(exportCmd, 1)
 	parser.Parse()
 
-	if flagFile == defaultFilePath {
-		envFile := os.Getenv("BPASS")
-		if len(envFile) != 0 {
-			flagFile = envFile
-		}
-	}
 	if len(flagTime) != 0 {
 		var err error
 		historyTime, err = time.Parse(historyLayout, flagTime)
-- 
2.43.0


From 63640b14b82e1e88763566abdf9bec030a62f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 61/68] fix: new files named through a linked folder and ..
 were made elsewhere

---
 main.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index f306b40..5a39a63 100644
--- a/main.go
+++ b/main.go
@@ -287,17 +287,23 @@ func writeFile(filename string, data []byte) (err error) {
 	if target, err := filepath.EvalSymlinks(filename); err == nil {
 		filename = target
 	} else if os.IsNotExist(err) {
+		// Cleaning the path could lead elsewhere if a folder is a symlink
+		dir, name := filepath.Split(filename)
+
 		// What it points to does not exist yet, create that
 		if target, err := os.Readlink(filename); err == nil {
 			if !filepath.IsAbs(target) {
-				dir, err := filepath.EvalSymlinks(filepath.Dir(filename))
-				if err != nil {
-					return err
-				}
-				target = filepath.Join(dir, target)
+				target = dir + target
 			}
 			return writeFile(target, data)
 		}
+
+		if len(dir) != 0 {
+			if dir, err = filepath.EvalSymlinks(dir); err != nil {
+				return err
+			}
+			filename = filepath.Join(dir, name)
+		}
 	}
 
 	mode := os.FileMode(0600)
-- 
2.43.0


From abb99554490a3471b3f2674509929a2f7585345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 62/68] fix: what was typed at a hidden prompt could come back
 from the command history

After a search the history of the line editor shares memory with the line being
edited, so the start of a password typed later ended up in it. Restore the
history from a separate copy for every prompt.
---
 readline.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/readline.go b/readline.go
index d69872e..e946668 100644
--- a/readline.go
+++ b/readline.go
@@ -24,15 +24,22 @@ type readlineEditor struct {
 	promptNeedsReset bool
 	instance         *readline.Instance
 	out              io.Writer
+
+	// history is what the library's history is restored to for every prompt.
+	// After a search its copy shares memory with the line being edited, so that
+	// anything typed later could end up in it, even at a hidden prompt.
+	history *[]string
 }
 
+const historyLimit = 1000
+
 func newReadlineEditor(out io.Writer, fn completer) (readlineEditor, error) {
 	instance, err := readline.NewEx(readlineConfig(out, fn))
 	if err != nil {
 		return readlineEditor{}, err
 	}
 
-	return readlineEditor{instance: instance, out: out}, nil
+	return readlineEditor{instance: instance, out: out, history: new([]string)}, nil
 }
 
 func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
@@ -47,7 +54,7 @@ func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 		AutoComplete: completer,
 
 		HistoryFile:            "",
-		HistoryLimit:           1000,
+		HistoryLimit:           historyLimit,
 		DisableAutoSaveHistory: true,
 
 		InterruptPrompt: "interrupt",
@@ -98,6 +105,11 @@ func (r readlineEditor) Line(prompt string) (string, error) {
 		r.instance.SetPrompt(prompt)
 	}
 
+	r.instance.ResetHistory()
+	for _, line := range *r.history {
+		r.saveHistory(line)
+	}
+
 	s, err := r.instance.Readline()
 	switch err {
 	case nil:
@@ -136,6 +148,13 @@ func (r readlineEditor) LineHidden(prompt string) (string, error) {
 
 // AddHistory adds a line to history
 func (r readlineEditor) AddHistory(line string) {
+	*r.history = append(*r.history, line)
+	if n := len(*r.history) - historyLimit; n > 0 {
+		*r.history = (*r.history)[n:]
+	}
+}
+
+func (r readlineEditor) saveHistory(line string) {
 	err := r.instance.SaveHistory(line)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, "failed to save history line:", err)
-- 
2.43.0


From 7afef7d0ef9faa76f2662625742f6f822dc719d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 63/68] fix: listing completions of something with wide
 characters crashed the program

The line editor leaves one column for each rune that has been typed and panics
on the negative padding of wider ones, losing the session.
---
 readline.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index e946668..d3ae57c 100644
--- a/readline.go
+++ b/readline.go
@@ -45,7 +45,7 @@ func newReadlineEditor(out io.Writer, fn completer) (readlineEditor, error) {
 func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 	var completer readline.AutoCompleter
 	if entryCompleter != nil {
-		completer = readlineAutocompleter(entryCompleter)
+		completer = listCompleter{readlineAutocompleter(entryCompleter)}
 	}
 
 	return &readline.Config{
@@ -184,6 +184,22 @@ func entryCompleter(u *uiContext) func(string) []string {
 	}
 }
 
+// listCompleter keeps the library from crashing when it lists completions of
+// something wide: it leaves one column for each rune that has been typed. It
+// shows only the rest of the completions in that case.
+type listCompleter struct {
+	readline.AutoCompleter
+}
+
+// Do implements readline.AutoCompleter.Do
+func (l listCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
+	newLine, length = l.AutoCompleter.Do(line, pos)
+	if (readline.Runes{}).WidthAll(line[pos-length:pos]) > length {
+		length = 0
+	}
+	return newLine, length
+}
+
 func readlineAutocompleter(entryCompleter func(string) []string) readline.AutoCompleter {
 	return readline.NewPrefixCompleter(
 		readline.PcItem("passwd"),
-- 
2.43.0


From 7345104a13db0b102646bea9182c0545815b257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 64/68] fix: a sync did not name the users whom the remote's
 full rekey locked out

---
 merging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merging.go b/merging.go
index d1c1fdf..736f6ef 100644
--- a/merging.go
+++ b/merging.go
@@ -125,7 +125,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
-- 
2.43.0


From 220521a13ad474e0081cbc7bcb42170969635782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:27 +0000
Subject: [PATCH 65/68] fix: a sync that moved a remote overwrote the store at
 its new url without having merged it

---
 sync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync.go b/sync.go
index 882598b..783dd77 100644
--- a/sync.go
+++ b/sync.go
@@ -71,6 +71,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	urls := make(map[string]string)
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -79,6 +80,7 @@ Syncs:
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("pull:", name)
+		urls[uuid] = entry[blobformat.KeyURL]
 
 		ct, hostentry, err := pullBlob(u, uuid)
 
@@ -193,6 +195,12 @@ Syncs:
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		// The merge may have moved the remote, what's there has not been merged
+		if entry != nil && entry[blobformat.KeyURL] != urls[uuid] {
+			infoColor.Printf("skip: %s (its url has changed, sync again)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
-- 
2.43.0


From 0c33ad97cff810b5980f25c699621d9c66ebb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:24 +0000
Subject: [PATCH 66/68] fix: a signal while an editor ran left the value behind
 in its temporary file

---
 commands.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/commands.go b/commands.go
index 01a1369..3d558a9 100644
--- a/commands.go
+++ b/commands.go
@@ -17,10 +17,12 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"os/signal"
 	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
+	"syscall"
 	"time"
 	"unicode"
 	"unicode/utf8"
@@ -873,7 +875,28 @@ func (u *uiContext) set(search, key, value string) error {
 	return nil
 }
 
+// edit a value in an external editor. A signal must not end the program before
+// the editor's file has been wiped and removed, and one that is meant for the
+// editor (ctrl-c) must not end it at all.
 func (u *uiContext) edit(search, key string) error {
+	signals := make(chan os.Signal, 16)
+	signal.Notify(signals, os.Interrupt, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGTERM)
+	err := u.editValue(search, key)
+	signal.Stop(signals)
+
+	for {
+		select {
+		case s := <-signals:
+			if s == syscall.SIGHUP || s == syscall.SIGTERM {
+				return ErrInterrupt
+			}
+		default:
+			return err
+		}
+	}
+}
+
+func (u *uiContext) editValue(search, key string) error {
 	uuid, err := u.findOne(search)
 	if err != nil {
 		return err
-- 
2.43.0


From 78922de6027b2224831f40c941319dbfa7f9579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:31 +0000
Subject: [PATCH 67/68] fix: a label with a comma was added as several labels,
 duplicates among them

---
 commands.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commands.go b/commands.go
index 3d558a9..2292e99 100644
--- a/commands.go
+++ b/commands.go
@@ -1332,6 +1332,10 @@ func validateLabel(labels []string, label string) bool {
 		} else if unicode.IsUpper(c) {
 			errColor.Println("Labels cannot contain uppercase")
 			return false
+		} else if c == ',' {
+			// Labels are stored separated by commas
+			errColor.Println("Labels cannot contain commas")
+			return false
 		}
 	}
 
-- 
2.43.0


From 51b5e9b405078b13fab231b9fb65e24ecc32d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:14 +0000
Subject: [PATCH 68/68] fix: an export with every password could be read by
 other users

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index a41144a..ab64fce 100644
--- a/export.go
+++ b/export.go
@@ -33,7 +33,7 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
-	f, err := os.Create(flagExportFilename)
+	f, err := os.OpenFile(flagExportFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-- 
2.43.0

