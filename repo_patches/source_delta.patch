From 07a7ee7fcf10117173602bd7218d94cfa83ed05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 01/67] fix: pkcs7.Unpad accepted inputs ending in a zero byte
 as padded

---
 pkcs7/pad.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..f9e6479 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,7 +63,8 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
-	if int(padBytes) > len(b) {
+	// Padding is always at least one byte long, so a zero can never be valid
+	if padBytes == 0 || int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
 
-- 
2.43.0


From 94268a78e1dfdf496e143a8b7d5df6239bea3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 02/67] fix: fuzzy.Match skipped wrong number of bytes on
 invalid UTF-8 and rejected matches by byte length

---
 fuzzy/fuzzy.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..67a8870 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,13 +13,7 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
+	if s == search {
 		return true
 	}
 
@@ -28,7 +22,10 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				// An invalid encoding occupies a single byte, so the width
+				// cannot be derived from the rune itself.
+				_, width := utf8.DecodeRuneInString(s[i:])
+				s = s[i+width:]
 				continue Search
 			}
 		}
-- 
2.43.0


From a7546fcf23cc04ae663039fec04204c04bfd304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 03/67] fix: genPassword crashed on lengths that are multiples
 of 256, negative lengths and overflowing minimums, and shuffled long
 passwords incompletely

---
 passwd_gen.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..03dd938 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"crypto/rand"
+	"encoding/binary"
 	"errors"
 )
 
@@ -18,25 +19,36 @@ var (
 )
 
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length < 0 {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
+	anyAllowed := false
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i >= 0 {
+			anyAllowed = true
+		}
 		if i > 0 {
+			// Compare against what remains so the sum cannot overflow
+			if i > length-needLen {
+				return "", errPasswordImpossible
+			}
 			needLen += i
 		}
 	}
 
-	if needLen > length {
+	randomPicks := length - needLen
+	if randomPicks > 0 && !anyAllowed {
 		return "", errPasswordImpossible
 	}
 
-	randomPicks := length - needLen
-
 	// offset is the offset in the password
 	offset := 0
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+(length*4))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -75,10 +87,6 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 		}
 	}
 
-	if randomPicks > 0 && len(pairs) == 0 {
-		return "", errPasswordImpossible
-	}
-
 	for i := randomPicks; i > 0; i-- {
 		ln := byte(len(pairs))
 		p := pairs[entropy[eOffset]%ln]
@@ -92,9 +100,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := binary.BigEndian.Uint32(entropy[eOffset:]) % uint32(length)
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 4
 	}
 
 	return string(password), nil
-- 
2.43.0


From 0104c4e482eb802f871fd8f6bbe7070365c7914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 04/67] fix: opening a truncated, damaged or hostile file
 panicked instead of returning an error

---
 crypt/crypto.go    | 11 +++++++++--
 crypt/crypto_v1.go | 27 ++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..6abceeb 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
@@ -291,6 +295,9 @@ func makeCiphers(key []byte, suite []cipherAlg) ([]cipher.Block, error) {
 	var blocks []cipher.Block
 	offset := 0
 	for _, c := range suite {
+		if len(key) < offset+c.KeySize {
+			return nil, ErrInvalidKey
+		}
 		block, err := c.CTOR(key[offset : offset+c.KeySize])
 		if err != nil {
 			return nil, err
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..3710557 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -210,7 +210,7 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 
 	var nUsers int
 	i, err := strconv.ParseInt(string(nUserBytes), 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return p, nil, ErrInvalidFileFormat
 	}
 
@@ -231,6 +231,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, err
 	}
 
+	if len(encrypted) < magicLen+c.saltSize+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	// Pull salt out and derive key
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
@@ -266,6 +270,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +284,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -307,6 +319,11 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 }
 
 func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted []byte) (p Params, plaintext []byte, err error) {
+	headerSize := magicLen + nUsers*(sha256.Size+c.saltSize+c.blockSize+c.keySize) + c.blockSize
+	if len(encrypted) < headerSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	p.NUsers = nUsers
 	p.User = -1
 
@@ -418,6 +435,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -428,6 +449,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
-- 
2.43.0


From ab8ceabe0db400ffe1f1684df9431b6737ec26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 05/67] fix: a user who is not in a multi-user file was checked
 against the first user's record

---
 crypt/crypto_v1.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 3710557..3e56de8 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -354,15 +354,15 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		plaintextHeader = plaintextHeader[c.keySize:]
 	}
 
-	if p.User < 0 {
+	knownUser := p.User >= 0
+	if !knownUser {
 		// Here we could return ErrUnknownUser, but this is bad
 		// for security, lets just create some 0 bytes for the headers etc
 		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = nUsers
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -458,11 +458,11 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
-	if !bytes.Equal(shaSum, oldHash) {
+	if !knownUser || !bytes.Equal(shaSum, oldHash) {
 		return p, nil, ErrWrongPassphrase
 	}
 
-- 
2.43.0


From 4928e82fc55cf0d4fb6740476d9e15465861885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 06/67] fix: encrypting a multi-user file without a master key
 or its iv panicked instead of asking for a full rekey

---
 crypt/crypto.go    | 1 +
 crypt/crypto_v1.go | 4 ++++
 crypt/params.go    | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index 6abceeb..251780f 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -33,6 +33,7 @@ const (
 	magicStr = "blobpass"
 
 	maxVersion = 9999
+	maxUsers   = 9999
 )
 
 // v0Header is a special case
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 3e56de8..5fc0052 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -97,6 +97,10 @@ func encryptV1Single(c config, p *Params, plaintext []byte) (encrypted []byte, e
 }
 
 func encryptV1Multi(c config, p *Params, plaintext []byte) (encrypted []byte, err error) {
+	if len(p.Master) == 0 || len(p.IVM) == 0 {
+		return nil, ErrNeedFullRekey
+	}
+
 	cipherSuite, err := cipherSuite(c)
 	if err != nil {
 		return nil, err
diff --git a/crypt/params.go b/crypt/params.go
index d544ce7..c3f8a18 100644
--- a/crypt/params.go
+++ b/crypt/params.go
@@ -72,6 +72,9 @@ func (p Params) validate(c config) error {
 	if p.NUsers == 0 {
 		return nil
 	}
+	if p.NUsers > maxUsers {
+		return fmt.Errorf("a file can have at most %d users", maxUsers)
+	}
 
 	if len(p.Keys) != p.NUsers {
 		return errors.New("each user must have a key")
-- 
2.43.0


From 3d6cd40ee34622b63641f2e0f950891494bb9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 07/67] fix: receiving a file whose announced length is
 negative panicked

---
 scpsync/scpsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..695eecb 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -260,6 +260,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	length, err := strconv.ParseInt(fields[1], 10, 32)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
+	} else if length < 0 {
+		return file, fmt.Errorf("length is negative: %d", length)
 	}
 
 	// Acknowledge we've received the initial header
-- 
2.43.0


From ba0912ce0d8df699c1ad697b207acd2a3673c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 08/67] fix: sending a file over scp read only one of the
 remote's replies, so a refused header went unnoticed and one-byte messages
 were lost

---
 scpsync/scpsync.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 695eecb..5c9f4a9 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -35,7 +35,9 @@
 //
 // And the way it works in sink mode (-t):
 //
+//  scp -t: 0
 //  client: Cmmmm <length> <filename>\n
+//  scp -t: 0
 //  client: DATA (length bytes)
 //  client: 0
 //  scp -t: 0
@@ -200,12 +202,24 @@ func (e Err) Error() string {
 }
 
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
+	reader := bufio.NewReader(stream)
+
+	// The remote says when it is ready to begin
+	if err := readResponse(reader); err != nil {
+		return err
+	}
+
 	// Send header
 	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
 	if err != nil {
 		return fmt.Errorf("failed to send create message: %w", err)
 	}
 
+	// The remote must accept the header before it gets any data
+	if err := readResponse(reader); err != nil {
+		return err
+	}
+
 	// Copy the data
 	n, err := io.Copy(stream, file)
 	if err != nil {
@@ -219,7 +233,7 @@ func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, m
 		return err
 	}
 
-	return readResponse(stream)
+	return readResponse(reader)
 }
 
 func readFile(stream io.ReadWriter) (file scpFile, err error) {
@@ -299,28 +313,22 @@ func sendOKResponse(stream io.Writer) error {
 	return err
 }
 
-func readResponse(stream io.Reader) error {
-	// Get the response
-	response := make([]byte, 256)
-	nRead, err := stream.Read(response)
+func readResponse(reader *bufio.Reader) error {
+	code, err := reader.ReadByte()
 	if err != nil {
-		return err
-	} else if nRead == 0 {
-		return errors.New("failed to read a response byte")
+		return fmt.Errorf("failed to read a response byte: %w", err)
 	}
 
-	switch response[0] {
+	switch code {
 	case 0:
 		return nil
 	case 1, 2:
-		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
-		}
-		e.Code = int(response[0])
-		return e
+		// The message may be cut short by the remote hanging up, report what
+		// there is
+		msg, _ := reader.ReadString('\n')
+		return Err{Code: int(code), Msg: msg}
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", code)
 	}
 }
 
-- 
2.43.0


From 662fa72c6fcf169fa27bd2c17a6c1ac0b95cc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 09/67] fix: pinentry prompts with a percent sign or line break
 broke the protocol, and lowercase escapes in replies were not undone

---
 pinentry/pinentry.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index d785262..77d55f9 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -27,7 +27,15 @@ var (
 	pinEntryReplace = strings.NewReplacer(
 		"%25", "%",
 		"%0D", "\r",
+		"%0d", "\r",
 		"%0A", "\n",
+		"%0a", "\n",
+	)
+
+	pinEntryEscape = strings.NewReplacer(
+		"%", "%25",
+		"\r", "%0D",
+		"\n", "%0A",
 	)
 
 	cachedPinEntry string
@@ -102,21 +110,21 @@ func Password(prompt string) (password string, err error) {
 
 	setup := []string{
 		fmt.Sprintf("SETTITLE %s\n", "Bpass password entry"),
-		fmt.Sprintf("SETDESC %s\n", prompt),
+		fmt.Sprintf("SETDESC %s\n", pinEntryEscape.Replace(prompt)),
 		fmt.Sprintf("OPTION lc-ctype %s\n", "UTF-8"),
 	}
 	if term := os.Getenv("TERM"); len(term) != 0 {
-		setup = append(setup, fmt.Sprintf("OPTION ttytype %s\n", term))
+		setup = append(setup, fmt.Sprintf("OPTION ttytype %s\n", pinEntryEscape.Replace(term)))
 	}
 	if display := os.Getenv("DISPLAY"); len(display) != 0 {
-		setup = append(setup, fmt.Sprintf("OPTION display %s\n", display))
+		setup = append(setup, fmt.Sprintf("OPTION display %s\n", pinEntryEscape.Replace(display)))
 	}
 
 	for _, s := range setup {
 		mustWrite(in.Write([]byte(s)))
 
-		if getLine() != "OK" {
-			return "", fmt.Errorf("failed setting option (%s): %w", s, err)
+		if resp := getLine(); resp != "OK" {
+			return "", fmt.Errorf("failed setting option (%s): %s", strings.TrimSpace(s), resp)
 		}
 	}
 
-- 
2.43.0


From 587387c996808e1ff86f048f99b36330d8ac9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 10/67] fix: rollback keeps a rolled back edit in the snapshot

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..5f87782 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -160,7 +160,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From 556fcd2b22b12f5ef442694c57551d9ac6ff6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 11/67] fix: panic on nested Begin as documented

---
 txlogs/txlogs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5f87782..6a41e82 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -143,6 +143,9 @@ func (s *DB) appendLog(tx Tx) {
 // We add 1 to the length to keep the 0 valid as a "no transaction started"
 // sentinel value.
 func (s *DB) Begin() {
+	if s.txPoint != 0 {
+		panic("begin called with a transaction active")
+	}
 	s.txPoint = len(s.Log) + 1
 }
 
-- 
2.43.0


From fa143f0d6bef204d271f1adf37b0e5ab95c00537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 12/67] fix: refuse negative versions instead of panicking

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 6a41e82..edd6e18 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -234,7 +234,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -253,7 +253,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From c7e2c40242f6aa5b22b5d2cf6d5f1f79ad29e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 13/67] fix: loading a null document gave a nil database

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index edd6e18..3876d58 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -53,7 +53,7 @@ type storeNoSnapshot struct {
 // New takes a json blob and unmarshals it into a DB
 func New(data []byte) (*DB, error) {
 	s := new(DB)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From e13a984d917683f7e64a3c361955da565d842d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 14/67] fix: merge dropped edits of histories that only share
 both ends

---
 txlogs/txlogs.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 3876d58..d9b0b93 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -315,9 +315,6 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
-//
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
 // by timestamp, then by uuid as a fallback in case the changes (unlikely)
@@ -339,16 +336,6 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
-		return a, nil
-	}
-
 	most := lena
 	if lenb > most {
 		most = lenb
-- 
2.43.0


From 63049c0d34b4e6a6d7a8980802aadbcff21fe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 15/67] fix: merge dropped edits made at the same time as
 another

---
 txlogs/tx.go     | 17 +++++++++++++++++
 txlogs/txlogs.go |  4 ++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/txlogs/tx.go b/txlogs/tx.go
index 3aaccf0..ebd4d14 100644
--- a/txlogs/tx.go
+++ b/txlogs/tx.go
@@ -29,6 +29,23 @@ type Tx struct {
 	Value string `msgpack:"value,omitempty" json:"value,omitempty"`
 }
 
+// before orders transactions by time, transactions that happened at the same
+// time are ordered by uuid, and by the rest of their contents after that so
+// the order is the same for everyone.
+func (t Tx) before(other Tx) bool {
+	switch {
+	case t.Time != other.Time:
+		return t.Time < other.Time
+	case t.UUID != other.UUID:
+		return t.UUID < other.UUID
+	case t.Kind != other.Kind:
+		return t.Kind < other.Kind
+	case t.Key != other.Key:
+		return t.Key < other.Key
+	}
+	return t.Value < other.Value
+}
+
 // conflict types
 const (
 	// ConflictKindDeleteSet occurs when an entry has been deleted
diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index d9b0b93..ca93769 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -420,7 +420,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
 				deleted[a[i].UUID] = i
 			}
@@ -448,7 +448,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if a[i].before(b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
-- 
2.43.0


From 3a87ec44c47ca77c5bd24169e4e8da5af9c980fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 16/67] fix: merge conflicts with a shared delete named the
 wrong record

---
 txlogs/txlogs.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index ca93769..f550087 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -421,13 +421,11 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// If ids are the same, append and move on, haven't reached fork
 		if a[i] == b[j] {
-			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
-			}
-
 			c = append(c, a[i])
 			i++
 			j++
+
+			checkConflict()
 			continue
 		}
 
-- 
2.43.0


From ad7eb472c384a90355db863a0fec0ec2a6df5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 17/67] fix: merge confused conflicts of entries deleted at the
 same time

---
 txlogs/txlogs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index f550087..d9b763f 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -365,7 +365,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Initial != c[last] {
 					continue
 				}
 
@@ -386,7 +386,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Initial == deleteTx {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -400,7 +400,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Initial == deleteTx {
 				return
 			}
 		}
-- 
2.43.0


From b7ae0a66a1cd11e3bb16a7a40a6aa08aff54a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 18/67] fix: resolving a delete conflict never ended

---
 merging.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..5161bc7 100644
--- a/merging.go
+++ b/merging.go
@@ -244,7 +244,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -256,7 +256,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
-				for {
+				for resolved := false; !resolved; {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
 						return nil, err
@@ -265,10 +265,10 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						resolved = true
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						resolved = true
 					}
 				}
 			}
-- 
2.43.0


From b33fe86d82ac6af1e42a7e54efec0667e2732e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 19/67] fix: conflict resolutions were forgotten when they
 uncovered another conflict

---
 merging.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/merging.go b/merging.go
index 5161bc7..77f434b 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,11 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	// Resolutions are kept between rounds, applying some of them may uncover
+	// further conflicts.
+	var conflicts, resolutions []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolutions)
 
 		if len(conflicts) == 0 {
 			break
@@ -273,6 +275,8 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 				}
 			}
 		}
+
+		resolutions = append(resolutions, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 0d56b9047bbc62241a61900fb981bb19bf676041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 20/67] fix: entries with user/ inside their name were taken
 for users

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..dd94872 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,12 +494,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 71f1f307ec37cee992be72b2b4e0884ef6b67c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 21/67] fix: removing a label dropped all the others

---
 blobformat/blobs.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index dd94872..fa40a8c 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -440,20 +440,20 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 		return err
 	}
 
-	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	labels := entry.Labels()
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
+	b.touchUpdated(uuid)
 	if len(labels) == 1 {
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
-	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
 	return nil
 }
-- 
2.43.0


From f849a948ddd9eaaf24c8365f03566472713f0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 22/67] fix: label search matched entries with a repeated label

---
 blobformat/blobs.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index fa40a8c..8da6e2a 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -161,9 +161,7 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 				}
 
 				found++
-				if found == len(labels) {
-					break
-				}
+				break
 			}
 		}
 
-- 
2.43.0


From 1a43057ab1960bd8875ef61e1c308af697923409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 23/67] fix: RenameDuplicates never renamed anything

---
 blobformat/blobs.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 8da6e2a..c3230e9 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -50,29 +51,39 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 		return nil, err
 	}
 
+	// Go through the entries in the same order everywhere, so that all copies
+	// of the file end up with the same names.
 	names := make(map[string]struct{})
+	uuids := make([]string, 0, len(b.Snapshot))
+	for uuid, entry := range b.Snapshot {
+		names[Blob(entry).Name()] = struct{}{}
+		uuids = append(uuids, uuid)
+	}
+	sort.Strings(uuids)
+
+	seen := make(map[string]struct{})
 	renames := make(map[string]string)
 
-	for uuid, entry := range b.Snapshot {
-		blob := Blob(entry)
-		name := blob.Name()
+	for _, uuid := range uuids {
+		oldName := Blob(b.Snapshot[uuid]).Name()
 
-		_, ok := names[name]
+		_, ok := seen[oldName]
 		if !ok {
-			names[name] = struct{}{}
+			seen[oldName] = struct{}{}
 			continue
 		}
 
-		oldName := name
+		name := oldName
 		for ok {
 			name = name + "1"
 			_, ok = names[name]
 		}
 
+		names[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, name)
 	}
 
 	return renames, nil
-- 
2.43.0


From 7b4892015981c953b643898fc320f8ed6f8855cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 24/67] fix: a user's key material could be deleted like any
 other key

---
 blobformat/blobs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c3230e9..af2aa58 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -380,9 +380,11 @@ func (b Blobs) Set(uuid, key, value string) error {
 
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
 func (b Blobs) DeleteKey(uuid, key string) error {
-	switch key {
-	case KeyName, KeyUpdated:
-		return keyNotAllowed(key)
+	for _, p := range protectedKeys {
+		// There is no other way to get rid of a two factor key
+		if p != KeyTwoFactor && strings.EqualFold(key, p) {
+			return keyNotAllowed(key)
+		}
 	}
 
 	b.touchUpdated(uuid)
-- 
2.43.0


From 2a0aade09e42b3f14a629d90d9cadd857a707dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 25/67] fix: changing an entry that does not exist made the log
 unusable

---
 blobformat/blobs.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index af2aa58..aadd455 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -373,6 +373,10 @@ func (b Blobs) Set(uuid, key, value string) error {
 		}
 	}
 
+	if err := b.mustExist(uuid); err != nil {
+		return err
+	}
+
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, key, value)
 	return nil
@@ -387,6 +391,10 @@ func (b Blobs) DeleteKey(uuid, key string) error {
 		}
 	}
 
+	if err := b.mustExist(uuid); err != nil {
+		return err
+	}
+
 	b.touchUpdated(uuid)
 	b.DB.DeleteKey(uuid, key)
 	return nil
@@ -419,6 +427,10 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
 	}
 
+	if err := b.mustExist(uuid); err != nil {
+		return err
+	}
+
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyTwoFactor, uri)
 	return nil
@@ -512,6 +524,19 @@ func SplitUsername(entryname string) string {
 	return entryname[len(userPrefix):]
 }
 
+// mustExist returns an error if there's no such entry, recording changes to
+// one would make the log impossible to apply.
+func (b Blobs) mustExist(uuid string) error {
+	blob, err := b.Find(uuid)
+	if err != nil {
+		return err
+	}
+	if blob == nil {
+		return errors.New("uuid not found")
+	}
+	return nil
+}
+
 // touchUpdated refreshes the updated timestamp for the given item
 func (b Blobs) touchUpdated(uuid string) {
 	b.DB.Set(uuid, KeyUpdated, strconv.FormatInt(time.Now().UnixNano(), 10))
-- 
2.43.0


From 8595adddec4f6848951ff090d2a5d1c5673f3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 26/67] fix: labels with commas were stored as several labels

---
 commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commands.go b/commands.go
index b5b025b..d40b877 100644
--- a/commands.go
+++ b/commands.go
@@ -1247,6 +1247,9 @@ func validateLabel(labels []string, label string) bool {
 		} else if unicode.IsUpper(c) {
 			errColor.Println("Labels cannot contain uppercase")
 			return false
+		} else if c == ',' {
+			errColor.Println("Labels cannot contain commas")
+			return false
 		}
 	}
 
-- 
2.43.0


From 1f1539d5290b41551aadc35033fd3e7da50aa69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 27/67] fix: passwd of another user changed the current user's
 passphrase

---
 commands.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/commands.go b/commands.go
index d40b877..bd20f9b 100644
--- a/commands.go
+++ b/commands.go
@@ -64,19 +64,20 @@ func (u *uiContext) passwd(user string) error {
 		return err
 	}
 
-	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
-		u.pass = pass
-		u.key = key
-		u.salt = salt
+	if len(user) == 0 || len(u.master) == 0 {
+		user = u.user
 	}
 
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
+		uuid, _, err := u.store.FindUser(user)
 		if err != nil {
 			return err
 		}
+		if len(uuid) == 0 {
+			errColor.Printf("user %q does not exist\n", user)
+			return nil
+		}
 
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
@@ -88,6 +89,13 @@ func (u *uiContext) passwd(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	// Update our "fast-path" credentials if we're re-doing the current user
+	if user == u.user {
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("passphrase updated, bits will be re-encrypted with it on exit")
 	return nil
 }
-- 
2.43.0


From 48405c1de55e3dce48e9478ec533c407960c32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 28/67] fix: rekey of a named user in a single-user file did
 nothing

---
 commands.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/commands.go b/commands.go
index bd20f9b..c306693 100644
--- a/commands.go
+++ b/commands.go
@@ -151,7 +151,7 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	isCurrentUser := len(user) == 0 || len(u.master) == 0 || user == u.user
 
 	var pass string
 	var err error
@@ -175,13 +175,6 @@ func (u *uiContext) rekey(user string) error {
 		return err
 	}
 
-	if isCurrentUser {
-		// Update fast-path credentials
-		u.pass = pass
-		u.key = key
-		u.salt = salt
-	}
-
 	if len(u.master) != 0 {
 		// If we're multi-user we need to update the corresponding user entry
 		username := u.user
@@ -189,10 +182,14 @@ func (u *uiContext) rekey(user string) error {
 			username = user
 		}
 
-		uuid, _, err := u.store.MustFindUser(username)
+		uuid, _, err := u.store.FindUser(username)
 		if err != nil {
 			return err
 		}
+		if len(uuid) == 0 {
+			errColor.Printf("user %q does not exist\n", username)
+			return nil
+		}
 
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
@@ -204,6 +201,13 @@ func (u *uiContext) rekey(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	if isCurrentUser {
+		// Update fast-path credentials
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("key updated, bits will be re-encrypted with it on exit")
 	return nil
 }
-- 
2.43.0


From a097cdb92a3ad1c286101c1d4155d33751227edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 29/67] fix: rekey in a new file was refused as an empty
 password

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 1bf94b4..4a9ed07 100644
--- a/main.go
+++ b/main.go
@@ -180,6 +180,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From 9de97afab10d2cae7e52b90ae441bb5cde5329b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 30/67] fix: rekeyall locked every user out of the file

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index c306693..cad355c 100644
--- a/commands.go
+++ b/commands.go
@@ -271,7 +271,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 44a6c8812f99117ba4ef4d2e680af416848ca3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 31/67] fix: adduser took an empty password and went on after a
 failed key

---
 commands.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index cad355c..2f61ec3 100644
--- a/commands.go
+++ b/commands.go
@@ -101,12 +101,13 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	uuid, _, err := u.store.FindUser(user)
+	if err != nil {
+		return err
+	}
+	if len(uuid) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
 	var key, salt []byte
@@ -114,7 +115,7 @@ func (u *uiContext) adduser(user string) error {
 	if len(u.master) == 0 {
 		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		u.user = user
@@ -126,6 +127,11 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
@@ -137,6 +143,11 @@ func (u *uiContext) adduser(user string) error {
 		return err
 	}
 
+	uuid, err = u.store.NewUser(user)
+	if err != nil {
+		return err
+	}
+
 	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
 	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
 	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
-- 
2.43.0


From f7037f8fa9954467c21fd1071c6c1e203d14646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 32/67] fix: entries named like users without being one made
 saving fail

---
 uicontext.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/uicontext.go b/uicontext.go
index fee873b..cc59909 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -65,6 +65,11 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 			return nil, errors.New("could not find user we just found")
 		}
 
+		if len(blob[blobformat.KeySalt]) == 0 || len(blob[blobformat.KeyIV]) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			// It was never given a passphrase (see adduser), only the name
+			continue
+		}
+
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
@@ -92,6 +97,14 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 		index++
 	}
 
+	if p.NUsers == 0 {
+		// Nobody is left, same as when the last user is deleted
+		return &crypt.Params{
+			Keys:  [][]byte{u.key},
+			Salts: [][]byte{u.salt},
+		}, nil
+	}
+
 	p.IVM = u.ivm
 	p.Master = u.master
 
-- 
2.43.0


From d6f6fa1c95cef28a32557da8f37bc936772be8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 33/67] fix: after renaming the own user passwd and rekey
 panicked

---
 commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/commands.go b/commands.go
index 2f61ec3..628d92b 100644
--- a/commands.go
+++ b/commands.go
@@ -563,6 +563,12 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if username := blobformat.SplitUsername(src); len(username) != 0 && username == u.user {
+		if username = blobformat.SplitUsername(dst); len(username) != 0 {
+			u.user = username
+		}
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
-- 
2.43.0


From a669621b56c7d13a49686ffbf5762c3efb49b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 34/67] fix: adding a user after the last one was renamed away
 locked the owner out

---
 commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/commands.go b/commands.go
index 628d92b..476e21e 100644
--- a/commands.go
+++ b/commands.go
@@ -566,6 +566,12 @@ func (u *uiContext) rename(src, dst string) error {
 	if username := blobformat.SplitUsername(src); len(username) != 0 && username == u.user {
 		if username = blobformat.SplitUsername(dst); len(username) != 0 {
 			u.user = username
+		} else if users, err := u.store.Users(); err != nil {
+			return err
+		} else if len(users) == 0 {
+			// The file has no users any more, see deleteEntry
+			u.master = nil
+			u.ivm = nil
 		}
 	}
 
-- 
2.43.0


From cbecc5fbb8bb1fd5dbb23dd610cb16fff54e6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 35/67] fix: an entry named user/ made saving fail

---
 uicontext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uicontext.go b/uicontext.go
index cc59909..65dd991 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -55,7 +55,8 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
 		if len(name) == 0 {
-			return nil, errors.New("params name was not a username")
+			// Not a username
+			continue
 		}
 
 		username := sha256.Sum256([]byte(name))
-- 
2.43.0


From 3bb2d46e40b08b14e50b672305245ba9b44bbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 36/67] fix: entries named like users kept a file from becoming
 single-user again

---
 commands.go  |  4 ++--
 uicontext.go | 29 +++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/commands.go b/commands.go
index 476e21e..94ea82f 100644
--- a/commands.go
+++ b/commands.go
@@ -566,7 +566,7 @@ func (u *uiContext) rename(src, dst string) error {
 	if username := blobformat.SplitUsername(src); len(username) != 0 && username == u.user {
 		if username = blobformat.SplitUsername(dst); len(username) != 0 {
 			u.user = username
-		} else if users, err := u.store.Users(); err != nil {
+		} else if users, err := u.users(); err != nil {
 			return err
 		} else if len(users) == 0 {
 			// The file has no users any more, see deleteEntry
@@ -594,7 +594,7 @@ func (u *uiContext) deleteEntry(name string) error {
 		deleteSelf = true
 		// We're trying to delete ourselves!
 		// Disallow this unless we're the last user
-		users, err := u.store.Users()
+		users, err := u.users()
 		if err != nil {
 			return err
 		}
diff --git a/uicontext.go b/uicontext.go
index 65dd991..5c9afa2 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -36,6 +36,25 @@ type uiContext struct {
 	key, salt, master, ivm []byte
 }
 
+// users finds the users that can open the file: entries that merely have a
+// user's name were never given a passphrase (see adduser).
+func (u *uiContext) users() (blobformat.SearchResults, error) {
+	users, err := u.store.Users()
+	if err != nil {
+		return nil, err
+	}
+
+	for uuid, name := range users {
+		blob := u.store.Snapshot[uuid]
+		if len(blobformat.SplitUsername(name)) == 0 ||
+			len(blob[blobformat.KeySalt]) == 0 || len(blob[blobformat.KeyIV]) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			delete(users, uuid)
+		}
+	}
+
+	return users, nil
+}
+
 func (u *uiContext) makeParams() (*crypt.Params, error) {
 	if len(u.master) == 0 {
 		return &crypt.Params{
@@ -46,7 +65,7 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 
 	var p crypt.Params
 
-	users, err := u.store.Users()
+	users, err := u.users()
 	if err != nil {
 		panic(err)
 	}
@@ -55,8 +74,7 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
 		if len(name) == 0 {
-			// Not a username
-			continue
+			return nil, errors.New("params name was not a username")
 		}
 
 		username := sha256.Sum256([]byte(name))
@@ -66,11 +84,6 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 			return nil, errors.New("could not find user we just found")
 		}
 
-		if len(blob[blobformat.KeySalt]) == 0 || len(blob[blobformat.KeyIV]) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
-			// It was never given a passphrase (see adduser), only the name
-			continue
-		}
-
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
-- 
2.43.0


From e4800224986f396fc451f5bb3cbc9ad0ffd1f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 37/67] fix: sync took remotes with other edits for unchanged
 ones

---
 merging.go |  9 +++++++--
 sync.go    | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index 77f434b..6139ade 100644
--- a/merging.go
+++ b/merging.go
@@ -83,8 +83,13 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				var lastTimeLocal, lastTimeRemote int64
+				if len(m.Log) != 0 {
+					lastTimeLocal = m.Log[len(m.Log)-1].Time
+				}
+				if len(r.Log) != 0 {
+					lastTimeRemote = r.Log[len(r.Log)-1].Time
+				}
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
diff --git a/sync.go b/sync.go
index 706fd9b..e6fbf55 100644
--- a/sync.go
+++ b/sync.go
@@ -116,9 +116,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if sameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
@@ -202,6 +200,18 @@ Syncs:
 	return nil
 }
 
+func sameLog(a, b []txlogs.Tx) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry := store.Snapshot[uuid]
-- 
2.43.0


From 24b51e1e6649a8503dc70fdc4f8fb2fe17097246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 38/67] fix: sync did not push to remotes that were unchanged
 themselves

---
 sync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index e6fbf55..154a729 100644
--- a/sync.go
+++ b/sync.go
@@ -66,6 +66,8 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	unchanged := make(map[string]bool)
+	oldLog := u.store.Log
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -118,7 +120,7 @@ Syncs:
 
 		if sameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
-			syncs[i] = ""
+			unchanged[uuid] = true
 			continue
 		}
 
@@ -177,6 +179,10 @@ Syncs:
 			// to push here.
 			continue
 		}
+		if unchanged[uuid] && sameLog(oldLog, u.store.Log) {
+			// It already has everything
+			continue
+		}
 
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
-- 
2.43.0


From 392ce0b61e6b5d1a1c63965a54e26c3fe010d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 39/67] fix: credentials of a second remote were compared with
 the wrong ones

---
 merging.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/merging.go b/merging.go
index 6139ade..af36f21 100644
--- a/merging.go
+++ b/merging.go
@@ -77,8 +77,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -101,7 +101,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -111,25 +111,25 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
-- 
2.43.0


From 0cfd7d26520e2b07c7c2984d75038c87f282c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 40/67] fix: sync recorded hosts of deleted entries

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index 154a729..01c80e8 100644
--- a/sync.go
+++ b/sync.go
@@ -221,6 +221,10 @@ func sameLog(a, b []txlogs.Tx) bool {
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry := store.Snapshot[uuid]
+		if entry == nil {
+			// Deleted by the sync, there is nothing to add it to
+			continue
+		}
 		hosts := entry[blobformat.KeyKnownHosts]
 		if len(hosts) == 0 {
 			store.Set(uuid, blobformat.KeyKnownHosts, hostentry)
-- 
2.43.0


From 00116f4d92be3318b607eddc1f948d80bf277000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 41/67] fix: accepted hosts were forgotten when the sync failed
 later

---
 sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync.go b/sync.go
index 01c80e8..332a6e7 100644
--- a/sync.go
+++ b/sync.go
@@ -135,7 +135,7 @@ Syncs:
 	out, err := mergeBlobs(u, blobs)
 	if err != nil {
 		errColor.Println("aborting sync, failed to merge logs:", err)
-		return nil
+		return saveHosts(u.store.DB, hosts)
 	}
 
 	u.user, u.pass = out.User, out.Pass
@@ -380,7 +380,7 @@ func sshPush(u *uiContext, entry txlogs.Entry, ct []byte) (hostentry string, err
 
 	err = scpsync.Send(address, config, path, 0600, ct)
 	if err != nil {
-		return "", err
+		return asker.newHost, err
 	}
 
 	return asker.newHost, nil
-- 
2.43.0


From 8eb34ccc01938d3cd6eae8790bc9c6265a3d5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 42/67] fix: malformed known hosts crashed sync

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 332a6e7..35894f5 100644
--- a/sync.go
+++ b/sync.go
@@ -448,7 +448,7 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 	for _, h := range knownLines {
 		vals := strings.Split(h, " ")
 
-		if vals[0] != hostname {
+		if len(vals) != 4 || vals[0] != hostname {
 			continue
 		}
 
-- 
2.43.0


From b398cbde1ce11ad95b62b238da47e281b7ce7068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 43/67] fix: sync panicked on urls without a path or that do
 not parse

---
 sync.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 35894f5..39807cb 100644
--- a/sync.go
+++ b/sync.go
@@ -283,8 +283,10 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -397,7 +399,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From 6c2b0aff92e44cbf8529ebd64ba78b990075fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 44/67] fix: failed opens and saves exited with status 0

---
 main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 4a9ed07..43576e4 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,16 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if ctx.in != nil {
+		if closeErr := ctx.in.Close(); closeErr != nil {
+			fmt.Println("failed to close terminal properly:", closeErr)
+			err = closeErr
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 48bb0889d2754b60abd5baabd65516bd4c46ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 45/67] fix: a crash or full disk while saving lost the file

---
 main.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 sync.go |  2 +-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 43576e4..48ff340 100644
--- a/main.go
+++ b/main.go
@@ -273,7 +273,48 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data)
+}
+
+// writeFile replaces the file's content. The new content is complete on disk
+// before it takes the place of the old one, so neither a crash nor a failing
+// write can lose both.
+func writeFile(filename string, data []byte) (err error) {
+	mode := os.FileMode(0600)
+	if real, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = real
+		if info, err := os.Stat(filename); err == nil {
+			mode = info.Mode().Perm()
+		}
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), filepath.Base(filename)+".*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		tmp.Close()
+		return err
+	}
+	if err = tmp.Chmod(mode); err != nil {
+		tmp.Close()
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		tmp.Close()
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), filename)
 }
 
 func shortPath(filename string) string {
diff --git a/sync.go b/sync.go
index 39807cb..aaa0cac 100644
--- a/sync.go
+++ b/sync.go
@@ -319,7 +319,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload)
 	}
 
 	return hostentry, err
-- 
2.43.0


From 2b7cbbb3a2f77741d08134af22cbb5e750165990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 46/67] fix: export left out the changes since the last
 snapshot

---
 export.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index 385f189..6e39da2 100644
--- a/export.go
+++ b/export.go
@@ -10,7 +10,11 @@ import (
 	"golang.org/x/exp/slices"
 )
 
-func export(u *uiContext) error {
+func export(u *uiContext) (err error) {
+	if err = u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
@@ -33,7 +37,11 @@ func export(u *uiContext) error {
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-	defer f.Close()
+	defer func() {
+		if closeErr := f.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("failed to close file (%s): %w", flagExportFilename, closeErr)
+		}
+	}()
 	out := csv.NewWriter(f)
 
 	out.Write(keys)
-- 
2.43.0


From 75a7bfbcd915924406aa83f1969e1dc42956b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 47/67] fix: the header of an import became an entry

---
 import.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import.go b/import.go
index ef60100..6f24d33 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,10 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+			continue
+		}
+		if len(record) != 7 {
+			return errors.New("lastpass csv format not recognized")
 		}
 
 		// Fields:
-- 
2.43.0


From 6d839b8c0d15e8855aa81c978f3bc0666681dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 48/67] fix: messages of lpass were imported as data

---
 import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import.go b/import.go
index 6f24d33..b49fba0 100644
--- a/import.go
+++ b/import.go
@@ -31,7 +31,7 @@ func importLastpass(u *uiContext) error {
 
 	// get data from lpass command line client
 	lpassCmd := exec.Command("lpass", "export", "--color=never")
-	out, err := lpassCmd.CombinedOutput()
+	out, err := lpassCmd.Output()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 511baf62ba798c457e67ad092a08ecd19d1b802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 49/67] fix: edit went on with a value that could not be
 written

---
 commands.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commands.go b/commands.go
index 94ea82f..2cdd8e2 100644
--- a/commands.go
+++ b/commands.go
@@ -908,6 +908,7 @@ func (u *uiContext) edit(search, key string) error {
 	if len(oldValue) != 0 {
 		if _, err = io.WriteString(tmp, oldValue); err != nil {
 			errColor.Println("failed to write to tmp file")
+			return nil
 		}
 	}
 	maxLen := len(oldValue)
-- 
2.43.0


From 08c3cc90c0adcdf1f81c75201a86103be9176584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 50/67] fix: an editor that could not be started ended the
 session without saving

---
 commands.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index 2cdd8e2..77e0375 100644
--- a/commands.go
+++ b/commands.go
@@ -939,11 +939,11 @@ func (u *uiContext) edit(search, key string) error {
 	// Run the editor for the OS and wait until it exits
 	editExit := 0
 	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
+		errColor.Println("failed to run editor:", err)
+		editExit = -1
+		if e, ok := err.(*exec.ExitError); ok {
+			editExit = e.ExitCode()
 		}
-		editExit = e.ExitCode()
 	}
 
 	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
-- 
2.43.0


From 46eabd8469b1daee3b34679d26122ed66c504626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 51/67] fix: refused changes were reported as made

---
 commands.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index 77e0375..d5f5be7 100644
--- a/commands.go
+++ b/commands.go
@@ -829,7 +829,7 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
 	case blobformat.KeyTwoFactor:
 		if err := u.store.SetTwofactor(uuid, value); err != nil {
 			errColor.Println(err)
@@ -857,7 +857,11 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
+	}
+	if err != nil {
+		errColor.Println(err)
+		return nil
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
@@ -969,10 +973,13 @@ func (u *uiContext) edit(search, key string) error {
 
 	if len(newValue) == 0 {
 		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
+		err = u.store.DeleteKey(uuid, key)
 	} else {
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
+		err = u.store.Set(uuid, key, string(newValue))
+	}
+	if err != nil {
+		errColor.Println(err)
 	}
 
 	return nil
-- 
2.43.0


From 816f128ab65439aa2201f6c48f6c39eb0bd32f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 52/67] fix: blanks in the password menu panicked and
 impossible requests gave an empty password

---
 uihelpers.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..6df1b12 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -240,18 +240,20 @@ func (u *uiContext) getPassword() (string, error) {
 
 	var err error
 	var choice, password string
+	var impossible bool
 	regen := true
 	for {
 		if regen {
 			password, err = genPassword(length, upper, lower, number, basic, extra)
-			if err == errPasswordImpossible {
+			impossible = err == errPasswordImpossible
+			if impossible {
 				errColor.Println("Could not generate password with these requirements")
 			} else if err != nil {
 				return "", err
 			}
 		}
 
-		if err == nil {
+		if !impossible {
 			fmt.Fprintln(u.out, promptColor.Sprint("password:"), passColor.Sprint(password))
 		}
 
@@ -264,8 +266,11 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
+		case impossible && (choice == "y" || splits[0] == "c"):
+			errColor.Println("There is no password to use")
+			regen = false
 		case choice == "y":
 			return password, nil
 		case choice == "m":
-- 
2.43.0


From be8a78b81b4629821a2a5a5e544b899d344fb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 53/67] fix: looking at a moment just before an entry was named
 panicked

---
 blobformat/blob.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..0e7ddff 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -23,14 +23,10 @@ func (b Blob) Keys() (keys []string) {
 	return keys
 }
 
-// Name returns the name of the blob. Panics if the key is not found.
+// Name returns the name of the blob. It is empty if there is none (yet), as
+// when looking at the moment between the entry's first two records.
 func (b Blob) Name() string {
-	name, ok := b[KeyName]
-	if !ok {
-		panic("name was not set")
-	}
-
-	return name
+	return b[KeyName]
 }
 
 // Get a specific value. Panics if name is not found. Special keys require the
-- 
2.43.0


From e36ca82514d7364dbf1f2508387e6b8246db2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 54/67] fix: a changed passphrase never reached remotes without
 other changes

---
 sync.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index aaa0cac..5072f4d 100644
--- a/sync.go
+++ b/sync.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
 	"errors"
@@ -118,7 +119,7 @@ Syncs:
 			continue
 		}
 
-		if sameLog(log, u.store.DB.Log) {
+		if sameLog(log, u.store.DB.Log) && sameCredentials(u, &params) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			unchanged[uuid] = true
 			continue
@@ -218,6 +219,15 @@ func sameLog(a, b []txlogs.Tx) bool {
 	return true
 }
 
+// sameCredentials checks if a remote is encrypted the way we would do it. The
+// keys of the users in a multi-user file are part of its log.
+func sameCredentials(u *uiContext, params *crypt.Params) bool {
+	if !bytes.Equal(params.Master, u.master) {
+		return false
+	}
+	return len(u.master) != 0 || bytes.Equal(params.Keys[params.User], u.key)
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry := store.Snapshot[uuid]
-- 
2.43.0


From 2d7278748d622c5be6414da1b7ee54dfef48363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 55/67] fix: a passphrase changed elsewhere was undone by rekey

---
 merging.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/merging.go b/merging.go
index af36f21..a8be95d 100644
--- a/merging.go
+++ b/merging.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bytes"
+	"encoding/hex"
 	"errors"
 	"time"
 
@@ -192,6 +193,16 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
+		} else if r.Creds.User == m.User && !bytes.Equal(m.Salt, r.Params.Salts[r.Params.User]) {
+			// Same master key but the current user has another passphrase or
+			// salt on the remote, see which one is in the merged user entry
+			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			_, user, err := mergedStore.FindUser(m.User)
+			if err != nil {
+				return m, err
+			}
+
+			takeRemoteCreds = user[blobformat.KeySalt] == hex.EncodeToString(r.Params.Salts[r.Params.User])
 		}
 
 		if takeRemoteCreds {
-- 
2.43.0


From e9274f336e10ffd33a72a6da141fc7deb31f4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 56/67] fix: an import without any data reported success

---
 import.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/import.go b/import.go
index b49fba0..7967b53 100644
--- a/import.go
+++ b/import.go
@@ -42,6 +42,9 @@ func importLastpass(u *uiContext) error {
 		record, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
+				if i == 0 {
+					return errors.New("lastpass gave no data")
+				}
 				break
 			}
 			return err
-- 
2.43.0


From b0bd37dc0c12a0ae638e67c203c48dade977fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 57/67] fix: text of a failed editor was not wiped from its
 file

---
 commands.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index d5f5be7..80b5935 100644
--- a/commands.go
+++ b/commands.go
@@ -956,11 +956,6 @@ func (u *uiContext) edit(search, key string) error {
 		return nil
 	}
 
-	if editExit != 0 {
-		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
-		return nil
-	}
-
 	newValue, err := ioutil.ReadAll(tmp)
 	if err != nil {
 		errColor.Println("failed to read from tmp file:", err)
@@ -971,6 +966,11 @@ func (u *uiContext) edit(search, key string) error {
 		maxLen = len(newValue)
 	}
 
+	if editExit != 0 {
+		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
+		return nil
+	}
+
 	if len(newValue) == 0 {
 		infoColor.Println("erasing value")
 		err = u.store.DeleteKey(uuid, key)
-- 
2.43.0


From f206516d4f01be199b342cc69c09eb3e6de8cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 58/67] fix: the chosen entry was lost when it was renamed

---
 repl.go | 58 ++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/repl.go b/repl.go
index 7c314da..9937900 100644
--- a/repl.go
+++ b/repl.go
@@ -122,13 +122,42 @@ type repl struct {
 
 	prompt   string
 	ctxEntry string
+	ctxUUID  string
+}
+
+// followEntry keeps to the entry chosen with cd when it's renamed, and leaves
+// it when it's gone.
+func (r *repl) followEntry() error {
+	name := ""
+	if len(r.ctxUUID) != 0 {
+		blob, err := r.ctx.store.Find(r.ctxUUID)
+		if err != nil {
+			return err
+		}
+		if blob != nil {
+			name = blob.Name()
+		}
+	}
+
+	r.ctxEntry = name
+	if len(name) == 0 {
+		r.ctxUUID = ""
+		r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+	} else {
+		r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, name)
+	}
+
+	return nil
 }
 
 func (r *repl) run() error {
-	r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-	r.ctxEntry = ""
+	r.ctxUUID = ""
 
 	for {
+		if err := r.followEntry(); err != nil {
+			return err
+		}
+
 		line, err := r.ctx.in.Line(r.prompt)
 		switch err {
 		case ErrInterrupt:
@@ -250,15 +279,7 @@ var replCmds = map[string]replCmd{
 				errColor.Println("syntax: rm <name>")
 				return nil
 			}
-			name := args[0]
-			err := r.ctx.deleteEntry(name)
-
-			if err == nil && r.ctxEntry == name {
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-			}
-
-			return err
+			return r.ctx.deleteEntry(args[0])
 		},
 	},
 
@@ -295,12 +316,9 @@ var replCmds = map[string]replCmd{
 		Run: func(r *repl, _ string, args []string) error {
 			switch len(args) {
 			case 0:
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+				r.ctxUUID = ""
 			case 1:
-				var uuid string
-				var err error
-				uuid, err = r.ctx.findOne(args[0])
+				uuid, err := r.ctx.findOne(args[0])
 				if err != nil {
 					return err
 				}
@@ -308,13 +326,7 @@ var replCmds = map[string]replCmd{
 					return nil
 				}
 
-				blob, err := r.ctx.store.MustFind(uuid)
-				if err != nil {
-					return err
-				}
-
-				r.ctxEntry = blob.Name()
-				r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
+				r.ctxUUID = uuid
 			default:
 				fmt.Println("cd needs an argument")
 			}
-- 
2.43.0


From 604a4714b70d0bab6d426a86b4226506752850c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 59/67] fix: set followed by a tab took the field's name for
 the entry

---
 repl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repl.go b/repl.go
index 9937900..bcae8af 100644
--- a/repl.go
+++ b/repl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/color"
@@ -181,7 +182,9 @@ func (r *repl) run() error {
 		// Special case this thing, no commands care about additional space
 		// except set
 		if cmd == "set" {
-			args = strings.Split(line, " ")
+			rest := line[len(cmd):]
+			_, size := utf8.DecodeRuneInString(rest)
+			args = append(args[:1], strings.Split(rest[size:], " ")...)
 		}
 		args = args[1:]
 
-- 
2.43.0


From fb29b058e8b436f35500b8dad044b2626863d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 60/67] fix: BPASS won over a file given with -f

---
 cli.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli.go b/cli.go
index 0b97a9f..3ce65c9 100644
--- a/cli.go
+++ b/cli.go
@@ -40,6 +40,9 @@ func parseCli() {
 	if err == nil && len(homeDir) != 0 {
 		defaultFilePath = filepath.Join(homeDir, defaultFilePath)
 	}
+	if envFile := os.Getenv("BPASS"); len(envFile) != 0 {
+		defaultFilePath = envFile
+	}
 	flagFile = defaultFilePath
 
 	parser := flaggy.NewParser("bpass")
@@ -77,12 +80,6 @@ func parseCli() {
 	parser.AttachSubcommand(exportCmd, 1)
 	parser.Parse()
 
-	if flagFile == defaultFilePath {
-		envFile := os.Getenv("BPASS")
-		if len(envFile) != 0 {
-			flagFile = envFile
-		}
-	}
 	if len(flagTime) != 0 {
 		var err error
 		historyTime, err = time.Parse(historyLayout, flagTime)
-- 
2.43.0


From 5baa66b1922542acd2bef78d3a4d4b7383075f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 61/67] fix: adding a sync target with a failed key or a port
 out of range

---
 commands.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/commands.go b/commands.go
index 80b5935..bb4e9b4 100644
--- a/commands.go
+++ b/commands.go
@@ -398,12 +398,13 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 			break
 		}
 
-		_, err = strconv.Atoi(port)
-		if err != nil {
-			errColor.Printf("port must be an integer between %d and %d\n", 1, int(math.MaxUint16)-1)
+		portNum, err := strconv.Atoi(port)
+		if err != nil || portNum < 1 || portNum > math.MaxUint16 {
+			errColor.Printf("port must be an integer between %d and %d\n", 1, math.MaxUint16)
 			continue
 		}
 
+		port = strconv.Itoa(portNum)
 		break
 	}
 
@@ -427,14 +428,15 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	case 0:
 		pub, priv, err := ed25519.GenerateKey(rand.Reader)
 		if err != nil {
-			errColor.Println("failed to generate ed25519 ssh key")
-			return uri, nil
+			errColor.Println("failed to generate ed25519 ssh key:", err)
+			return uri, ErrEnd
 		}
 
 		// Marshal private key into DER ASN.1 then to PEM
 		b, err := x509.MarshalPKCS8PrivateKey(priv)
 		if err != nil {
 			errColor.Println("failed to marshal ed25519 private key with x509:", err)
+			return uri, ErrEnd
 		}
 		pemBlock := pem.Block{Type: "PRIVATE KEY", Bytes: b}
 		b = pem.EncodeToMemory(&pemBlock)
@@ -442,6 +444,7 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		public, err := ssh.NewPublicKey(pub)
 		if err != nil {
 			errColor.Println("failed to parse public key:", err)
+			return uri, ErrEnd
 		}
 		publicStr := string(bytes.TrimSpace(ssh.MarshalAuthorizedKey(public))) + " @bpass"
 
@@ -453,15 +456,15 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	case 1:
 		priv, err := rsa.GenerateKey(rand.Reader, 4096)
 		if err != nil {
-			errColor.Println("failed to generate rsa-4096 ssh key")
-			return uri, nil
+			errColor.Println("failed to generate rsa-4096 ssh key:", err)
+			return uri, ErrEnd
 		}
 
 		// Marshal private key into DER ASN.1 then to PEM
 		b, err := x509.MarshalPKCS8PrivateKey(priv)
 		if err != nil {
 			errColor.Println("failed to marshal rsa private key with x509:", err)
-			return uri, nil
+			return uri, ErrEnd
 		}
 		pemBlock := pem.Block{Type: "PRIVATE KEY", Bytes: b}
 		b = pem.EncodeToMemory(&pemBlock)
@@ -469,6 +472,7 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 		public, err := ssh.NewPublicKey(&priv.PublicKey)
 		if err != nil {
 			errColor.Println("failed to parse public key:", err)
+			return uri, ErrEnd
 		}
 		publicStr := string(bytes.TrimSpace(ssh.MarshalAuthorizedKey(public))) + " @bpass"
 
-- 
2.43.0


From f66a00b26edaf9303ad169d4b6c4e41443201b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 62/67] fix: useless two factor secrets were stored

---
 blobformat/blobs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index aadd455..ef065f6 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -13,6 +13,7 @@ import (
 	"github.com/aarondl/bpass/txlogs"
 
 	"github.com/pquerna/otp"
+	"github.com/pquerna/otp/totp"
 )
 
 // Sentinel errors
@@ -422,10 +423,19 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		)
 	}
 
-	_, err := otp.NewKeyFromURL(uri)
+	key, err := otp.NewKeyFromURL(uri)
 	if err != nil {
 		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
 	}
+	if key.Type() != "totp" {
+		return errors.New("could not set two factor key, it was not a totp key")
+	}
+	if len(strings.TrimSpace(key.Secret())) == 0 {
+		return errors.New("could not set two factor key, it has no secret")
+	}
+	if _, err = totp.GenerateCode(key.Secret(), time.Now().UTC()); err != nil {
+		return fmt.Errorf("could not set two factor key, the secret is not usable: %w", err)
+	}
 
 	if err := b.mustExist(uuid); err != nil {
 		return err
-- 
2.43.0


From 3f4ac9631af88379282eb4aee50b1827118403d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:55 +0000
Subject: [PATCH 63/67] fix: a password typed without an echo was printed

---
 commands.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commands.go b/commands.go
index bb4e9b4..7faaeb4 100644
--- a/commands.go
+++ b/commands.go
@@ -868,6 +868,11 @@ func (u *uiContext) set(search, key, value string) error {
 		return nil
 	}
 
+	if key == blobformat.KeyPass {
+		// It may have been entered without an echo
+		infoColor.Printf("set %s\n", key)
+		return nil
+	}
 	infoColor.Printf("set %s = %s\n", key, value)
 
 	return nil
-- 
2.43.0


From b42a2e4172f41d0c8253bb42e9d467714c93ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 64/67] fix: a sync overwrote a file it never read at a
 target's new url

---
 sync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync.go b/sync.go
index 5072f4d..679118a 100644
--- a/sync.go
+++ b/sync.go
@@ -67,6 +67,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	pulled := make(map[string]string)
 	unchanged := make(map[string]bool)
 	oldLog := u.store.Log
 	dupeCheck := make([][64]byte, 0, len(syncs))
@@ -77,6 +78,7 @@ Syncs:
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("pull:", name)
+		pulled[uuid] = entry[blobformat.KeyURL]
 
 		ct, hostentry, err := pullBlob(u, uuid)
 
@@ -188,6 +190,12 @@ Syncs:
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		if entry != nil && entry[blobformat.KeyURL] != pulled[uuid] {
+			// What's there was never pulled, it must not be overwritten
+			infoColor.Printf("skip: %s (moved by this sync, sync again)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
-- 
2.43.0


From 4e06afc493aeceed943b1a474142b1647f4bd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 65/67] fix: an scp url without a port was contacted on no port

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index 679118a..9d8b7fe 100644
--- a/sync.go
+++ b/sync.go
@@ -429,6 +429,10 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 		return "", "", nil, errors.New("url missing file path")
 	}
 
+	if len(port) == 0 {
+		port = "22"
+	}
+
 	address = net.JoinHostPort(host, port)
 	config = new(ssh.ClientConfig)
 	config.HostKeyAlgorithms = []string{ssh.KeyAlgoED25519, ssh.KeyAlgoRSA}
-- 
2.43.0


From f180274fc4268452f3f4eb59401b76781770b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 66/67] fix: quote the file name for the remote's shell

---
 scpsync/scpsync.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 5c9f4a9..57254be 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -99,7 +99,7 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 
 	stream := readWriter{Reader: read, Writer: write}
 
-	if err = session.Start("scp -qf " + filename); err != nil {
+	if err = session.Start("scp -qf " + shellQuote(filename)); err != nil {
 		return nil, err
 	}
 
@@ -158,7 +158,7 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 	}
 
 	stream := readWriter{Reader: read, Writer: write}
-	if err = session.Start("scp -qt " + filename); err != nil {
+	if err = session.Start("scp -qt " + shellQuote(filename)); err != nil {
 		return err
 	}
 
@@ -201,6 +201,28 @@ func (e Err) Error() string {
 	return errStr
 }
 
+// shellQuote makes the remote's shell hand over filename as one argument. A
+// leading ~/ is left for it to expand.
+func shellQuote(filename string) string {
+	home := ""
+	if strings.HasPrefix(filename, "~/") {
+		home, filename = filename[:2], filename[2:]
+	} else if strings.HasPrefix(filename, "-") {
+		// Would be taken as an option
+		filename = "./" + filename
+	}
+
+	safe := func(r rune) bool {
+		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' ||
+			strings.ContainsRune("@%_+=:,./-", r)
+	}
+	if strings.TrimLeftFunc(filename, safe) == "" {
+		return home + filename
+	}
+
+	return home + "'" + strings.ReplaceAll(filename, "'", `'\''`) + "'"
+}
+
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
 	reader := bufio.NewReader(stream)
 
-- 
2.43.0


From 67e80aeefb388ce592571b634e2c97337912b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 67/67] fix: receive files with spaces in their name

---
 scpsync/scpsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 57254be..8ad40de 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -283,7 +283,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 
 	str = str[1:]
 
-	fields := strings.Fields(str)
+	// The name is the rest of the line, it may have spaces in it
+	fields := strings.SplitN(strings.TrimSuffix(str, "\n"), " ", 3)
 	if len(fields) != 3 {
 		return file, fmt.Errorf("protocol demands 3 fields, got %d", len(fields))
 	}
-- 
2.43.0

