From b0f13183cbd704ef9e21edc98039765eeb9d36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 01/12] fix: refuse creation offsets which do not fit in a
 recovery phrase

EncodeMnemonicPlaintext and EncodeMnemonicEncrypted panicked for a creation
offset of 2^31 or more; return ErrCreationTooLate instead.
---
 encoding.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..18bbf22 100644
--- a/encoding.go
+++ b/encoding.go
@@ -8,12 +8,22 @@ import (
 	"hash/crc32"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"golang.org/x/crypto/argon2"
 
 	"github.com/kklash/mnemonikey/mnemonic"
 )
 
+// checkCreationOffset returns ErrCreationTooLate if the given creation offset does not fit
+// in CreationOffsetBitCount bits.
+func checkCreationOffset(creationOffset uint32) error {
+	if bits.Len32(creationOffset) > int(CreationOffsetBitCount) {
+		return fmt.Errorf("%w: creation offset %d", ErrCreationTooLate, creationOffset)
+	}
+	return nil
+}
+
 func encodeMnemonic(version MnemonicVersion, payloadBitBuffer *bitBuffer) ([]string, error) {
 	// Compute & append checksum.
 	checksum := checksumMask & crc32.ChecksumIEEE(payloadBitBuffer.Bytes())
@@ -46,6 +56,9 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if err := checkCreationOffset(creationOffset); err != nil {
+		return nil, err
+	}
 
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
@@ -73,6 +86,9 @@ func EncodeMnemonicEncrypted(
 	if err := seed.Era().check(); err != nil {
 		return nil, err
 	}
+	if err := checkCreationOffset(creationOffset); err != nil {
+		return nil, err
+	}
 
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
-- 
2.43.0


From 1cd374dd200257d4f00cac312a04dc2146dfa13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/12] fix: do not modify the payload passed to
 mnemonic.EncodeToIndices

The caller's integer was shifted down to zero. A negative payload, which made
the loop run off the front of the slice, is refused.
---
 mnemonic/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..f915125 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -29,12 +29,16 @@ var ErrInvalidIndex = errors.New("word index value is too large")
 // bitSize does not necessarily have to be evenly divisible by BitsPerWord. If there is
 // any unused space, it will be encoded at the leading edge of the resulting slice of indices.
 func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
+	if payloadInt.Sign() < 0 {
+		return nil, errors.New("cannot encode negative payload as word indices")
+	}
 	if payloadLen := payloadInt.BitLen(); uint(payloadLen) > bitSize {
 		return nil, fmt.Errorf("payload size (%d bits) is larger than given bitSize %d", payloadLen, bitSize)
 	}
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
+	payloadInt = new(big.Int).Set(payloadInt) // leave the caller's integer alone
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
 		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
 		payloadInt.Rsh(payloadInt, BitsPerWord)
-- 
2.43.0


From 162f4c93804696a3fdca5e2a72244adccceea568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 03/12] fix: NewSeed must not alias the caller's integer or
 accept negative ones

Changing the integer passed to NewSeed silently changed the seed, and a
negative integer was accepted as a seed with the same bytes as its absolute
value.
---
 seed.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seed.go b/seed.go
index 4d7e684..bcdce4f 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative or its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
@@ -39,7 +44,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 172e736e24f2756ccc9832bbc439e89742c256a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 04/12] fix: refuse key lifetimes the PGP expiry field cannot
 hold

A TTL of 2^32 seconds or more was truncated modulo 2^32, giving a much shorter
lifetime than requested, and a TTL below one second was exported as zero,
meaning no expiry at all.
---
 mnemonikey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..c037596 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -26,6 +27,11 @@ const (
 // selected is less than zero.
 var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
 
+// ErrTTLUnrepresentable is returned when constructing a Mnemonikey, if the TTL
+// selected is positive but cannot be represented in a PGP key expiry subpacket,
+// which holds a non-zero 32-bit number of seconds.
+var ErrTTLUnrepresentable = errors.New("key time-to-live must be at least one second and less than 2^32 seconds")
+
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
 var ErrCreationTooLate = errors.New("key creation time exceeds maximum")
@@ -62,6 +68,8 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	}
 	if opts.TTL < 0 {
 		return nil, ErrTTLInvalid
+	} else if opts.TTL > 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {
+		return nil, ErrTTLUnrepresentable
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
 	} else if creation.Before(EpochStart) {
-- 
2.43.0


From e3360ce0d96e85a9921776bb4504eddf1f59dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:19 +0000
Subject: [PATCH 05/12] fix: refuse -ttl values too large for a time.Duration

---
 cmd/mnemonikey/expiry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..d41b63d 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,10 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	// Refuse durations too long for a time.Duration, instead of wrapping around to a shorter one.
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From 1d4564ccbd3ab78b57cc3c583c6a09948fdb4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:36 +0000
Subject: [PATCH 06/12] fix: convert must write the new phrase to
 -out-word-file, not over the input

---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 857d30f84f358b01a2d1829bdbbb1ebd0cd92d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:02 +0000
Subject: [PATCH 07/12] fix: create word files exclusively so that nothing is
 ever overwritten

---
 cmd/mnemonikey/generate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..4c2703f 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -199,14 +199,20 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	// Creating the file exclusively ensures nothing is ever overwritten, nor written through a link.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From 60cfeec7e3b1a2a275e585b24a50d9a3283f4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:02 +0000
Subject: [PATCH 08/12] fix: report errors when reading a word file instead of
 using part of it

---
 cmd/mnemonikey/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..37be0b8 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -224,11 +224,17 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
 
 	version, err := mnemonikey.ParseMnemonicVersion(words[0])
+	if err != nil {
+		return nil, err
+	}
 	if len(words) != version.MnemonicSize() {
 		return nil, fmt.Errorf(
 			"found only %d words in word file %s, expected %d words for version %d phrase",
-- 
2.43.0


From 39dcdebc885281dfda0053889902519004029a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:49 +0000
Subject: [PATCH 09/12] fix: left arrow in the word prompt discards the word
 being revised

The revised word used to be appended behind the one it replaces, and the
prompt could be moved before the first word.
---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From 487285caa8525fd31b3a27cde5fdc9cc5bc77374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:32 +0000
Subject: [PATCH 10/12] fix: restore the terminal before leaving an interrupted
 password prompt

A goroutine did it while the program was already exiting or showing the
next password prompt, so the terminal could stay without echo, or show the
next password.
---
 cmd/mnemonikey/word_input.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..7622be6 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -239,12 +239,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
-		term.Restore(int(os.Stdin.Fd()), oldState)
-	}()
-
 	passChan := make(chan []byte)
 	errChan := make(chan error, 1)
 
@@ -282,6 +276,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 
 	select {
 	case <-ctx.Done():
+		eprintln()
+		term.Restore(int(os.Stdin.Fd()), oldState)
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
-- 
2.43.0


From ba9095759700e335482d4fec62a6c38064189d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:48 +0000
Subject: [PATCH 11/12] fix: wrap text on terminals narrower than a word

Help and messages never ended, or crashed, when the reported width was
zero or smaller than the longest word.
---
 cmd/mnemonikey/terminal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..6b21fad 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,15 +78,14 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
-		line := indentString
+		// Every line takes at least one word, even if the terminal is too narrow for it.
+		line := indentString + words[0]
+		words = words[1:]
 		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
-			if line != indentString {
-				line += " "
-			}
-			line += words[0]
+			line += " " + words[0]
 			words = words[1:]
 		}
 		lines = append(lines, line)
-- 
2.43.0


From e79d457ce63125cc3132b65c5b59abfde793efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:17 +0000
Subject: [PATCH 12/12] fix: report a key that could not be written to standard
 output

---
 cmd/mnemonikey/generate.go | 5 ++++-
 cmd/mnemonikey/recover.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 4c2703f..80bcde2 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -164,8 +164,11 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 37be0b8..8b19d96 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -198,8 +198,11 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0

