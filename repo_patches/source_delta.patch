From 18f989aae153ba3f0fb3b8980298b60bf7325538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 01/18] fix: refuse creation offsets that do not fit in a
 recovery phrase

EncodeMnemonicPlaintext and EncodeMnemonicEncrypted panicked for offsets
of 2^31 and above.
---
 encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..6a724ae 100644
--- a/encoding.go
+++ b/encoding.go
@@ -47,6 +47,10 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 		return nil, err
 	}
 
+	if creationOffset >= 1<<CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
 
@@ -74,6 +78,10 @@ func EncodeMnemonicEncrypted(
 		return nil, err
 	}
 
+	if creationOffset >= 1<<CreationOffsetBitCount {
+		return nil, ErrCreationTooLate
+	}
+
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
 	}
-- 
2.43.0


From 67aa5d56d0af18e5750023bcd5d26b7d057d3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 02/18] fix: refuse negative entropy integers in NewSeed

A negative integer was accepted and its sign silently lost in the derived
keys and the recovery phrase.
---
 seed.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 4d7e684..f59dfa1 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,7 +25,8 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative, or if its bit-length is greater
+// than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
@@ -37,6 +39,10 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 		)
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	seed := &Seed{
 		era:   era,
 		value: entropyInt,
-- 
2.43.0


From 1f4bdcad5e36d7d85cfdb49132b231027c881f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 03/18] fix: copy the entropy integer in NewSeed

The seed kept the caller's integer, so changing it later changed the seed.
---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index f59dfa1..1373b3c 100644
--- a/seed.go
+++ b/seed.go
@@ -45,7 +45,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 4218011bef5a1fb81614c4a87d90a134e6e241c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 04/18] fix: leave the caller's integer alone in
 EncodeToIndices

The payload was shifted in place and came out as zero.
---
 mnemonic/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..55abcbd 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -35,6 +35,7 @@ func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
+	payloadInt = new(big.Int).Set(payloadInt)
 	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
 		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
 		payloadInt.Rsh(payloadInt, BitsPerWord)
-- 
2.43.0


From 6c5909e331bb971f91fcdf1eaf8c140aaf6b4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:12 +0000
Subject: [PATCH 05/18] fix: refuse key lifetimes which OpenPGP cannot express

A lifetime below one second was exported as an expiry of zero, which means
the key never expires, and one above 2^32-1 seconds wrapped around.
---
 mnemonikey.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..4ac6f86 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -26,6 +27,10 @@ const (
 // selected is less than zero.
 var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
 
+// ErrTTLUnrepresentable is returned when constructing a Mnemonikey, if the TTL selected
+// cannot be expressed as the 32-bit number of seconds which OpenPGP uses for key expiry.
+var ErrTTLUnrepresentable = errors.New("key time-to-live must be at least one second and fit in 32 bits of seconds")
+
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
 var ErrCreationTooLate = errors.New("key creation time exceeds maximum")
@@ -62,6 +67,8 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	}
 	if opts.TTL < 0 {
 		return nil, ErrTTLInvalid
+	} else if opts.TTL > 0 && (opts.TTL < time.Second || opts.TTL/time.Second > math.MaxUint32) {
+		return nil, ErrTTLUnrepresentable
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
 	} else if creation.Before(EpochStart) {
-- 
2.43.0


From 119229fe6af414be9a5f0cb0194be106d493259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:24 +0000
Subject: [PATCH 06/18] fix: refuse -ttl texts which overflow a duration

---
 cmd/mnemonikey/expiry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..6d7887f 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -34,5 +35,10 @@ func parseTTL(input string) (time.Duration, error) {
 		return 0, badInputErr
 	}
 
+	// Refuse lifetimes which a time.Duration cannot hold.
+	if quantity > uint64(math.MaxInt64/unit) {
+		return 0, badInputErr
+	}
+
 	return time.Duration(quantity) * unit, nil
 }
-- 
2.43.0


From 1a3eac94eb1e481d0031edf3bcb22e2c3d3076f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:37 +0000
Subject: [PATCH 07/18] fix: refuse unexpected positional arguments instead of
 ignoring them and later options

---
 cmd/mnemonikey/convert.go  | 3 +++
 cmd/mnemonikey/generate.go | 3 +++
 cmd/mnemonikey/recover.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..8723415 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -41,6 +41,9 @@ var ConvertCommand = &Command[ConvertOptions]{
 		)
 	},
 	Execute: func(opts *ConvertOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return decodeAndConvertPhrase(opts)
 	},
 }
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..049e22e 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -57,6 +57,9 @@ var GenerateCommand = &Command[GenerateOptions]{
 		)
 	},
 	Execute: func(opts *GenerateOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return generateAndPrintKey(opts)
 	},
 }
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..e38e687 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -75,6 +75,9 @@ var RecoverCommand = &Command[RecoverOptions]{
 		)
 	},
 	Execute: func(opts *RecoverOptions, args []string) error {
+		if len(args) > 0 {
+			return fmt.Errorf("%w: unexpected argument %q", ErrPrintUsage, args[0])
+		}
 		return recoverAndPrintKey(opts)
 	},
 }
-- 
2.43.0


From 7ed25719dace166b44af2caf9bd0193e89754942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:24 +0000
Subject: [PATCH 08/18] fix: left arrow in the word prompt discards the word
 being revised

---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From eba96eeeb8828fe9fce95df4a71ec92155a5b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:43 +0000
Subject: [PATCH 09/18] fix: convert delivers the phrase to -out-word-file, not
 to the input file

---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 8723415..2401ff8 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -76,10 +75,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 25bd4dd6cdceea44d2f03f205dc63e64e09483b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:18 +0000
Subject: [PATCH 10/18] fix: create the word file exclusively so nothing
 appearing at its path is overwritten

---
 cmd/mnemonikey/generate.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 049e22e..c7b6d68 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -202,14 +202,20 @@ func printMnemonic(words []string) {
 }
 
 func saveMnemonic(words []string, wordFile string) error {
-	if _, err := os.Stat(wordFile); err == nil {
+	// O_EXCL guarantees we never write to anything which already exists at this path.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
 		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	} else if err != nil {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From d335895b17282c47e4b06387e423df3af107ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 11/18] fix: password prompts restore the terminal before
 returning and print nothing to standard output

---
 cmd/mnemonikey/word_input.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..4a29a8a 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -239,9 +239,8 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
+	defer func() {
+		eprintln()
 		term.Restore(int(os.Stdin.Fd()), oldState)
 	}()
 
@@ -285,7 +284,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
-		eprintln()
 		return nil, err
 
 	case pass := <-passChan:
-- 
2.43.0


From d2323287409258bda20acdfff0d4222ef2adcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 12/18] fix: fail if the key or the phrase cannot be written
 completely

---
 cmd/mnemonikey/convert.go  |  4 +++-
 cmd/mnemonikey/generate.go | 30 ++++++++++++++++++++++++------
 cmd/mnemonikey/recover.go  |  6 +-----
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 2401ff8..213f3c1 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -76,7 +76,9 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		if err := printMnemonic(recoveryMnemonic); err != nil {
+			return err
+		}
 	} else {
 		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index c7b6d68..62e68bd 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -166,24 +166,41 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 		eprintln()
 	}
 
-	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
-	eprint(colorEnd)
+	if err := printPGPArmorKey(pgpArmorKey); err != nil {
+		return err
+	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		if err := printMnemonic(recoveryMnemonic); err != nil {
+			return err
+		}
 	}
 
 	return nil
 }
 
-func printMnemonic(words []string) {
+// printPGPArmorKey writes the key to standard output, and fails if it cannot be written completely.
+func printPGPArmorKey(pgpArmorKey string) error {
+	eprint(magentaStart)
+	_, err := fmt.Println(pgpArmorKey)
+	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key: %w", err)
+	}
+	return nil
+}
+
+// printMnemonic displays the phrase, and fails if any of its words cannot be written.
+func printMnemonic(words []string) error {
 	eprint("\nThis is the mnemonic phrase which can be used to recover the private key:\n\n")
 
 	for i, word := range words {
 		humanIndex := strconv.Itoa(i + 1)
 		spacing := strings.Repeat(" ", 4-len(humanIndex))
-		eprintf("%s:%s%s\n", humanIndex, spacing, bold(magenta((word))))
+		_, err := fmt.Fprintf(os.Stderr, "%s:%s%s\n", humanIndex, spacing, bold(magenta((word))))
+		if err != nil {
+			return fmt.Errorf("failed to display recovery phrase: %w", err)
+		}
 	}
 
 	eprint("\nSave this phrase in a secure place, preferably offline, on paper.\n\n")
@@ -199,6 +216,7 @@ func printMnemonic(words []string) {
 			"If you do not save it now, you will " + bold("NEVER") + " see this phrase again.\n\n",
 		),
 	)
+	return nil
 }
 
 func saveMnemonic(words []string, wordFile string) error {
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index e38e687..9fc15a2 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -200,11 +200,7 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 		eprintln()
 	}
 
-	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
-	eprint(colorEnd)
-
-	return nil
+	return printPGPArmorKey(pgpArmorKey)
 }
 
 func readWordFile(fpath string) ([]string, error) {
-- 
2.43.0


From 82f3797d68434b5812a032b5ea196613bbca0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:00 +0000
Subject: [PATCH 13/18] fix: wrapping text for a narrow or unknown terminal
 width neither loops nor panics

---
 cmd/mnemonikey/terminal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..e8c48f8 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,11 +78,12 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
 		line := indentString
-		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
+		// Always take at least one word per line, even if the width is too narrow for it.
+		for len(words) > 0 && (line == indentString || len(line)+len(words[0])+1 <= maxWidth) {
 			if line != indentString {
 				line += " "
 			}
-- 
2.43.0


From 17c022e7da8e82c3dea8038a12f732cca82d7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:30 +0000
Subject: [PATCH 14/18] fix: refuse word files which cannot be read to their
 end

---
 cmd/mnemonikey/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 9fc15a2..e96927c 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -223,11 +223,17 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file %s: %w", fpath, err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
 
 	version, err := mnemonikey.ParseMnemonicVersion(words[0])
+	if err != nil {
+		return nil, err
+	}
 	if len(words) != version.MnemonicSize() {
 		return nil, fmt.Errorf(
 			"found only %d words in word file %s, expected %d words for version %d phrase",
-- 
2.43.0


From 2b114d22b8ecd8f426a9952b2066704d9e4e25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:41 +0000
Subject: [PATCH 15/18] fix: return an error from EncryptS2K for an unsupported
 hash function instead of crashing

---
 pgp/s2k.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/s2k.go b/pgp/s2k.go
index 34451ee..edf0a9d 100644
--- a/pgp/s2k.go
+++ b/pgp/s2k.go
@@ -33,6 +33,10 @@ func s2kCountDecode(coded byte) int {
 // algorithm. This is not a very secure symmetric cipher, as we only use a simple hash
 // and not a dedicated PBKDF.
 func EncryptS2K(hashFunc HashFuncID, plaintext, password []byte) ([]byte, error) {
+	if hashFunc.New() == nil {
+		return nil, fmt.Errorf("unsupported string-to-key hash function %d", hashFunc)
+	}
+
 	salt := make([]byte, 8)
 	if _, err := rand.Read(salt); err != nil {
 		return nil, fmt.Errorf("failed to read random salt: %w", err)
-- 
2.43.0


From 630beeaa9515bc05db9265fc19e1ef20832a9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:41 +0000
Subject: [PATCH 16/18] fix: name an existing option in the usage example of
 convert

---
 cmd/mnemonikey/convert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 213f3c1..07c36ef 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -21,7 +21,7 @@ var ConvertCommand = &Command[ConvertOptions]{
 	Description: "Add, change, or remove an encryption password on an existing mnemonic recovery phrase.",
 	UsageExamples: []string{
 		"mnemonikey convert",
-		"mnemonikey convert -encrypt",
+		"mnemonikey convert -encrypt-phrase",
 		"mnemonikey convert -simple",
 		"mnemonikey convert -in-word-file /etc/words",
 		"mnemonikey convert -in-word-file /etc/words -out-word-file /etc/new-words",
-- 
2.43.0


From beb4970957933aef2b507fe5fe6c0ee84953f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:41 +0000
Subject: [PATCH 17/18] fix: show the help page when 'mnemonikey help' is
 followed by arguments

---
 cmd/mnemonikey/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mnemonikey/command.go b/cmd/mnemonikey/command.go
index e9da942..83e9e57 100644
--- a/cmd/mnemonikey/command.go
+++ b/cmd/mnemonikey/command.go
@@ -88,6 +88,9 @@ func (cmd *Command[Options]) Run(args []string) error {
 			// avoid multiple parent Commands printing usage messages too
 			return errors.New(err.Error())
 		}
+		if errors.Is(err, ErrPrintUsageGraceful) {
+			flags.Usage()
+		}
 		return err
 	}
 	return nil
-- 
2.43.0


From d23eb1cfbef6e4586b65e683ec99870055a4e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:41 +0000
Subject: [PATCH 18/18] fix: give ErrCreationTooEarly a text of its own

---
 mnemonikey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonikey.go b/mnemonikey.go
index 4ac6f86..7fa62e5 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -37,7 +37,7 @@ var ErrCreationTooLate = errors.New("key creation time exceeds maximum")
 
 // ErrCreationTooEarly is returned when constructing a Mnemonikey, if its creation
 // time is before EpochStart.
-var ErrCreationTooEarly = errors.New("key creation time exceeds maximum")
+var ErrCreationTooEarly = errors.New("key creation time precedes minimum")
 
 // Mnemonikey represents a determinstically generated set of PGP keys. It contains
 // a master certification key, and encryption, authentication, and signing subkeys,
-- 
2.43.0

