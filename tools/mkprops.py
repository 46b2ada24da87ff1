#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A plaintext phrase carries every seed and creation time without loss",
  "For every 128-bit seed and every creation offset from 0 to 2^31-1 seconds after the epoch, the plaintext recovery phrase is exactly 14 lower-case words of the wordlist, and decoding it yields the same seed, the same creation time, version 0 and an unencrypted status. A seed or offset that cannot be represented is refused with an error, never with a crash or a phrase for something else.",
  ["inputs"], "all seeds (2^128) x all creation offsets (2^31)",
  "The tests encode one fixed seed at one fixed second; leading zeros, carries between 12-bit words and offset extremes are never reached.",
  ["encoding.go", "recovery.go", "bit_buffer.go", "seed.go", "mnemonic/encode.go", "mnemonic/decode.go"],
  [("payload assembly", "encoding.go:EncodeMnemonicPlaintext"), ("payload parsing", "recovery.go:DecodeMnemonic"), ("bit concatenation", "bit_buffer.go")],
  observe=["EncodeMnemonicPlaintext", "DecodeMnemonic"])

p("C02", "Phrases follow the published bit layout exactly, in both formats",
  "Every plaintext and every encrypted phrase is, word for word, the one dictated by the published format: 4-bit version, 128-bit seed (or AES-128 encrypted seed, 19-bit salt and 5 password-check bits), 31-bit creation offset and the low 5 bits of the CRC-32 of the big-endian payload bytes, cut into 12-bit wordlist indices. Conversely every phrase built by that layout decodes to the fields it was built from, so phrases written down earlier or by another implementation keep their meaning.",
  ["inputs", "configurations"], "all seeds, offsets, salts and passwords, both phrase versions",
  "No test pins a phrase to its expected words; any symmetric change to encoder and decoder round-trips and passes.",
  ["encoding.go", "recovery.go", "bit_buffer.go", "parameters.go", "mnemonic/encode.go", "mnemonic/decode.go", "version.go"],
  [("checksum and packing", "encoding.go:encodeMnemonic"), ("field widths", "parameters.go"), ("encrypted payload", "encoding.go:EncodeMnemonicEncrypted")],
  observe=["EncodeMnemonicPlaintext", "EncodeMnemonicEncrypted", "DecodeMnemonic"])

p("C03", "An encrypted phrase opens with its own password and guards the seed",
  "For every seed, creation time, salt and non-empty password, the encrypted phrase has 16 wordlist words, shows the creation time without the password, and yields exactly the original seed for the right password every time. A wrong password is refused with the decryption error unless its 5 check bits happen to coincide, in which case the seed returned is that password's own decryption; asking for the seed without decrypting is refused, and encrypting under an empty password is refused.",
  ["inputs"], "all seeds x creation offsets x 2^19 salts x passwords, and all wrong passwords",
  "One password, one random salt and one wrong password are tried, and the wrong-password test is itself flaky 1 time in 32.",
  ["encoding.go", "recovery.go", "bit_buffer.go", "parameters.go"],
  [("seed encryption", "encoding.go:EncodeMnemonicEncrypted"), ("verifier bits and decryption", "recovery.go:DecryptSeed"), ("locked seed", "recovery.go:Seed")],
  observe=["EncodeMnemonicEncrypted", "DecodedMnemonic.DecryptSeed", "DecodedMnemonic.Seed", "RecoverEncrypted"])

p("C04", "The decoder accepts exactly the valid phrases and rejects all others",
  "A word list is accepted if and only if its version is supported, it has that version's word count, every word is in the wordlist (in any letter case) and the checksum matches; an accepted phrase re-encodes to the same words, so no two different phrases decode to the same backup. Everything else is refused with the error for its cause (word count, unknown word, unsupported version or checksum), whatever the number, order or content of the words, and decoding never crashes.",
  ["inputs"], "all finite word lists: any length, any strings, any letter case",
  "The tests corrupt a single word of a single phrase once.",
  ["recovery.go", "mnemonic/decode.go", "version.go", "bit_buffer.go"],
  [("checks in decoding order", "recovery.go:DecodeMnemonic"), ("wordlist lookup", "mnemonic/decode.go:DecodeWords")],
  observe=["DecodeMnemonic", "RecoverPlaintext", "RecoverEncrypted"])

p("C05", "Keys are a fixed function of seed, creation time, key type and index",
  "For every seed, creation time, key type and subkey index (0 to 65535), the secret key, public key and fingerprint are exactly those of the published derivation (Argon2id with time 4, memory 512 MB, 2 threads over the 16-byte seed and 4-byte timestamp; HKDF-Expand-SHA256 with the documented label and big-endian index; Ed25519 or clamped Curve25519). They do not depend on anything else: not on other options, earlier calls, the clock, the time zone of the creation time or the environment.",
  ["inputs", "histories", "configurations"], "all (seed, creation, type, index) tuples, in any order of calls",
  "Three fingerprints for one seed are pinned; indices other than 0 and 1, other seeds and the signing and authentication subkeys are not.",
  ["derive.go", "seed.go", "mnemonikey.go", "pgp/ecc_key.go", "pgp/master_key.go", "pgp/encryption_subkey.go", "pgp/ed25519_subkey.go"],
  [("root key and expansion", "derive.go:derivePGPKeySet"), ("info labels", "derive.go:keyExpandInfoSubkey"), ("fingerprint", "pgp/ecc_key.go:FingerprintV4")],
  observe=["New", "Fingerprint", "SubkeyFingerprint", "EncodePGP"])

p("C06", "Recovering through any chain of phrases reproduces the identical key",
  "However a backup is carried on - plaintext phrase, encrypted phrase, re-encrypted under other passwords, decrypted again, any number of times in any order - recovering it with the same options reproduces the original key set: same seed and creation time, same fingerprints, and a byte-identical unencrypted OpenPGP export. Earlier phrases of the same key stay valid after every conversion.",
  ["histories", "inputs"], "all sequences of encode / encrypt / re-encrypt / decrypt / recover steps, all seeds, times, passwords and options",
  "The tests do one plaintext and one encrypted recovery of one key and compare only two fingerprints; no conversion chain is ever run.",
  ["recovery.go", "encoding.go", "mnemonikey.go", "derive.go", "pgp/key_set.go"],
  [("recover entry points", "recovery.go:RecoverPlaintext, RecoverEncrypted"), ("deterministic export", "pgp/key_set.go")],
  observe=["RecoverPlaintext", "RecoverEncrypted", "EncodePGP"])

p("C07", "Subkey selection yields exactly the chosen subkeys, each unaffected",
  "For every selection of subkey types and every combination of indices, the key set contains exactly the selected subkeys (all three when no selection is given, none when the selection is empty), and its list of subkey types, its fingerprints and its exports agree on that. Each key is the same whatever else is selected and whatever indices the others use, different types or indices never share a key, and the order of the subkeys in the export is consistent for one master key.",
  ["inputs", "configurations"], "all selections (lists over the types, with repeats and unknown names) x all index combinations",
  "One selection and one incremented index are tried.",
  ["key_options.go", "derive.go", "mnemonikey.go", "pgp/key_set.go"],
  [("selection", "key_options.go:subkeyEnabled"), ("per-type derivation", "derive.go:derivePGPKeySet"), ("packet grouping", "pgp/key_set.go:encodeAllSubkeyPackets")],
  observe=["New", "SubkeyTypes", "SubkeyFingerprint", "EncodePGP", "EncodeSubkeysPGP"])

p("C08", "Every export is a complete and verifiable OpenPGP secret key",
  "For every seed, creation time and combination of options, the binary export parses as well-formed version-4 OpenPGP packets in order - master key, user ID, self-certification, then each subkey followed by its binding signature - with correct lengths, canonical big integers and secret-key checksums, and public parts that match the secret ones. Every signature verifies, is dated at the creation time, names its issuer, carries exactly the usage flags of its key (certify; encrypt communications and storage; authenticate; sign) and the signing subkey's binding embeds a valid back-signature; the armored export is a private key block of exactly those bytes.",
  ["inputs", "configurations"], "all seeds, times, user IDs, lifetimes and selections",
  "One key is imported into gpg once; lengths, leading-zero integers, the authentication subkey and all option combinations are untested.",
  ["pgp/packet.go", "pgp/mpi.go", "pgp/ecc_key.go", "pgp/signature.go", "pgp/sign.go", "pgp/master_key.go", "pgp/key_set.go", "pgp/user_id.go", "mnemonikey.go"],
  [("packet framing", "pgp/packet.go"), ("MPI encoding", "pgp/mpi.go"), ("signatures", "pgp/sign.go, pgp/master_key.go"), ("armor", "mnemonikey.go:armorEncode")],
  observe=["EncodePGP", "EncodePGPArmor", "EncodeSubkeysPGP", "EncodeSubkeysPGPArmor", "pgp.KeySet.EncodePackets"])

p("C09", "A password-protected export opens with that password and only hides secrets",
  "For every key and every non-empty password, each secret part of the export is encrypted with the standard salted-and-iterated scheme, decrypts under exactly that password to the same secret key as the unprotected export with a valid integrity hash, and no secret key bytes appear in clear anywhere in it. Each secret part has its own fresh random salt and IV in every export, everything that is not a secret part is byte-identical to the unprotected export, and an empty password means no encryption.",
  ["inputs"], "all keys x all passwords x full and subkey-only exports",
  "No test exports with a password.",
  ["pgp/s2k.go", "pgp/ecc_key.go", "pgp/mpi.go", "pgp/key_set.go"],
  [("S2K encryption", "pgp/s2k.go:EncryptS2K"), ("secret packet body", "pgp/ecc_key.go:encodePrivate")],
  observe=["EncodePGP(password)", "EncodeSubkeysPGP(password)", "pgp.EncryptS2K"])

p("C10", "A subkeys-only export never carries the master secret",
  "For every key, selection, lifetime and password, the subkeys-only export contains the master key as a stub with its public part and no secret material, and the master secret occurs nowhere in the binary or armored output, in clear or encrypted. The subkeys and their bindings are exactly those of the full export, and the self-certification is present if and only if it was asked for.",
  ["inputs", "configurations"], "all seeds x selections x passwords x self-certification choices",
  "The subkeys-only exports are never called by a test.",
  ["pgp/ecc_key.go", "pgp/key_set.go", "mnemonikey.go"],
  [("stub encoding", "pgp/ecc_key.go:encodePrivateDummy"), ("subkey export", "pgp/key_set.go:EncodeSubkeyPackets")],
  observe=["EncodeSubkeysPGP", "EncodeSubkeysPGPArmor"])

p("C11", "A requested lifetime is honoured to the second on every key, or refused",
  "With a positive lifetime, the self-certification and every subkey binding state an expiry of exactly that many whole seconds after creation and the reported expiry time agrees; with no lifetime none of them states an expiry. A lifetime that cannot be expressed that way (negative, positive but shorter than a second, or more seconds than a 32-bit count holds) is refused with an error and no key is produced.",
  ["inputs", "configurations"], "all durations x all selections x all creation times",
  "No test sets a lifetime.",
  ["mnemonikey.go", "derive.go", "pgp/master_key.go", "cmd/mnemonikey/expiry.go"],
  [("lifetime validation", "mnemonikey.go:New"), ("expiry computation", "derive.go:derivePGPKeySet"), ("expiry subpackets", "pgp/master_key.go:SelfCertify, BindSubkey")],
  observe=["New", "Expiry", "EncodePGP"])

p("C12", "Creation times are floored to the second and bounded by the phrase format",
  "A key can be created if and only if its creation time lies between the epoch (2023-01-01T00:00:00Z) and the last second the phrase can represent; earlier and later times are refused with their own errors. The accepted time is floored to a whole second, identically for every time zone, sub-second part and clock reading, and that same second is reported, hashed into the keys, stamped on the signatures and encoded in the phrase.",
  ["inputs"], "all instants, in all time zones and sub-second positions",
  "One instant on a whole second is used.",
  ["mnemonikey.go", "parameters.go", "recovery.go", "derive.go"],
  [("window check and flooring", "mnemonikey.go:New"), ("offset round trip", "mnemonikey.go:creationOffset, recovery.go:Creation")],
  observe=["New", "CreatedAt", "EncodeMnemonicPlaintext", "EncodePGP"])

p("C13", "Seeds and salts come whole from the random source, or there is no result",
  "Generating a seed uses 128 bits of the supplied random source, all of them significant, and encrypting a phrase draws its 19-bit salt from the supplied source, also when the source delivers its bytes in arbitrarily small pieces. If the source fails or ends early at any point, the operation returns an error and no seed or phrase.",
  ["inputs", "fault_sequences"], "all byte streams, all ways to split reads, all failure points",
  "The tests use a source that never fails or splits its reads and do not relate the seed to its bytes.",
  ["seed.go", "encoding.go"],
  [("seed generation", "seed.go:GenerateSeed"), ("salt drawing", "encoding.go:EncodeMnemonicEncrypted")],
  observe=["GenerateSeed", "EncodeMnemonicEncrypted"])

p("C14", "Answers do not depend on call history or on what callers do with values",
  "Any sequence of calls on the same seed, decoded phrase or key set - exports, encodings, decryptions with right and wrong passwords, accessors, in any order and number - gives each call the answer it would give on a fresh object. Changing values passed in (entropy integers, word lists, passwords, options) after the call, or values handed out (integers, words, fingerprints, packets), never changes later answers, and calls do not modify the caller's arguments.",
  ["histories"], "all call sequences and all caller-side modifications between calls",
  "Each test calls each method once or twice and never modifies a value.",
  ["seed.go", "recovery.go", "mnemonikey.go", "encoding.go", "bit_buffer.go", "mnemonic/encode.go", "pgp/key_set.go", "pgp/ecc_key.go"],
  [("copies", "seed.go:NewSeed, Int; bit_buffer.go:newBitBuffer, Int"), ("read-only encoders", "pgp/ecc_key.go, mnemonic/encode.go")],
  observe=["all exported methods"])

p("C15", "Concurrent callers never disturb each other",
  "Calls made at the same time from several goroutines - deriving, recovering, encoding, decoding, decrypting or exporting, on different objects or on the same one - each return exactly what they return when run alone. There is no data race between them and no call blocks another forever.",
  ["schedules"], "all interleavings of concurrent calls",
  "All tests are single-threaded.",
  ["bit_buffer.go", "seed.go", "encoding.go", "recovery.go", "derive.go", "mnemonikey.go", "mnemonic/encode.go", "mnemonic/decode.go", "pgp/"],
  [("no shared mutable state", "package-level values are read-only: seed.go:bigOne, mnemonic/encode.go:wordMask, pgp/constants.go")],
  observe=["all exported functions"])

p("C16", "Unknown versions and eras are refused everywhere, known ones never",
  "The first word of a phrase alone determines its version, word count, era and whether it is encrypted, consistently with what decoding the whole phrase reports. Versions 2 to 15 and eras other than 0 are refused with the version or era error wherever they can enter (first-word inspection, decoding, seed construction), and versions 0 and 1 and era 0 are always accepted.",
  ["inputs"], "all 4096 first words in any letter case, all version and era numbers",
  "No test uses an unsupported version or era.",
  ["version.go", "recovery.go", "seed.go"],
  [("version and era checks", "version.go:check"), ("first word parsing", "recovery.go:ParseMnemonicVersion")],
  observe=["ParseMnemonicVersion", "DecodeMnemonic", "NewSeed", "MnemonicVersion methods"])

p("C17", "The user ID is exactly name and email, is certified, and changes no key",
  "The user ID is the name, the email, or 'name <email>' when both are given, byte for byte, for texts of any length and content; it is what the key reports, what the export's user ID packet holds and what the self-certification signs. Name and email never change any key, fingerprint, recovery phrase or subkey binding.",
  ["inputs"], "all names and emails of any length and bytes",
  "One short ASCII name and email are used.",
  ["pgp/user_id.go", "pgp/packet.go", "pgp/master_key.go", "mnemonikey.go"],
  [("user ID composition", "pgp/user_id.go:Encode"), ("packet lengths", "pgp/packet.go:packetLengthEncode"), ("certification preimage", "pgp/master_key.go:SelfCertify")],
  observe=["UserID", "EncodePGP"])

p("C18", "Word indices and integers convert both ways without loss at every size",
  "For every non-negative integer and every bit size that holds it, encoding gives the ceiling of size/12 indices whose big-endian concatenation is the integer, and decoding those indices (or the words for them) gives the integer back; the caller's integer is left as it was. Integers too large for the size, indices above 4095 and words outside the wordlist are refused with their errors.",
  ["inputs"], "all integers, sizes, index lists and word lists",
  "The package has no tests of its own and is only reached with 168 and 192 bits.",
  ["mnemonic/encode.go", "mnemonic/decode.go"],
  [("index packing", "mnemonic/encode.go:EncodeToIndices"), ("unpacking", "mnemonic/decode.go:DecodeIndices")],
  observe=["mnemonic.EncodeToIndices", "mnemonic.EncodeToWords", "mnemonic.DecodeWords", "mnemonic.DecodeIndices"])

p("C19", "The phrase delivered by generate recovers the key delivered by generate",
  "For every combination of options, a successful `mnemonikey generate` prints exactly one armored private key block on standard output and nothing else there, delivers the phrase to the requested word file or else to standard error and nowhere else, and `mnemonikey recover` with that phrase and the same options prints the identical key. The key is created at the current second and uses the entropy source given.",
  ["inputs", "configurations"], "all option combinations and entropy contents",
  "The tests check only that a key block is printed and count the words; the recovered key is not compared.",
  ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/common_opts.go"],
  [("generate pipeline", "cmd/mnemonikey/generate.go:generateAndPrintKey"), ("recover pipeline", "cmd/mnemonikey/recover.go:recoverAndPrintKey")],
  observe=["mnemonikey generate", "mnemonikey recover"])

p("C20", "The commands output exactly the keys their options select, or fail",
  "For every value of the key-selection, index, name, email and self-certification options, the key printed by `recover` and `generate` is exactly the library's key for those options: the master secret is included only if no selection is given or the selection names master, and only the selected subkeys at the given indices are included. Unknown key types, indices above 65535, and stray or misplaced arguments are refused with a non-zero exit and no key on standard output; nothing is silently ignored or truncated.",
  ["inputs", "configurations"], "all option values and argument lists",
  "The tests pass only word-file options.",
  ["cmd/mnemonikey/common_opts.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/main.go"],
  [("selection decoding", "cmd/mnemonikey/common_opts.go:DecodeOnlyKeyTypes"), ("index bound", "cmd/mnemonikey/recover.go:recoverAndPrintKey"), ("flag parsing", "cmd/mnemonikey/command.go:Run")],
  observe=["mnemonikey recover", "mnemonikey generate"])

p("C21", "A -ttl text means exactly its number of days, weeks, months or years",
  "A lifetime text is a decimal count followed by d, w, m or y (either case), meaning 1 day, 7 days, a twelfth of 365 days or 365 days each, and the key expires exactly that long after creation; a count of zero means no expiry. Any other text, and any lifetime too long to be represented, is refused with a non-zero exit and no key, never reinterpreted.",
  ["inputs"], "all texts",
  "No test passes a lifetime.",
  ["cmd/mnemonikey/expiry.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
  [("lifetime parsing", "cmd/mnemonikey/expiry.go:parseTTL")],
  observe=["mnemonikey recover -ttl", "mnemonikey generate -ttl"])

p("C22", "Converting a phrase keeps its seed and creation time and its input intact",
  "For every input phrase, plaintext or encrypted, and every requested output format, `mnemonikey convert` delivers a phrase of that format with the same seed and creation time, to the requested output file or else to standard error. The input word file is never modified, an existing output file is never overwritten, and nothing is written to standard output.",
  ["inputs", "histories"], "all phrases, formats, passwords and chains of conversions",
  "The convert command has no test.",
  ["cmd/mnemonikey/convert.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/generate.go"],
  [("conversion", "cmd/mnemonikey/convert.go:decodeAndConvertPhrase")],
  observe=["mnemonikey convert"])

p("C23", "Interactive entry returns exactly the words shown, through any editing",
  "For every sequence of keystrokes - letters, autocompletion, backspace, space or enter, going back to revise earlier words, stray keys - the interactive prompt ends up with exactly the words the editing rules give: one word per position, in order, each revised word replacing the old one, and the word count following the version of the current first word. Submitting text that completes to no word, or a first word of an unsupported version, does not advance; control-C, control-D and end of input abort without a key, and the terminal is back in its original mode afterwards.",
  ["histories", "inputs"], "all keystroke sequences",
  "The tests only pipe words to the non-interactive fallback.",
  ["cmd/mnemonikey/word_input.go"],
  [("raw-mode editor", "cmd/mnemonikey/word_input.go:userInputMnemonic")],
  state=[("words, position, current text", "what the user has entered so far", "cmd/mnemonikey/word_input.go:userInputMnemonic")],
  observe=["mnemonikey recover on a terminal"])

p("C24", "Password entry never echoes, confirms, and always restores the terminal",
  "Under every scheduling of the program's goroutines and every timing of an interrupt, no password character typed at a waiting prompt is echoed, a password to be confirmed is used only if both entries are equal and non-empty, and on success, refusal or interrupt the terminal is back in its original mode when the command ends. Prompts add nothing to standard output, and a command interrupted before a prompt has its answer exits non-zero without printing a key.",
  ["schedules", "histories"], "all goroutine interleavings x all interrupt points x all entry sequences",
  "No test types a password.",
  ["cmd/mnemonikey/word_input.go"],
  [("prompt loop", "cmd/mnemonikey/word_input.go:userInputPassword")],
  state=[("terminal mode", "echo on or off", "kernel tty")],
  observe=["mnemonikey generate/recover/convert on a terminal"])

p("C25", "A word file is private, never overwrites, and precedes the key",
  "A requested word file is created readable by its owner only, holds exactly the phrase, and never replaces or alters anything that already exists at that path, even if it appears while the command is running. At every point where the command can be killed or a file operation can fail, key output on standard output implies that the complete phrase is already in the file, and a failed save gives a non-zero exit and no key.",
  ["crash_points", "fault_sequences", "schedules"], "all kill points, all failing system calls, all moments at which another process creates the path",
  "One successful save is tested.",
  ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/convert.go"],
  [("save before print", "cmd/mnemonikey/generate.go:generateAndPrintKey"), ("exclusive creation", "cmd/mnemonikey/generate.go:saveMnemonic")],
  observe=["mnemonikey generate -out-word-file", "mnemonikey convert -out-word-file"])

p("C26", "Exit status tells the truth: no key on failure, whole key on success",
  "A command that exits 0 has written its complete key or phrase; if standard output cannot take the whole key, or standard error the whole phrase, the command fails. A command that fails - bad options, bad or unreadable phrase, short entropy, refused password or file - exits non-zero, says why on standard error and leaves standard output empty.",
  ["fault_sequences", "inputs"], "all failing inputs and all failing or partial writes",
  "Only successful runs are tested.",
  ["cmd/mnemonikey/main.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go", "cmd/mnemonikey/convert.go", "cmd/mnemonikey/command.go"],
  [("error propagation", "cmd/mnemonikey/main.go:main"), ("output", "cmd/mnemonikey/generate.go, recover.go")],
  observe=["mnemonikey generate/recover/convert"])

p("C27", "Every terminal size works: commands finish and output stays complete",
  "For every terminal width and height, including zero and widths narrower than a word, every command and every help page terminates normally, and the text it prints has all its words in order. The size of the terminal never changes the keys, phrases or exit status.",
  ["configurations"], "all terminal sizes x all commands",
  "The tests run without a terminal.",
  ["cmd/mnemonikey/terminal.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/generate.go"],
  [("line wrapping", "cmd/mnemonikey/terminal.go:justifyWidth")],
  observe=["mnemonikey help", "mnemonikey generate", "mnemonikey convert"])

p("C28", "Word files and line-by-line entry read exactly the phrase written in them",
  "A word file gives exactly its whitespace-separated words, in any layout and letter case, and is refused if it has an unknown word, too few or too many words for its version, or cannot be read to its end. Line-by-line entry takes one wordlist word per line, ignoring surrounding blanks and letter case, skips lines that are not words without losing position, stops after the version's word count and fails at early end of input.",
  ["inputs", "fault_sequences"], "all file contents and all line sequences",
  "One well-formed file and one well-formed line sequence are tested.",
  ["cmd/mnemonikey/recover.go", "cmd/mnemonikey/word_input.go"],
  [("word file", "cmd/mnemonikey/recover.go:readWordFile"), ("line entry", "cmd/mnemonikey/word_input.go:userInputMnemonicSimple")],
  observe=["mnemonikey recover -in-word-file", "mnemonikey recover -simple"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
