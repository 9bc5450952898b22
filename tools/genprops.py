#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so ids, titles and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A plaintext recovery phrase gives back exactly what was encoded",
  "For every 128-bit seed and every 31-bit creation offset, encoding a plaintext recovery phrase succeeds with 14 words, and decoding those words (in any letter case) yields an unencrypted version-0 phrase with the same seed, the same creation offset and the corresponding creation time. Encoding and decoding leave the seed and the word list unchanged, so repeating them gives the same result. A creation offset that needs more than 31 bits is refused with an error and never crashes the program.",
  ["inputs"], "every seed in [0,2^128), every uint32 creation offset, any letter case of the words",
  "The tests encode one seed and one date; a field boundary, sign or padding slip that needs e.g. a leading-zero seed or the top offset bit is outside the sample.",
  ["encoding.go", "recovery.go", "bit_buffer.go", "mnemonic/encode.go", "mnemonic/decode.go", "seed.go"],
  [("fixed-width bit concatenation and popping", "bit_buffer.go"), ("EncodeMnemonicPlaintext / DecodeMnemonic", "encoding.go, recovery.go")],
  ["EncodeMnemonicPlaintext", "DecodeMnemonic", "DecodedMnemonic.Seed", "DecodedMnemonic.Creation"])
p("C02", "An encrypted recovery phrase always decrypts with its own password",
  "For every seed, creation offset, non-empty password and random salt, encoding an encrypted phrase succeeds with 16 words, the decoded phrase reports itself as encrypted version 1 with the same creation offset and time, and decrypting it with the same password always succeeds and returns the same seed. An empty password, a failing random source or an offset of more than 31 bits is refused with an error.",
  ["inputs"], "every seed, 31-bit offset, salt and password (password length within the stated bound)",
  "One password and one random salt are tried per test run; a failure on particular salts, offsets or seeds would surface once in thousands of runs.",
  ["encoding.go", "recovery.go", "bit_buffer.go"],
  [("salt||offset as key-derivation salt on both sides", "encoding.go, recovery.go"), ("AES-128 block encrypt/decrypt of the seed", "encoding.go, recovery.go")],
  ["EncodeMnemonicEncrypted", "DecodeMnemonic", "DecodedMnemonic.DecryptSeed"])
p("C03", "Recovery phrases follow the published bit layout",
  "Every phrase produced is bit for bit the one the specification prescribes: version, seed (or AES-128 encrypted seed, 19-bit salt and 5 password-check bits derived with Argon2id from the password, salt and creation offset), 31-bit creation offset and the 5 low bits of the CRC-32 of the payload bytes, in that order, 12 bits per word. Every bit of the salt of an encrypted phrase comes from the random source. Every phrase the specification prescribes is decoded to the prescribed seed and creation time, so phrases written down earlier or by another implementation stay recoverable.",
  ["inputs"], "every seed, 31-bit offset, salt, and password within the stated length bound",
  "The tests only check that this build can read what this build wrote; a symmetric change to encoder and decoder passes them and silently orphans all existing backups.",
  ["encoding.go", "recovery.go", "parameters.go", "version.go", "mnemonic/encode.go"],
  [("field sizes", "parameters.go"), ("checksum", "encoding.go encodeMnemonic, recovery.go DecodeMnemonic")],
  ["EncodeMnemonicPlaintext", "EncodeMnemonicEncrypted", "DecodeMnemonic"])
p("C04", "Decoding accepts exactly the well-formed phrases",
  "For every list of strings, decoding returns normally, and it succeeds if and only if every string is a wordlist member (ignoring case), the version in the first word is supported, the word count is the one for that version and the embedded checksum matches. A refused phrase reports the right reason, and an accepted phrase is the only one for its content: writing the decoded content out again in the specified layout gives the same words, so any change to an accepted phrase that is also accepted means different content.",
  ["inputs"], "all lists of 0 to 18 strings, each a wordlist word in any case or a non-member",
  "Tests try one wrong word in one phrase; acceptance must be decided over 2^168 and 2^192 phrases and every wrong length and version.",
  ["recovery.go", "version.go", "mnemonic/decode.go"],
  [("checks in DecodeMnemonic", "recovery.go"), ("ParseMnemonicVersion", "recovery.go"), ("DecodeWords", "mnemonic/decode.go")],
  ["DecodeMnemonic", "ParseMnemonicVersion", "MnemonicVersion.MnemonicSize"])
p("C05", "An encrypted phrase never yields a seed without a matching password",
  "Asking an encrypted phrase for its seed, or recovering it as plaintext, always fails with the decryption error. Decrypting succeeds exactly when the five check bits derived from the given password match those in the phrase, and then returns the decryption under that password; otherwise it fails with the decryption error and returns no seed. A plaintext phrase gives its seed whatever password is supplied.",
  ["inputs"], "every decodable phrase and every password within the stated length bound",
  "The test tries one wrong password against one phrase and is itself wrong once in 32 runs.",
  ["recovery.go"], [("encSeedVerify comparison", "recovery.go DecryptSeed"), ("Encrypted() guard", "recovery.go Seed")],
  ["DecodedMnemonic.Seed", "DecodedMnemonic.DecryptSeed", "RecoverPlaintext", "RecoverEncrypted"])
p("C06", "Word and index coding are exact inverses and leave inputs alone",
  "For every non-negative integer that fits the given bit size, coding to word indices yields ceil(bits/12) indices, most significant first, that decode back to the same integer; an integer too large for the bit size is refused. Indices and words map to each other one to one through the wordlist, ignoring letter case; an index above 4095 or a word outside the list is refused with the documented error. None of these operations alters its arguments or crashes.",
  ["inputs"], "integers up to the stated bit size, all 16-bit indices, all wordlist words and non-members",
  "The package has no tests of its own; only the two payload sizes used internally are ever exercised.",
  ["mnemonic/encode.go", "mnemonic/decode.go"],
  [("EncodeToIndices / DecodeIndices", "mnemonic/encode.go, mnemonic/decode.go")],
  ["mnemonic.EncodeToIndices", "mnemonic.DecodeIndices", "mnemonic.EncodeToWords", "mnemonic.DecodeWords"])
p("C07", "Seeds hold exactly 128 bits of the entropy they were given",
  "A generated seed is exactly the 128 bits read from the random source, unmodified, and a source that runs dry produces an error rather than a weaker seed. A seed can be built from an integer exactly when the era is supported and the integer is between 0 and 2^128-1; it then always reports that integer and its 16-byte big-endian form, and neither changing the integer it was built from nor changing what it returned alters it.",
  ["inputs", "fault_sequences"], "every 16-byte entropy string, every source failing after k bytes, every integer up to 136 bits with sign, every era",
  "Tests draw one seed from a fixed generator; loss of entropy or aliasing does not change that one value.",
  ["seed.go", "version.go"], [("NewSeed validation", "seed.go"), ("GenerateSeed", "seed.go")],
  ["GenerateSeed", "NewSeed", "Seed.Int", "Seed.Bytes", "Seed.Era"])
p("C08", "PGP keys are derived by the published procedure",
  "For every seed, creation time and subkey index, the exported master key and encryption, authentication and signing subkeys carry exactly the private keys the specification prescribes: Argon2id(seed bytes, 4-byte creation time; t=4, m=512MiB, p=2) expanded by HKDF-SHA256 under the specified info string for that key and big-endian 16-bit index. The curve25519 key is the clamped value, and each public key belongs to its private key.",
  ["inputs"], "every 128-bit seed, every second in the supported creation range, every subkey index",
  "Fingerprints are pinned for one seed, one date and indices 0 and 1; a deviation for other dates, indices or key types is invisible.",
  ["derive.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go"],
  [("derivePGPKeySet, keyExpandInfoSubkey", "derive.go"), ("clamping", "pgp/encryption_subkey.go")],
  ["New", "Mnemonikey.EncodePGP", "Mnemonikey.Fingerprint", "Mnemonikey.SubkeyFingerprint"])
p("C09", "Recovering from a phrase reproduces the identical key set",
  "For every seed, creation time (any sub-second part or time zone) and key options, recovering from the plaintext phrase, or from the encrypted phrase with its password, yields a key whose fingerprints, creation time, expiry, user ID and exported packets equal those of the original. Converting between the plaintext and encrypted form, any number of times, does not change this.",
  ["inputs", "histories"], "every seed and accepted creation time, every option combination, conversion chains within the stated bound",
  "One seed, one whole-second date and one option set are recovered by the tests.",
  ["mnemonikey.go", "recovery.go", "encoding.go", "derive.go"],
  [("flooring of the creation time", "mnemonikey.go New"), ("creationOffset", "mnemonikey.go"), ("RecoverPlaintext/RecoverEncrypted", "recovery.go")],
  ["New", "RecoverPlaintext", "RecoverEncrypted", "Mnemonikey.EncodePGP"])
p("C10", "Subkeys are chosen and indexed independently of each other",
  "A key set contains exactly the subkey types that were requested (all three when no list is given, none for an empty list), and the reported types and fingerprints agree with the exported packets. Selecting a subset, or changing one subkey's index, never changes the master key or any other subkey, and different indices or types always feed different inputs to the derivation.",
  ["inputs", "configurations"], "every subset and order of subkey types, every combination of 16-bit indices",
  "Tests use one subset and one changed index; cross-talk between indices or types needs other combinations.",
  ["derive.go", "key_options.go", "mnemonikey.go"],
  [("subkeyEnabled", "key_options.go"), ("per-type info strings", "derive.go")],
  ["Mnemonikey.SubkeyTypes", "Mnemonikey.SubkeyFingerprint", "Mnemonikey.EncodePGP"])
p("C11", "Creation times are accepted exactly when a phrase can represent them",
  "A key is created exactly when the creation time lies between 2023-01-01T00:00:00Z and 2^31-1 seconds later and the time-to-live is acceptable (not negative, and representable in the 32-bit seconds field); otherwise the documented error is returned. An accepted creation time is rounded down to the whole second, independent of time zone, and that value is reported, exported in the packets and written into the phrase.",
  ["inputs"], "every creation instant with nanoseconds (years 1970-2200) and every signed 64-bit duration",
  "Tests use one date well inside the range and no time-to-live.",
  ["mnemonikey.go", "parameters.go"], [("range checks and flooring", "mnemonikey.go New")],
  ["New", "Mnemonikey.CreatedAt", "Mnemonikey.Expiry"])
p("C12", "Key expiry is what the caller asked for, everywhere",
  "With no time-to-live no expiry appears anywhere. With a positive time-to-live of whole seconds, the reported expiry is creation plus that time, and the self-certification and every subkey binding carry a key-expiration of exactly that many seconds. A time-to-live the 32-bit OpenPGP field cannot represent, or one that would be written as 'never expires', is refused rather than exported as a different lifetime.",
  ["inputs"], "every signed 64-bit time-to-live and every accepted creation time",
  "No test sets a time-to-live at all.",
  ["derive.go", "mnemonikey.go", "pgp/master_key.go"],
  [("expiry flooring", "derive.go"), ("key-expiration subpackets", "pgp/master_key.go")],
  ["New", "Mnemonikey.Expiry", "Mnemonikey.EncodePGP"])
p("C13", "Packet and subpacket headers frame their content exactly",
  "For every tag and content length, an encoded OpenPGP packet is a valid new-format header whose length decodes to exactly the content length, followed by the unmodified content; the same holds for signature subpackets and their type byte. The encoder does not modify its input.",
  ["inputs"], "every content length below 2^32, every tag and subpacket type",
  "Tests only ever produce packets of a few hundred bytes; the 191/192, 8383/8384 and 255-byte boundaries are never crossed deliberately.",
  ["pgp/packet.go", "pgp/signature.go"], [("packetLengthEncode", "pgp/packet.go")],
  ["pgp.EncodePacket", "pgp.Subpacket.Encode"])
p("C14", "Multiprecision integers are encoded canonically",
  "For every non-negative integer, its OpenPGP encoding is the exact bit length in two big-endian bytes followed by the minimal big-endian value, so that decoding gives the integer back and equal integers have one encoding. The integer passed in is not modified.",
  ["inputs"], "every integer up to the stated bit size, including those with leading zero bytes",
  "Keys or signatures with leading zero bytes occur once in 256 and are not constructed by any test.",
  ["pgp/mpi.go"], [("EncodeMPI", "pgp/mpi.go")], ["pgp.EncodeMPI"])
p("C15", "Fingerprints are the OpenPGP v4 hash of the exported public key",
  "For every key and creation time, the public key packet is version 4 with the 4-byte creation time, the right algorithm and curve, the 0x40-prefixed point and (for encryption keys) the key-derivation parameters, and the reported fingerprint is SHA-1 over 0x99, its two-byte length and that body. The secret key packet starts with the same body, so private and public exports have the same fingerprint.",
  ["inputs"], "every 32-byte key seed, every 32-bit creation time, every key-derivation parameter choice",
  "Fingerprints of four keys are pinned; nothing checks how other keys or dates are laid out.",
  ["pgp/ecc_key.go", "pgp/master_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go", "pgp/constants.go"],
  [("encodePublic, FingerprintV4", "pgp/ecc_key.go")],
  ["pgp.ED25519MasterKey.FingerprintV4", "EncodePublicPacket", "EncodePrivatePacket"])
p("C16", "An unprotected secret key packet carries the exact private key",
  "For every key, the secret key packet exported without a password is the public key body, a zero protection byte, the private key as a canonical integer (big-endian clamped scalar for encryption keys) and the 16-bit sum of those bytes, under the right packet tag. Key constructors refuse seeds that are not 32 bytes long and do not modify the seed.",
  ["inputs"], "every 32-byte key seed, including ones with leading zero bytes",
  "GnuPG imports two keys in the tests; private keys with leading zero bytes or a wrapping checksum are not among them.",
  ["pgp/ecc_key.go", "pgp/mpi.go", "pgp/encryption_subkey.go"],
  [("encodePrivate", "pgp/ecc_key.go"), ("checksumMPI", "pgp/mpi.go"), ("reverse/clamp", "pgp/encryption_subkey.go")],
  ["EncodePrivatePacket"])
p("C17", "A password-protected secret key opens with that password and only so",
  "For every key, non-empty password, salt and IV, the protected secret key decrypts by the OpenPGP iterated-and-salted string-to-key procedure to the private key with a correct SHA-1 check, using the algorithms named in the packet. Every secret byte of the packet goes through the cipher under a key that depends on the password and on a fresh salt and IV per packet; an empty password is the only way to get an unprotected packet.",
  ["inputs"], "every private key, password within the stated length bound, salt and IV",
  "No test exports with a password.",
  ["pgp/s2k.go", "pgp/ecc_key.go"], [("EncryptS2K, stringToKey", "pgp/s2k.go"), ("password branch", "pgp/ecc_key.go encodePrivate")],
  ["pgp.EncryptS2K", "EncodePrivatePacket", "Mnemonikey.EncodePGP"])
p("C18", "Every signature commits to the right keys, user ID, flags and time",
  "For every key set, the self-certification is a positive certification by the master key over its public key and the user ID, and each subkey has a binding signature by the master key over both public keys; each is the Ed25519 signature of the OpenPGP v4 hash of exactly the data in the packet, names the issuer, is dated at the key creation time and carries the specified preferences and key flags. A signing subkey's binding embeds a valid back-signature by that subkey; other bindings do not.",
  ["inputs", "configurations"], "every seed, creation time, user ID within the stated length bound, expiry and subkey combination",
  "GnuPG accepts the signatures of two keys with one user ID and no expiry.",
  ["pgp/sign.go", "pgp/signature.go", "pgp/master_key.go", "pgp/key_set.go"],
  [("SelfCertify, BindSubkey", "pgp/master_key.go"), ("Sign", "pgp/sign.go")],
  ["pgp.Sign", "Mnemonikey.EncodePGP"])
p("C19", "A full export is a complete, deterministic and repeatable key",
  "Exporting without a password yields exactly: master secret key, user ID, self-certification, then for each subkey its secret subkey followed by its binding signature, each subkey once, in an order fixed by the master key. Repeating the export, in any order with other exports, phrase encodings and fingerprint queries, or after rebuilding the key from the same inputs, gives identical bytes, and the armored form holds the same bytes.",
  ["inputs", "histories"], "every key set and every sequence of exports and queries within the stated length bound",
  "Tests export each key once.",
  ["pgp/key_set.go", "mnemonikey.go"], [("EncodePackets, shuffle by hash of the master key", "pgp/key_set.go")],
  ["Mnemonikey.EncodePGP", "Mnemonikey.EncodePGPArmor", "pgp.KeySet.EncodePackets"])
p("C20", "A subkeys-only export never contains the master secret",
  "For every key set, password and self-certification choice, the subkeys-only export holds the master key only as a public body with a GNU-dummy stub, and apart from the public key, the signatures and the order of the subkeys no byte of it depends on the master private key. Otherwise it holds the same user ID, the same subkeys and bindings as the full export, and the self-certification exactly when asked for; the armored form holds the same bytes.",
  ["inputs", "configurations"], "every key set, password within the stated length bound, both self-certification settings",
  "No test uses the subkeys-only export.",
  ["pgp/key_set.go", "pgp/ecc_key.go", "mnemonikey.go"],
  [("EncodeSubkeyPackets", "pgp/key_set.go"), ("encodePrivateDummy", "pgp/ecc_key.go")],
  ["Mnemonikey.EncodeSubkeysPGP", "Mnemonikey.EncodeSubkeysPGPArmor"])
p("C21", "The user ID is built from name and email as specified",
  "For every name and email, the user ID is the name alone if there is no email, the email alone if there is no name, and otherwise 'name <email>', byte for byte; the same string is reported, put in the user ID packet and certified.",
  ["inputs"], "every name and email byte string within the stated length bound",
  "One name and email pair is tested.",
  ["pgp/user_id.go", "mnemonikey.go"], [("UserID.Encode", "pgp/user_id.go")],
  ["pgp.UserID.Encode", "Mnemonikey.UserID", "Mnemonikey.EncodePGP"])
p("C22", "A -ttl argument means its exact duration or is refused",
  "For every -ttl argument, generate and recover either export a key whose lifetime is exactly the given number of days, weeks, months (1/12 of 365 days) or years (365 days), or fail with an error before exporting anything. Only decimal digits followed by one unit letter (either case) are accepted, and a duration too large to represent is an error, never a shorter lifetime.",
  ["inputs"], "every argument string within the stated length bound",
  "No test passes -ttl.",
  ["cmd/mnemonikey/expiry.go", "cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
  [("parseTTL", "cmd/mnemonikey/expiry.go")], ["mnemonikey generate -ttl", "mnemonikey recover -ttl"])
p("C23", "convert keeps the key and writes the new phrase where it was told to",
  "For every phrase, convert outputs a phrase of the requested kind with the same seed and creation time, encrypted with the newly entered password exactly when encryption was requested. The new phrase goes to the -out-word-file when one is given and otherwise to the terminal, never to standard output, and the input word file is left untouched.",
  ["inputs", "configurations"], "every phrase, password and combination of convert options",
  "convert has no test.",
  ["cmd/mnemonikey/convert.go"], [("decodeAndConvertPhrase", "cmd/mnemonikey/convert.go")],
  ["mnemonikey convert"])
p("C24", "recover exports exactly the keys the options select",
  "For every phrase and option combination, recover writes to standard output the key set for that phrase with the given user ID and subkey indices: the full export when the master key is selected, otherwise the subkeys-only export with or without the self-certification as asked, encrypted with the entered password exactly when requested. Indices above 65535, unknown key types and bad phrases end in an error with nothing exported, and a key that cannot be written to standard output is reported as an error.",
  ["inputs", "configurations"], "every phrase, every index value, every list of key types within the stated length",
  "The command-line tests run recover with default options and only look at the armor header.",
  ["cmd/mnemonikey/recover.go", "cmd/mnemonikey/common_opts.go"],
  [("recoverAndPrintKey", "cmd/mnemonikey/recover.go"), ("DecodeOnlyKeyTypes", "cmd/mnemonikey/common_opts.go")],
  ["mnemonikey recover"])
p("C25", "generate never leaves a key without a matching phrase",
  "For every entropy, clock value and option combination, a successful generate writes exactly one armored key to standard output and the phrase, in full and in order, to the terminal or the word file, and that phrase recovers exactly that key. If the phrase cannot be produced or saved, or any option is invalid, no key is written; the phrase is never written to standard output. A key that cannot be written to standard output is reported as an error.",
  ["inputs", "fault_sequences", "configurations"], "every entropy, clock value, option combination and file or input failure",
  "The test checks the armor header and counts the words in one run.",
  ["cmd/mnemonikey/generate.go"], [("order of saving and printing", "cmd/mnemonikey/generate.go generateAndPrintKey")],
  ["mnemonikey generate"])
p("C26", "Word files are written privately, never overwritten, and read back exactly",
  "Saving a phrase to a word file creates a new file readable only by its owner holding exactly the words, separated by single spaces; if anything exists at that path, even if it appears while the program runs, it is left unchanged and an error is reported. Reading a word file yields exactly its whitespace-separated words, in any letter case, or an error if any is not in the wordlist or the count is wrong.",
  ["inputs", "schedules", "fault_sequences"], "every phrase, every prior state of the target path and a concurrent creation at any point",
  "Tests write to a fresh path and read back one file.",
  ["cmd/mnemonikey/generate.go", "cmd/mnemonikey/recover.go"],
  [("saveMnemonic", "cmd/mnemonikey/generate.go"), ("readWordFile", "cmd/mnemonikey/recover.go")],
  ["mnemonikey generate -out-word-file", "mnemonikey recover -in-word-file", "mnemonikey convert"])
p("C27", "Phrase entry uses exactly the words the user finally entered",
  "For every sequence of submissions, corrections and invalid input at the phrase prompt (terminal or simple mode), the words used are, for each position, the last word submitted there, all in the wordlist, and as many as the version in the first word requires. Going back with the left arrow replaces the earlier word and can never go before the first word; Ctrl+C, Ctrl+D or end of input aborts without using a partial phrase.",
  ["inputs", "histories"], "every history of prompt events within the stated length bound",
  "The tests enter one phrase with no correction, and only through the simple prompt.",
  ["cmd/mnemonikey/word_input.go"], [("userInputMnemonic, userInputMnemonicSimple", "cmd/mnemonikey/word_input.go")],
  ["mnemonikey recover", "mnemonikey convert"])
p("C28", "Password prompts only return a confirmed, non-empty password",
  "For every sequence of entries, read failures and interrupts, in any interleaving, a new-password prompt returns a password only if it is non-empty and was entered twice identically, a decryption prompt only if it is non-empty, and otherwise it asks again, reports the error or aborts; a wrong decryption password is asked for again. It never deadlocks, and nothing is exported or converted after a failed or interrupted prompt.",
  ["schedules", "inputs", "fault_sequences"], "every history of entries within the stated bound and every interleaving of reader, interrupt and prompt",
  "Password prompts are not tested.",
  ["cmd/mnemonikey/word_input.go"], [("userInputPassword", "cmd/mnemonikey/word_input.go")],
  ["mnemonikey generate -encrypt-keys", "mnemonikey generate -encrypt-phrase", "mnemonikey recover", "mnemonikey convert"])
p("C29", "Help and messages print in full at any terminal width",
  "For every terminal width the system may report, including zero, every command terminates without crashing and its help text and closing instructions contain all their words in order.",
  ["configurations"], "every terminal width within the stated range, every command's help",
  "Tests run without a terminal, where the width is a constant.",
  ["cmd/mnemonikey/terminal.go", "cmd/mnemonikey/command.go", "cmd/mnemonikey/generate.go"],
  [("justifyWidth", "cmd/mnemonikey/terminal.go")], ["mnemonikey help", "mnemonikey generate"])
p("C30", "Release builds are reproducible",
  "Building the command-line tool from the same source with the same compiler yields the same file on every machine and platform.",
  ["configurations"], "every build machine and target platform",
  "No test compares builds.",
  ["repro-build.sh"], [("build flags", "repro-build.sh")], ["repro-build.sh"])
p("C31", "Exported keys are usable in other OpenPGP software",
  "Any exported key imports into GnuPG, which can then sign, verify, encrypt and decrypt with it.",
  ["inputs", "configurations"], "every key set and every version of the importing software",
  "Two keys are imported into one version of GnuPG.",
  ["pgp/key_set.go"], [("OpenPGP serialization", "pgp/")], ["Mnemonikey.EncodePGP"])
p("C32", "The terminal is given back as it was, and passwords are never shown",
  "For every way in which a phrase or password prompt ends (completed, Ctrl+C, Ctrl+D, end of input, refused input) and every interleaving of the threads involved, when the program ends the terminal is in the mode it was in when it started, and neither the terminal nor the program shows a password as or after it is typed, also when several prompts follow each other.",
  ["schedules", "fault_sequences", "histories"], "every way and point of leaving each prompt within the stated bounds and every interleaving with up to two preemptions",
  "Prompts that use the terminal are not tested.",
  ["cmd/mnemonikey/word_input.go"], [("userInputPassword, userInputMnemonic", "cmd/mnemonikey/word_input.go")],
  ["mnemonikey generate", "mnemonikey recover", "mnemonikey convert"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
