#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: hand-written text here and in design_head.md, harness bounds from the harness comments,
planted bugs from seeded/*/meta.json and tools/bugresults.txt (the last output of runbugs.sh)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
'C01': "Oracle: the round trip itself, run twice, with copies of the inputs compared afterwards. The tests sample seeds; one 128+32-bit symbolic input decides all, including seeds with leading zeros and offsets of 2^31 and above.",
'C02': "Oracle: the round trip. Argon2 and AES are uninterpreted, so the verdict does not depend on lucky keys.",
'C03': "Oracle: `specPlain`/`specEncrypted` in harness/h/spec.go, an independent bit-level restatement of the README. Both directions. The salt's dependence on the random source is a two-run argument: changing any one random bit that is used changes the salt.",
'C04': "Oracle: an independent predicate over words, version, count and CRC. Words are one symbolic 12-bit index each, so all 4096^n lists are decided at once; strings outside the list are symbolic ASCII.",
'C05': "Oracle: the five check bits of the independently stated key derivation.",
'C06': "Oracle: integer arithmetic on the symbolic value, and the wordlist.",
'C07': "Oracle: the bytes handed out by a symbolic source; aliasing is tested by modifying every input and output afterwards.",
'C08': "Oracle: `newKeySpec`, an independent restatement of the derivation. Because Argon2/HMAC are uninterpreted the equality can only hold if exactly the prescribed inputs are used.",
'C09': "Oracle: equality with the original key's reports and exported bytes.",
'C10': "Oracle: packets of two key sets compared. Separation: the HKDF inputs of different (type, index) pairs are shown to differ.",
'C11': "Oracle: integer comparison of the symbolic instant (seconds and nanoseconds of the years 1 to 9999, several zones).",
'C12': "Oracle: signature subpackets parsed from the exported packets by the harness's own parser.",
'C13': "Oracle: the harness's own length decoder (RFC 4880 4.2.2, 5.2.3.1).",
'C14': "Oracle: bit length and value of the symbolic integer.",
'C15': "Oracle: body and SHA-1 input composed independently.",
'C16': "Oracle: packet composed independently, including the 16-bit sum.",
'C17': "Oracle: an independent S2K + CFB decryption in the harness over the uninterpreted hash and cipher. Freshness: salt and IV are disjoint parts of the random stream. Password lengths change the number of hashed repetitions, so several are used.",
'C18': "Oracle: `checkExport` re-parses every packet, recomposes the hashed data and compares the signature term with Ed25519(key, hash).",
'C19': "Oracle: exact packet sequence and byte equality between repeated exports. The subkey order is an uninterpreted function of the master key's seed value (math/rand).",
'C20': "Oracle: exact packet content; independence: two master keys with the same subkeys and the same observable public parts give the same bytes elsewhere.",
'C21': "Oracle: string concatenation. Bytes are arbitrary.",
'C22': "Oracle: exact integer arithmetic on the symbolic argument text; the export is compared with the library's export for that lifetime (itself decided by C12).",
'C23': "Oracle: decoding the new phrase gives the same seed and offset; where text appeared.",
'C24': "Oracle: the library's export for the selected options (decided by C08 to C21).",
'C25': "Oracle: recover the printed or saved phrase with the library and compare with standard output.",
'C26': "Oracle: files before and after; a file, directory or link may appear at every file operation of the run.",
'C27': "Oracle: `entry`, an independent model of the prompt, over symbolic keys and histories. A capital D, which terminals also send as part of the left-arrow sequence, and escape are excluded as single keys.",
'C28': "Oracle: `asked`, an independent model of the prompt over histories of answers (right, different, empty, end of input, interrupt), and all schedules within the preemption bound.",
'C29': "Oracle: the words of the string literals in /repo's own source (collected anew on every run) must appear in order; termination by the step bound. Width is a symbolic integer.",
'C32': "Oracle: terminal mode at exit equals the mode at start; echo state whenever a password was typed; output does not contain it. All schedules within the preemption bound.",
}
TAIL1 = """
## 5. Not applicable

* C30 (reproducible builds): a statement about the Go toolchain and several machines; there is no function of this repository to encode.
* C31 (interoperability with GnuPG): depends on a foreign C program that is not installed; the formats it needs are decided by C13 to C20.

## 6. Outside the bounds

* Lengths beyond those listed (passwords, names, arguments, packets, histories); in particular packet contents above 256 KiB and words in files above 200 kB.
* Schedules needing more than two preemptions; terminals that are resized while the tool runs; several tools racing on one file other than by the modelled appearing file.
* Non-ASCII case folding of words; byte sequences other than the left arrow that contain a capital D.
* Cryptographic strength of the primitives; side channels; wiping of memory.
* Windows-specific code.

## 7. Defects found and repaired

Each is a `fix:` commit in /repo and a `fixed` line in known-findings.jsonl; the check that found it passes on the repaired tree and fails on the original.

"""
TAIL2 = """
No finding is left unrepaired.

## 8. False alarms corrected

* C27: the model of the prompt first deleted a completed word's letters as typed rather than as shown; corrected. A randomly chosen "wrong" word turned out to be in the word list.
* C28: a wrong decryption password is asked for again (it is not an error): property and model corrected.
* Scheduling: an interrupt that is delivered arbitrarily late looked like a hang; late delivery now counts as a preemption and unfair schedules are excluded.

## 9. Planted bugs

Written from the property text, kept in seeded/ (patch, demonstration, what it needs). `tools/mkbug.py` confirms build, tests and demonstration in a
scratch clone; `tools/runbugs.sh` applies each to /repo, runs the quick check of its property and undoes it. Result of the last run:

"""
TAIL3 = """
Bugs that were missed when first planted and led to stronger checks: c22-generate-ttl-rounded (C22_Generate added), c25-key-before-phrase-saved
(-verbose when saving fails), c26-extra-words-ignored (encrypted phrases followed by more words), c27-space-after-tab (C27_Edit), c32-confirm-echoed (C32_Retries).

## 10. Cost

Quick checks take 3 to 100 s each on 8 cores (budget 240 s each), loading included (2 to 3 s). Thorough checks use longer strings, more option
combinations and longer histories with a budget of 3000 s. The term table is renewed when it exceeds 1.2 million terms, which keeps memory below about 6 GB.
"""
docs = {}
for f in sorted(glob.glob(V + "/harness/h/*.go")):
    for n, d in re.findall(r"(?m)^// (C\d\d_\w+): (.*)$", open(f).read()):
        docs.setdefault(n[:3], []).append((n, d))
out = open(V + "/tools/design_head.md").read() + "\n## 4. Properties\n\nStatements and anchors are in properties.jsonl. Level: model checking (all values within the bounds) for every claimed property.\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in docs: continue
    out += f"\n### {p['id']} {p['title']}\n\n{W[p['id']]}\n\n" + "".join(f"* `{n}`: {d}\n" for n, d in docs[p["id"]])
out += TAIL1
for l in open(V + "/known-findings.jsonl"):
    k = json.loads(l); out += f"* {k['text'].replace('fixed: property=', '')}\n"
res = {}
if os.path.exists(V + "/tools/bugresults.txt"):
    for l in open(V + "/tools/bugresults.txt"):
        w = l.split()
        if len(w) > 3: res.setdefault(w[0], []).append((w[1], w[2], w[3], (re.search(r"replay/(C\d\d_\w+)-", l) or [None, ""])[1]))
out += TAIL2 + "| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    c = ", ".join(h or p for p, rc, t, h in res.get(i, []) if rc == "rc=1") or ("not run" if i not in res else "**missed**")
    out += f"| {i} | {m['property']} | {m['what_it_breaks']} | {c} |\n"
out += TAIL3
open(V + "/DESIGN.md", "w").write(out)
