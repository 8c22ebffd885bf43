#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("online oracle: every accept of the real parser is re-verified by a reference decoder and libcrypto", "field, byte and signature alterations of genuine certificates; trusts libcrypto and the reference decoder"),
 "C02": ("online differential monitor of decoded fields against the reference encoder and ssh-keygen", "generated and OpenSSH-made certificates; trusts libcrypto, the reference encoder and ssh-keygen"),
 "C03": ("trace monitor of builder calls against the issued bytes, reference decoder and ssh-keygen", "random builder histories; trusts libcrypto, the reference decoder and ssh-keygen"),
 "C04": ("fault-injecting signers with an online oracle re-verifying every issued certificate", "signer faults of all kinds; trusts libcrypto"),
 "C05": ("online oracle: every signature the real verifiers accept is re-verified by a reference decoder and libcrypto", "relabelled, transplanted and altered signatures, software security-key authenticator; trusts libcrypto"),
 "C06": ("online oracle: every accepted detached signature is re-verified by a reference decoder and libcrypto", "alterations of message, namespace, key, hash, version and magic; trusts libcrypto"),
 "C07": ("online completeness monitor on signatures made by libcrypto, ssh-keygen, a software security-key authenticator and the crate itself", "all key types, hashes and message shapes generated; trusts libcrypto and ssh-keygen"),
 "C08": ("online differential monitor against an independent public-key codec and ssh-keygen", "generated and altered keys of all types"),
 "C09": ("online monitor of fingerprints against independently computed digests and ssh-keygen", "generated keys of all types, every way of loading; trusts libcrypto"),
 "C10": ("online round-trip monitor against an independent private-key codec and ssh-keygen", "generated private keys of all types"),
 "C11": ("online oracle on encrypted key files made by ssh-keygen and by an independent encoder, right and wrong passphrases", "the default cipher and KDF, and altered headers"),
 "C12": ("online oracle: every accepted private key file is compared with a reference decoder", "structural and byte alterations of genuine key files"),
 "C13": ("trace monitor of signing calls, every signature verified by libcrypto", "all signing-capable types with leading-zero scalars and signatures, damaged keys; trusts libcrypto"),
 "C14": ("instrumented allocator watching secret blocks for non-zero contents when they are released", "heap blocks owned by key objects; copies inside dependencies are out of its sight"),
 "C15": ("panic, overflow, abort, CPU-time and metered-heap monitors around every entry point, in a child process", "genuine, altered, spliced, truncated, re-signed, oversized and deeply nested inputs; unoptimised build with overflow checks"),
 "C16": ("online differential monitor of wire reader and writer call traces against a reference model", "exhaustive short inputs, random operation traces, and write/read round trips"),
 "C17": ("online differential monitor of parsed entries and refusals against an independent allowed-signers grammar", "generated lines and files of every documented shape and their damaged forms"),
 "C18": ("online monitor of parsed instants against libc and an independent calendar, one process per time zone", "every installed time zone, rule strings, transitions and calendar edges; trusts the system zone data"),
 "C19": ("online oracle: every accepted attestation is re-verified link by link by libcrypto over independently parsed DER", "generated chains with every link altered, and real device attestations; trusts libcrypto"),
 "C20": ("online differential monitor against an independent authenticator-data decoder, with a software authenticator", "generated, altered and truncated authenticator data"),
 "C21": ("online oracle: every accepted PIV attestation is re-verified link by link by libcrypto over independently parsed DER", "generated chains with every link and key altered, every policy, serial and firmware value; trusts libcrypto"),
 "C22": ("online differential monitor of extracted keys against libcrypto and an independent DER reader", "generated certificates, requests and DER keys of all algorithms, and altered ones; trusts libcrypto"),
 "C23": ("online differential monitor of converted signatures against an independent DER codec and libcrypto", "generated and altered signatures of all algorithms; trusts libcrypto"),
 "C24": ("statistical and repetition monitors over all values made, on threads and in forked processes under an interposed randomness source with faults and a frozen clock", "hundreds of thousands of certificates and keys; the chance of a false alarm is below 1e-6"),
 "C25": ("history checker: every answer in random sequential and concurrent histories is compared with the answer of a fresh process; shared and cloned objects are watched", "families of easily confused inputs at every entry point, up to 16 threads"),
 "C26": ("online monitor parsing the printed forms against the certificate's reference values", "generated certificates of all shapes"),
 "C27": ("in-process PC/SC and PIV token emulator; trace monitor over every command it receives and every result, with injected faults", "random histories of token operations on one to three tokens, refusals, removal, lost, cut and damaged answers; trusts libcrypto and the emulator's reading of SP 800-73"),
 "C28": ("FIDO2 token emulator below the HID transport in a child process; trace monitor over every message tokens receive and every result, with injected faults", "random histories of signing and enrolment with one to three tokens, PINs, refusals, removal and damaged answers; genuine attestations are two recorded ones replayed with scripted randomness; trusts libcrypto and the emulator's reading of CTAP2"),
 "C29": ("online oracle: genuine objects with bytes inserted at every structural position, or options repeated, must be refused while the same object without them is accepted", "inserted bytes at every structural position of generated, correctly signed objects of all types"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]
checks = []
for p in props:
    if p in TECH:
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
                       "level_note": "Holds on every execution observed, not proved beyond them: " + n + "."})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in TECH]
json.dump({"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe the public API. Findings are in KNOWN_FINDINGS."},
          open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
