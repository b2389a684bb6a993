#!/usr/bin/env python3
"""Writes known_findings.json: the findings kept, and the repairs (fix: commits of /repo)."""
import json, os, subprocess
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
known = [
 {"property": "H04", "harness": "CheckPairs", "label": "sector and subject run together: two pairs with one concatenation share a subject", "status": "known",
  "what": "pairwise.Hash hashes sectorID||subject without a separator, so (\"a\",\"bc\") and (\"ab\",\"c\") get one subject; the existing tests pin the digests, so the encoding cannot change"},
 {"property": "C03", "harness": "CheckAgain", "label": "redeemed device code redeemed again by its client before its expiry", "status": "known",
  "what": "a device code stays redeemable by its client until it expires: the device_code grant never spends the session; the existing tests use strict store doubles that refuse any further store call, so it cannot be spent there"},
 {"property": "K01", "harness": "CheckStart", "label": "metadata of another issuer used", "status": "known",
  "what": "client.HTTP uses server metadata whatever issuer they state (RFC 8414 section 3.3 wants them refused); the example clients of this repository ask http://localhost:8080 for metadata that state http://127.0.0.1:8080, so refusing them breaks the examples as committed"},
 {"property": "A07", "harness": "CheckDevice", "label": "a failing client lookup of a device authorization is blamed on the client", "status": "known",
  "what": "device Authorize answers invalid_request when the client storage fails (server/services/device/service.go does not tell an absent client from a failing storage); an existing test pins that answer"},
]
# property of each repair, by the subject line of its commit
fixed = {
 "pkce.Validate compares": "H01", "generated request_uri values": "H02", "LockedRand releases": "H05",
 "redeemed only by the client": "B02", "redirect URIs are compared": "A01", "only used by the client it names": "A03",
 "states the requested response mode": "A02", "can only revoke its own": "B12", "only used with its key": "B07",
 "token exchange reports failures": "B10", "an exchanged token keeps": "B10", "carries the audience of the device request": "B08",
 "starts as pending": "C01", "a DPoP proof needs an identifier": "E01", "concurrent presentations of one DPoP": "E02",
 "DPoP proofs name the escaped": "E03", "refresh token claims carry": "G03", "declare the media type": "G02", "JWT verifiers refuse": "G01",
 "client attestation is bound": "F02", "JARM states the encoding issuer": "H06", "verifiable identifiers with too large": "G07",
 "the client refuses empty metadata": "K01", "the client decodes introspection": "K01", "consumed only once": "B03", "keys keep issuer and value apart": "D01",
 "separates token identifiers": "D02", "device session store sets the expiration": "C03", "client store can be used concurrently": "D04",
 "removing a value": "H03", "refreshed and exchanged tokens are bound": "B07", "approved only once": "C02", "registered error code": "B08", "CWT signer refuses missing parts": "G02",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "ed02e4c..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = list(known)
for line in reversed(log):
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = [v for k, v in fixed.items() if k in s]
    if len(p) != 1: raise SystemExit("no property for: " + s)
    out.append({"property": p[0], "label": "", "status": "fixed", "commit": h, "what": f"fixed: property={p[0]} {h} {s[5:]}"})
json.dump({"findings": out}, open(OUT, "w"), indent=1)
print(len(out))
