#!/usr/bin/env python3
"""Writes spec/Rfc5114.tla from the parameters OpenSSL ships (an independent source)."""
import subprocess, re
def limbs(h):
    n, r = int(h, 16), []
    while n: r.append(n % 1024); n //= 1024
    return "<<" + ",".join(map(str, r)) + ">>"
out = ["------------------------------- MODULE Rfc5114 -------------------------------",
       "(* The groups of RFC 5114, sections 2.1 to 2.3 (tools/gen_rfc5114.py, from    *)",
       "(* OpenSSL): prime, generator and order of the subgroup, as BigNat numbers.   *)"]
for i in (1, 2, 3):
    pem = subprocess.run(["openssl", "genpkey", "-genparam", "-algorithm", "DHX", "-pkeyopt", f"dh_rfc5114:{i}"], capture_output=True).stdout
    asn = subprocess.run(["openssl", "asn1parse"], input=pem, capture_output=True).stdout.decode()
    p, g, q = re.findall(r"INTEGER\s+:([0-9A-F]+)", asn)[:3]
    out += [f"P{i} == {limbs(p)}", f"G{i} == {limbs(g)}", f"Q{i} == {limbs(q)}"]
out.append("=" * 78)
open("/verif/spec/Rfc5114.tla", "w").write("\n".join(out) + "\n")
