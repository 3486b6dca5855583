#!/usr/bin/env python3
"""Checks that the compilers, libraries and tools the monitors need are present (every check builds what it runs itself)."""
import os, shutil, subprocess, sys, tempfile
missing = [t for t in ("/usr/bin/clang++-18", "valgrind") if not shutil.which(t)]
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write("#include <openssl/evp.h>\n#include <gmpxx.h>\nint main() { mpz_class a(3); return EVP_sha256() && a == 3 ? 0 : 1; }\n")
    for f in ([], ["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        exe = os.path.join(d, "t")
        if subprocess.run(["/usr/bin/clang++-18", "-std=gnu++20", src, "-o", exe] + f + ["-lcrypto", "-lgmpxx", "-lgmp"]).returncode or subprocess.run([exe]).returncode:
            missing.append("toolchain with " + " ".join(f))
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
