#!/usr/bin/env python3
"""Generates spec/CharsetTables.tla from Python's codecs, an oracle independent of strf.
Bytes 0x80..0x9F that a windows code page leaves undefined map to the C1 control of the same
value and windows-1255 0xCA to U+05BA (Microsoft's "WindowsBestFit" tables, which the library cites)."""
import os
NAMES = ["ASCII"] + [f"ISO-8859-{i}" for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)] + [f"windows-{i}" for i in range(1250,1259)]
def table(name):
    py = name.lower().replace("windows-", "cp").replace("iso-", "iso")
    t = []
    for b in range(256):
        try: t.append(ord(bytes([b]).decode(py)))
        except UnicodeDecodeError:
            if name.startswith("windows") and 0x80 <= b <= 0x9F: t.append(b)
            elif name == "windows-1255" and b == 0xCA: t.append(0x05BA)
            else: t.append(-1)
    return t
if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    with open(os.path.join(d, "CharsetTables.tla"), "w") as f:
        f.write("---------------------------- MODULE CharsetTables ----------------------------\n")
        f.write("(* Generated by tools/gen_charset_tables.py from Python's codecs: the published\n"
                "   byte -> code point tables.  SBTable[cs][b+1] is the code point of byte b, -1 if undefined. *)\n")
        f.write("EXTENDS Integers, Sequences\n\nSBNames ==\n  { " + ", ".join(f'"{n}"' for n in NAMES) + " }\n\n")
        for i, n in enumerate(NAMES):
            t = table(n); rows = [", ".join(map(str, t[k:k+16])) for k in range(0, 256, 16)]
            f.write(f"T{i} ==\n  << " + "\n   , ".join(rows) + " >>\n\n")
        f.write("SBTable ==\n  [ n \\in SBNames |->\n      CASE " + "\n        [] ".join(f'n = "{n}" -> T{i}' for i, n in enumerate(NAMES)) + " ]\n\n")
        f.write("=============================================================================\n")
