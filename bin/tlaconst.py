"""Authoring helper: expand 64-bit (#hex) and 32-bit (%hex) literals of a .tla.in
template on stdin into the limb tuples used by Word.tla."""
import re, sys
def t(v, n): return "<<" + ", ".join(str((v >> (16 * i)) & 0xFFFF) for i in range(n)) + ">>"
s = sys.stdin.read()
s = re.sub(r"#([0-9a-fA-F]+)\b", lambda m: t(int(m[1], 16), 4), s)
s = re.sub(r"@([0-9a-fA-F]+)\b", lambda m: t(int(m[1], 16), 2), s)
sys.stdout.write(s)
