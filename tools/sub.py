"""sub.py FILE OLD NEW [COUNTINDEX]: replace text in a /repo source file, keeping BOM and line endings"""
import sys
p = "/repo/src/" + sys.argv[1]
raw = open(p, "rb").read()
crlf = b"\r\n" in raw
o, n = [a.encode().decode("unicode_escape").encode() for a in sys.argv[2:4]]
if crlf:
    o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
k = raw.count(o)
idx = int(sys.argv[4]) if len(sys.argv) > 4 else 0
if k == 0 or (k > 1 and len(sys.argv) < 5):
    sys.exit("matches: %d" % k)
pos = -1
for _ in range(idx + 1):
    pos = raw.index(o, pos + 1)
open(p, "wb").write(raw[:pos] + n + raw[pos + len(o):])
