"""Literals of the Rust sources below a directory, comments left out."""
import glob, json, os, re, sys

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'(\\u\{[0-9a-fA-F_]+\}|\\x..|\\.|[^\\'])'|\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b''', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}

def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u": return chr(int(x[2:-1].replace("_", ""), 16))
        if x[0] == "x": return chr(int(x[1:], 16))
        if x[0].isspace(): return ""
        return ESC.get(x[0], x)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\s+|.)", f, s, flags=re.S)

def harvest(root):
    out = set()
    for p in sorted(glob.glob(os.path.join(root, "**", "*.rs"), recursive=True)):
        text = open(p, encoding="utf-8", errors="replace").read()
        for m in TOK.finditer(text):
            try:
                if m.group(2) is not None: out.add(("s", m.group(2)))
                elif m.group(3) is not None: out.add(("s", unescape(m.group(3))))
                elif m.group(4) is not None: out.add(("s", unescape(m.group(4))))
                elif m.group(5) is not None: out.add(("i", int(m.group(5).replace("_", ""), 0)))
            except ValueError: pass
        # constants written as an operation, and the ends of the small integer types
        for m in re.finditer(r"\b([0-9][0-9_]*)\w*\s*(<<|\*)\s*([0-9][0-9_]*)", text):
            x, y = int(m.group(1).replace("_", "")), int(m.group(3).replace("_", ""))
            if m.group(2) == "*": out.add(("i", x * y))
            elif y < 64: out.add(("i", x << y))
        for m in re.finditer(r"\b([ui])(8|16)::(?:MAX|max_value)\b", text):
            out.add(("i", (1 << (int(m.group(2)) - (m.group(1) == "i"))) - 1))
        for m in re.finditer(r"\bas ([ui])(8|16)\b", text):
            out.add(("i", 1 << (int(m.group(2)) - (m.group(1) == "i"))))
    return out

def write_new(root, baseline, path):
    base = {tuple(x) for x in json.load(open(baseline))}
    new = sorted((x for x in harvest(root) if x not in base), key=str)[:400]
    with open(path, "w") as f:
        for k, v in new:
            if k == "i": f.write("i %d\n" % v)
            elif v: f.write("s " + " ".join("%x" % ord(c) for c in v[:200]) + "\n")
    return len(new)

if __name__ == "__main__":
    json.dump(sorted(harvest(sys.argv[1]), key=str), open(sys.argv[2], "w"), ensure_ascii=True, indent=0)
