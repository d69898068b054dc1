"""Abstract multiplication, division and remainder in an SMT-LIB file written
by CBMC by uninterpreted functions (sound: a proof for every function is a proof
for the real one)."""
import re

OPS = {"bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem"}

def abstract(text):
    out = ["(declare-fun uf_%s%d ((_ BitVec %d) (_ BitVec %d)) (_ BitVec %d))" % (o, w, w, w, w) for o in sorted(OPS) for w in (32,)]
    body = []
    for l in text.split("\n"):
        if l.startswith("(get-value") or l.startswith("(exit"):
            continue
        body.append(l)
    t = "\n".join(body)
    # operands may be arbitrary terms: find the closing paren of each application
    res, i, n = [], 0, 0
    pat = re.compile(r"\((bvmul|bvudiv|bvurem|bvsdiv|bvsrem) ")
    pos = 0
    while True:
        m = pat.search(t, pos)
        if not m:
            res.append(t[pos:])
            break
        j, d, in_bar = m.end(), 1, False
        while d:
            c = t[j]
            if c == "|":
                in_bar = not in_bar
            elif not in_bar:
                d += (c == "(") - (c == ")")
            j += 1
        args = t[m.end():j - 1]
        const = re.search(r"\(_ bv\d+ \d+\)$", args) or re.match(r"\(_ bv\d+ \d+\)", args)
        res.append(t[pos:m.start()])
        if m.group(1) == "bvmul" and const:
            res.append("(bvmul ")
        else:
            res.append("(uf_%s32 " % m.group(1))
            n += 1
        pos = m.end()
    t = "".join(res)
    k = t.index("(set-logic")
    k = t.index("\n", k)
    return t[:k] + "\n" + "\n".join(out) + t[k:], n

if __name__ == "__main__":
    import sys
    t, n = abstract(open(sys.argv[1]).read())
    open(sys.argv[2], "w").write(t)
    print(n)
