"""Text files as lines of tokens: rendering for the driver, random layouts
and damage.  The specification (Files.tla) sees the tokens, the library the
bytes."""
import json
import zlib


def loadtxt(d, kind, lines, newline, how):
    def say(t):
        return " " * int(t[1:]) if t[:1] == "~" else t
    text = "\n".join("".join(say(t) for t in l) for l in lines) + ("\n" if newline and lines else "")
    return "loadtxt %s %s %s %s | %s" % (d, kind, how, text.encode().hex() or "-", json.dumps(lines))


def tok(t):
    return {"~t": "\t", "~r": "\r"}.get(t, t.replace("_", " "))


def render(cmd):
    """'TXT d kind nl|no count text', printed by MCFile.tla, as a driver command."""
    w = cmd.split(" ", 5)
    n = int(w[4])
    ls = w[5].split("!") if n and len(w) > 5 else [""] * n
    lines = [[tok(t) for t in l.split("^")] if l else [] for l in ls]
    how = "sf"[zlib.crc32(cmd.encode()) & 1]
    return loadtxt(w[1], w[2], lines, w[3] == "nl", how)


def spaced(ws):
    out = []
    for w in ws:
        out += [w, " "]
    return out[:-1]


def commas(ws):
    out = []
    for w in ws:
        out += [w, ",", " "]
    return out[:-2]


def spell(R, x):
    f = R.randrange(4)
    if f == 0 and x == int(x) and abs(x) < 1e6:
        return str(int(x))
    if f == 1:
        return "%.17e" % x
    if f == 2:
        return "%.*g" % (R.choice([17, 17, 6]), x)
    return repr(float(x))


def wraps(R, n):
    """Two dimensions whose product is n modulo 2^32 (or 2^16) but not n."""
    out = []
    for m in [n + 2 ** 32 * k for k in (1, 2, 3)] + [n + 65536]:
        out += [(a, m // a) for a in range(1, 200) if m % a == 0 and m // a < 2 ** 31]
    return R.choice(out) if out else None


class Text:
    """A file: header tokens and sections [name tokens, inline tokens, value lines]."""

    def __init__(self, R, kind, o):
        self.R, self.kind = R, kind
        self.header = ["LIBNURBS", " ", "TXT", " ", "CURVE" if kind == "curve" else "SURFACE"]
        s = lambda x: spell(R, x)
        pts = [spaced([s(x) for x in q]) for q in o.P]
        if kind == "curve":
            self.secs = [["Degree", [str(o.p)]], ["Knots", [commas([s(u) for u in o.U])]], ["ControlPoints", [q + [","] for q in pts]]]
        else:
            self.secs = [["DegreeU", [str(o.pu)]], ["DegreeV", [str(o.pv)]], ["KnotsU", [commas([s(u) for u in o.U])]],
                         ["KnotsV", [commas([s(u) for u in o.V])]], ["ControlPoints", [[str(o.nu), " ", str(o.nv)]] + pts]]
        self.secs = [[n, [list(l) for l in ls]] for n, ls in self.secs]

    def comma_sec(self, n):
        return n.startswith("Knots") or (n == "ControlPoints" and self.kind == "curve")

    def layout(self):
        R = self.R
        if R.random() < .6:
            R.shuffle(self.secs)
        for s in self.secs:
            if not self.comma_sec(s[0]):
                continue
            if R.random() < .5:         # other line breaks
                flat = []
                for k, l in enumerate(s[1]):
                    flat += l + ([] if l[-1] == "," or k + 1 == len(s[1]) else [","])
                out, cur = [], []
                q = R.choice([0.0, 0.1, 0.5, 1.0])
                for t in flat:
                    cur.append(t)
                    if t == "," and R.random() < q:
                        out.append(cur)
                        cur = []
                s[1] = out + ([cur] if cur else [])
            for l in s[1]:
                if R.random() < .2:
                    if l[-1] == ",":
                        l.pop()
                    else:
                        l.append(",")
            s[1] = [l for l in s[1] if l]

    def lines(self):
        R = self.R
        blank = R.choice([0.0, 0.1, 0.4])
        wide = R.choice([0.0, 0.1, 0.4])
        eol = R.choice(["", "", "\r"])
        body = []
        for n, ls in self.secs:
            gap = lambda: [R.choice([" ", "\t", "  "])] if R.random() < wide / 2 else []
            head = ["*"] + gap() + [n] + gap() + [":"]
            ls = list(ls)
            if ls and R.random() < .5:
                head += ([" "] if R.random() < .7 else []) + ls.pop(0)
            body.append(head)
            body += ls
        out = [list(self.header)]
        for l in body:
            while R.random() < blank:
                out.append([R.choice([" ", "\t", "  "])] if R.random() < .5 else [])
            out.append(list(l))
        res = []
        for l in out:
            m = []
            for t in l:
                m.append(R.choice(["  ", "\t", "   "] * 9 + ["~300", "~300", "~5000", "~20000"]) if t == " " and R.random() < wide else t)
                if t == "," and R.random() < wide:
                    m.append(" ")
            if m and R.random() < wide:
                m = [R.choice([" ", "\t", "   "])] + m
            if R.random() < wide:
                m.append(R.choice([" ", "\t"]))
            if eol:
                m.append("\r")
            res.append(m)
        if res[0][0] not in ("LIBNURBS",) and R.random() < .5:
            res[0] = self.header
        return res

    def damage(self):
        """One thing that must be refused."""
        R = self.R
        f = R.randrange(9)
        sec = {n: ls for n, ls in self.secs}
        words = [(l, j) for n, ls in self.secs for l in ls for j, t in enumerate(l) if t not in (",", " ")]
        if f == 0:
            k = R.choice([0, 2, 4])
            self.header[k] = R.choice([self.header[k][:-1], self.header[k].lower(), self.header[k] + "X", "?", ""])
            if k == 4 and R.random() < .5:
                self.header[4] = "SURFACE" if self.kind == "curve" else "CURVE"
        elif f == 1:
            self.secs[R.randrange(len(self.secs))][0] = R.choice(["Foo", "degree", "Knot", "ControlPoint", "Weights", "KnotsW"])
        elif f == 2:
            self.secs.insert(R.randrange(len(self.secs) + 1), [R.choice(["Name", "Weights", "Extra"]), [[R.choice(["1", "abc"])]] * R.choice([0, 0, 1, 1, 2])])
        elif f == 3:
            return "orphan"
        elif f == 4:
            l, j = R.choice(words)
            l[j] = R.choice(["abc", "x1", "--1", "#", "one", "(0"])
        elif f == 5:
            pts = sec["ControlPoints"][0 if self.kind == "curve" else 1:]
            l = R.choice([l for l in pts if len(l) > 1])
            js = [j for j, t in enumerate(l) if t not in (",", " ")]
            del l[R.choice(js)]
        elif f == 6:
            n = R.choice([n for n in sec if n.startswith("Degree")])
            if R.random() < .5:
                sec[n].append(R.choice([["2"], ["0"], sec[n][0]]))
            else:
                del sec[n][:]
        elif self.kind == "surf" and f == 7:
            pts = sec["ControlPoints"]
            k = R.randrange(1, len(pts))
            if R.random() < .5:
                del pts[k]
            else:
                pts.insert(k, list(pts[k]))
        elif self.kind == "surf":
            nu, nv = int(sec["ControlPoints"][0][0]), int(sec["ControlPoints"][0][2])
            a, b = R.choice([(nu + 1, nv), (nu, nv + 1), (nu - 1, nv), (nu, nv - 1), (0, nv), (nu, 0), (-nu, -nv), (-1, -2), (0, 0)])
            if not (-2 <= a <= 10 and -2 <= b <= 10):
                a, b = 0, 1
            if R.random() < .3:         # equal to the number of points modulo a power of two
                w = wraps(R, nu * nv)
                if w:
                    a, b = w
            sec["ControlPoints"][0] = [str(a), " ", str(b)]
        else:
            l, j = R.choice(words)
            l[j] = "abc"
        return None
