"""Seeded random sessions for the server layer: connections opening and closing, handshakes with
good, wrong and reused secrets, trees of clients, messages of all kinds, garbage, partial messages,
overlong replies, standard input and output.  What must happen is computed by spec/OracleServer.tla."""
import json, random
from gen_data import item, message, word, rand_message, tampered, modname, mtype

MAXLEN = 1024
LET = "abXY019"[:4]

def arr(b): return list(b if isinstance(b, bytes) else b.encode())

def near(r, b):
    """Almost b: one byte more, less or different."""
    k, i = r.random(), r.choice([0, len(b), r.randrange(len(b) + 1)])
    c = bytes([r.choice(b" \0\n\t0123456789abzABZ._-:,{}\x7f")])
    if k < .45: return b[:i] + c + b[i:]
    i = min(i, len(b) - 1)
    if k < .65: return b[:i] + b[i + 1:]
    if k < .85: return b[:i] + c + b[i + 1:]
    return r.choice([b.swapcase(), b.upper(), b + b, b[::-1], b[:len(b) // 2], b + b"\xc2\xa0", b"\xef\xbb\xbf" + b])

class Gen:
    def __init__(self, seed, flavour):
        self.r = r = random.Random(seed)
        self.flavour = flavour
        def cid(n): return "".join(r.choice("abcABC0189") for _ in range(n))
        self.cid = cid
        roots = []
        for i in range(r.choice([1, 1, 2, 2, 3])):
            x = cid(r.choice([1, 1, 1, 2, 3]))
            if not any(x.startswith(y) or y.startswith(x) for y in roots): roots.append(x)
        self.screens = []
        for i in range(r.choice([1, 2, 2, 3])):
            n = r.choice([1, 2, 5]) if flavour != "long" else r.choice([1, 1, 1, 50, 100, 300, 310, 325, 480, 990, 1000])
            s = "%d" % i + "".join(r.choice("st ") for _ in range(n))
            self.screens.append(dict(id=s, isec="i%d" % i, osec="o%d" % i))
        def scr(): return r.choice([""] + [s["id"] for s in self.screens])
        self.scr = scr
        self.clients = [dict(id=x, secret="c%d" % i, sin=scr(), sout=scr(), serr=scr()) for i, x in enumerate(roots)]
        self.ids = list(roots)     # IDs seen so far
        self.secrets = [c["secret"] for c in self.clients]
        self.issued = 0
        self.conns = []            # guesses: dict(mode, id)
        self.steps = []
        self.want_split = []

    # -- pieces of input
    def hello(self, kind=None, good=.8):
        r = self.r
        kind = kind or r.choice(["client", "client", "client", "stdin", "stdout"])
        ok = r.random() < good
        allsec = self.secrets + ["n%031d" % (i + 1) for i in range(self.issued)] + [s["isec"] for s in self.screens] + [s["osec"] for s in self.screens] + ["", "zz", "C0"]
        if kind == "client": s = r.choice(self.secrets + ["n%031d" % (i + 1) for i in range(self.issued)]) if ok else r.choice(allsec)
        elif kind == "stdin": s = r.choice(self.screens)["isec"] if ok else r.choice(allsec)
        else: s = r.choice(self.screens)["osec"] if ok else r.choice(allsec)
        args = [s.encode()]
        if not ok and r.random() < .5: args = [near(r, r.choice([x for x in allsec if x]).encode())]
        if not ok and r.random() < .2: args = r.choice([[], args + args, args + [b""], [args[0] + b" "]])
        return kind, message(b"posix1.%s-hello" % kind.encode(), args)
    def make(self, me):
        r = self.r
        k = r.random()
        if k < .55: x = (me or "a") + self.cid(r.choice([1, 1, 1, 2, 3]))
        elif k < .85:
            base = r.choice(self.ids)
            x = r.choice([base, base + self.cid(1), base[:-1] or base])
        else: x = r.choice(["", self.cid(1), "a-b", "\u00e4", self.cid(4), (me or "a").swapcase() + "a", " " + (me or "a") + "a"])
        if self.flavour == "long" and r.random() < .3: x = (me or "a") + self.cid(r.choice([300, 900, 950]))
        args = [x.encode(), self.scr().encode(), self.scr().encode(), self.scr().encode()]
        k = r.random()
        if k < .05: args = args[:r.randrange(4)]
        elif k < .08: args.append(b"")
        elif k < .12: args[r.randrange(1, 4)] = b"\xff"
        if x and x.isalnum() and x.isascii(): self.ids.append(x)
        return message(b"core1.client-make", args)
    def end(self, me):
        r = self.r
        k = r.random()
        x = r.choice(self.ids) if k < .8 else (me or "a") + self.cid(1) if k < .9 else r.choice(["", self.cid(2), (me or "a") * 2, "a b"])
        args = [x.encode()]
        if r.random() < .06: args = r.choice([[], args + [b"x"]])
        return message(b"core1.client-end", args)
    def want(self):
        r = self.r
        k = r.random()
        if k < .1: return message(b"want", [near(r, r.choice([b"core1", b"posix1", b"foo2", b"bar65535"]))])
        if k < .5: a = [r.choice([b"core1", b"posix1", b"foo2", b"bar65535", b"core2", b"foo1", b"bar1", b"core1.0", b"core01", b"Core1"])]
        elif k < .8: a = [modname(r)]
        elif k < .9: a = [word(r)]
        else: a = r.choice([[], [b"core1", b"core1"], [b""]])
        return message(b"want", a)
    def boundary(self):
        """Messages whose reply is just about at the size limit."""
        r = self.r
        k = r.randrange(3) if r.random() < .9 else 3 + r.randrange(2)
        n = r.choice([500, 970, 980, 985, 990, 995, 995, 1000, 1000, 1005, 1010, 1020]) + r.randrange(-6, 7)
        if k == 0: return message(b"want", [b"m" * n + b"1"])
        if k == 1: return message(b"m" * n + b"1.x", [])
        if k == 2: return message(b"foo2.echo", [bytes(r.choice(b"ab{}|") for _ in range(n))])
        if k == 3: return message(b"foo2.echo", [b"x" * r.choice([2000, 4050, 4072, 5000])])
        return message(b"want", [b"m" * r.choice([3000, 5000]) + b"1"])
    def foo(self):
        r = self.r
        t = r.choice([b"ok", b"bad", b"echo", b"echo", b"quit", b"quitbad", b"quitunk", b"zz", b"hello", b"bcast", b"type"])
        if t.startswith(b"quit") and r.random() < .7: t = b"echo"
        a = [word(r)] if t in (b"echo", b"bcast") and r.random() < .9 else [r.choice(self.screens)["id"].encode(), word(r) * r.choice([1, 1, 50])] if t == b"type" and r.random() < .9 else [word(r) for _ in range(r.randrange(3))]
        return message(b"foo2." + t, a)
    def garbage(self):
        r = self.r
        k = r.random()
        if k < .3: return word(r)
        if k < .5: return tampered(r)
        if k < .6: return b"{" * r.randrange(1, 5)
        if k < .7: return bytes(r.choice(b"{}|:,019aw\xff ") for _ in range(r.randrange(1, 12)))
        m = self.want()
        if k < .8: return m[:r.randrange(1, len(m))]                       # cut off
        if k < .9: i = r.randrange(len(m)); return m[:i] + bytes([r.randrange(256)]) + m[i + 1:]
        i = r.randrange(len(m)); return m[:i] + r.choice([b"{", b"}", b",", b"x", m[:4]]) + m[i:]
    def piece(self, c):
        """Some input for a connection in (probably) message mode."""
        r, f = self.r, self.flavour
        me = self.conns[c]["id"]
        k = r.random()
        if f == "tree":
            if k < .45: return self.make(me)
            if k < .7: return self.end(me)
            if k < .78: return self.hello()[1]
        if f == "garbage" and k < .5: return self.garbage()
        if f == "long" and k < .4: return self.boundary()
        if f == "io" and k < .5: return message(b"foo2.type", [r.choice(self.screens)["id"].encode(), word(r) * r.choice([1, 1, 30])])
        k = r.random()
        if k < .22: return self.want()
        if k < .26:
            # something that is almost a message we know
            m = r.choice([self.want, lambda: self.make(me), lambda: self.end(me), lambda: self.hello()[1], lambda: message(b"foo2.ok", [])])()
            n = m.index(b":"); p = m.index(b"|") + 1
            ty = m[n + 1:n + 1 + int(m[p:n])]
            new = near(r, ty)
            return m[:p] + item(new) + m[n + 2 + len(ty):]
        if k < .45: return self.foo()
        if k < .6: return rand_message(r)
        if k < .7: return self.make(me)
        if k < .77: return self.end(me)
        if k < .82: return self.hello()[1]
        if k < .9: return message(mtype(r), [word(r) for _ in range(r.randrange(3))])
        return self.garbage()

    # -- steps
    def feed(self, c, b):
        self.steps.append(dict(k="feed", c=c + 1, b=list(b)))
    def go(self, n):
        r = self.r
        while len(self.steps) < n:
            live = [i for i, x in enumerate(self.conns) if x["mode"] != "down"]
            k = r.random()
            if not live or (k < .12 and len(live) < 5):
                self.conns.append(dict(mode="hs", id=None, rest=b""))
                self.steps.append(dict(k="open"))
                continue
            c = r.choice(live)
            x = self.conns[c]
            if k < .15:
                self.steps.append(dict(k="close", c=c + 1))
                x["mode"] = "down"
                continue
            if x["mode"] == "hs":
                q = r.random()
                if q < .1:
                    b = r.choice([self.garbage(), self.want(), self.foo(), b"", message(b"posix1.parent-hello", [b"x", b"/y"])])
                    self.feed(c, b)
                    continue
                kind, b = self.hello(good=.93)
                if self.flavour == "tree": kind, b = self.hello("client", .95)
                x["mode"] = {"client": "msg", "stdin": "in", "stdout": "out"}[kind]
                # guess who this is
                sec = b[b.index(b"hello,") + 6:]
                for cl in self.clients:
                    if cl["secret"].encode() in sec: x["id"] = cl["id"]
                if x["id"] is None and kind == "client": x["id"] = r.choice(self.ids)
                if r.random() < .25:
                    b += self.piece(c) if kind == "client" else word(r)
                self.feed(c, b)
            elif x["mode"] == "in":
                if r.random() < .15: self.feed(c, word(r)); 
            elif x["mode"] == "out":
                self.feed(c, r.choice([word(r), rand_message(r), b"text\r\n", bytes(r.randrange(256) for _ in range(r.randrange(20)))]))
            else:
                b = x["rest"]
                x["rest"] = b""
                for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
                    p = self.piece(c)
                    if b"client-make" in p: self.issued = min(self.issued + 1, 30) if r.random() < .6 else self.issued
                    b += p
                if r.random() < .15 and b.rfind(b":n0000") < 0:
                    i = r.randrange(len(b) + 1)
                    b, x["rest"] = b[:i], b[i:]
                self.feed(c, b)

    def case(self, n):
        self.go(n)
        r = self.r
        return dict(op="session", clients=[dict(id=arr(c["id"]), secret=arr(c["secret"]), used=False, sin=arr(c["sin"]), sout=arr(c["sout"]), serr=arr(c["serr"])) for c in self.clients],
                    screens=[dict(id=arr(s["id"]), isec=arr(s["isec"]), osec=arr(s["osec"]), iused=False, oused=False) for s in self.screens],
                    steps=self.steps, splits=sorted({r.randrange(1, 60) for _ in range(3)}))

NEAR = [bytes([x]) for x in b"019azABZ_.- \0\n:{,"] + [b"\xc3\xa9"]
def edits(b, chars=NEAR):
    """All words that differ from b in one place."""
    out = [b[:i] + b[i + 1:] for i in range(len(b))]
    for c in chars: out += [b[:i] + c + b[i:] for i in range(len(b) + 1)] + [b[:i] + c + b[i + 1:] for i in range(len(b))]
    return sorted(set(out) - {b})
def sweeps(n, seed, what=("want", "type", "have", "secret", "id")):
    """Everything that is almost, but not quite, a module, a message type, a secret or a client ID.  (n: how many in each.)"""
    out = []
    r = random.Random("%s sweeps" % seed)
    some = lambda l: l if len(l) <= n else r.sample(l, n)     # (words with something appended are among them, see ends)
    ends = lambda b: [b + c for c in NEAR] + [c + b for c in NEAR[:11]]
    def case(clients=(("a", "key A"), ("Q9", "pass"))):
        g = Gen("%s sweep" % seed, "msgs")
        g.clients = [dict(id=i, secret=s, sin="scr", sout="", serr="") for i, s in clients]
        g.screens = [dict(id="scr", isec="in 1", osec="out 1")]
        return g
    def put(g, ms):
        out.append(g.case(0) if ms is None else ask(g, ms))
    def ask(g, ms):
        g.steps += [dict(k="open"), dict(k="open")]
        g.feed(0, message(b"posix1.client-hello", [b"key A"]))
        g.feed(1, message(b"posix1.client-hello", [b"pass"]))
        for i in range(0, len(ms), 12): g.feed(0, b"".join(ms[i:i + 12]))
        g.feed(1, message(b"want", [b"core1"]))
        return dict(g.case(0), splits=[5])
    args = {b"want": [b"core1"], b"core1.client-make": [b"ab", b"", b"", b""], b"core1.client-end": [b"ab"], b"posix1.client-hello": [b"pass"], b"posix1.stdin-hello": [b"in 1"], b"posix1.stdout-hello": [b"out 1"],
            b"foo2.ok": [], b"foo2.echo": [b"x"], b"have": [b"core1.0"], b"nope": [b"want"], b"core1.client-new": [b"s"], b"posix1.server-hello": [b"a", b"", b"", b""], b"posix1.parent-hello": [b"s", b"/x"]}
    for w in what:
        if w == "want":
            for m in (b"core1", b"posix1", b"foo2", b"bar65535"):
                ms = [message(b"want", [x]) for x in some(edits(m)) + ends(m)]
                for i in range(0, len(ms), 120): out.append(ask(case(), ms[i:i + 120]))
        elif w == "type":
            for t in args:
                ms = [message(x, args[t]) for x in some(edits(t)) + ends(t)]
                for i in range(0, len(ms), 120): out.append(ask(case(), ms[i:i + 120]))
        elif w == "have": # every known message, with too few and too many arguments, and with odd ones
            ms = []
            for t, a in args.items():
                for j in range(len(a)):
                    ms += [message(t, a[:j]), message(t, a[:j] + a[j + 1:]), message(t, a[:j] + [b"", a[j]] + a[j + 1:]), message(t, a[:j] + [b"\xff"] + a[j + 1:]), message(t, a[:j] + [b""] + a[j + 1:])]
                    ms += [message(t, a[:j] + [x] + a[j + 1:]) for x in r.sample(edits(a[j]), 8)] if a[j] else [message(t, a[:j] + [x] + a[j + 1:]) for x in (b"s", b"scr", b" ", b"\0", b"\xc3", b"\xe2\x82\xac")]
                ms += [message(t, a + [b""]), message(t, a + a), message(t, a + [b"x"])]
            r.shuffle(ms)
            for i in range(0, len(ms), 120): out.append(ask(case(), ms[i:i + 120]))
        elif w == "id":
            for me, x in ((b"a", b"ab"), (b"Q9", b"Q9Zq"), (b"a", b"a0z")):
                for make in (True, False):
                    ms = []
                    for y in some(edits(x))[:150]: ms += [message(b"core1.client-make", [y, b"", b"", b""]) if make else message(b"core1.client-end", [y])]
                    g = case()
                    g.steps += [dict(k="open"), dict(k="open")]
                    g.feed(0, message(b"posix1.client-hello", [b"key A" if me == b"a" else b"pass"]))
                    g.feed(1, message(b"posix1.client-hello", [b"pass" if me == b"a" else b"key A"]))
                    if not make: g.feed(0, message(b"core1.client-make", [x, b"", b"scr", b""]))
                    for i in range(0, len(ms), 10): g.feed(0, b"".join(ms[i:i + 10]))
                    out.append(dict(g.case(0), splits=[5]))
        else:
            for sec in (b"key A", b"in 1", b"out 1"):
                words = some(edits(sec))[:150]
                r.shuffle(words)
                words = [sec + c for c in NEAR] + [c + sec for c in NEAR] + words
                for i in range(0, len(words), 40):
                    g = case()
                    for j, x in enumerate(words[i:i + 40] + [sec]):
                        g.steps.append(dict(k="open"))
                        kind = {b"key A": b"client", b"in 1": b"stdin", b"out 1": b"stdout"}[sec]
                        g.feed(j, message(b"posix1.%s-hello" % kind, [x]))
                    out.append(dict(g.case(0), splits=[40]))
            types = r.sample(edits(b"posix1.client-hello"), 50) + r.sample(edits(b"posix1.stdin-hello"), 20) + [t for t in args]
            for i in range(0, len(types), 40):
                g = case()
                for j, x in enumerate(types[i:i + 40]):
                    g.steps.append(dict(k="open"))
                    g.feed(j, message(x, r.choice([[b"key A"], [b"key A"], args.get(x, [b"in 1"])])))
                out.append(dict(g.case(0), splits=[40]))
    return out

BIG = [600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16384, 16400, 33000, 65535, 65536, 65537, 70000]
def stretched(n, seed):
    """Short sessions in which one word is long: garbage before a message, an argument, a secret, a message type, output."""
    out = []
    hello = lambda k, s: message(b"posix1.%s-hello" % k, [s])
    want = message(b"want", [b"core1"])
    kinds = ["garbage", "garbage", "garbage", "openers", "sin", "sout", "hs", "hs-part", "hs-garbage", "mod", "type", "make", "end", "echo", "stdin", "args", "part", "nope"]
    for i in range(n):
        r = random.Random("%s stretched %d" % (seed, i))
        kind = kinds[i % len(kinds)]
        k = r.choice(BIG if r.random() < .75 else BIG[:12]) + r.choice([0, 0, -1, 1, r.randrange(50)])
        if kind == "openers": k = min(k, 1000) // 6
        g = Gen("%s stretched %d g" % (seed, i), "msgs")
        g.clients = [dict(id="a", secret="c0", sin="", sout=g.scr(), serr=""), dict(id="Q", secret="c1", sin="", sout="", serr="")]
        fill = lambda n: bytes([r.choice(b"xyz019_- ,:|}\xff")]) * n if r.random() < .6 else bytes(r.choice(b"ab01,:|}") for _ in range(n))
        op = lambda: g.steps.append(dict(k="open"))
        def end(c):
            # afterwards, everybody is asked again
            for x in (c, 1):
                if r.random() < .8: g.feed(x, r.choice([want, message(b"foo2.echo", [b"x"]), message(b"q1.x", [])]))
            if r.random() < .2: g.steps.append(dict(k="close", c=c + 1)); op(); g.feed(len([s for s in g.steps if s["k"] == "open"]) - 1, want)
        op(); op()
        g.feed(1, hello(b"client", b"c1"))
        c = 0
        if kind in ("garbage", "openers", "mod", "type", "make", "end", "echo", "stdin", "args", "part", "nope"):
            g.feed(0, hello(b"client", b"c0"))
            if kind == "garbage":
                start = r.choice([b"x", b"{x", b"{1|4:want,x", b"{2|4:want,x", b"}", b"{01|", b"{1|4:wanx,!"])
                b = start + fill(k) + r.choice([b"", want, want, want + fill(r.choice([3, 5000])) + want, b"{", want[:5]])
            elif kind == "openers": b = r.choice([b"{", b"{{x", b"{1|", b"{0|}"]) * k
            elif kind == "mod":
                m = bytes([r.choice(b"am_")]) * min(k, 1100 if r.random() < .7 else k)
                m = r.choice([m + b"1", b"core" + m + b"1", m])
                b = r.choice([message(b"want", [m]), message(m + b".x", []), message(b"want", [m + b".0"]), message(m + b".x-" + m, [b"y"])])
            elif kind == "type": b = message(r.choice([b"m%d.", b"core%d.", b"foo%d."]) % r.choice([1, 2]) + b"y" * k, [])
            elif kind == "make": b = message(b"core1.client-make", r.choice([[b"a" + b"b" * k, b"", b"", b""], [b"ab", b"s" * k, b"", b"s"], [b"ab", b"", b"\xc3\xa9" * k, b""], [b"a" * k + b"-", b"", b"", b""]]))
            elif kind == "end": b = message(b"core1.client-end", [b"a" * k])
            elif kind == "echo": b = message(b"foo2.echo", [fill(k)])
            elif kind == "stdin":
                s = g.screens[0]
                op(); g.feed(2, hello(b"stdin", s["isec"].encode()))
                b = message(b"foo2.type", [s["id"].encode(), fill(k)])
            elif kind == "args": b = message(r.choice([b"want", b"foo2.ok", b"zz1.zz", b"core1.client-make", b"nope", b"foo2.bad"]), [r.choice([b"", b"x"])] * min(k, 5000))
            elif kind == "nope": b = message(b"nope", [fill(k)]) + message(r.choice([b"have", b"core1.client-new", b"foo2.bad"]), [fill(k % 3000)])
            else:
                m = message(b"foo2.echo", [fill(k)]) if r.random() < .5 else message(b"foo2.ok", [fill(k)])
                j = r.choice([r.randrange(1, len(m)), len(m) - 1, len(m) - 2])
                g.feed(0, m[:j])
                if r.random() < .3: j2 = r.randrange(j, len(m)); g.feed(0, m[j:j2]); j = j2
                b = m[j:]
            b += r.choice([b"", want, b"x", want[:9]])
        elif kind == "sin":
            g.feed(0, hello(b"stdin", g.screens[0]["isec"].encode()) + (b"" if r.random() < .7 else fill(k)))
            b = fill(k)
        elif kind == "sout":
            g.feed(0, hello(b"stdout", g.screens[0]["osec"].encode()) + (b"" if r.random() < .7 else fill(k)))
            b = fill(k) if r.random() < .8 else message(b"want", [fill(k)])
        elif kind == "hs": b = r.choice([hello(r.choice([b"client", b"stdin", b"stdout"]), r.choice([b"c0", fill(1)]) + fill(k)), message(b"foo2.hello", [fill(k)]) + hello(b"client", b"c0"), message(b"posix1.client-hello", [b"c0", fill(k)]), message(b"posix1.client-hello", [b"c0"] * 500)])
        elif kind == "hs-part":
            m = r.choice([hello(b"client", fill(k)), message(b"foo2.hello", [fill(k)]) + hello(b"client", b"c0"), message(b"foo2.hello", [b"x"] * 300) + hello(b"stdout", g.screens[0]["osec"].encode()) + fill(k)])
            j = r.choice([r.randrange(1, len(m)), len(m) - 1])
            g.feed(0, m[:j])
            if r.random() < .5: g.feed(1, want)
            b = m[j:]
        else: b = fill(k) + r.choice([b"", hello(b"client", b"c0")])
        g.feed(0, b)
        end(c)
        out.append(dict(g.case(0), splits=[r.randrange(1, 60), k // 2]))
    return out

def family(seed, Gen=Gen):
    """A tree of clients is created and connected, then ended here and there; afterwards secrets and IDs are tried again."""
    g = Gen(seed, "tree")
    r = g.r
    conns, open_, known, n = {}, [], {}, 0
    def connect(id, sec, data=b""):
        g.steps.append(dict(k="open"))
        c = len([s for s in g.steps if s["k"] == "open"]) - 1
        g.feed(c, message(b"posix1.client-hello", [sec]) + data)
        conns.setdefault(id, []).append(c)
        open_.append((c, id))
    for cl in g.clients[:2]:
        known[cl["id"]] = cl["secret"].encode()
        if r.random() < .9: connect(cl["id"], cl["secret"].encode())
    for _ in range(r.randrange(3, 10)):
        if not open_: break
        c, me = r.choice(open_)
        x = me + g.cid(r.choice([1, 1, 1, 1, 2, 5]))
        if any(k.startswith(x) for k in known): continue
        g.feed(c, message(b"core1.client-make", [x.encode(), g.scr().encode(), b"", g.scr().encode()]))
        n += 1
        known[x] = b"n%031d" % n
        k = r.random()
        if k < .85: connect(x, known[x])
        if k < .08: connect(x, known[x])
        if r.random() < .1 and g.screens: 
            g.steps.append(dict(k="open")); c2 = len([s for s in g.steps if s["k"] == "open"]) - 1
            kind = r.choice(["stdin", "stdout"]); s = r.choice(g.screens)
            g.feed(c2, message(b"posix1.%s-hello" % kind.encode(), [s["isec" if kind == "stdin" else "osec"].encode()]))
    for _ in range(r.randrange(1, 4)):
        if not open_: break
        c, me = r.choice(open_)
        below = [k for k in known if k.startswith(me) and k != me] or list(known)
        x = r.choice(below) if r.random() < .85 else r.choice([me + g.cid(1), r.choice(list(known)), r.choice(below)[:-1] or "a", r.choice(below) + "0"])
        b = message(b"core1.client-end", [x.encode()])
        if r.random() < .3: b += message(b"core1.client-make", [x.encode(), b"", b"", b""])
        g.feed(c, b)
        if x.startswith(me) and x != me: open_ = [(d, i) for d, i in open_ if not i.startswith(x)]
        for d, i in r.sample(sorted(known.items()), min(2, len(known))): 
            if r.random() < .5: g.steps.append(dict(k="open")); g.feed(len([s for s in g.steps if s["k"] == "open"]) - 1, message(b"posix1.client-hello", [i]))
        for d, i in r.sample(open_, min(2, len(open_))): g.feed(d, r.choice([g.want(), message(b"core1.client-make", [x.encode(), b"", b"", b""]), g.make(i)]))
    return g.case(0)

def sessions(flavour, n, seed, steps=(6, 28)):
    if flavour.startswith("sweep"): return sweeps(n, seed, flavour.split("-")[1:])
    if flavour == "stretched": return stretched(n, seed)
    if flavour == "family": return [family("%s family %d" % (seed, i)) for i in range(n)]
    out = []
    for i in range(n):
        r = random.Random("%s %s %d" % (seed, flavour, i))
        out.append(Gen("%s %s %d g" % (seed, flavour, i), flavour).case(r.randrange(*steps)))
    return out

def floods(n, seed):
    """Case lists for floods: (n copies of a unit) of about a megabyte in all."""
    out = []
    E = b""
    base = dict(op="flood", clients=[dict(id=arr("a"), secret=arr("x"), used=False, sin=arr("s"), sout=[], serr=[]), dict(id=arr("B"), secret=arr("y"), used=False, sin=[], sout=[], serr=[]),
        dict(id=arr("C"), secret=arr("z1"), used=False, sin=[], sout=[], serr=[]), dict(id=arr("D"), secret=arr("z2"), used=False, sin=arr("s"), sout=[], serr=[])],
                screens=[dict(id=arr("s"), isec=arr("i"), osec=arr("o"), iused=False, oused=False)], splits=[], lead=[], fresh=[arr("z1"), arr("z2")])
    def hello(k, s): return message(b"posix1.%s-hello" % k, [s])
    feed = lambda c, b: dict(k="feed", c=c, b=list(b))
    op = dict(k="open")
    msgmode = [op, feed(1, hello(b"client", b"x")), op, feed(2, hello(b"client", b"y"))]
    outmode = [op, feed(1, hello(b"stdout", b"o")), op, feed(2, hello(b"client", b"y"))]
    inmode = [op, feed(1, hello(b"stdin", b"i")), op, feed(2, hello(b"client", b"y"))]
    hsmode = [op, op, feed(2, hello(b"client", b"y"))]
    m = message
    msg_units = [m(b"want", [b"core1"]), m(b"want", [b"q9"]), m(b"zz1.zz", []), m(b"nope", [E]), m(b"foo2.ok", []), b"{x", b"{", b"}", b"x", b"{0", b"{{", b"{}", b"{1}",
                 b"{1|4:wang,}", b"{1|4:want,{1|4:want,}", m(b"foo2.echo", [b"x" * 400]), m(b"foo2.echo", [b"{1|" * 100]), m(b"core1.client-end", [b"a"]), m(b"core1.client-make", [b"a", E, E, E]),
                 b"\xff" * 100, b"{18446744073709551616|", b"{00|", b"{99999999999999999999999999|", b"{1|18446744073709551616:", m(b"foo2.bad", []), m(b"want", [b"core1"]) + b"x",
                 b"{1|4:want,x", m(b"want", []) + m(b"foo2.echo", [E]), m(b"foo2.quit", []), m(b"foo2.quitbad", []), m(b"core1.client-end", [b"ab"]),
                 b"{2|4:want,20:{2|4:want,5:core1,}xxx", m(b"want", [b"m" * 1100 + b"1"])]
    r = random.Random("%s floods" % seed)
    for _ in range(max(4, n // 8)):
        msg_units.append(m(mtype(r), [word(r) for _ in range(r.randrange(3))]))
        msg_units.append(tampered(r) + b"x")
        msg_units.append(word(r) + b"x")
    for steps, units in ((msgmode, msg_units), (outmode, [b"x", b"{", m(b"want", []), b"\0" * 1000]), (inmode, [b"x", m(b"want", [])]),
                         (hsmode, [b"x", b"{x", m(b"want", []), m(b"foo2.hello", []), b"{1|4:wang,}", m(b"posix1.client-hello", [b"zz"])])):
        for u in units:
            size = r.choice([300000, 1000000]) if n > 50 else 250000
            count = max(2, min(size // len(u), 60000 if n > 50 else 25000))
            out.append(dict(base, steps=steps, c=1, unit=list(u), n=count, read=r.choice([1000, 1024, 8192, 65536, 10**9])))
    return out

def hostile(n, seed):
    """Floods of unbounded incomplete messages and other things that never come to an end (with a lead-in before the copies)."""
    r = random.Random("%s hostile" % seed)
    base = floods(1, seed)
    modes = {}
    for b in base: modes.setdefault(json.dumps(b["steps"]), b)
    E = b""
    leads = [(b"{1|99999999:", b"x" * 1000), (b"{1|18446744073709551615:", b"x" * 1000), (b"{1|4:want,", b"}"), (b"{1000000|4:want,", b"1:a,"), (b"{4000000000|4:want,", b"0:,"),
             (b"{2|4:want,1000000:", b"{"), (b"{2|4:want,99999999:", message(b"want", [b"core1"])), (b"{3|10:core1.zzzz,", b"{"), (b"{18446744073709551615|4:want,", b"1:a,"),
             (b"{99999999|12:posix1.zzzzz,", b"5:{1|0:,"), (b"{18446744073709551616|", b"4:want,"), (b"{1|", b"0"), (b"{", b"9"), (b"{1|4:want", b"x"), (b"{2|4:want,18446744073709551590:", b"y" * 50),
             (message(b"want", [b"core1"])[:-1], message(b"want", [b"core1"])), (b"{5|4:want,3:abc", b",3:abc"), (b"\xff", b"\x00\xfe"), (b"{2|4:want,5:core1,}{", b"{2|4:want,5:core1,}{"),
             (b"{1|1000:", b"a" * 999 + b"{1|1000:"), (b"{2|9:foo2.echo,3000:" + b"e" * 3000 + b",}", b"z"), (b"{2|4:want,3000:" + b"e" * 2999 + b"1,}", b"z")]
    out = []
    for i in range(n):
        b = modes[r.choice(sorted(modes))]
        lead, unit = leads[i % len(leads)] if i < 2 * len(leads) else r.choice(leads)
        if r.random() < .2: lead = tampered(r) + lead
        size = r.choice([100000, 400000, 2000000])
        out.append(dict(b, rt=r.choice([0, 0, 1, 2]), lead=list(lead), unit=list(unit), n=max(2, min(size // len(unit), 300000)), read=r.choice([1, 100, 1000, 4096, 65536, 10**9]) if size < 200000 else r.choice([4096, 65536, 10**9]),
                        deaf=r.random() < .3, slam=r.random() < .4))
    return out

def deaf_floods(n, seed):
    """A client asks for more than the sockets hold and reads no answer for long; the others are served all the same."""
    r = random.Random("%s deaf" % seed)
    b = next(f for f in floods(1, seed) if len(f["steps"]) == 4)
    E = b""
    units = [message(b"foo2.echo", [b"x" * 400]), message(b"foo2.echo", [b"y" * 900]), message(b"want", [b"core1"]), message(b"zz1.zz", []), message(b"nope", [E]),
             message(b"want", [b"core1"]) + message(b"foo2.echo", [b"z" * 950]), message(b"core1.client-end", [b"zz"])]
    out = []
    for i in range(n):
        unit = units[i % len(units)]
        out.append(dict(b, unit=list(unit), n=min(60000, r.choice([700000, 1200000, 2500000]) // len(unit)), read=r.choice([4096, 65536, 10**9]), deaf=True, slam=r.random() < .3, rt=r.choice([0, 1, 2]),
                        stall=7000 if i in (2, n // 2 + 3) else 0))
    # more messages than a number of 16 bits can count
    for unit in (message(b"want", [b"core1"]), b"{x", message(b"zz1.z", [])): out.append(dict(b, unit=list(unit), n=66000, read=65536, deaf=False, slam=False))
    return out

def churns(n, seed):
    """Connections come and go in large numbers, and many stay.  The first is long, so that numbers of 16 bits run over."""
    out = []
    for i in range(n):
        r = random.Random("%s churn %d" % (seed, i))
        ids = "abcdefgh"
        clients = [dict(id=arr(x), secret=arr("key " + x), used=False, sin=[], sout=[], serr=[]) for x in ids]
        kinds = [b"", b"x", b"{1|4:wan", message(b"posix1.client-hello", [b"no such secret"]), message(b"want", [b"core1"]), message(b"foo2.hello", []) + b"{", message(b"posix1.stdin-hello", [b"zz"]),
                 message(b"foo2.hello", [b"1"]), tampered(r), b"\xff\x00"]
        hello = message(b"posix1.client-hello", [b"key b"])
        first = r.choice([dict(k="open"), dict(k="open")])
        out.append(dict(op="churn", clients=clients, screens=[dict(id=arr("s"), isec=arr("i"), osec=arr("o"), iused=False, oused=False)], splits=[],
                        steps=[first, dict(k="open"), dict(k="feed", c=2, b=list(hello))], kinds=[list(k) for k in kinds], fresh=[arr("key " + x) for x in ids[2:]],
                        n=66500 if i == 0 else r.choice([300, 1000, 4000]), hold=r.choice([3, 100]) if i == 0 else r.choice([0, 250, 600, 1500]), seed=r.randrange(1 << 30), rt=r.choice([0, 0, 1, 2])))
    return out

def longs(n, seed):
    """Messages of megabytes."""
    out = []
    for i in range(n):
        r = random.Random("%s long %d" % (seed, i))
        clients = [dict(id=arr(x), secret=arr("key " + x), used=False, sin=[], sout=[], serr=[]) for x in "bc"]
        forms = [lambda x: [b"want", x], lambda x: [b"want", b"core1", x], lambda x: [b"want", x, b"core1"], lambda x: [b"foo2.zz", x], lambda x: [b"foo2.bad", x], lambda x: [b"bar1.zz", b"1", x, b"2"], lambda x: [x, b"1"],
                 lambda x: [b"core1.client-make", x, b"", b"", b""], lambda x: [b"core1.client-make", b"c-x", x, b"", b""], lambda x: [b"core1.client-make", b"cx", b"", b"", x], lambda x: [b"core1.client-end", x],
                 lambda x: [b"posix1.client-hello", x], lambda x: [b"have", b"core1.0", x], lambda x: [b"nope", x]]
        r.shuffle(forms)
        ms = []
        for f in forms[:8]:
            fill = r.choice([b"a", b"9", b" ", b"\xff", b",", b"core", b"{"[:1]]) if r.random() < .95 else b"{2|4:want,5:core1,}"
            if f(b"?")[0] == b"?" or f(b"?")[0] in (b"have", b"nope"): fill = r.choice([b"a", b"9", b"."])
            size = r.choice([3000, 70000, 300000, 1100000, 3000000])
            def m(k): return message(f(fill * k)[0], f(fill * k)[1:])
            k = size // len(fill)
            ms.append(dict(short=[list(m(x)) for x in (1100, 1101, 1700)], args=[list(x) for x in f(b"\0?\0")], fill=list(fill), n=k))
        out.append(dict(op="long", clients=clients, screens=[dict(id=arr("s"), isec=arr("i"), osec=arr("o"), iused=False, oused=False)], splits=[],
                        steps=[dict(k="open"), dict(k="open"), dict(k="open")] + [dict(k="feed", c=c, b=list(message(b"posix1.client-hello", [s]))) for c, s in ((2, b"key b"), (3, b"key c"))],
                        short=[x["short"] for x in ms], longs=[{k: x[k] for k in ("args", "fill", "n")} for x in ms], rt=r.choice([0, 1, 2]), seed=r.randrange(1 << 30)))
    return out

def undivided(case):
    """For real sockets, which divide the input as they like: the application's own broadcasts run at the end of a read,
    so they are kept only where they come alone.  None if that cannot be told."""
    whole, kept = {}, {}
    for st in case["steps"]:
        if st["k"] != "feed": continue
        b = bytes(st["b"])
        n = b.count(b"foo2.bcast") + b.count(b"foo2.type")
        if n and not (n == 1 and (b.startswith(b"{2|10:foo2.bcast,") or b.startswith(b"{3|9:foo2.type,")) and single(b)):
            b = b.replace(b"foo2.bcast", b"foo2.bcasu").replace(b"foo2.type", b"foo2.typf")
            st["b"] = list(b)
            n = 0
        whole[st["c"]] = whole.get(st["c"], b"") + b
        kept[st["c"]] = kept.get(st["c"], 0) + n
    for c, b in whole.items():
        if b.count(b"foo2.bcast") + b.count(b"foo2.type") != kept[c]: return None
    return case
def single(b):
    """Whether b is one message and nothing else."""
    try:
        assert b[:1] == b"{"
        n, rest = b[1:].split(b"|", 1)
        for _ in range(int(n)):
            k, rest = rest.split(b":", 1)
            assert rest[int(k):int(k) + 1] == b","
            rest = rest[int(k) + 1:]
        return rest == b"}"
    except (AssertionError, ValueError): return False

def races(n, seed, example=False):
    """Several inputs at the same time on different connections: the same secret, overlapping client IDs, ends of clients
    while these act or connect.  What may happen is what one of the orders gives."""
    out = []
    hello = lambda k, s: message(b"posix1.%s-hello" % k, [s])
    make = lambda x: message(b"core1.client-make", [x, b"", b"", b""])
    end = lambda x: message(b"core1.client-end", [x])
    want = message(b"want", [b"core1"])
    for i in range(n):
        r = random.Random("%s race %d" % (seed, i))
        ex = example_case()
        case = dict(op="race", splits=[], slow=0 if example else r.choice([0, 0, 300, 1000]))
        if example: case.update(ex)
        else: case.update(clients=[dict(id=arr("a"), secret=arr("x" * 32), used=False, sin=[], sout=[], serr=[]), dict(id=arr("Q"), secret=arr("y" * 32), used=False, sin=[], sout=[], serr=[])],
                          screens=[dict(id=arr("s"), isec=arr("i" * 32), osec=arr("o" * 32), iused=False, oused=False)])
        root = bytes(case["clients"][0]["secret"]); isec, osec = (bytes(case["screens"][0][k]) for k in ("isec", "osec"))
        steps, conns, known = [], {}, {}
        def fresh():
            steps.append(dict(k="open"))
            return len([s for s in steps if s["k"] == "open"])
        def join(id, sec):
            c = fresh()
            steps.append(dict(k="feed", c=c, b=list(hello(b"client", sec))))
            conns[id] = c
        def born(parent, id):
            steps.append(dict(k="feed", c=conns[parent], b=list(make(id))))
            known[id] = b"n%031d" % (len(known) + 1)
        kind = r.choice(["secret", "secret", "make", "make", "end-make", "end-hello", "end-end", "mixed", "mixed", "root"])
        if kind != "root": join(b"a", root)
        if kind != "root" and (kind != "secret" or r.random() < .5):
            born(b"a", b"ab"); join(b"ab", known[b"ab"])
            if r.random() < .6: born(b"a" if r.random() < .5 else b"ab", b"abc")
            if b"abc" in known and r.random() < .6: join(b"abc", known[b"abc"])
            if r.random() < .3: born(b"a", b"aX")
        waiting = [k for k in known if k not in conns]
        race = []
        def put(c, *ms):
            ms = [m for m in ms if m]
            if len(ms) < 2 and r.random() < .3: ms.insert(0, want)
            if len(ms) < 2 and r.random() < .3: ms.append(want)
            race.append(dict(c=c, ms=[list(m) for m in ms]))
        some = lambda x, p=.5: x if r.random() < p else None
        if kind in ("secret", "root"):
            if kind == "root": h = hello(b"client", root)
            elif waiting and r.random() < .7: h = hello(b"client", known[r.choice(waiting)])
            elif known and r.random() < .4: h = hello(b"client", r.choice(list(known.values())))
            else: h = r.choice([hello(b"stdin", isec), hello(b"stdout", osec)])
            k = r.choice([2, 3, 4])
            for _ in range(k):
                race.append(dict(c=fresh(), ms=[list(h)] + ([list(want)] if b"client" in h and k < 3 and r.random() < .5 else [])))
            if r.random() < .2: race[0] = dict(c=race[0]["c"], ms=[list(r.choice([hello(b"stdin", isec), hello(b"stdout", osec)]))])
        elif kind == "make":
            x = r.choice([b"abd", b"abde", b"abd0"])
            put(conns[b"a"], make(x)); put(conns[b"ab"], make(r.choice([x, x, x[:3], x + b"z"])))
            if b"abc" in conns and r.random() < .5: put(conns[b"abc"], make(b"abcd"))
        elif kind == "end-make":
            put(conns[b"a"], end(b"ab"), some(make(b"ab"))); put(conns[b"ab"], make(r.choice([b"abd", b"abc"])))
            if b"abc" in conns and r.random() < .5: put(conns[b"abc"], make(b"abcd"))
        elif kind == "end-hello":
            put(conns[b"a"], end(r.choice([b"ab", b"abc", b"aX"])))
            for x in (waiting or [r.choice(list(known))])[:2]: race.append(dict(c=fresh(), ms=[list(hello(b"client", known[x]))]))
        elif kind == "end-end":
            put(conns[b"a"], end(b"abc"), some(make(b"abc"))); put(conns[b"ab"], end(b"abc"), some(make(b"abc")))
            if b"abc" in conns and r.random() < .6: race.append(dict(c=conns[b"abc"], ms=[list(make(b"abcd"))]))
        else:
            for x, c in list(conns.items())[:3]:
                put(c, *[r.choice([make(x + bytes([r.choice(b"bcX0")])), end(x + bytes([r.choice(b"bcX0")])), want, make(r.choice([b"abc", b"ab"]))]) for _ in range(r.choice([1, 1, 2]))])
            for x in waiting[:1]: race.append(dict(c=fresh(), ms=[list(hello(b"client", known[x]))]))
        if len(race) < 2: race.append(dict(c=fresh(), ms=[list(hello(b"client", root))]))
        race = race[:4]
        while sum(len(x["ms"]) for x in race) > 5: max(race, key=lambda x: len(x["ms"]))["ms"].pop()
        case.update(steps=steps, race=race, after=[r.choice([0, 0, 0, 50, 300, 1200]) for _ in race])
        out.append(case)
    return out

def example_case():
    """The example server: one client, one screen, no modules of its own.  Its secrets are in its output."""
    return dict(ext=False, clients=[dict(id=arr("a"), secret=arr("client".ljust(32, ".")), used=False, sin=[], sout=[], serr=[])],
                screens=[dict(id=arr("screen1"), isec=arr("stdin".ljust(32, ".")), osec=arr("stdout".ljust(32, ".")), iused=False, oused=False)])

class Example(Gen):
    """Sessions with the example server."""
    def __init__(self, seed, flavour):
        super().__init__(seed, flavour)
        e = example_case()
        self.clients = [dict(id="a", secret=bytes(e["clients"][0]["secret"]).decode(), sin="", sout="", serr="")]
        self.screens = [dict(id="screen1", isec=bytes(e["screens"][0]["isec"]).decode(), osec=bytes(e["screens"][0]["osec"]).decode())]
        self.scr = lambda: self.r.choice(["", "screen1", "screen1", "s 2"])
        self.ids = ["a"]
        self.secrets = [self.clients[0]["secret"]]
    def case(self, n):
        return dict(super().case(n), ext=False)

def examples(n, seed):
    out = []
    for i in range(n):
        r = random.Random("%s ex %d" % (seed, i))
        f = r.choice(["tree", "tree", "msgs", "io", "garbage", "family", "family"])
        if f == "family": c = dict(family("%s ex family %d" % (seed, i), Example), ext=False)
        else: c = Example("%s ex %d g" % (seed, i), f).case(r.randrange(5, 18))
        c["wait"] = r.random() < .15   # stay until standard input has come
        c["slow"] = 0
        out.append(c)
    return out
