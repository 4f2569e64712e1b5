"""Seeded random cases for the data layer.  Only inputs are made here; what the
implementation must do with them is computed by spec/Oracle.tla."""
import random

PLAIN = b"abcXYZ019._-"
WORDS = [b"", b"a", b"core", b"core1", b"core1.2", b"want", b"have", b"nope", b"0", b"-1", b"t", b"f", b"x y", b"{", b"}", b"{1|4:want,}",
         b",", b":", b"|", b"{2|", b"3:abc,", b"\xff", b"\xc3\xa9", b"\x00", b"\\", b'"', b"'", b"\n", b"\t", b"\r", b"\x7f", b"\x1b[0m"]
# text that careless handling of Unicode might treat specially
UWORDS = [w.encode() for w in ("\ufeff", "\ufeffa", "a\ufeff", "\u200b", "\u202e", "\u0085", "\u2028", "\ufffd", "\ufffe", "\U0010ffff", "\u0301", "\u017f", "\u212a", "\u0130",
          "\uff11", "\u0661", "\u00a0", "\u3000", "\ud7ff", "\ue000", "\u07ff", "\u0800", "\U00010000", "\u00df", "\ufb01", "a\u0000b", " a", "a ", "\ta\n", "%41", "a\r", "A", "T", "nul")]
TYPES = [b"want", b"have", b"nope", b"core1.client-make", b"core1.client-new", b"core1.client-end", b"posix1.client-hello",
         b"posix1.parent-hello", b"posix1.server-hello", b"posix1.stdin-hello", b"posix1.stdout-hello", b"foo1.bar", b"Foo_9.a-b",
         b"x65535.y", b"a-1.b", b"_1._", b"core2.client-make", b"core1.client-Make"]
BADTYPES = [b"", b"Want", b"wants", b"core", b"core1", b"core0.x", b"core01.x", b"core1.", b".x", b"core1.x.y", b"core65536.x", b"core1.9x",
            b"1.x", b"core1.-x", b"-core1.x", b"core1.x ", b"\xff1.x", b"cor\xc3\xa91.x", b"core1.x\x00", b"core+1.x", b"core1 .x"]
NUMS = [b"0", b"1", b"2", b"3", b"4", b"9", b"10", b"99", b"00", b"01", b"007", b"+1", b"-1", b"-0", b"", b" 1", b"1 ", b"4294967295", b"4294967296",
        b"18446744073709551615", b"18446744073709551616", b"18446744073709551620", b"99999999999999999999", b"9223372036854775808", b"1000000000"]

def word(r, big=40):
    k = r.random()
    if k < .3: return r.choice(WORDS)
    if k < .35: return r.choice(UWORDS)
    if k < .55: return bytes(r.choice(PLAIN) for _ in range(r.randrange(0, 12)))
    if k < .8: return bytes(r.randrange(256) for _ in range(r.randrange(0, 10)))
    if k < .95: return b"".join(r.choice(WORDS) for _ in range(r.randrange(0, 5)))
    return bytes(r.choice(b"ab{}|:,0\xff") for _ in range(r.randrange(0, big)))

def ident(r):
    s = r.choice("abcXYZ_")
    return (s + "".join(r.choice("abXZ_-" if r.random() < .95 else "09") for _ in range(r.randrange(0, 5)))).encode()

def version(r):
    return r.choice([b"", b"", b"", b"", b"", b"", b"", b"", b"0", b"+", b"-", b" "]) + str(r.choice([0, 1, 2, 9, 10, 99, 65534, 65535, 65536, 100000, r.randrange(70000), 4294967296, 65536 + r.randrange(10**6)])).encode()

def modname(r):
    n = ident(r).rstrip(b"0123456789") or b"m"
    return n + version(r)

def mtype(r):
    k = r.random()
    if k < .5: return r.choice(TYPES)
    if k < .6: return r.choice(BADTYPES)
    return modname(r) + b"." + ident(r)

def item(b, n=None): return (str(len(b)).encode() if n is None else n) + b":" + b + b","
def message(ty, args): return b"{%d|" % (len(args) + 1) + item(ty) + b"".join(item(a) for a in args) + b"}"
def rand_message(r, nmax=4):
    return message(mtype(r), [word(r) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3, r.randrange(nmax + 1)]))])

def tampered(r):
    """A message one of whose numbers or delimiters is wrong."""
    items = [mtype(r)] + [word(r) for _ in range(r.randrange(3))]
    n = str(len(items)).encode()
    lens = [str(len(i)).encode() for i in items]
    which = r.randrange(len(lens) + 1)
    def bend(x):
        k = r.random()
        if k < .35: return r.choice(NUMS)
        if k < .6: return str(max(0, int(x) + r.choice([-2, -1, 1, 2]))).encode()
        if k < .8: return b"0" + x
        if k < .9: return x + r.choice([b" ", b"a", b"\xb2", b"."])
        return str(int(x) + 2**64).encode()
    if which == len(lens): n = bend(n)
    else: lens[which] = bend(lens[which])
    out = b"{" + n + b"|" + b"".join(item(i, l) for i, l in zip(items, lens)) + b"}"
    return out

def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not b: return bytes(b)
        k = r.randrange(5)
        i = r.randrange(len(b))
        if k == 0: b[i] = r.randrange(256)
        elif k == 1: del b[i]
        elif k == 2: b.insert(i, r.choice(b"{}|:,0123456789a\xff"))
        elif k == 3: del b[i:]
        else: b[i:i] = b[max(0, i - r.randrange(8)):i]
    return bytes(b)

def parse_cases(r, n):
    for _ in range(n):
        k = r.random()
        if k < .25: b = rand_message(r)
        elif k < .4: b = rand_message(r) + word(r)
        elif k < .65: b = mutate(r, rand_message(r))
        elif k < .9: b = tampered(r)
        else: b = mutate(r, tampered(r))
        yield {"op": "parse", "buf": list(b)}
    # long arguments and many arguments
    for k in (100, 300, 999, 1000, 1001, 2000, 4095, 4097, 9999, 10000, 33000, 66000):
        for b in (bytes(r.randrange(256) for _ in range(k)), bytes([r.choice(PLAIN)]) * k):
            if k <= 10000 or b[0] in PLAIN: yield {"op": "parse", "buf": list(message(b"foo1.bar", [b]) + r.choice([b"", b"x"]))}
    for k in (9, 10, 11, 98, 99, 100, 126, 127, 128, 253, 254, 255, 256, 257, 999, 1000, 5000, 65537):
        yield {"op": "parse", "buf": list(message(b"foo1.bar", [r.choice([b"x", b"", b"y", b"\xff"]) for _ in range(k)]))}

def prefix_cases(r, n):
    for i in range(n):
        k = r.random()
        b = rand_message(r, 3) if k < .4 else mutate(r, rand_message(r, 3)) if k < .7 else tampered(r)
        yield {"op": "prefixes", "buf": list(b[:90] + r.choice([b"", b"{", b"}x"]))}
    # long ones, at selected lengths: around the boundaries between tokens and around sizes that buffers have
    for i in range(max(12, n // 40)):
        sizes = [r.choice([1, 200, 990, 1000, 1010, 1020, 1024, 2000, 3000, 4060, 4072, 4096, 8192, 9999, 10000][:15 if n > 3000 else 12]) + r.randrange(-12, 13) for _ in range(r.choice([1, 1, 2, 3]))]
        items = [r.choice(TYPES)] + [bytes([r.choice(b"ab{}|:,0\xff")]) * max(0, s) for s in sizes]
        lens = [str(len(x)).encode() for x in items]
        if r.random() < .4: lens[-1] = r.choice([lens[-1] + b"0", b"0" + lens[-1], str(len(items[-1]) + r.choice([-1, 1])).encode()])
        count = len(items) + (r.choice([-1, 1, 1]) if r.random() < .3 else 0)
        b = b"{%d|" % count
        at = {0, 1, 3}
        for x, l in zip(items, lens):
            b += l + b":"
            at |= {len(b) - 1, len(b), len(b) + 1}
            b += x + b","
            at |= {len(b) - 2, len(b) - 1, len(b), len(b) + 1, len(b) + 2}
        b += b"}" + r.choice([b"", b"{", b"x"])
        at |= {511, 512, 1023, 1024, 1025, 2048, 4072, 4096} | {r.randrange(len(b)) for _ in range(4)} | {len(b) - 1, len(b)}
        yield {"op": "prefixes", "buf": list(b), "at": sorted(a for a in at if a <= len(b))}

def render_cases(r, n):
    for _ in range(n):
        t = r.choice(TYPES)
        if r.random() < .25:
            # aim at the 1024-byte limit
            room = 1024 - len(message(t, [b""])) + r.randrange(-8, 6)
            args = [bytes(r.choice(b"ab\xff") for _ in range(max(0, room - r.randrange(0, 6))))]
            if r.random() < .5:
                j = r.randrange(0, len(args[0]) + 1)
                args = [args[0][:j], args[0][j:]]
        else:
            args = [word(r, 120) for _ in range(r.choice([0, 1, 2, 3, r.randrange(12)]))]
        w = len(message(t, args))
        caps = sorted({0, 1, max(0, w - 1), w, w + 1, w + r.randrange(40), r.randrange(w + 3), 1023, 1024, 1025} | ({r.choice([2048, 4072, 4096, 8192, 32768, 65535, 65536, 65537, 65536 + r.randrange(1100), 100000, 131072, 1 << 20])} if r.random() < .1 else set()))
        yield {"op": "render", "ty": list(t), "args": [list(a) for a in args], "caps": caps}
    # many arguments
    for k in (97, 98, 99, 100, 126, 127, 128, 199, 200, 253, 254, 255, 256, 257, 299, 300, 310, 320, 330, 333, 334, 335, 336, 337, 338, 340):
        args = [b""] * k
        for _ in range(r.randrange(3)): args[r.randrange(k)] = b"a" * r.randrange(1, 20)
        w = len(message(b"want", args))
        yield {"op": "render", "ty": list(b"want"), "args": [list(a) for a in args], "caps": sorted({0, max(0, w - 1), w, w + 1, 1023, 1024, 1025, 2048})}

BITS = [8, 16, 32, 64, 128]
def number_word(r):
    k = r.random()
    if k < .5:
        b = r.choice(BITS)
        x = r.choice([0, 2**b - 1, 2**b, 2**(b - 1) - 1, 2**(b - 1), -2**(b - 1), -2**(b - 1) - 1, -(2**b)]) + r.choice([0, 0, 0, 1, -1, 10, -10])
    elif k < .8: x = r.choice([-1, 1]) * r.randrange(10 ** r.randrange(1, 42))
    else: x = r.choice([-1, 1]) * 10 ** r.randrange(0, 41) - r.choice([0, 1])
    s = str(x).encode()
    k = r.random()
    if k < .6: return s
    if k < .9: return r.choice([b"0", b"+", b"-", b" ", b"--", b"-0", b"+0", b"00"]) + s
    return s + r.choice([b" ", b".", b"0", b"\x00", b"u", b"\xd9\xa3"])

def arg_cases(r, n):
    for _ in range(n):
        k = r.random()
        if k < .45: b = number_word(r)
        elif k < .55: b = mutate(r, number_word(r))
        elif k < .7: b = word(r)
        elif k < .78: b = r.choice(UWORDS) + r.choice(UWORDS + [b""]) 
        else: b = bytes(r.randrange(256) for _ in range(r.randrange(1, 7)))
        yield {"op": "arg", "s": list(b[:60])}
    for k in LONG:
        for w in (b"x", b"7", b"\xff", "é".encode(), b"/", b"-1", b"t"):
            if k <= 5000 or w in (b"x", b"\xff"): yield {"op": "arg", "s": list((w * k)[:k])}
LONG = (100, 127, 128, 129, 255, 256, 257, 300, 512, 1023, 1024, 1025, 4096, 4097, 66000)
def name_cases(r, n):
    for _ in range(n):
        k = r.random()
        if k < .3: b = mtype(r)
        elif k < .5: b = modname(r) + b"." + version(r)
        elif k < .7: b = modname(r) + r.choice([b"", b"-", b"0", b".", b"_"]) + r.choice([b"", b"x", b"1"])
        elif k < .8: b = ident(r)
        else: b = bytes(r.choice(b"abzAZ019._-+ ") for _ in range(r.randrange(0, 8)))
        if r.random() < .4: b = mutate(r, b)
        if r.random() < .05: b = bytes(b.decode("latin1").encode("utf8"))
        if r.random() < .06:
            i = r.randrange(len(b) + 1); b = b[:i] + r.choice(UWORDS) + b[i:]
        b = b[:60]
        if r.random() < .01: b = bytes([r.choice(b"abz_")]) * r.choice([62, 64, 127, 128, 200, 255, 256, 257, 300]) + b
        yield {"op": "arg", "s": list(b)}
    for k in LONG:
        x, y = bytes([r.choice(b"abz_")]) * k, bytes([r.choice(b"xY_-")]) * k
        for b in (x, b"a" * k, b"9" * k, x + b"1", x + b"65535.65535", b"a1." + b"b" + y, x + b"9." + b"c" + y):
            if k <= 5000 or b[0] == 97: yield {"op": "arg", "s": list(b)}

FIELDS = {"want": ["modid"], "have": ["have"], "nope": ["mt"], "client_make": ["cid", "opt", "opt", "opt"], "client_new": ["str"],
          "client_end": ["cid"], "client_hello": ["str"], "parent_hello": ["str", "path"], "server_hello": ["cid", "opt", "opt", "opt"],
          "stdin_hello": ["str"], "stdout_hello": ["str"]}
TYOF = {"want": b"want", "have": b"have", "nope": b"nope", "client_make": b"core1.client-make", "client_new": b"core1.client-new",
        "client_end": b"core1.client-end", "client_hello": b"posix1.client-hello", "parent_hello": b"posix1.parent-hello",
        "server_hello": b"posix1.server-hello", "stdin_hello": b"posix1.stdin-hello", "stdout_hello": b"posix1.stdout-hello"}
def goodmod(r): return (ident(r).rstrip(b"0123456789") or b"m") + str(r.choice([1, 2, 9, 10, 65535, r.randrange(1, 65536)])).encode()
def field(r, k):
    if k == "modid": return goodmod(r)
    if k == "have": return goodmod(r) + (b"." + str(r.choice([0, 1, 10, 65535, r.randrange(65536)])).encode() if r.random() < .5 else b"")
    if k == "mt": return r.choice([b"want", b"have", b"nope", goodmod(r) + b"." + ident(r)])
    if k == "cid": return bytes(r.choice(b"aZ09zA") for _ in range(r.randrange(1, 10)))
    if k == "path": return r.choice([b"/run/x", b"", b"\xff/\x00", word(r)])
    if k == "opt" and r.random() < .3: return b""
    return "".join(r.choice(["a", "{", "}", " ", ",", ":", "é", "€", "😀", "\0", '"', "9"]) for _ in range(r.choice([0, 1, 3, 8, 30]))).encode() if r.random() < .8 else r.choice(UWORDS)
def tenc_cases(r, n):
    for _ in range(n):
        nm = r.choice(list(FIELDS))
        f = [field(r, k) for k in FIELDS[nm]]
        if r.random() < .15 and FIELDS[nm][-1] in ("str", "opt", "path", "cid"):
            room = 1024 - len(message(TYOF[nm], f[:-1] + [b""])) + r.randrange(-6, 4)
            f[-1] = b"q" * max(1, room - r.randrange(4))
        w = len(message(TYOF[nm], f))
        yield {"op": "tenc", "name": nm, "fields": [list(x) for x in f], "caps": sorted({0, w - 1, w, w + 1, r.randrange(w), 1023, 1024, 1025})}
def tdec_cases(r, n):
    """Well-formed messages that nearly decode as a typed message."""
    for _ in range(n):
        nm = r.choice(list(FIELDS))
        f = [field(r, k) for k in FIELDS[nm]]
        t = TYOF[nm]
        k = r.random()
        if k < .3:
            i = r.randrange(len(f)); f[i] = r.choice([word(r), b"", mtype(r), modname(r), mutate(r, f[i])])
        elif k < .45: f.append(word(r))
        elif k < .55: f.pop(r.randrange(len(f)))
        elif k < .7: t = r.choice(TYPES)
        elif k < .8: r.shuffle(f)
        yield {"op": "parse", "buf": list(message(t, f))}
    # long fields: decoding knows no limit
    for nm in FIELDS:
        for k in (100, 107, 108, 255, 256, 257, 1024, 1025, 5000):
            i = r.randrange(len(FIELDS[nm]))
            f = [field(r, x) for x in FIELDS[nm]]
            long = {"modid": b"m" * k + b"7", "have": b"m" * k + r.choice([b"7", b"7.8"]), "mt": b"m" * k + b"1." + b"x" * r.choice([1, k]), "cid": b"a" * k, "opt": b"s" * k, "str": b"\xc3\xa9" * k, "path": b"/" + b"p\xff" * k}
            f[i] = long[FIELDS[nm][i]]
            yield {"op": "parse", "buf": list(message(TYOF[nm], f))}

def index(r, big=3):
    k = r.random()
    if k < .7: n = r.randrange(0, 61 * big)
    else: n = r.choice([0, 1, 8, 9, 10, 59, 60, 61, 62, 120, 121, 122, 182, 183])
    n += 1
    return [n // 61, n % 61]
def bigindex(r):
    n = r.choice([2**32 - 1, 2**32 - 2, 2**31, 2**31 - 1, 2**16, 2**16 - 1, r.randrange(2**20), r.randrange(2**24)]) + 1
    return [n // 61, n % 61]
def suffix(r, ix):
    k = r.choice(["own", "local", "job", "job", "child", "child"])
    z = [0, 1]
    return {"k": k, "a": z if k == "own" else ix(r), "b": ix(r) if k == "child" else z}
def cid_cases(r, n):
    base = lambda: list(bytes(r.choice(b"aZ09z") for _ in range(r.randrange(1, 6))))
    top = [(2**32) // 61, (2**32) % 61]
    for s in ({"k": "job", "a": top, "b": [0, 1]}, {"k": "local", "a": top, "b": [0, 1]}, {"k": "child", "a": [0, 1], "b": top}, {"k": "child", "a": top, "b": [0, 3]}):
        yield {"op": "cid", "base": base(), **s}
    for _ in range(4):
        yield {"op": "cid", "base": base(), **suffix(r, bigindex)}
    for _ in range(n // 4):
        yield {"op": "cid", "base": base(), **suffix(r, lambda r: [(n := r.randrange(2**r.randrange(1, 20)) + 1) // 61, n % 61])}
    for _ in range(n):
        b = base()
        ids = [{"base": b, **suffix(r, index)} for _ in range(6)]
        if r.random() < .3: ids.append({"base": base(), **suffix(r, index)})
        # the same job again, so that children of one job meet
        j = [i for i in ids if i["k"] in ("job", "child") and i["base"] == b]
        if j:
            ids.append({"base": b, "k": "child", "a": j[0]["a"], "b": index(r)})
            ids.append({"base": b, "k": "job", "a": j[0]["a"], "b": [0, 1]})
        yield {"op": "rel", "ids": ids}
def sel_cases(r, n):
    for _ in range(n):
        b = bytes(r.choice(b"a0Z") for _ in range(r.randrange(1, 4)))
        ids = [b]
        for _ in range(5):
            x = r.choice(ids)
            ids.append(r.choice([x + bytes([r.choice(b"a0Z")]), x[:-1] or b"a", x, bytes(reversed(x)), x + b, x.swapcase()]))
        yield {"op": "sel", "ids": [list(i) for i in ids]}
    for k in (254, 255, 256, 257, 1024, 4096):
        b = b"a" * k
        yield {"op": "sel", "ids": [list(x) for x in (b, b[:-1], b + b"0", b[:-1] + b"b", b[:-1] + b"A", b"b" + b[1:], b + b)]}
    for _ in range(n):
        yield {"op": "identity", "id": list(bytes(r.choice(b"a0Z") for _ in range(r.randrange(1, 9)))),
               "steps": [{"r": r.choice(["stdin", "stdout", "stderr"]), "v": list(r.choice(["", "a", "b", "screen 1", "é", "\0"]).encode())} for _ in range(r.randrange(0, 6))]}

GENS = {"parse": parse_cases, "prefixes": prefix_cases, "render": render_cases, "arg": arg_cases, "name": name_cases, "tenc": tenc_cases,
        "tdec": tdec_cases, "cid": cid_cases, "sel": sel_cases}
def cases(kind, n, seed):
    r = random.Random("%s %s" % (kind, seed))
    out = list(GENS[kind](r, n))
    for c in out:
        # the lemmas are not checked on the longest
        if len(c.get("buf", [])) > 1500: c["big"] = True
    return out
