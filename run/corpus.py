"""Fixed histories for the writer: the recorded findings, the defects that were
repaired, and situations random histories meet rarely.  Each is made on the code
and validated like any other run."""


def s(x):
    """Text as the specification has it: code points, and negated bytes."""
    if isinstance(x, bytes):
        return [-b if b > 127 else b for b in x]
    return [ord(c) for c in x] if isinstance(x, str) else x


def elem(n, p="", u="", at=(), c=(), f=False):
    return {"k": "elem", "p": s(p), "u": s(u), "n": s(n), "at": list(at), "c": list(c), "f": f}


def attr(n, v="", p="", u=""):
    return {"k": "attr", "p": s(p), "u": s(u), "n": s(n), "v": s(v)}


def st(k, x=""):
    return {"k": k, "s": s(x)}


def pi(n, x=""):
    return {"k": "pi", "n": s(n), "s": s(x)}


def dtd(n, pub="", sys=""):
    return {"k": "dtd", "n": s(n), "pub": s(pub), "sys": s(sys)}


def attlist(n, *at):
    return {"k": "attlist", "n": s(n), "at": list(at)}


def dattr(n, ty="CDATA", df=0, x=""):
    return {"k": "dtdattr", "n": s(n), "ty": s(ty), "df": df, "s": s(x)}


def ent(n, x="", f=False, pub="", sys="", nd=""):
    return {"k": "dtdent", "n": s(n), "s": s(x), "f": f, "pub": s(pub), "sys": s(sys), "nd": s(nd)}


def notation(n, pub="", sys=""):
    return {"k": "notation", "n": s(n), "pub": s(pub), "sys": s(sys)}


def decl(n, x="ANY"):
    return {"k": "dtdelem", "n": s(n), "s": s(x)}


def doc(**kw):
    d = {"k": "doc", "sv": False, "se": False, "fv": [], "fe": [], "sa": -1}
    d.update(kw)
    return d


def start(*ns):
    return {"o": "start", "ns": list(ns), "via": 0}


def write(*ns):
    return {"o": "write", "ns": list(ns), "via": 0}


def attrs(*ns):
    return {"o": "attrs", "ns": list(ns), "via": 0}


def end(k="elem", *names):
    return {"o": "end", "k": k, "d": 0, "names": [s(n) for n in names], "via": 0}


def endto(d, k="elem", *names):
    return {"o": "endto", "k": k, "d": d, "names": [s(n) for n in names], "via": 0}


def endfull(*names):
    return {"o": "endfull", "names": [s(n) for n in names], "via": 0}


def block(n, *ns):
    return {"o": "block", "n": n, "ns": list(ns), "via": 0}


def o(name, **kw):
    return dict({"o": name, "via": 0}, **kw)


def enforce(v):
    return o("setenf", v=v)


A = elem("a")
DEEP = [start(elem("d%d" % i)) for i in range(9)]

# (configuration, calls)
ENCODINGS = ("latin1 Latin-1 ascii US-ASCII utf-16 UTF-16 UTF-16LE UTF-16BE utf-32 iso-8859-15 ISO-8859-1 windows-1252 cp1252 Shift_JIS EUC-JP ISO-2022-JP Big5 GBK "
             "GB18030 KOI8-R IBM850 ISO-10646-UCS-2 UCS-2 Utf-8 utf8 none binary").split()
HISTORIES = [
    # pi-empty-target
    ({}, [write(pi(""))]),
    ({}, [start(A), write(pi("", "x")), write(pi("p")), o("endall")]),
    # content that grows the stack of nodes while its parent is completed
    ({}, DEEP[:7] + [start(elem("p", c=[elem("q", c=[elem("r", c=[elem("s")])]), st("text", "t")])), end(), end(), o("endall")]),
    ({}, DEEP[:7] + [write(elem("p", c=[elem("q", c=[elem("r", c=[elem("s")])]), st("text", "t")])), o("endall")]),
    ({"ind": "std"}, DEEP + [write(elem("p", c=[elem("q", c=[elem("r", c=[elem("s")])])])), end(), write(elem("z")), o("endall")]),
    # sequences over several calls
    ({}, [start(st("comment", "a-")), write(st("ccontent", "-b")), write(st("ccontent", "b-")), o("next"), write(st("ccontent", "")), write(st("ccontent", "-"))]),
    ({}, [start(st("comment")), write(st("ccontent", "-")), write(st("ccontent", "")), write(st("ccontent", "-")), o("endany")]),
    ({}, [start(st("cdata", "]")), write(st("cdcontent", "]")), write(st("cdcontent", "")), write(st("cdcontent", ">")), o("endany")]),
    ({}, [start(st("cdata")), write(st("cdcontent", "]]")), write(st("cdcontent", "]")), write(st("cdcontent", ">x")), write(st("cdcontent", "x>")), o("endany")]),
    # validation off and on again in the middle of content
    ({}, [start(st("comment")), enforce(False), write(st("ccontent", "a-")), enforce(True), write(st("ccontent", "-b")), write(st("ccontent", "b")), o("endany")]),
    ({}, [start(st("cdata")), enforce(False), write(st("cdcontent", "]]")), enforce(True), write(st("cdcontent", ">")), o("endany")]),
    ({}, [start(A), enforce(False), write(attr("x", "1")), o("next"), enforce(True), write(attr("y", "2")), end()]),
    ({}, [start(A), enforce(False), write(decl("e")), enforce(True), write(decl("e")), end()]),
    # refused content, and what may follow it
    ({}, [start(st("cdata")), write(st("cdcontent", "a")), write(st("cdcontent", "\x00]]")), write(st("cdcontent", ">")), write(st("cdcontent", "]]>]]")), write(st("cdcontent", ">b")), o("endany")]),
    ({}, [start(st("comment")), write(st("ccontent", "a")), write(st("ccontent", "\x00-")), write(st("ccontent", "-b")), write(st("ccontent", "--c-")), write(st("ccontent", "-")), o("next"), write(st("ccontent", "b")), o("endany")]),
    # strictness switched in the middle of content
    ({}, [start(st("comment")), o("setstrict", v=False), write(st("ccontent", "a\x86")), o("setstrict", v=True), write(st("ccontent", "\x86")), o("setstrict", v=False), write(st("ccontent", "\x86b")), o("endany"), write(pi("p", "\ufdd0")), o("setstrict", v=True), write(pi("p", "\ufdd0"))]),
    ({"strict": False}, [start(st("cdata")), write(st("cdcontent", "a\x86")), o("setstrict", v=True), write(st("cdcontent", "\x86")), o("setstrict", v=False), write(st("cdcontent", "\x86b")), o("endany")]),
    # refused ends
    ({}, [start(elem("n" * 99 + "a")), end("elem", "n" * 99 + "b"), end("elem", "n" * 99), end("elem", "", "n" * 99 + "b"), endfull("n" * 98 + "xa"), end("elem", "n" * 99 + "a")]),
    ({}, [start(elem("n" * 300, "p" * 300)), end("elem", "p" * 299 + "q", "n" * 300), end("elem", "p" * 300, "n" * 299 + "m"), end("elem", "p" * 300, "n" * 300)]),
    ({}, [start(dtd("n" * 300)), start(attlist("m" * 300)), end("attlist", "m" * 299), end("attlist", "m" * 299 + "n"), end("attlist", "m" * 300), end("dtd", "n" * 299 + "N"), end("dtd", "n" * 300)]),
    ({}, [start(A), endfull("b"), end()]),
    ({}, [start(A), endfull("p", "a"), endfull("a"), end()]),
    ({}, [start(elem("x", p="p")), end("elem", "p:x"), end("elem", "x", "p"), end("elem", "p", "x")]),
    ({}, [start(A), start(elem("b")), start(elem("c")), endto(1, "elem", "z"), endto(0, "elem", "a"), o("endall")]),
    ({}, [start(A), start(elem("b")), endto(0, "doc"), end("elem"), o("endall")]),
    ({}, [start(doc()), start(A), start(st("comment")), o("enddoc"), o("enddoc")]),
    # namespaces
    ({}, [start(elem("a", "p", "u", at=[attr("x", "1", "p", "u"), attr("y", "2", "q", "v"), attr("z", "3", "q", "v")])), write(attr("w", "4", "q", "w")),
          write(attr("t", "5", "", "d")), write(attr("s", "6", "", "e")), write(elem("b", "p", "u")), write(elem("c", at=[attr("r", "7", "q", "w")])), end()]),
    ({}, [start(A)] + [write(attr("x%d" % i, "", "p%d" % i, "u%d" % (i % 4))) for i in range(40)]
     + [write(attr("y%d" % i, "", "p%d" % i, "u%d" % ((i + i // 33) % 4))) for i in range(40)] + [o("endall")]),
    # declarations
    ({}, [start(dtd("d", "", "a'b")), write(notation("n", "p'", "s\"")), write(ent("e", "a\"b")), write(ent("e", "", True, "", "s")), write(ent("e", "", False, "p", "s", "n")),
          write(attlist("l", dattr("a", "ID", 2), dattr("b", "CDATA", 4, "<\"&\t"), dattr("c", "CDATA", 1), dattr("d"))), o("endall")]),
    ({"ind": "std"}, [start(doc(sa=1)), start(dtd("d")), start(attlist("l")), write(dattr("a")), write(dattr("b")), o("endany"), write(decl("e")), write(st("comment", "c")), o("endany"),
                      start(A), write(st("comment", "c")), start(elem("b")), write(st("text", "t")), write(elem("i")), end(), write(pi("p", "q")), start(elem("c")), endfull(), o("enddoc")]),
    ({}, [start(dtd("d", "p", "s")), o("next"), o("endany"), start(dtd("d")), o("endany")]),
    # documents
    ({"ver": s("1.1"), "nl": [13, 10]}, [start(doc(sa=0)), start(A), o("enddoc")]),
    ({}, [start(doc(sv=True, se=True)), o("endall")]),
    ({}, [start(doc(fe=[s("a b")])), start(doc(fe=[s("latin-1")], fv=[s("")])), o("endall")]),
    # the same node again after it has ended
    ({"ind": "std"}, [write(elem("a", "p", "u", at=[attr("x", "1", "q", "v")], c=[elem("b"), st("comment", "-x")], f=True)), write(A), start(A), write(elem("a", "p", "w")), end(), write(A)]),
    ({}, [start(st("comment", "x-")), write(st("ccontent", "y")), o("endany"), start(st("comment")), write(st("ccontent", "-z")), o("endany"), write(st("cdata", "]]")), start(st("cdata")),
          write(st("cdcontent", ">")), o("endany")]),
    # an indenter that writes, and attributes that are refused
    ({"rec": True, "mark": True}, [start(elem("a", "p", "u")), write(attr("x", "1", "p", "v")), write(attr("1", "1", "q", "w")), write(attr("", "1", "q", "w")), write(attr("y", "2", "r", "z")), write(st("text", "t")), o("endall")]),
    ({"rec": True, "mark": True, "wrap": "box"}, [start(doc()), start(dtd("d")), write(decl("e")), start(attlist("l")), write(dattr("a")), o("endany"), o("endany"), start(A), write(st("comment", "c")), start(st("comment", "c")),
        write(st("ccontent", "d")), o("endany"), write(st("cdata", "c")), start(st("cdata", "c")), write(st("cdcontent", "d")), o("endany"), write(pi("p", "q")), write(st("raw", "r")), endfull(), o("endall")]),
    # a custom indenter that is put in, taken out and replaced on the way
    ({"rec": True, "wrap": "box"}, [o("setind", k="none"), start(doc()), start(A), start(elem("b")), o("setind", k="rec"), write(attr("x", "1")), write(st("text", "t")), o("endany"), o("setind", k="recstd"),
        start(elem("c")), start(elem("d")), o("endany"), o("setind", k="none"), start(st("comment", "c")), o("setind", k="rec"), write(st("ccontent", "d")), o("endany"), o("setind", k="std"), write(elem("e")), o("endall")]),
    ({}, [start(A), start(elem("b")), o("setind", k="recstd"), end(), start(dtd("d")), write(elem("c")), o("setind", k="back"), write(elem("d")), o("setind", k="rec"), o("endall")]),
    # one call with many nodes, one of which is refused
    ({}, [start(A), write(*[st("text", "t")] * 10, st("cdcontent", "]]>"), *[st("text", "t")] * 90), start(*[elem("b")] * 40, elem("1"), *[elem("c")] * 40), o("endall")]),
    ({"ind": "std"}, [start(A), attrs(*[attr("x%d" % i, "v", "p", "v" if i == 20 else "u") for i in range(80)]), block(elem("b"), *[elem("c")] * 20, dattr("a"), *[elem("c")] * 70), o("endall")]),
    ({}, [write(elem("a", c=[st("text", "t")] * 20 + [pi("p")] + [st("comment", "c")] * 80)), write(attlist("l", *[dattr("a", "", 3) if i == 20 else dattr("b%d" % i) for i in range(80)])), o("endall")]),
    # long strings
    ({}, [start(A), write(attr("x", "v" * 4095 + "\"<")), write(attr("y", "v" * 9000)), write(st("text", "t" * 8191 + "&>\r")), write(st("text", "\u4e2d" * 4100 + "]]>")), end()]),
    ({}, [write(st("comment", "c" * 9000 + "-c")), write(st("cdata", "]" * 4096 + "x]")), write(pi("p", "q" * 4200 + "?")), write(st("cdata", "d" * 4097 + "]]>"))]),
    ({}, [write(elem("n" * 4097)), start(dtd("d", "p" * 4097, "s" * 4200)), write(ent("e", "v" * 5000)), o("endall"), write(st("comment", "c" * 5000 + "\x01"))]),
]
HISTORIES += [({"enc": s(e)}, [start(doc()), start(A), o("endall")]) for e in ENCODINGS]
HISTORIES += [({}, [start(doc(fe=[s(e)])), start(A), o("endall")]) for e in ENCODINGS]



def far(n):
    """Every kind of string with the deciding part behind, before or among n characters that are fine."""
    for pre, post in ((n, 0), (0, n), (n, n)):
        yield from far_at(b"x" * pre, b"x" * post)


def far_at(pre, post):
    x, y = pre.decode(), post.decode()
    names = [x + " " + y, x + "<" + y, pre + b"\xff" + post]
    chars = [x + c + y for c in ("\x01", "\ufffe", "\U0001ffff", "\x86")] + [pre + b"\xc3" + post]
    inside = [("comment", "ccontent", chars + [x + "--x" + y]), ("cdata", "cdcontent", chars + [x + "]]>" + y])]
    out = [({"strict": v}, [start(st(k))] + [write(st(part, c)) for c in cs] + [write(st(part, "ok")), o("endany")]) for k, part, cs in inside for v in (True, False)]
    out += [({"strict": v}, [write(pi("t", c)) for c in chars + [x + "?>" + y]] + [write(pi("t", "ok"))]) for v in (True, False)]
    out += [({}, [write(st(k, c))]) for k, c in (("comment", x + "--x" + y), ("comment", x + "-" + y), ("cdata", x + "]]>" + y), ("comment", x + "\x01" + y), ("cdata", x + "\x01" + y))]
    out += [({}, [write(pi(c, "")) for c in names]), ({}, [start(doc(fe=[s(x + "*" + y)]))])]
    out += [({}, [write(attlist("l", dattr(c))), o("endall")]) for c in names]
    out += [({}, [start(k), o("endall")]) for c in names for k in (elem(c), dtd(c), attlist(c), elem("a", at=[attr(c)]))]
    out += [({}, [write(k)]) for c in names for k in (ent(c, "v"), ent("e", "", False, "", "s", c), notation(c, "p"), decl(c))]
    lits = chars + [x + "\"'" + y, x + "'" + y + "\""]
    out += [({}, [start(dtd("d", "", c))]) for c in lits] + [({}, [start(dtd("d", x + "\"" + y, "s"))])]
    out += [({}, [write(k)]) for c in lits for k in (ent("e", c), ent("e", "", False, "", c), notation("n", "", c))]
    out += [({}, [write(k)]) for k in (ent("e", "", False, x + "<" + y, "s"), notation("n", x + "\t" + y), notation("n", x + "{" + y, "s"))]
    return out


def rep(n, *ops):
    return o("rep", d=n, ops=list(ops))


def many(n):
    """The same child n times, in every place, and then the end of it."""
    leaf = [write(st("comment", "c")), write(pi("p", "q"))]
    inner = leaf + [write(st("text", "t")), write(st("cdata", "d")), write(st("raw", "r")), write(elem("b")), o("next")]
    places = [([start(A)], b, end()) for b in [[x] for x in inner] + [[start(elem("b")), write(st("text", "t")), end()], [block(elem("b"), elem("c"))], [write(elem("b")), leaf[0]]]]
    places += [([start(A)], [write(attr("x", "1"))], end()), ([start(doc())], [leaf[0]], o("enddoc"))]
    places += [([], x, o("flush")) for x in [[leaf[0]], [leaf[1]], [write(elem("b"))], [start(dtd("d")), o("endany")]]]
    places += [([start(st("comment", "-x"))], [write(st("ccontent", "-y"))], o("endany")), ([start(st("cdata"))], [write(st("cdcontent", "]y"))], o("endany"))]
    places += [([start(dtd("d"))], [x], o("endany")) for x in leaf[:1] + [write(decl("e")), write(ent("e", "v")), write(notation("n", "p")), write(attlist("l", dattr("a"))), o("next")]]
    places += [([start(dtd("d")), start(attlist("l"))], [write(dattr("a"))], o("endany"))]
    for cfg in ({}, {"ind": "std"}):
        for before, body, after in places:
            yield cfg, before + [rep(n, *body), after] + ([write(leaf[0]["ns"][0]), o("endall")] if before else [])


def deep(n):
    """Elements inside each other, n of them, closed in every way."""
    down = start(*[A] * n)
    t = write(st("text", "t"))
    yield {}, [down, endto(0), write(A)]
    yield {}, [start(doc()), down, t, o("enddoc"), write(A)]
    yield {}, [start(elem("r")), down, attrs(attr("x", "1")), endto(1), t, endto(0, "elem", "r")]
    yield {}, [down, t, o("endany"), endfull("a"), end("elem", "a"), endto(n // 2), start(st("comment", "c")), o("endallflush"), write(A)]


DEFAULT = {"enf": True, "strict": True, "nl": [10], "ind": "none", "istr": [32], "rec": False, "wrap": "", "mark": False, "fail": 0, "enc": s("UTF-8"), "ver": []}


def lines(judge, distances=(), counts=(), depths=()):
    for i, (cfg, ops) in enumerate(HISTORIES + [h for n in distances for h in far(n)] + [h for n in counts for h in many(n)] + [h for n in depths for h in deep(n)]):
        yield {"id": i + 1, "cfg": dict(DEFAULT, **cfg), "j": judge, "ev": [{"op": op} for op in ops]}
