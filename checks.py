"""One function per property: which models TLC explores, which behaviours are
replayed into the library, which recordings TLC validates."""
import json

CHECKS = {}


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


# ---------------------------------------------------------------- text models

TEXT_INV = ("TypeOK", "Nested", "TreeFaithful", "Decodes")


FAMILIES = ("containers", "strings", "blanks", "digits")


def text_job(r, label, alphabet, cfgs="DefaultCfgs", depth=1, pieces=0, view=True, opening="none", emit=True):
    return dict(label=label, module="MCText",
                constants={"BackspaceCP": r.backspace(), "Alphabet": alphabet, "Cfgs": ("<-", cfgs), "MaxDepth": depth,
                           "MaxPieces": pieces, "UseView": view, "Emitting": emit, "Opening": opening},
                invariants=TEXT_INV, view="View", constraint="Bounded",
                action_constraint="EmitTransition", workers=1, heap="3g")


def grammar_jobs(r, deep=0):
    return [dict(label="grammar-" + f, module="MCGrammar", constants={"BackspaceCP": r.backspace(), "Family": f, "MaxPieces": n + deep},
                 invariants=("SameLanguage", "Viable", "Utf8Agrees", "Window"), workers=1)
            for f, n in (("structure", 4), ("numbers", 6), ("strings", 4), ("utf8", 3), ("lits", 4))]


def traces(r, judged, quick=2000, thorough=60000, suite="text", kind="full"):
    const = {"BackspaceCP": r.backspace(), "Judged": ("=", "{" + ", ".join('"%s"' % j for j in judged) + "}")}
    files = r.record(suite, quick if r.quick else thorough, kind=kind)
    r.sample("recorded trace", json.loads(open(files[0]).readline()))
    r.validate("TraceText", files, const, min_states=2)

    def corrupt(l):
        # tamper with what is judged, in a way the specification cannot allow
        if l["r"][0] != "ok" or not l["ev"]:
            return False
        j = judged[0]
        if j in ("verdict", "error", "panic"):
            if j == "panic":
                l["r"] = ["panic", "x", -1, 0]
            elif j == "verdict":
                l["r"] = ["err", "Utf8", -1, 0]
            else:
                return False
        elif j == "calls":
            l["ev"].append(["null"])
        elif j == "text":
            for e in l["ev"]:
                if e[0] in ("str", "key"):
                    e[4].append(0)
                    return True
            return False
        elif j == "kind":
            l["vk"][1] = "Nil"
        elif j in ("value", "nodes"):
            l["tree" if j == "value" else "nodes"].append(["null"])
        return True

    def corrupt_error(l):
        if l["r"][0] != "err":
            return False
        l["r"][3] = len(l["in"]) + 1
        return True
    r.reject_check("TraceText", files[0], corrupt_error if judged[0] == "error" else corrupt, const)


def text_check(name, aspects, jobs, judged, also=None, families=FAMILIES):
    def f(r):
        js = jobs(r) + bulk_jobs(r, families)
        rs = r.model(js)
        emitted = [x for x in rs if x["emitted"]]
        r.replay(emitted, aspects)
        for x in emitted[:3]:
            r.sample_vectors(x, 2)
        if judged:
            traces(r, judged)
        if also:
            also(r)
    CHECKS[name] = f


def by_bytes(r, depth=None):
    """every byte in every control state of the parser"""
    return text_job(r, "every-byte-in-every-state", "bytes256", depth=depth or (1 if r.quick else 2))


def by_tokens(r, n=5, cfgs="DefaultCfgs", label="token-sequences", view=False, depth=9, alphabet="tokens"):
    """all token sequences up to a length (or all token steps of all control states)"""
    return text_job(r, label, alphabet, cfgs=cfgs, pieces=n if r.quick else n + 1, view=view, depth=depth)


def by_strings(r, n=2):
    """all strings made of up to n pieces"""
    return text_job(r, "strings", "string", pieces=n + 1 if r.quick else n + 2, view=False, opening="instring")


def by_long_strings(r):
    """strings with runs up to and over the sizes an implementation may work in blocks of"""
    return text_job(r, "long-strings", "longstr", pieces=3, view=False, opening="instring")


def by_long_texts(r):
    """wide and deep containers, long numbers and white space"""
    return text_job(r, "long-texts", "longtok", pieces=3, depth=60, view=False)


def by_classes(r, cfgs, depth=1, label="byte-classes"):
    return text_job(r, label, "classes", cfgs=cfgs, depth=depth)




def bulk_jobs(r, families=FAMILIES):
    """texts by the thousand: the arithmetic of walks with run lengths, against the machines on
    small ones (Agrees) and into the library on large ones"""
    def j(family, scale, n, s=0, k=1):
        return dict(label=f"bulk-{family}-{scale}-{s}", module="MCBulk",
                    constants={"BackspaceCP": r.backspace(), "Family": family, "Scale": scale, "MaxMoves": n, "Share": s % k, "Shares": k},
                    invariants=("TypeOK", "Agrees") if scale == "small" else ("TypeOK",), constraint="Bounded",
                    action_constraint="EmitWalk", heap="3g", stack="64m")
    # (scale, moves, shares; in the quick tier one share of the large ones)
    plan = {"containers": (("small", 2, 1), ("byte", 2, 1), ("page", 2, 2), ("word", 2, 4)),
            "strings": (("small", 1, 1), ("byte", 1, 1), ("page", 1, 2), ("word", 1, 4)),
            "blanks": (("small", 4, 1), ("byte", 2, 1), ("word", 2, 1)),
            "digits": (("small", 2, 1), ("byte", 2, 1), ("word", 2, 1))}
    deep = {"containers": (("small", 3, 1), ("byte", 3, 8), ("page", 2, 4), ("word", 2, 8)),
            "strings": (("small", 2, 1), ("byte", 2, 8), ("page", 1, 4), ("word", 1, 8)),
            "blanks": (("small", 5, 1), ("byte", 3, 4), ("word", 3, 4)),
            "digits": (("small", 3, 1), ("byte", 3, 2), ("word", 2, 2))}
    if r.quick:
        return [j(f, sc, n, r.seed, k) for f in families for sc, n, k in plan[f]]
    return [j(f, sc, n, s, k) for f in families for sc, n, k in deep[f] for s in range(k)]


def bulk(r, families, aspects):
    rs = r.model(bulk_jobs(r, families))
    r.replay([x for x in rs if x["emitted"]], aspects)
    r.sample_vectors(rs[1], 1)


# ------------------------------------------------------- strings and code points

def str_jobs(r, pools):
    """all texts over a pool of characters in all spellings, against each other"""
    jobs = []
    for pool, n, shares, spelled in pools:
        for s in range(shares):
            jobs.append(dict(label=f"texts-{pool}-{s}", module="MCStr",
                             constants={"BackspaceCP": r.backspace(), "Pool": pool, "MaxLen": n, "Share": s, "Shares": shares,
                                        "Spelled": spelled},
                             invariants=("Laws", "Means", "Transitive"), action_constraint="EmitRow", heap="3g"))
    return jobs


PAIRS_QUICK = (("long", 0, 2, 3), ("small", 3, 4, 6), ("order", 2, 8, 4), ("escapes", 2, 8, 8), ("other", 3, 4, 4))
PAIRS_FEW = (("long", 0, 2, 3), ("small", 2, 1, 6), ("order", 2, 8, 4), ("escapes", 2, 8, 8), ("other", 2, 1, 4))
PAIRS_DEEP = (("long", 0, 2, 3), ("small", 4, 8, 8), ("order", 2, 8, 12), ("escapes", 2, 8, 40), ("other", 4, 16, 4))


def code_jobs(r, tables):
    jobs = []
    for t in tables:
        stride = {"u16": 1, "pairs": 1 if not r.quick else 61, "utf8": 1}[t]
        shares = 4 if r.quick else 8
        for s in range(shares):
            jobs.append(dict(label=f"table-{t}-{s}", module="MCCode",
                             constants={"BackspaceCP": r.backspace(), "Table": t, "Share": s, "Shares": shares, "Stride": stride},
                             invariants=("Formula",), action_constraint="EmitRow"))
    return jobs


def str_traces(r, judged, quick=2400, thorough=60000, scalars=True):
    const = {"BackspaceCP": r.backspace(), "Judged": ("=", "{" + ", ".join('"%s"' % j for j in judged) + "}")}
    files = r.record("str", quick if r.quick else thorough)
    r.sample("recorded trace", json.loads(open(files[0]).readline()))
    r.validate("TraceStr", files, const, min_states=4)
    if scalars and not r.quick:
        r.validate("TraceStr", r.record("scalars", 17600), const, label="TraceStr-every-scalar-value", min_states=4)

    def corrupt(l):
        if "panic" in l or not l["json"]:
            return False
        j = judged[0]
        if j == "eq":
            l["eq"][1] = not l["eq"][1]
        elif j == "ord":
            l["cmp"][1] = 2
        elif j == "hash":
            l["ha"] = l["ha"] + [0]
        elif j == "decode":
            l["dec"] = l["dec"] + [0]
        elif j == "encode":
            l["json"] = l["json"] + [97]
        elif j == "meta":
            l["dlen"] += 1
        else:
            l["any"][0] = not l["any"][0]
        return True
    r.reject_check("TraceStr", files[0], corrupt, const)


def str_check(name, aspects, judged, pools=None, also=None):
    def f(r):
        rs = r.model(str_jobs(r, (pools or PAIRS_QUICK) if r.quick else PAIRS_DEEP))
        r.replay(rs, aspects)
        for x in rs[:2]:
            r.sample_vectors(x, 1)
        str_traces(r, judged)
        if also:
            also(r)
    CHECKS[name] = f


def with_strings(aspects, judged, tables=(), pools=None):
    """additions to a text check: tables, spelled texts and recorded strings"""
    def f(r):
        rs = r.model(code_jobs(r, tables) + str_jobs(r, (pools or PAIRS_FEW) if r.quick else PAIRS_DEEP))
        r.replay(rs, aspects)
        if judged:
            str_traces(r, judged)
    return f


def utf8_tables(r):
    r.replay(r.model(code_jobs(r, ["utf8"])), ["utf8"])


def backspace_finding(r):
    if r.backspace() == 7:
        r.finding("backspace-decodes-to-bell", "the escape \\b decodes to U+0007 instead of U+0008")


def bell_finding(r):
    if r.probe("bell"):
        r.finding("bell-is-encoded-as-backspace", "U+0007 is encoded as \\b, which means U+0008")


def hasher_finding(r):
    if r.notes.get("chunk-sensitive-hash"):
        r.finding("chunk-sensitive-hasher", "a string with escapes is hashed character by character, so a Hasher whose result depends on how "
                  "the bytes are split over write calls tells it from the plain string (the byte stream is the same)")


# ------------------------------------------------------------------------ values

def write_jobs(r, n_shapes):
    jobs = [dict(label="values-large", module="MCWrite", constants={"BackspaceCP": r.backspace(), "Pool": "large", "MaxNodes": 0, "Share": 0, "Shares": 1},
                 invariants=("Result",), action_constraint="EmitDone", heap="3g", stack="64m")]
    for pool, n, shares in (("shapes", n_shapes, 8), ("leaves", 3, 2), ("odd", 3, 2)) if r.quick else \
            (("shapes", n_shapes + 1, 16), ("leaves", 4, 16), ("odd", 4, 16)):
        for s in range(shares):
            jobs.append(dict(label=f"values-{pool}-{s}", module="MCWrite",
                             constants={"BackspaceCP": r.backspace(), "Pool": pool, "MaxNodes": n, "Share": s, "Shares": shares},
                             invariants=("Prefix", "Result"), action_constraint="EmitDone", heap="3g"))
    return jobs


def eq_jobs(r):
    jobs = [dict(label="equal-large", module="MCEq", constants={"BackspaceCP": r.backspace(), "Pool": "large", "MaxNodes": 0, "Share": 0, "Shares": 1},
                 invariants=("Laws",), action_constraint="EmitRow", heap="3g", stack="64m")]
    for pool, n, shares in (("shapes", 4, 2), ("leaves", 2, 2)) if r.quick else (("shapes", 6, 8), ("leaves", 3, 8)):
        for s in range(shares):
            jobs.append(dict(label=f"equal-{pool}-{s}", module="MCEq",
                             constants={"BackspaceCP": r.backspace(), "Pool": pool, "MaxNodes": n, "Share": s, "Shares": shares},
                             invariants=("Laws",), action_constraint="EmitRow", heap="3g"))
    return jobs


def write_check(name, aspect, families):
    def f(r):
        rs = r.model(write_jobs(r, 5) + bulk_jobs(r, families))
        r.replay(rs, [aspect])
        for x in rs[:2]:
            r.sample_vectors(x, 1)
        value_traces(r, [aspect])
    CHECKS[name] = f


def value_traces(r, judged):
    const = {"BackspaceCP": r.backspace(), "Judged": ("=", "{" + ", ".join('"%s"' % j for j in judged) + "}")}

    def corrupt(l):
        if "panic" in l:
            return False
        if judged[0] == "sink":
            for s in l["sinks"]:
                if s[0]:
                    s[2] = 1
                    return True
            return False
        if l["m"][0] != (judged[0] == "pretty"):
            return False
        l["out"].append(32)
        return True
    simple_traces(r, "write", "TraceWrite", 2000, 60000, corrupt, min_states=2, const=const)


# ----------------------------------------------------------------------- cursors

def doc_jobs(r):
    def j(pool, n, ops, clones, view, share=0, shares=1):
        return dict(label=f"cursor-{pool}-{n}-{ops}-{clones}{'-view' if view else ''}-{share}", module="MCDoc",
                    constants={"BackspaceCP": r.backspace(), "MaxNodes": n, "MaxOps": ops, "Clones": clones, "UseView": view, "Pool": pool,
                               "Share": share, "Shares": shares},
                    invariants=("Settled", "Aligned"), view="View", action_constraint="EmitHistory", heap="3g")
    if r.quick:
        # every history of one cursor on every shape, every history of several
        # cursors on small ones, and every step from every pair of positions on larger ones
        return [j("one", 5, 0, 1, False, s, 4) for s in range(4)] + [j("one", 3, 4, 3, False), j("str", 4, 3, 2, False), j("other", 3, 4, 2, False)] + \
            [j("one", 5, 12, 2, True, s, 2) for s in range(2)]
    return [j("one", 6, 0, 1, False, s, 16) for s in range(16)] + [j("one", 4, 6, 3, False, s, 4) for s in range(4)] + \
        [j("str", 5, 4, 2, False, s, 8) for s in range(8)] + [j("other", 4, 5, 2, False, s, 8) for s in range(8)] + \
        [j("one", 7, 16, 2, True, s, 16) for s in range(16)]


def tok_jobs(r):
    def j(family, n, ops, view, share=0, shares=1):
        return dict(label=f"tokenizer-{family}-{n}-{ops}{'-view' if view else ''}-{share}", module="MCTok",
                    constants={"BackspaceCP": r.backspace(), "Family": family, "MaxPieces": n, "MaxOps": ops, "UseView": view,
                               "Share": share, "Shares": shares},
                    invariants=("Independent", "Tiled", "Offsets"), view="View", action_constraint="EmitHistory", heap="3g")
    if r.quick:
        return [j("all", 1, 4, False), j("all", 2, 9, True, 0, 2), j("all", 2, 9, True, 1, 2), j("good", 2, 3, False), j("few", 3, 4, False),
                j("bytes", 1, 3, False, 0, 2), j("bytes", 1, 3, False, 1, 2), j("few", 4, 12, True)]
    return [j("all", 1, 7, False)] + [j("all", 3, 12, True, s, 16) for s in range(16)] + [j("good", 2, 5, False, s, 4) for s in range(4)] + \
        [j("good", 3, 4, False, s, 16) for s in range(16)] + [j("few", 4, 6, False, s, 8) for s in range(8)] + \
        [j("bytes", 1, 5, False, s, 8) for s in range(8)] + [j("few", 6, 12, True, s, 16) for s in range(16)]


def simple_traces(r, suite, module, quick, thorough, corrupt, min_states=2, const=None, kind="full"):
    const = const or {"BackspaceCP": r.backspace()}
    files = r.record(suite, quick if r.quick else thorough, kind=kind)
    r.sample("recorded trace", json.loads(open(files[0]).readline()))
    r.validate(module, files, const, min_states=min_states)
    r.reject_check(module, files[0], corrupt, const)


@check("C05")
def c05(r):
    rs = r.model(doc_jobs(r) + bulk_jobs(r, ("containers",)))
    r.replay(rs, ["cursor"])
    for x in rs[:2]:
        r.sample_vectors(x, 2)

    def corrupt(l):
        if not l["h"]:
            return False
        l["h"][-1][2] += 1
        return True
    simple_traces(r, "doc", "TraceDoc", 2400, 80000, corrupt)


def tok_traces(r, quick, thorough, kind="full"):
    def corrupt(l):
        for h in l["h"]:
            if h[1][0] == "err":
                return False
            if h[1][0] == "tok":
                h[2] += 1
                return True
        return False
    simple_traces(r, "tok", "TraceTok", quick, thorough, corrupt, kind=kind)


@check("C19")
def c19(r):
    rs = r.model(tok_jobs(r))
    r.replay(rs, ["tokens"])
    for x in rs[:2]:
        r.sample_vectors(x, 2)

    tok_traces(r, 3200, 100000)


# ----------------------------------------------------------------------- numbers

def num_jobs(r):
    def j(family, n=0, lo=0, hi=0, share=0, shares=1):
        return dict(label=f"literals-{family}-{share}", module="MCNum",
                    constants={"BackspaceCP": r.backspace(), "Family": family, "MaxLen": n, "From": lo, "To": hi, "Share": share, "Shares": shares},
                    invariants=("WellFormed", "Monotone", "Native", "Incremental"), action_constraint="EmitDone", heap="3g")
    jobs = [j("other"), j("built", 4 if r.quick else 5)]
    jobs += [j("edges", share=s, shares=4) for s in range(4)]
    if r.quick:
        jobs += [j("range", 0, 0, 1100, s, 2) for s in range(2)] + [j("range", 0, 32700, 32800), j("range", 0, 65500, 65600)]
    else:
        jobs += [j("range", 0, 0, 70000, s, 16) for s in range(16)]
    return jobs


def float_jobs(r):
    jobs = []
    for w, shares in ((64, 40), (32, 8)) if r.quick else ((64, 200), (32, 80)):
        for s in range(shares):
            jobs.append(dict(label=f"floats-{w}-{s}", module="MCFloat",
                             constants={"BackspaceCP": r.backspace(), "Width": w, "Rich": not r.quick, "Share": s, "Shares": shares},
                             invariants=("Accepted", "Rejected", "Bits"), action_constraint="EmitDone", heap="3g", stack="64m"))
    return jobs


def num_traces(r, judged, quick, thorough, kind="full"):
    const = {"BackspaceCP": r.backspace(), "Judged": ("=", '{"%s"}' % judged)}

    def corrupt(l):
        for o in l["obs"]:
            if judged == "floats":
                o[2][-1] ^= 1
                return True
            if o[1]:
                o[1].pop()
                return True
        return False
    simple_traces(r, "num", "TraceNum", quick, thorough, corrupt, min_states=3, const=const, kind=kind)


@check("C21")
def c21(r):
    rs = r.model(num_jobs(r))
    r.replay(rs, ["ints"])
    for x in rs[:4]:
        r.sample_vectors(x, 2)
    num_traces(r, "ints", 4000, 200000)


def obj_jobs(r):
    def j(pool, n, ops, share=0, shares=1):
        return dict(label=f"edits-{pool}-{n}-{ops}-{share}", module="MCObj",
                    constants={"BackspaceCP": r.backspace(), "Pool": pool, "MaxNodes": n, "MaxOps": ops, "UseView": False,
                               "Share": share, "Shares": shares},
                    invariants=("Possible", "Frame", "First"), view="View", action_constraint="EmitHistory", heap="3g")
    large = dict(j("large", 0, 1), invariants=(), stack="64m")
    if r.quick:
        return [large, j("kinds", 3, 1), j("shapes", 4, 1), j("shapes", 2, 2), j("keys", 3, 1)] + [j("shapes", 5, 1, s, 12) for s in range(3)] + \
            [j("keys", 5, 1, s, 200) for s in range(4)]
    return [large] + [j("kinds", 4, 1, s, 8) for s in range(8)] + [j("shapes", 5, 1, s, 8) for s in range(8)] + [j("shapes", 3, 2, s, 8) for s in range(8)] + \
        [j("keys", 5, 1, s, 32) for s in range(32)] + [j("shapes", 1, 3)]


@check("C22")
def c22(r):
    rs = r.model(obj_jobs(r) + bulk_jobs(r, ("containers",)))
    r.replay(rs, ["edit"])
    for x in rs[:3]:
        r.sample_vectors(x, 1)

    def corrupt(l):
        if "panic" in l or not l["h"]:
            return False
        l["h"][-1][7] += 1
        return True
    simple_traces(r, "obj", "TraceObj", 2000, 60000, corrupt)


@check("C26")
def c26(r):
    rs = r.model(float_jobs(r) + [x for x in num_jobs(r) if x["constants"]["Family"] == "other"])
    r.replay(rs, ["floats"])
    for x in rs[-3:]:
        r.sample_vectors(x, 1)
    num_traces(r, "floats", 3200, 100000)


@check("C27")
def c27(r):
    """the same behaviours, replayed into the builds without std and without alloc"""
    deep = not r.quick
    groups = [
        [by_bytes(r, 1), by_tokens(r, 5), by_strings(r, 1), by_classes(r, "OptionCfgs"), by_long_strings(r), by_long_texts(r),
         by_tokens(r, 5, "OptionCfgs", "token-sequences-options", alphabet="fewtokens"),
         by_tokens(r, 0, "LimitCfgs", "limits-by-state", view=True, depth=3)],
        str_jobs(r, PAIRS_DEEP if deep else PAIRS_FEW),
        code_jobs(r, ["u16", "pairs"]),
        code_jobs(r, ["utf8"]),
        doc_jobs(r)[-5:],
        tok_jobs(r)[:5],
        [j for j in num_jobs(r) if deep or j["constants"]["Family"] != "edges" or j["constants"]["Share"] == r.seed % 4],
        [j for j in float_jobs(r) if deep or j["constants"]["Share"] % 5 == r.seed % 5],
        depth_jobs(r)[-2:]]
    groups[0] += bulk_jobs(r)
    done = r.model([j for g in groups for j in g])
    texts, strs, tables, utf8, docs, toks, nums, floats, walks = [[done.pop(0) for _ in g] for g in groups]
    for kind, text_aspects, str_aspects in (
            ("noalloc", ["accept", "content", "err", "utf8", "doc", "events", "faults", "front", "decode", "meta", "total", "capacity"],
             ["decode", "encode", "meta", "eq", "ord", "hash"]),
            ("alloc", ["accept", "content", "err", "utf8", "value", "doc", "events", "front", "decode", "meta", "total"] +
             (["faults", "capacity"] if deep else []),
             ["decode", "encode", "meta", "eq", "ord", "hash", "anystr"])):
        r.replay(texts, text_aspects, kind=kind)
        r.replay(strs, str_aspects, kind=kind)
        r.replay(tables, ["decode"], kind=kind)
        r.replay(utf8, ["utf8"], kind=kind)
        r.replay(docs, ["cursor"], kind=kind)
        r.replay(toks, ["tokens"], kind=kind)
        r.replay(nums, ["ints"], kind=kind)
        r.replay(floats, ["floats"], kind=kind)
        r.replay(walks, ["nest"], kind=kind)
    r.sample_vectors(texts[0], 2)
    traces(r, ["verdict", "calls", "text", "error", "kind", "nodes"], 2000, 40000, kind="noalloc")
    tok_traces(r, 1600, 40000, kind="noalloc")
    num_traces(r, "ints", 1600, 40000, kind="noalloc")
    num_traces(r, "floats", 800, 20000, kind="noalloc")


def c08(r):
    """the options against their own definitions; histories of configurations"""
    bs = {"BackspaceCP": r.backspace()}
    rs = r.model([dict(label="configurations", module="MCConfig", constants=dict(bs, MaxSteps=2 if r.quick else 3), action_constraint="EmitRow"),
                  dict(label="configuration-laws", module="MCConfig", constants=dict(bs, MaxSteps=4), invariants=("Commute",),
                       properties=("OnlyNamed",), view="OfConfig"),
                  dict(label="option-laws", module="MCOptions", constants=dict(bs, MaxTokens=7 if r.quick else 9),
                       invariants=("TrailingCommas", "Roots", "Limit", "Independent", "First"), workers=5)])
    r.replay(rs[:1], ["config"])
    r.sample_vectors(rs[0], 1)


text_check("C01", ["accept"], lambda r: [by_bytes(r), by_tokens(r), by_long_strings(r), by_long_texts(r)] + grammar_jobs(r, 0 if r.quick else 1), ["verdict"])
text_check("C02", ["utf8"], lambda r: [by_bytes(r), by_long_strings(r), text_job(r, "utf8-sequences", "utf8", pieces=3 if r.quick else 4, view=False,
                                                            opening="instring"),
                                       by_classes(r, "OptionCfgs")], ["verdict", "text"], also=utf8_tables, families=("strings",))
text_check("C03", ["value"], lambda r: [by_bytes(r), by_tokens(r), by_strings(r), by_long_strings(r), by_long_texts(r)], ["value"])
text_check("C04", ["doc"], lambda r: [by_tokens(r, 6), by_tokens(r, 5, "OptionCfgs", "token-sequences-options", alphabet="fewtokens"),
                                      by_strings(r, 1), by_long_texts(r)], ["nodes"], families=("containers", "blanks"))
text_check("C06", ["capacity"], lambda r: [by_tokens(r, 5), by_long_texts(r), by_tokens(r, 5, "OptionCfgs", "token-sequences-options", alphabet="fewtokens")],
           ["nodes"], families=("containers",))
text_check("C07", ["accept", "err"], lambda r: [by_tokens(r, 6, "LimitCfgs", "token-sequences-limits", alphabet="fewtokens"),
                                                by_tokens(r, 0, "LimitCfgs", "limits-by-state", view=True, depth=4)], ["verdict", "error"],
           also=lambda r: c07(r), families=())
def depth_jobs(r):
    """the limit as a counter, on walks of any size"""
    def j(scale, n, s=0, k=1):
        return dict(label=f"walks-{scale}-{s}", module="MCDepth", constants={"BackspaceCP": r.backspace(), "Scale": scale, "MaxMoves": n, "Share": s, "Shares": k},
                    invariants=("TypeOK", "Exact", "Agrees"), action_constraint="EmitWalk", heap="3g", stack="64m")
    if r.quick:
        return [j("small", 4), j("byte", 3), j("word", 2)]
    return [j("small", 6, s, 5) for s in range(5)] + [j("byte", 4, s, 5) for s in range(5)] + [j("word", 3)]


def c07(r):
    rs = r.model(depth_jobs(r))
    r.replay(rs, ["nest"])
    r.sample_vectors(rs[1], 2)


text_check("C08", ["accept", "content"], lambda r: [by_tokens(r, 5, "AllCfgs", "token-sequences-options", alphabet="fewtokens"),
                                                    by_classes(r, "OptionCfgs")], ["verdict"], also=c08, families=())


def c09(r):
    with_strings(["decode"], ["decode"], tables=("u16", "pairs"))(r)
    backspace_finding(r)


text_check("C09", ["decode"], lambda r: [by_strings(r), by_bytes(r), by_long_strings(r)], ["text"], also=c09, families=("strings",))


def c10(r):
    bulk(r, ("strings",), ["encode"])
    bell_finding(r)


str_check("C10", ["encode"], ["encode"], PAIRS_FEW, also=c10)


def c11(r):
    with_strings(["meta"], ["meta"])(r)
    bulk(r, ("strings",), ["meta", "rawmeta"])



text_check("C11", ["meta"], lambda r: [by_strings(r), by_bytes(r), by_long_strings(r)], None, also=c11, families=())


def c12(r):
    rs = r.model(eq_jobs(r))
    r.replay(rs, ["value_eq"])
    r.sample_vectors(rs[0], 1)
    bulk(r, ("containers",), ["value_eq"])
    bulk(r, ("strings",), ["value_eq", "eq"])


str_check("C12", ["eq"], ["eq"], also=c12)
def c14(r):
    bulk(r, ("strings",), ["hash"])
    hasher_finding(r)


str_check("C13", ["ord"], ["ord"], also=lambda r: bulk(r, ("strings",), ["ord"]))
str_check("C14", ["hash"], ["hash"], also=c14)
write_check("C15", "compact", FAMILIES)
write_check("C16", "pretty", ("containers",))
write_check("C17", "sink", ("containers", "strings"))
text_check("C18", ["events", "faults"], lambda r: [by_bytes(r), by_tokens(r), by_long_texts(r), by_tokens(r, 0, "AllCfgs", "steps-by-state", view=True, depth=2)],
           ["calls"])
text_check("C20", ["err"], lambda r: [by_bytes(r), by_tokens(r), by_long_strings(r), by_long_texts(r), by_classes(r, "OptionCfgs"),
                                      by_tokens(r, 0, "LimitCfgs", "limits-by-state", view=True, depth=3)], ["error"])
text_check("C23", ["total"], lambda r: [by_bytes(r), by_tokens(r), by_strings(r, 1), by_long_strings(r), by_long_texts(r), by_classes(r, "OptionCfgs")], ["panic"])
text_check("C24", ["front"], lambda r: [by_bytes(r), by_tokens(r), by_strings(r, 1), by_long_strings(r), by_long_texts(r), by_classes(r, "OptionCfgs")], ["kind"])
str_check("C25", ["anystr"], ["anystr"])

# ------------------------------------------------------------------ manifest

DEFAULT_TECHNIQUE = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into the library; recorded traces validated by TLC"
TECHNIQUE = {}
DEFAULT_NOTE = ("Exhaustive over the stated finite models (every transition of the specification's control states is replayed into the real "
                "code), sampled beyond them by validating seeded recordings of the library against the specification. Trusts TLC, the "
                "harness's observation of the public API, and the specification's reading of RFC 8259 (cross-checked against a declarative grammar).")
NOTES = {}
NOT_APPLICABLE = {}


def show(path):
    """show a violation again: replay its behaviour, or validate its recording"""
    import engine
    p = json.load(open(path))
    print(p["property"] + ":", p["what"][:2000])
    r = engine.Run("replay-" + p["property"], "quick", p["seed"])
    try:
        if p["kind"] == "vector":
            f = r.path("vector.ndjson")
            open(f, "w").write(p["vector"] + "\n")
            rc, out = r.spawn([r.bin(p["bin"]), "replay", "--aspects", ",".join(p["aspects"]), "--files", f], 60)
            print(out)
            if "FAIL " in out or rc != 0:
                print(f"VIOLATION property={p['property']} replay={path}")
                return 1
        elif p["kind"] == "trace":
            # the recording was made by the library as it was then
            f = r.path("trace.ndjson")
            open(f, "w").write(p["trace"] + "\n")
            const = {k: tuple(v) if isinstance(v, list) else v for k, v in (p["constants"] or {}).items()}
            x = r.tlc("again", p["module"], constants=const, invariants=("Conforms",), env={"TRACE": f}, stack="64m")
            print(x["reject"] or "accepted")
            if x["reject"]:
                print(x["tail"][-2500:])
                print(f"VIOLATION property={p['property']} replay={path}")
                return 1
        else:
            print(json.dumps(p, indent=1)[:4000])
            return 1
        print("not reproduced on the tree as it is now")
        return 0
    finally:
        r.cleanup()
