"""rsx: mechanical extractor.  Parses Rust source with a tokenizer, locates items by
path, applies a fixed list of rewrites, attaches contracts, and expands a contract
template (contracts/*.vrs) into a Verus input file.

Nothing here decides a property; it only carries the text of /repo's functions to the
verifier.  Every rewrite applied is recorded in Unit.log, so that a run can report what
the extraction dropped or replaced.
"""
import hashlib, os, re, sys

class Lost(Exception):
    """an anchor the template needs is not in the source any more"""

PUNCT3 = ["<<=", ">>=", "...", "..="]
PUNCT2 = ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=",
          "%=", "^=", "&=", "|=", "..", ]

class Tok:
    __slots__ = ("k", "t", "s", "e")
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return f"{self.t!r}@{self.s}"

ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")
RAW = re.compile(r'(?:b|c)?r(#*)"')

def tokenize(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = RAW.match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.index(close, m.end()) + len(close)
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and src.startswith('"', i + 1)):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'" or (c == "b" and src.startswith("'", i + 1)):
            p = i + (1 if c == "'" else 2)
            # lifetime or char
            if c == "'" and src[p] != "\\":
                m = ID.match(src, p)
                if m and not src.startswith("'", m.end()):
                    out.append(Tok("life", src[i:m.end()], i, m.end())); i = m.end(); continue
            j = p
            while src[j] != "'":
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("char", src[i:j], i, j)); i = j; continue
        m = ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end())); i = m.end(); continue
        m = NUM.match(src, i)
        if m:
            e = m.end()
            # "0..x" must not swallow the range
            if ".." in src[i:e + 1]:
                pass
            out.append(Tok("num", src[i:e], i, e)); i = e; continue
        for L in (PUNCT3, PUNCT2):
            for p in L:
                if src.startswith(p, i):
                    out.append(Tok("p", p, i, i + len(p))); i += len(p); break
            else:
                continue
            break
        else:
            out.append(Tok("p", c, i, i + 1)); i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost("unbalanced brackets")

def skip_generics(toks, i):
    """toks[i] is '<'; index after the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if toks[j].k == "p":
            if t == "<": d += 1
            elif t == ">":
                d -= 1
                if d == 0: return j + 1
            elif t in (">=",) and d == 1: return j + 1
            elif t in OPEN: j = match_close(toks, j)
        j += 1
    raise Lost("unbalanced generics")

class Item:
    def __init__(self, kind, name, toks, a, s, e, body=None, trait=None):
        # a: first token incl. attributes, s: first token after attributes, e: one past last
        self.kind, self.name, self.toks, self.a, self.s, self.e = kind, name, toks, a, s, e
        self.body = body      # (open, close) token indices
        self.trait = trait
        self.children = []

QUAL = {"pub", "unsafe", "async", "const", "extern", "default"}

def norm(toks):
    return " ".join(t.t for t in toks)

def parse_items(toks, i, end):
    items = []
    while i < end:
        a = i
        cfgs = []
        while i < end and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!": j += 1
            k = match_close(toks, j)
            cfgs.append(norm(toks[j:k + 1])); i = k + 1
        if i >= end: break
        s = i
        # visibility/qualifiers
        j = i
        while toks[j].t in QUAL or toks[j].k == "str":
            if toks[j].t == "pub" and toks[j + 1].t == "(":
                j = match_close(toks, j + 1) + 1
            elif toks[j].t == "const" and toks[j + 1].t not in ("fn", "unsafe", "extern", "async"):
                break
            else:
                j += 1
        kw = toks[j].t
        def find(stops, p):
            while p < end:
                if toks[p].t in stops: return p
                if toks[p].t in ("(", "["): p = match_close(toks, p)
                p += 1
            raise Lost("item end")
        if kw == "fn":
            name = toks[j + 1].t
            p = find(("{", ";"), j + 2)
            if toks[p].t == "{":
                c = match_close(toks, p)
                it = Item("fn", name, toks, a, s, c + 1, (p, c))
            else:
                it = Item("fn", name, toks, a, s, p + 1)
            i = it.e
        elif kw == "impl" or kw == "trait":
            p = find(("{",), j + 1)
            c = match_close(toks, p)
            h = j + 1
            if kw == "impl":
                if toks[h].t == "<": h = skip_generics(toks, h)
                # cut where
                w = p
                for q in range(h, p):
                    if toks[q].t == "where": w = q; break
                f = None
                for q in range(h, w):
                    if toks[q].t == "for" and toks[q + 1].t != "<": f = q; break
                trait = norm(toks[h:f]) if f is not None else None
                selft = toks[(f + 1) if f is not None else h:w]
                base = []
                for t in selft:
                    if t.t == "<": break
                    base.append(t)
                name = base[-1].t if base else norm(selft)
                if selft and selft[0].t in ("[", "&", "("): name = norm(selft)
                it = Item("impl", name, toks, a, s, c + 1, (p, c), trait)
                it.selft = norm(selft)
            else:
                it = Item("trait", toks[h].t, toks, a, s, c + 1, (p, c))
            it.children = parse_items(toks, p + 1, c)
            i = it.e
        elif kw == "mod":
            if toks[j + 2].t == "{":
                c = match_close(toks, j + 2)
                it = Item("mod", toks[j + 1].t, toks, a, s, c + 1, (j + 2, c))
                it.children = parse_items(toks, j + 3, c)
            else:
                it = Item("mod", toks[j + 1].t, toks, a, s, j + 3)
            i = it.e
        elif kw in ("struct", "enum", "union"):
            name = toks[j + 1].t
            p = find(("{", ";"), j + 2)
            if toks[p].t == "{":
                c = match_close(toks, p)
                it = Item(kw, name, toks, a, s, c + 1, (p, c))
            else:
                it = Item(kw, name, toks, a, s, p + 1)
            i = it.e
        elif kw in ("static", "const", "type", "use", "extern"):
            p = j
            while toks[p].t != ";":
                if toks[p].t in OPEN: p = match_close(toks, p)
                p += 1
            nm = toks[j + 1].t if toks[j + 1].t != "mut" else toks[j + 2].t
            it = Item(kw, nm, toks, a, s, p + 1)
            i = it.e
        elif toks[j].k == "id" and (toks[j + 1].t == "!" or toks[j + 1].t == "::"):
            p = j + 1
            while toks[p].t not in OPEN: p += 1
            c = match_close(toks, p)
            e = c + 1
            if e < end and toks[e].t == ";": e += 1
            it = Item("macro", toks[j].t, toks, a, s, e)
            i = e
        else:
            i = j + 1
            continue
        it.cfgs = cfgs
        items.append(it)
    return items

class Source:
    cache = {}
    def __init__(self, path, text=None):
        self.path = path
        self.text = open(path, encoding="utf-8").read() if text is None else text
        self.toks = tokenize(self.text)
        self.items = parse_items(self.toks, 0, len(self.toks))
    @staticmethod
    def get(path):
        if path not in Source.cache:
            if not os.path.exists(path): raise Lost(f"no file {path}")
            Source.cache[path] = Source(path)
        return Source.cache[path]
    def find(self, sel):
        """sel: '/'-separated components: 'Trait<..> for Type', 'Type' (inherent impl),
        'mod:x', 'fn name' -> last component is item name"""
        comps = [c.strip() for c in sel.split("/")]
        pools = [self.items]
        for idx, c in enumerate(comps):
            last = idx == len(comps) - 1
            nxt = []
            found = []
            for pool in pools:
                for it in pool:
                    if any(x.replace(" ", "").startswith("[cfg(") and "test" in x and "not" not in x for x in getattr(it, "cfgs", [])):
                        continue
                    if match_item(it, c, last):
                        found.append(it)
            if not found:
                raise Lost(f"{self.path}: no item matching {c!r} in {sel!r}")
            if last:
                if len(found) > 1:
                    raise Lost(f"{self.path}: {len(found)} items match {sel!r}")
                return found[0]
            for it in found:
                if it.kind == "fn" and it.body:
                    nxt.append(parse_items_in_body(it))
                else:
                    nxt.append(it.children)
            pools = nxt

def parse_items_in_body(it):
    """nested fn items of a function body"""
    toks = it.toks
    res = []
    i = it.body[0] + 1
    while i < it.body[1]:
        if toks[i].t == "fn" and toks[i + 1].k == "id" and toks[i - 1].t in ("{", "}", ";", "]"):
            sub = parse_items(toks, i, it.body[1])[:1]
            res += sub
            i = sub[0].e
        else:
            i += 1
    return res

def match_item(it, c, last):
    if c.startswith("mod:"): return it.kind == "mod" and it.name == c[4:]
    if " for " in c:
        tr, ty = c.split(" for ", 1)
        if it.kind != "impl" or it.trait is None: return False
        want = norm(tokenize(tr)); wty = norm(tokenize(ty))
        tr_ok = it.trait == want or it.trait.split(" <")[0].split(" :: ")[-1] == want
        return tr_ok and (it.name == wty or it.selft == wty)
    if c.startswith("fn:"): return it.kind == "fn" and it.name == c[3:]
    if c.startswith("type:"): return it.kind in ("struct", "enum", "union", "type") and it.name == c[5:]
    if c.startswith("const:"): return it.kind in ("const", "static") and it.name == c[6:]
    if c.startswith("trait:"): return it.kind == "trait" and it.name == c[6:]
    # inherent impl
    return it.kind == "impl" and it.trait is None and it.name == c

# ---------------------------------------------------------------- token patterns

def compile_pat(p):
    out = []
    toks = tokenize(p)
    i = 0
    while i < len(toks):
        if toks[i].t == "$" and i + 1 < len(toks) and toks[i + 1].k == "id":
            out.append(("var", toks[i + 1].t)); i += 2
        else:
            out.append(("lit", toks[i].t)); i += 1
    return out

def tt_end(toks, i):
    if toks[i].k == "p" and toks[i].t in OPEN: return match_close(toks, i) + 1
    if toks[i].k == "p" and toks[i].t in CLOSE: return None
    return i + 1

def _mp(pat, toks, i, b):
    if not pat: return i, b
    (k, v), rest = pat[0], pat[1:]
    if k == "lit":
        if i < len(toks) and toks[i].t == v: return _mp(rest, toks, i + 1, b)
        return None
    j = i
    stmts = v[0].isupper()     # $B: any token trees, none included; $b: at least one, no ';'
    if stmts:
        r = _mp(rest, toks, i, dict(b, **{v: (i, i)}))
        if r is not None: return r
    while j < len(toks):
        if toks[j].t == ";" and not stmts: return None
        nj = tt_end(toks, j)
        if nj is None: return None
        j = nj
        if v in b and norm(toks[i:j]) != norm(toks[b[v][0]:b[v][1]]): continue
        b2 = dict(b); b2.setdefault(v, (i, j))
        r = _mp(rest, toks, j, b2)
        if r is not None: return r
    return None

def sub_text(text, pat, repl, maxn=10**9):
    p = compile_pat(pat)
    n = 0
    pos = 0
    while n < maxn:
        toks = tokenize(text)
        hit = None
        for i in range(len(toks)):
            if toks[i].s < pos: continue
            r = _mp(p, toks, i, {})
            if r is not None:
                hit = (i, r[0], r[1]); break
        if hit is None: break
        i, e, b = hit
        new = repl
        for v in sorted(b, key=len, reverse=True):
            lo, hi = b[v]
            new = new.replace("$" + v, text[toks[lo].s:toks[hi - 1].e] if hi > lo else "")
        text = text[:toks[i].s] + new + text[toks[e - 1].e:]
        pos = toks[i].s + len(new)
        n += 1
    return text, n

DROP_MACROS = ("context", "trace", "debug", "info", "warn", "println", "eprintln")

def std_rewrites(text, log):
    # logging/context macros are statements without effect on the result
    for m in DROP_MACROS:
        while True:
            toks = tokenize(text)
            for i in range(len(toks) - 2):
                if toks[i].k == "id" and toks[i].t == m and toks[i + 1].t == "!" and toks[i + 2].t in OPEN \
                        and (i == 0 or toks[i - 1].t in ("{", "}", ";", "=>")):
                    c = match_close(toks, i + 2)
                    e = c + 1
                    if e < len(toks) and toks[e].t == ";": e += 1
                    rep = "" if (i == 0 or toks[i - 1].t != "=>") else "{}"
                    end = toks[e - 1].e if rep == "" else toks[c].e
                    text = text[:toks[i].s] + rep + text[end:]
                    log.append(f"dropped {m}!(..)")
                    break
            else:
                break
    for m, rep in (("bail", "return Err(verr())"), ("eyre", "verr()")):
        while True:
            toks = tokenize(text)
            for i in range(len(toks) - 2):
                if toks[i].k == "id" and toks[i].t == m and toks[i + 1].t == "!" and toks[i + 2].t in OPEN:
                    c = match_close(toks, i + 2)
                    text = text[:toks[i].s] + rep + text[toks[c].e:]
                    log.append(f"{m}!(..) -> {rep}")
                    break
            else:
                break
    # attributes on statements (cfg) inside bodies: only #[cfg(unix)] is resolved (kept)
    return text

def split_args(toks, lo, hi):
    out, a, i = [], lo, lo
    while i < hi:
        if toks[i].t in OPEN: i = match_close(toks, i)
        elif toks[i].t == ",":
            if i > a: out.append((a, i))
            a = i + 1
        i += 1
    if hi > a: out.append((a, hi))
    return out

def format_chain(lit, args, named, where):
    """the pieces of a format string, as calls on the Fmt stand-in"""
    out = ["Fmt::new()"]
    pos, i, buf = 0, 0, ""
    def flush():
        nonlocal buf
        if buf: out.append('.lit("' + buf + '")'); buf = ""
    while i < len(lit):
        ch = lit[i]
        if ch == "\\":
            buf += lit[i:i + 2]; i += 2; continue
        if lit[i:i + 2] in ("{{", "}}"):
            buf += ch; i += 2; continue
        if ch == "{":
            j = lit.index("}", i)
            f = lit[i + 1:j]
            name, _, spec = f.partition(":")
            name, spec = name.strip(), spec.strip()
            if spec not in ("", "?", "#?"): raise Lost(f"{where}: format specification {{{f}}}")
            if name == "":
                if pos >= len(args): raise Lost(f"{where}: format arguments")
                e = args[pos]; pos += 1
            elif name.isdigit(): e = args[int(name)]
            else: e = named.get(name, name)
            flush()
            out.append((".dbg(&(" if spec else ".arg(&(") + e + "))")
            i = j + 1; continue
        buf += ch; i += 1
    flush()
    return "".join(out) + ".done()"

def unindent(s):
    """what indoc makes of a literal"""
    lines = s.split("\n")
    ind = [len(l) - len(l.lstrip(" \t")) for l in lines[1:] if l.strip(" \t")]
    n = min(ind) if ind else 0
    skip = s.startswith("\n")
    out = ""
    for i, l in enumerate(lines):
        if i > 1 or (i == 1 and not skip): out += "\n"
        out += l if i == 0 else l[n:]
    return out

def inline_closure(body, name, where, log):
    """`let mut f = |a, b| -> R { .. };` called only as `f(x, y)?`: the body in place of each call"""
    toks = tokenize(body)
    for k in range(len(toks) - 3):
        if toks[k].t == "let" and (toks[k + 1].t == name or (toks[k + 1].t == "mut" and toks[k + 2].t == name)): break
    else: return body
    cl = [c for c in find_closures(toks) if toks[c[0] - 1].t == "=" and c[0] - k <= 4]
    if not cl or not cl[0][5] or cl[0][6] is None: raise Lost(f"{where}: {name} is no closure of the expected form")
    st, _, pc, b, e, _, ret = cl[0]
    params = [toks[a].t for a, z in split_args(toks, st + 1, pc) if z - a == 1]
    if len(params) != len(split_args(toks, st + 1, pc)): raise Lost(f"{where}: parameters of {name}")
    if any(t.t == "return" for t in toks[b:e]): raise Lost(f"{where}: {name} returns early")
    text = body[toks[b].s:toks[e - 1].e]
    rty = body[toks[ret[0] + 1].s:toks[ret[1]].s]
    if toks[e].t != ";": raise Lost(f"{where}: {name}")
    edits = [(toks[k].s, toks[e].e, "")]
    for i in range(e + 1, len(toks)):
        if toks[i].t != name: continue
        if toks[i + 1].t != "(": raise Lost(f"{where}: {name} is used as a value")
        c = match_close(toks, i + 1)
        if toks[c + 1].t != "?": raise Lost(f"{where}: result of {name} is not passed on")
        args = split_args(toks, i + 2, c)
        if len(args) != len(params): raise Lost(f"{where}: arguments of {name}")
        new = "{ " + " ".join(f"let {p} = {body[toks[a].s:toks[z - 1].e]};" for p, (a, z) in zip(params, args)) + f" let r__: {rty} = {text}; r__ }}"
        edits.append((toks[i].s, toks[c].e, new))
    for (a, z, new) in sorted(edits, reverse=True): body = body[:a] + new + body[z:]
    log.append(f"{where}: closure {name} written out at its {len(edits) - 1} calls")
    return body

def bytes_rewrites(body, where, log):
    """b"text" -> ascii("text"), for texts of ASCII characters only"""
    toks = tokenize(body)
    for t in reversed(toks):
        if t.t.startswith('b"'):
            if re.search(r"\\x[89a-fA-F]", t.t) or not t.t.isascii(): raise Lost(f"{where}: byte string beyond ASCII")
            body = body[:t.s] + "ascii(" + t.t[1:] + ")" + body[t.e:]
            log.append(f"{where}: byte string written as the codes of its text")
    return body

def format_rewrites(body, where, log):
    """format!(..) and write!(f, ..) -> the same pieces put together by calls the verifier sees"""
    while True:
        toks = tokenize(body)
        for i in range(len(toks) - 2):
            if toks[i].k == "id" and toks[i].t in ("format", "write", "formatdoc") and toks[i + 1].t == "!" and toks[i + 2].t in OPEN:
                c = match_close(toks, i + 2)
                parts = split_args(toks, i + 3, c)
                sink = None
                if toks[i].t == "write":
                    if not parts: raise Lost(f"{where}: write!")
                    sink = body[toks[parts[0][0]].s:toks[parts[0][1] - 1].e]; parts = parts[1:]
                if not parts or parts[0][1] - parts[0][0] != 1 or not re.match(r'r?#*"', toks[parts[0][0]].t):
                    raise Lost(f"{where}: format string is no plain literal")
                lit = toks[parts[0][0]].t
                raw = re.match(r'r(#*)"', lit)
                if raw: lit = lit[raw.end():-1 - len(raw.group(1))]
                elif toks[i].t == "formatdoc": raise Lost(f"{where}: formatdoc! of a plain literal")
                else: lit = lit[1:-1]
                if toks[i].t == "formatdoc": lit = unindent(lit)
                if raw: lit = lit.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
                args, named = [], {}
                for (a, b) in parts[1:]:
                    if b - a > 2 and toks[a].k == "id" and toks[a + 1].t == "=":
                        named[toks[a].t] = body[toks[a + 2].s:toks[b - 1].e]
                    else:
                        args.append(body[toks[a].s:toks[b - 1].e])
                new = format_chain(lit, args, named, where)
                if i >= 2 and toks[i - 1].t == "::" and toks[i - 2].t == "indoc": toks[i].s = toks[i - 2].s
                if sink is not None: new = f"{sink}.put({new})"
                body = body[:toks[i].s] + new + body[toks[c].e:]
                log.append(f"{where}: {toks[i].t}! written as the concatenation of its pieces")
                break
        else:
            return body

def strmatch_rewrites(body, where, log):
    """`match s { "lit" => .., _ => .. }` -> a chain of ifs over str_eq"""
    while True:
        toks = tokenize(body)
        for i in range(len(toks) - 1):
            if toks[i].k != "id" or toks[i].t != "match": continue
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                j += 1
            c = match_close(toks, j)
            arms, k = [], j + 1
            while k < c:
                a = k
                while toks[k].t != "=>":
                    if toks[k].t in OPEN: k = match_close(toks, k)
                    k += 1
                pa = (a, k); k += 1
                b = k
                if toks[k].t == "{":
                    k = match_close(toks, k) + 1
                    if k < c and toks[k].t not in (",",) and False: pass
                    e = k
                else:
                    while k < c and toks[k].t != ",":
                        if toks[k].t in OPEN: k = match_close(toks, k)
                        k += 1
                    e = k
                if k < c and toks[k].t == ",": k += 1
                arms.append((pa, (b, e)))
            def is_lit(a, b):
                return all((toks[q].t.startswith('"') if (q - a) % 2 == 0 else toks[q].t == "|") for q in range(a, b)) and (b - a) % 2 == 1
            if not any(is_lit(*pa) for pa, _ in arms): continue
            out = "{ let m__ = " + body[toks[i + 1].s:toks[j - 1].e] + "; "
            closed = False
            for n, (pa, (b, e)) in enumerate(arms):
                text = body[toks[b].s:toks[e - 1].e]
                if closed: raise Lost(f"{where}: arm after a catch-all")
                if is_lit(*pa):
                    cond = " || ".join(f"str_eq(m__, {toks[q].t})" for q in range(pa[0], pa[1], 2))
                    out += f"if {cond} {{ {text} }} else "
                elif pa[1] - pa[0] == 1 and toks[pa[0]].k == "id":
                    nm = toks[pa[0]].t
                    out += "{ " + ("" if nm == "_" else f"let {nm} = m__; ") + text + " }"
                    closed = True
                else: raise Lost(f"{where}: match over text with another pattern")
            if not closed: raise Lost(f"{where}: match over text without a catch-all")
            body = body[:toks[i].s] + out + " }" + body[toks[c].e:]
            log.append(f"{where}: match over string literals written as comparisons")
            break
        else:
            return body

EXPR_PREFIX = {"(", ",", "=", "=>", "{", ";", "return", "move", "&&", "||", "[", ":", "?", "else", "in", "}", "&"}

def find_loops(toks):
    """[(kw_index, body_open, body_close)] in source order"""
    res = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("for", "while", "loop"):
            if t.t == "for" and i + 1 < len(toks) and toks[i + 1].t == "<": continue
            if t.t == "for" and i > 0 and toks[i-1].t not in ("{", "}", ";", ":", "=>", "(", ",", "="): continue
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                # match/if/unsafe blocks in a loop head are not supported
                j += 1
            res.append((i, j, match_close(toks, j)))
    return res

def for_to_while(body, k, where, log):
    """`for P in a..b {` becomes a cursor loop, `for P in vec {` a VecIter loop (the verifier's for
    loops have no `continue`); the body is kept"""
    toks = tokenize(body)
    L = find_loops(toks)
    if k > len(L): raise Lost(f"{where}: no loop {k}")
    kw, op, cp = L[k - 1]
    if toks[kw].t != "for": raise Lost(f"{where}: loop {k} is no for loop")
    j = kw + 1
    while toks[j].t != "in":
        if toks[j].t in OPEN: j = match_close(toks, j)
        j += 1
    pat = body[toks[kw + 1].s:toks[j - 1].e]
    r, q = None, j + 1
    while q < op:
        if toks[q].t in OPEN: q = match_close(toks, q)
        elif toks[q].t == "..": r = q
        q += 1
    if r is not None:
        lo = body[toks[j + 1].s:toks[r].s] ; hi = body[toks[r].e:toks[op].s]
        new = f"let mut cur{k}: usize = {lo}; let end{k}: usize = {hi}; while cur{k} < end{k} {{ let {pat} = cur{k}; cur{k} = cur{k} + 1;"
    else:
        ex = body[toks[j + 1].s:toks[op].s]
        new = f"let mut it{k} = vec_iter({ex}); while it{k}.more() {{ let {pat} = it{k}.take();"
    log.append(f"{where}: for loop {k} written as a while loop over the same values")
    return body[:toks[kw].s] + new + body[toks[op].e:]

def find_closures(toks):
    """[(start, params_open, params_close, body_start, body_end_excl, braced, ret_span)]"""
    res = []
    i = 0
    while i < len(toks):
        t = toks[i]
        prev = toks[i - 1] if i else None
        if t.k == "p" and t.t in ("|", "||") and (prev is None or (prev.t in EXPR_PREFIX)):
            if t.t == "||":
                pc = i
            else:
                j = i + 1
                while toks[j].t != "|":
                    if toks[j].t in OPEN: j = match_close(toks, j)
                    j += 1
                pc = j
            b = pc + 1
            ret = None
            if toks[b].t == "->":
                k = b
                while toks[k].t != "{": k += 1
                ret = (b, k); b = k
            if toks[b].t == "{" :
                e = match_close(toks, b) + 1
                # `|x| {..}.foo()` is not produced by rustfmt'd code
                braced = True
            else:
                e = b
                while e < len(toks) and toks[e].t not in (",", ";", ")", "]", "}"):
                    if toks[e].t in OPEN: e = match_close(toks, e)
                    e += 1
                braced = False
            res.append((i, i, pc, b, e, braced, ret))
            i = b
            continue
        i += 1
    return res

class FnParts:
    def __init__(self, src, it):
        toks = it.toks
        self.src = src
        j = it.s
        while toks[j].t != "fn": j += 1
        self.name = toks[j + 1].t
        p = j + 2
        if toks[p].t == "<": p = skip_generics(toks, p)
        assert toks[p].t == "("
        pc = match_close(toks, p)
        self.params = split_params(toks, p + 1, pc)
        self.sig = norm(toks[j:it.body[0]])
        self.param_names = []
        self.param_muts = set()
        for (a, b) in self.params:
            names = toks[a:b]
            txt = [t.t for t in names]
            if "self" in txt[:4] and ":" not in txt: self.param_names.append("self"); continue
            k = txt.index(":") if ":" in txt else len(txt)
            pat = [x for x in txt[:k] if x not in ("mut",)]
            if "mut" in txt[:k]: self.param_muts.add("".join(pat))
            self.param_names.append("".join(pat))
        self.body = src.text[toks[it.body[0]].e:toks[it.body[1]].s]
        self.ret = norm(toks[pc + 1:it.body[0]])
        lo = src.text.count("\n", 0, toks[it.s].s) + 1
        hi = src.text.count("\n", 0, toks[it.e - 1].e) + 1
        self.lines = (lo, hi)

class StaticParts:
    """a `static X: Lazy<T> = Lazy::new(|| ..)`: the initialiser closure is the body; any other
    const/static: its initialiser expression is the body"""
    def __init__(self, src, it):
        toks = it.toks
        self.src, self.name, self.params, self.param_names, self.param_muts, self.ret = src, it.name, [], [], set(), ""
        self.sig = norm(toks[it.s:it.s + 4])
        j = it.s
        while toks[j].t != "=": j += 1
        if toks[j + 1].t == "Lazy" and toks[j + 3].t == "new" and toks[j + 5].t == "||":
            c = match_close(toks, j + 4)
            a, b = j + 6, c
            if toks[a].t == "{" and match_close(toks, a) == b - 1: a, b = a + 1, b - 1
            if toks[b - 1].t == ",": b -= 1
        else:
            a, b = j + 1, it.e - 1
        self.body = src.text[toks[a].s:toks[b - 1].e]
        self.lines = (src.text.count("\n", 0, toks[it.s].s) + 1, src.text.count("\n", 0, toks[it.e - 1].e) + 1)

def split_params(toks, a, b):
    out, s, i, d = [], a, a, 0
    while i < b:
        t = toks[i].t
        if t in OPEN: i = match_close(toks, i)
        elif t == "<": d += 1
        elif t == ">": d -= 1
        elif t == "," and d <= 0:
            out.append((s, i)); s = i + 1
        i += 1
    if s < b: out.append((s, b))
    return out


# ---------------------------------------------------------------- template expansion

class Unit:
    """the Verus input generated from one contracts/*.vrs template and the current source"""
    def __init__(self, tpl, repo, vdir, vacuity=False):
        self.repo, self.vdir, self.tpl, self.vacuity = repo, vdir, tpl, vacuity
        self.out = []          # output lines
        self.log = []          # every rewrite applied
        self.fns = []          # dicts: name, file, lines, first/last output line
        self.expand(os.path.join(vdir, tpl))
        self.text = "\n".join(self.out) + "\n"

    def emit(self, text):
        self.out.extend(text.split("\n"))

    def src(self, rel):
        if rel.startswith("dep:"):
            import glob
            hits = sorted(glob.glob("/root/.cargo/registry/src/*/" + rel[4:]))
            if not hits: raise Lost(f"dependency source {rel} not found")
            return Source.get(hits[-1])
        if rel.startswith("peg:"):
            # a rust-peg grammar, written out as functions (tools/peg.py)
            path = os.path.join(self.repo, rel[4:])
            if rel + path not in Source.cache:
                import peg
                if not os.path.exists(path): raise Lost(f"no file {path}")
                Source.cache[rel + path] = Source(path, peg.rust_of(open(path, encoding="utf-8").read()))
            return Source.cache[rel + path]
        return Source.get(os.path.join(self.repo, rel))

    def expand(self, path):
        lines = open(path, encoding="utf-8").read().split("\n")
        i = 0
        while i < len(lines):
            L = lines[i]
            if L.startswith("@include "):
                self.expand(os.path.join(self.vdir, L.split(None, 1)[1].strip())); i += 1
            elif L.startswith("@fn "):
                i = self.do_fn(lines, i)
            elif L.startswith("@type ") or L.startswith("@const "):
                i = self.do_type(lines, i)
            elif L.startswith("@derived "):
                self.do_derived(L); i += 1
            elif L.startswith("@serde "):
                self.do_serde(L); i += 1
            elif L.startswith("@note "):
                i += 1
            elif L.startswith("@"):
                raise Exception(f"{path}:{i+1}: stray directive {L}")
            else:
                self.out.append(L); i += 1

    @staticmethod
    def blocks(lines, i, end):
        """directive blocks between lines[i+1] and the `end` line"""
        res, j = [], i + 1
        cur = None
        while lines[j].strip() != end:
            L = lines[j]
            if L.startswith("@"):
                cur = [L, []]; res.append(cur)
            elif cur is not None:
                cur[1].append(L)
            elif L.strip():
                raise Exception(f"text outside directive: {L}")
            j += 1
        return res, j + 1

    def do_type(self, lines, i):
        head = lines[i]
        const = head.startswith("@const ")
        rel, sel = [x.strip() for x in head.split(None, 1)[1].split("|")]
        single = sel.endswith(";")
        subs = []
        if single:
            sel = sel[:-1].strip(); nxt = i + 1
        else:
            bl, nxt = self.blocks(lines, i, "@end")
            subs = bl
        src = self.src(rel)
        it = src.find(sel)
        text = src.text[it.toks[it.s].s:it.toks[it.e - 1].e]
        toks = tokenize(text)
        # drop attributes on fields / variants
        while True:
            toks = tokenize(text)
            for k, t in enumerate(toks):
                if t.t == "#" and toks[k + 1].t == "[":
                    c = match_close(toks, k + 1)
                    self.log.append(f"{rel}:{it.name}: dropped attribute {norm(toks[k:c+1])}")
                    text = text[:t.s] + text[toks[c].e:]
                    break
            else:
                break
        pre = ""
        for (h, b) in subs:
            if h.startswith("@sub"):
                text = self.do_sub(h, text, f"{rel}:{it.name}")
            elif h.startswith("@prefix"):
                pre = "\n".join(b)
            elif h.startswith("@expect"):
                want = norm(tokenize("\n".join(b)))
                if norm(tokenize(text)) != want:
                    raise Lost(f"{rel}:{it.name}: definition is not the expected one")
            else:
                raise Exception(h)
        # specifications are written from outside: fields become public
        if it.kind == "struct":
            toks = tokenize(text)
            br = next((k for k, t in enumerate(toks) if t.t in ("{", ";", "(")), None)
            if br is not None and toks[br].t in ("{", "("):
                c = match_close(toks, br); k = br + 1; ins = []; d = 0
                start = True
                while k < c:
                    if start and toks[k].t != "pub": ins.append(toks[k].s)
                    start = False
                    if toks[k].t in OPEN: k = match_close(toks, k)
                    elif toks[k].t == "<": k = skip_generics(toks, k) - 1
                    if toks[k].t == ",": start = True
                    k += 1
                for x in reversed(ins): text = text[:x] + "pub " + text[x:]
            text = re.sub(r"\bpub\s*\(\s*(?:super|crate|self|in [\w:]+)\s*\)", "pub", text)
            if not text.lstrip().startswith("pub"): text = "pub " + text.lstrip()
        elif it.kind == "enum" and not text.lstrip().startswith("pub"): text = "pub " + text.lstrip()
        self.emit(pre + text)
        self.log.append(f"type/const {it.name} taken from {rel}, attributes dropped")
        return nxt

    def do_serde(self, L):
        """@serde file | type:X: what derive(Serialize, Deserialize) makes of X (tools/derived_json.py)"""
        import derived_json
        rel, sel = [x.strip() for x in L.split(None, 1)[1].split("|")]
        it = self.src(rel).find(sel)
        known = self.__dict__.setdefault("serde_known", {})
        d = derived_json.Derived(it, f"{rel}:{it.name}", known)
        text = d.text()
        known[it.name] = d
        toks = it.toks
        src = self.src(rel).text
        lo = src.count("\n", 0, toks[it.a].s) + 1
        hi = src.count("\n", 0, toks[it.e - 1].e) + 1
        first = len(self.out) + 1
        if self.vacuity: text = text.replace("proof fn back(m: Self::W) { ", "proof fn back(m: Self::W) {\nassert(false); // VACUITY-PROBE\n")
        self.emit(text)
        self.fns.append(dict(name=it.name, sel=f"derive(Serialize, Deserialize) of {it.name}", file=rel, lines=(lo, hi), first=first, last=len(self.out)))
        self.log.append(f"{rel}:{it.name}: what its derived Serialize and Deserialize do, written out from the definition and its attributes (lines {lo}-{hi})")

    def do_derived(self, L):
        """@derived file | type:X [Trait ..]: what the derived traits look at, as specification
        functions: same (PartialEq), hashed (Hash), rank (Ord)"""
        rel, rest = [x.strip() for x in L.split(None, 1)[1].split("|")]
        sel, *traits = rest.split()
        it = self.src(rel).find(sel)
        where = f"{rel}:{it.name}"
        if it.kind != "struct": raise Lost(f"{where}: not a struct")
        def derives(a, b):
            """names inside derive(..)/derivative(..) attributes of tokens a..b, with ignored ones"""
            got = {}
            k = a
            while k < b and it.toks[k].t == "#":
                c = match_close(it.toks, k + 1)
                tt = it.toks[k + 2:c]
                if tt[0].t in ("derive", "derivative"):
                    for arg in split_args(it.toks, k + 4, c - 1):
                        w = [x.t for x in it.toks[arg[0]:arg[1]]] if isinstance(arg, tuple) else [x.t for x in tokenize(arg)]
                        got["".join(w[:1])] = "".join(w[1:])
                elif tt[0].t != "doc": raise Lost(f"{where}: attribute {norm(tt)}")
                k = c + 1
            return got, k
        own, _ = derives(it.a, it.s)
        for t in traits:
            if own.get(t) != "": raise Lost(f"{where}: {t} is not derived as expected")
        k = it.s
        while it.toks[k].t not in ("{", "("): k += 1
        close = match_close(it.toks, k)
        named = it.toks[k].t == "{"
        k += 1
        fields = []
        while k < close:
            ign, k = derives(k, close)
            if it.toks[k].t == "pub":
                k += 1
                if it.toks[k].t == "(": k = match_close(it.toks, k) + 1
            nm = it.toks[k].t if named else str(len(fields))
            if any(v not in ('="ignore"',) for v in ign.values()): raise Lost(f"{where}: field attributes {ign}")
            fields.append((nm, set(ign)))
            while k < close and it.toks[k].t != ",":
                if it.toks[k].t == "<": k = skip_generics(it.toks, k) - 1
                elif it.toks[k].t in OPEN: k = match_close(it.toks, k)
                k += 1
            k += 1
        if "PartialOrd" in traits and [g for g in fields if ("Ord" in g[1]) != ("PartialOrd" in g[1])]: raise Lost(f"{where}: Ord and PartialOrd look at different fields")
        SPEC = {"PartialEq": "same", "Hash": "hashed", "Ord": "rank"}
        out = [f"impl Derived for {it.name} {{"]
        for t, fn in SPEC.items():
            if t not in traits: body = "arbitrary()"
            elif t == "PartialEq": body = " && ".join(f"self.{f}.same(&o.{f})" for f, g in fields if t not in g) or "true"
            else: body = " + ".join(f"self.{f}.{fn}()" for f, g in fields if t not in g) or "seq![]"
            out.append(f"    open spec fn {fn}(&self{', o: &Self' if fn == 'same' else ''}) -> {'bool' if fn == 'same' else 'Seq<Seq<char>>'} {{ {body} }}")
        out.append("}")
        self.emit("\n".join(out))
        self.log.append(f"{where}: derived {' '.join(traits)} taken from the attributes")

    def do_sub(self, h, text, where):
        m = re.match(r"@sub(\?)?\s+`([^`]*)`\s*=>\s*`([^`]*)`\s*$", h)
        if not m: raise Exception("bad sub: " + h)
        new, n = sub_text(text, m.group(2), m.group(3))
        if n == 0 and not m.group(1):
            raise Lost(f"{where}: nothing matches `{m.group(2)}`")
        if n: self.log.append(f"{where}: {n}x `{m.group(2)}` => `{m.group(3)}`")
        return new

    def do_fn(self, lines, i):
        rel, sel = [x.strip() for x in lines[i].split(None, 1)[1].split("|")]
        bl, nxt = self.blocks(lines, i, "@endfn")
        src = self.src(rel)
        it = src.find(sel)
        where = f"{rel}:{sel}"
        fp = StaticParts(src, it) if it.kind in ("static", "const") else FnParts(src, it)
        body = fp.body
        sig, loops, closures, ats, nested = None, {}, {}, [], []
        loopcheck = True
        params = None
        for (h, b) in bl:
            w = h.split(None, 1)
            arg = w[1] if len(w) > 1 else ""
            txt = "\n".join(b)
            if w[0] == "@sig": sig = arg + "\n" + txt
            elif w[0] == "@params": params = arg.split()
            elif w[0] == "@ret":
                if norm(tokenize(arg)) != fp.ret: raise Lost(f"{where}: return type is {fp.ret}")
            elif w[0] == "@real":
                if norm(tokenize(arg + txt)) != fp.sig: raise Lost(f"{where}: signature is {fp.sig}")
            elif w[0] == "@hoist":   # nested fn is dropped from the body (extracted elsewhere)
                nested.append(arg.strip())
            elif w[0] == "@loops": loopcheck = arg.strip() != "any"
            elif w[0] in ("@sub", "@sub?", "@loop", "@closure", "@at", "@forwhile", "@format", "@strmatch", "@bytes"): pass
            elif w[0] == "@inline": body = inline_closure(body, arg.strip(), where, self.log)
            elif w[0] == "@pin":
                h_ = hashlib.sha256(norm(tokenize(body)).encode()).hexdigest()[:12]
                if h_ != arg.strip(): raise Lost(f"{where}: text is not the one the contract describes ({h_})")
            else: raise Exception(f"{self.tpl}: unknown directive {h}")
        for nm in nested:
            toks = tokenize(body)
            for k, t in enumerate(toks):
                if t.t == "fn" and toks[k + 1].t == nm:
                    p = k + 2
                    while toks[p].t != "{":
                        if toks[p].t in ("(", "["): p = match_close(toks, p)
                        p += 1
                    body = body[:t.s] + body[toks[match_close(toks, p)].e:]
                    self.log.append(f"{where}: nested fn {nm} hoisted")
                    break
            else:
                raise Lost(f"{where}: no nested fn {nm}")
        l2 = []
        body = std_rewrites(body, l2)
        self.log += [f"{where}: {x}" for x in l2]
        if any(h.strip() == "@bytes" for h, _ in bl): body = bytes_rewrites(body, where, self.log)
        for (h, b) in bl:
            if h.startswith("@sub"):
                body = self.do_sub(h, body, where)
        if any(h.strip() == "@strmatch" for h, _ in bl): body = strmatch_rewrites(body, where, self.log)
        if any(h.strip() == "@format" for h, _ in bl): body = format_rewrites(body, where, self.log)
        for (h, b) in bl:
            if h.startswith("@forwhile"):
                body = for_to_while(body, int(h.split()[1]), where, self.log)
        # injections, collected as (pos, order, text)
        toks = tokenize(body)
        L = find_loops(toks)
        C = find_closures(toks)
        nl = sum(1 for h, _ in bl if h.startswith("@loop") and not h.startswith("@loops"))
        if loopcheck and nl != len(L):
            raise Lost(f"{where}: {len(L)} loops, contract knows {nl}")
        cl = [int(h.split()[1]) for h, _ in bl if h.startswith("@closure")]
        if cl and max(cl) > len(C):
            raise Lost(f"{where}: {len(C)} closures, contract knows {max(cl)}")
        ins = []
        for (h, b) in bl:
            w = h.split(None, 2)
            txt = "\n".join(b)
            if w[0] == "@loop":
                k = int(w[1])
                kw, op, cp = L[k - 1]
                ins.append((toks[op].s, 0, "\n" + txt + "\n"))
                if len(w) > 2 and w[2].startswith("iter="):
                    # `for p in e` -> `for p in it: e`
                    name = w[2][5:].strip()
                    if toks[kw].t != "for": raise Lost(f"{where}: loop {k} is no for loop")
                    j = kw + 1
                    while toks[j].t != "in":
                        if toks[j].t in OPEN: j = match_close(toks, j)
                        j += 1
                    ins.append((toks[j].e, 0, f" {name}: "))
            elif w[0] == "@closure":
                k = int(w[1])
                s, po, pc, bs, be, braced, ret = C[k - 1]
                # replace header by given text; body kept
                ins.append((toks[s].s, 0, ("REPL", toks[pc].e if ret is None else toks[ret[1]-1].e, (w[2] if len(w) > 2 else "") + "\n" + txt + "\n" + ("" if braced else "{ "))))
                if not braced: ins.append((toks[be - 1].e, 9, " }"))
            elif w[0] == "@at":
                m = re.match(r"@at\s+(start|end|loop\s+\d+\s+(?:start|end|before|after)|(?:before|after)\s+`[^`]*`)\s*$", h)
                if not m: raise Exception("bad at: " + h)
                a = m.group(1)
                if a == "start": ins.append((0, 1, "\n" + txt + "\n"))
                elif a == "end": ins.append((len(body), 1, "\n" + txt + "\n"))
                elif a.startswith("loop"):
                    _, k, pos = a.split()
                    kw, op, cp = L[int(k) - 1]
                    p = {"start": toks[op].e, "end": toks[cp].s, "before": toks[kw].s, "after": toks[cp].e}[pos]
                    ins.append((p, 1, "\n" + txt + "\n"))
                else:
                    pos, pat = a.split(None, 1)
                    pt = compile_pat(pat.strip("`"))
                    hits = []
                    for q in range(len(toks)):
                        r = _mp(pt, toks, q, {})
                        if r is not None: hits.append((q, r[0]))
                    if len(hits) != 1: raise Lost(f"{where}: {len(hits)} matches for {pat}")
                    q, e = hits[0]
                    ins.append((toks[q].s if pos == "before" else toks[e - 1].e, 1, "\n" + txt + "\n"))
        body2 = body
        for (pos, order, t) in sorted(ins, key=lambda x: (-x[0], -x[1])):
            if isinstance(t, tuple):
                _, e, tt = t
                body2 = body2[:pos] + tt + body2[e:]
            else:
                body2 = body2[:pos] + t + body2[pos:]
        if sig is None: raise Exception(f"{where}: no @sig")
        alias = ""
        if params is None and fp.param_muts: params = fp.param_names
        if params is not None:
            if "self" not in params and fp.param_names[:1] == ["self"]: params = ["self"] + params
            if len(params) != len(fp.param_names): raise Lost(f"{where}: {len(fp.param_names)} parameters")
            for mine, real in zip(params, fp.param_names):
                if real in fp.param_muts and mine != "_":
                    alias += f"let mut {real} = {mine};\n"
                elif mine != real and mine != "_":
                    if not re.match(r"^[a-z_A-Z0-9]+$", real): raise Lost(f"{where}: parameter pattern {real}")
                    alias += f"let {real} = {mine};\n"
        first = len(self.out) + 1
        self.emit(sig.rstrip() + "\n{")
        if self.vacuity: self.emit("assert(false); // VACUITY-PROBE")
        self.emit(alias + body2 + "\n}")
        self.fns.append(dict(name=fp.name, sel=sel, file=rel, lines=fp.lines, first=first, last=len(self.out)))
        self.log.append(f"{where}: body lines {fp.lines[0]}-{fp.lines[1]} under contract")
        return nxt
