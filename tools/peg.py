"""A rust-peg grammar as ordinary functions, one per rule.

The grammar is the code of /repo; what a rule does is fixed by peg's documentation: alternatives
are tried in order and the first that matches is taken, sequences one after the other, repetition
takes as much as it can, `$(..)` is the text matched, an action block computes the value, `{? ..}`
computes a value or makes the alternative fail.  Dropped: the bookkeeping of where and what was
expected (`quiet!`, `expected!`), which only shapes the error message.  Positions count characters
instead of bytes.

    rule r(x: T) -> V = a:f() "lit" b:g(x)? { code } / h()
becomes
    fn rule_r(input, pos, x) -> Option<(V, usize)> { match { match f(input, pos) { .. } } { .. } }
"""
from rsx import Lost, Tok, tokenize, match_close, split_params, OPEN

class Gen:
    def __init__(self, text, toks, a, b):
        self.text, self.toks = text, toks
        self.rules = {}      # name -> (params [(name, type)], type, expr)
        self.extra = []      # functions for {? ..}
        i = a
        while i < b:
            if toks[i].t == "pub": i += 1
            if toks[i].t != "rule": raise Lost(f"grammar: unexpected {toks[i].t!r}")
            name = toks[i + 1].t
            i += 2
            if toks[i].t != "(": raise Lost("grammar: rule without parameter list")
            c = match_close(toks, i)
            params = []
            for (x, y) in split_params(toks, i + 1, c):
                k = next((q for q in range(x, y) if toks[q].t == ":"), None)
                if k is None: raise Lost("grammar: rule parameter")
                params.append((toks[x].t, self.src(k + 1, y)))
            i = c + 1
            ty = "()"
            if toks[i].t == "->":
                j = i + 1
                while toks[j].t != "=":
                    if toks[j].t in OPEN: j = match_close(toks, j)
                    j += 1
                ty = self.src(i + 1, j); i = j
            if toks[i].t != "=": raise Lost("grammar: rule without body")
            self.i, self.end = i + 1, b
            e = self.choice()
            if name in self.rules: raise Lost(f"grammar: two rules {name}")
            self.rules[name] = (params, ty, e)
            i = self.i
    def src(self, a, b): return self.text[self.toks[a].s:self.toks[b - 1].e]
    def t(self, d=0): return self.toks[self.i + d].t if self.i + d < self.end else ""
    # ---- grammar
    def choice(self):
        alts = [self.seq()]
        while self.t() == "/": self.i += 1; alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("choice", alts)
    def stop(self):
        t = self.t()
        return self.i >= self.end or t in ("/", ")", "}", "") or t == "rule" or (t == "pub" and self.t(1) == "rule")
    def seq(self):
        els, act = [], None
        while not self.stop():
            if self.t() == "{":
                c = match_close(self.toks, self.i)
                a = self.i + 1
                cond = self.toks[a].t == "?"
                act = (cond, self.src(a + 1, c) if cond else self.src(a, c) if a < c else "()")
                self.i = c + 1
                break
            label = None
            if self.toks[self.i].k == "id" and self.t(1) == ":" : label = self.t(); self.i += 2
            els.append((label, self.suffix()))
        if act is None and len(els) == 1 and els[0][0] is None: return els[0][1]
        return ("seq", els, act)
    def suffix(self):
        e = self.atom()
        t = self.t()
        if t in ("*", "+") and self.t(1) == t and self.toks[self.i].e == self.toks[self.i + 1].s:
            self.i += 2
            return ("sep", e, self.atom(), t == "+")
        if t in ("*", "+", "?"):
            self.i += 1
            if self.t() in ("*", "+", "?", "<"): raise Lost("grammar: repetition")
            return ("opt", e) if t == "?" else ("rep", e, t == "+")
        return e
    def atom(self):
        tok = self.toks[self.i]
        if tok.k == "str": self.i += 1; return ("lit", tok.t)
        if tok.t == "$":
            self.i += 1
            return ("slice", self.atom())
        if tok.t == "(":
            c = match_close(self.toks, self.i)
            self.i += 1
            e = self.choice()
            if self.i != c: raise Lost("grammar: parentheses")
            self.i = c + 1
            return e
        if tok.t == "[":
            c = match_close(self.toks, self.i)
            conds, j = [], self.i + 1
            neg = self.toks[j].t == "^"
            if neg: j += 1
            if self.toks[j].t == "_" and j + 1 == c:
                self.i = c + 1
                return ("class", "false" if neg else "true")
            while j < c:
                if self.toks[j].k != "char": raise Lost("grammar: character class")
                if self.toks[j + 1].t == "..=":
                    conds.append(f"({self.toks[j].t} <= c && c <= {self.toks[j + 2].t})"); j += 3
                else: conds.append(f"c == {self.toks[j].t}"); j += 1
                if j < c:
                    if self.toks[j].t != "|": raise Lost("grammar: character class")
                    j += 1
            self.i = c + 1
            r = " || ".join(conds)
            return ("class", f"!({r})" if neg else r)
        if tok.t in ("&", "!"):
            self.i += 1
            return ("look", self.atom(), tok.t == "&")
        if tok.t == "_" and tok.k == "id" and self.t(1) != "(": self.i += 1; return ("call", "_", [])
        if tok.k == "id" and self.t(1) == "!" and self.t(2) in OPEN:
            c = match_close(self.toks, self.i + 2)
            if tok.t == "expected": self.i = c + 1; return ("fail",)
            if tok.t == "quiet":
                self.i += 3
                e = self.choice()
                if self.i != c: raise Lost("grammar: quiet")
                self.i = c + 1
                return e
            raise Lost(f"grammar: {tok.t}!")
        if tok.k == "id" and self.t(1) == "(":
            c = match_close(self.toks, self.i + 1)
            args = [self.src(a, b) for a, b in split_params(self.toks, self.i + 2, c)]
            self.i = c + 1
            return ("call", tok.t, args)
        raise Lost(f"grammar: {tok.t!r}")
    # ---- functions
    def fresh(self): self.n += 1; return str(self.n)
    def type_of(self, e):
        k = e[0]
        if k == "slice": return "&str"
        if k == "call": return self.rules[e[1]][1].replace("'input ", "") if e[1] in self.rules else "()"
        if k == "class": return "char"
        if k == "choice": return self.type_of(e[1][0])
        if k == "opt": return f"Option<{self.type_of(e[1])}>"
        if k in ("rep", "sep"): return f"Vec<{self.type_of(e[1])}>"
        if k == "seq" and e[2] is None and len(e[1]) == 1: return self.type_of(e[1][0][1])
        if k == "seq" and e[2] and not e[2][0]:
            for l, x in e[1]:
                if l == e[2][1].strip(): return self.type_of(x)
        return "_"
    def gen(self, e, p, want):
        k = e[0]
        if k == "lit": return f"lit(input, {p}, {e[1]})"
        if k == "fail": return "no_match()"
        if k == "class":
            v = "c" if want else "()"
            return f"match input.at({p}) {{ Some(c) => if {e[1]} {{ Some(({v}, {p} + 1)) }} else {{ None }}, None => None }}"
        if k == "call":
            if e[1] not in self.rules: raise Lost(f"grammar: no rule {e[1]}")
            args = ["input", p] + e[2]
            name = e[1]
            c = f"rule_{name}({', '.join(args)})"
            return c if want or self.rules[e[1]][1] == "()" else f"match {c} {{ Some((_, p__)) => Some(((), p__)), None => None }}"
        if k == "slice":
            return f"match {self.gen(e[1], p, False)} {{ Some((_, p__)) => Some((input.slice({p}, p__), p__)), None => None }}" if want else self.gen(e[1], p, False)
        if k == "choice":
            r = self.gen(e[1][-1], p, want)
            for a in reversed(e[1][:-1]):
                r = f"match {self.gen(a, p, want)} {{ Some(v__) => Some(v__), None => {r} }}"
            return r
        if k == "opt":
            return f"match {self.gen(e[1], p, want)} {{ Some((v__, p__)) => Some(({'Some(v__)' if want else '()'}, p__)), None => Some(({'None' if want else '()'}, {p})) }}"
        if k == "look":
            y, n = (f"Some(((), {p}))", "None")
            return f"match {self.gen(e[1], p, False)} {{ Some(_) => {y if e[2] else n}, None => {n if e[2] else y} }}"
        if k == "rep" or k == "sep":
            self.loops += 1
            m = self.loops
            q, more, vs, v = f"q{m}", f"more{m}", f"vs{m}", f"v{m}__"
            push = f"{vs}.push({v}); " if want else ""
            new = f"let mut {vs}: Vec<{self.type_of(e[1])}> = Vec::new(); " if want else ""
            one = lambda at: self.gen(e[1], at, want)
            if k == "rep": step = f"match {one(q)} {{ Some(({v if want else '_'}, p__)) => {{ {push}{q} = p__; }} None => {{ {more} = false; }} }}"
            else: step = f"match {self.gen(e[2], q, False)} {{ Some((_, s__)) => match {one('s__')} {{ Some(({v if want else '_'}, p__)) => {{ {push}{q} = p__; }} None => {{ {more} = false; }} }}, None => {{ {more} = false; }} }}"
            loop = f"while {more} {{ {step} }}"
            res = f"Some(({vs if want else '()'}, {q}))"
            first_needed = (k == "rep" and e[2]) or k == "sep"
            if not first_needed: return f"{{ {new}let mut {q} = {p}; let mut {more} = true; {loop} {res} }}"
            none = "None" if e[-1] else f"Some(({'Vec::new()' if want else '()'}, {p}))"
            return f"match {one(p)} {{ Some(({v if want else '_'}, p__)) => {{ {new}{push}let mut {q} = p__; let mut {more} = true; {loop} {res} }} None => {none} }}"
        if k == "seq":
            els, act = e[1], e[2]
            if act is None and want and len(els) == 1: return self.gen(els[0][1], p, True)
            names = [l for l, _ in els if l]
            m = self.fresh()
            ps = [p] + [f"p{m}_{j + 1}" for j in range(len(els))]
            if act is None: inner = f"Some(((), {ps[-1]}))"
            elif not act[0]: inner = f"Some(({{ {act[1]} }}, {ps[-1]}))"
            else:
                if e is not self.top and not (self.top[0] == "choice" and any(x is e for x in self.top[1])): raise Lost("grammar: a conditional action inside a rule")
                code = tokenize(act[1])
                params = [q for q in self.params if any(x.t == q[0] for x in code)]
                used = [(l, x) for l, x in els if l and any(y.t == l for y in code)]
                fn = f"rule_{self.name}_check{len([1 for x in self.extra if x[0] == self.name]) + 1}"
                sig = ", ".join([f"{l}: {self.type_of(x)}" for l, x in used] + [f"{a}: {b}" for a, b in params])
                self.extra.append((self.name, f"fn {fn}({sig}) -> Result<{self.rules[self.name][1]}, &'static str> {{ {act[1]} }}"))
                inner = f"match {fn}({', '.join([l for l, _ in used] + [a for a, _ in params])}) {{ Ok(v__) => Some((v__, {ps[-1]})), Err(_) => None }}"
            r = inner
            for j in range(len(els) - 1, -1, -1):
                l, x = els[j]
                r = f"match {self.gen(x, ps[j], bool(l))} {{ Some(({l or '_'}, {ps[j + 1]})) => {r}, None => None }}"
            return r
        raise Lost("grammar: " + k)
    def rust(self):
        out = []
        for name, (params, ty, e) in self.rules.items():
            self.n, self.loops, self.name, self.params, self.top = 0, 0, name, params, e
            body = self.gen(e, "pos", ty != "()")
            ps = "".join(f", {a}: {b}" for a, b in params)
            out.append(f"fn rule_{name}<'input>(input: &'input Text, pos: usize{ps}) -> Option<({ty}, usize)> {{\n{body}\n}}\n")
        return "\n".join(out + [f for _, f in self.extra])

def rust_of(text):
    toks = tokenize(text)
    for i in range(len(toks) - 8):
        if toks[i].t == "peg" and toks[i + 1].t == "::" and toks[i + 2].t == "parser" and toks[i + 3].t == "!":
            c = match_close(toks, i + 4)
            j = i + 5
            if toks[j].t == "pub": j += 1
            if [x.t for x in toks[j:j + 2]][:1] != ["grammar"]: raise Lost("no grammar")
            while toks[j].t != "{": j += 1
            d = match_close(toks, j)
            return Gen(text, toks, j + 1, d).rust()
    raise Lost("no grammar")
