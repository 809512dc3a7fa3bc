"""The meaning of serde's derive(Serialize, Deserialize), written out mechanically from a type's
definition and its attributes: what it is written as (w), what it is read from (r), and the
obligation that reading gives back what was written (back). Used by the directive

    @serde file | type:X

of contracts/*.vrs. A type of the real code becomes an `impl Js for X` over the model type XW,
which has the same fields, each with the model of its own type. The attributes understood are
listed in the functions below; any other makes the extraction fail rather than be ignored."""
import re
from rsx import Lost, OPEN, match_close, norm, skip_generics, split_args, tokenize

RENAME = {
    "kebab-case": lambda s: s.replace("_", "-"),
    "snake_case": lambda s: s,
    "lowercase": lambda s: s,
    "UPPERCASE": lambda s: s.upper(),
    "SCREAMING_SNAKE_CASE": lambda s: s.upper(),
    "SCREAMING-KEBAB-CASE": lambda s: s.upper().replace("_", "-"),
    "camelCase": lambda s: (lambda p: p[:1].lower() + p[1:])("".join(w[:1].upper() + w[1:] for w in s.split("_"))),
    "PascalCase": lambda s: "".join(w[:1].upper() + w[1:] for w in s.split("_")),
}

def attrs(toks, k, end, where):
    """attributes from token k: (derived names, serde arguments, index after them)"""
    derives, serde = [], {}
    while k < end and toks[k].t == "#":
        c = match_close(toks, k + 1)
        tt = toks[k + 2:c]
        if tt[0].t == "derive":
            derives += ["".join(x for x in a.split()).split("::")[-1] for a in arguments(toks, k + 4, c - 1)]
        elif tt[0].t == "serde":
            for a in arguments(toks, k + 4, c - 1):
                n, eq, v = a.partition("=")
                n, v = n.strip(), v.strip()
                if eq and not (v.startswith('"') and v.endswith('"')): raise Lost(f"{where}: serde({a})")
                if n in serde: raise Lost(f"{where}: serde({n}) twice")
                serde[n] = v[1:-1] if eq else True
        elif tt[0].t not in ("doc", "derivative", "cfg_attr", "allow"): raise Lost(f"{where}: attribute {norm(tt)}")
        k = c + 1
    return derives, serde, k

def arguments(toks, a, b):
    out = []
    for x in split_args(toks, a, b):
        out.append(norm(toks[x[0]:x[1]]) if isinstance(x, tuple) else x.strip())
    return [x for x in out if x]

def type_text(toks, a, b):
    """a field's type as the model names it"""
    t = "".join(x.t for x in toks[a:b])
    t = re.sub(r"^&'\w+str$|^&str$", "Borrowed", t)
    t = re.sub(r"^(?:std::borrow::)?Cow<'\w+,str>$", "String", t)
    if "&" in t or "'" in t: raise Lost(f"type {t}")
    return t.replace(",", ", ")

def fields(it, k, close, named, where):
    toks, out = it.toks, []
    while k < close:
        _, serde, k = attrs(toks, k, close, where)
        if toks[k].t == "pub":
            k += 1
            if toks[k].t == "(": k = match_close(toks, k) + 1
        if named:
            nm = toks[k].t; k += 2
        else: nm = str(len(out))
        a = k
        while k < close and toks[k].t != ",":
            if toks[k].t == "<": k = skip_generics(toks, k) - 1
            elif toks[k].t in OPEN: k = match_close(toks, k)
            k += 1
        out.append((nm, type_text(toks, a, k), serde))
        k += 1
    return out

def differ(a, b):
    if len(a) != len(b): return f'assert("{a}"@.len() != "{b}"@.len());'
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return f'assert("{a}"@[{i}] != "{b}"@[{i}]);'
    return ""           # written twice under one name: the proof is left to fail

class Derived:
    def __init__(self, it, where, known):
        self.it, self.where, self.known = it, where, known
        self.derives, self.serde, _ = attrs(it.toks, it.a, it.s, where)
        self.name = it.name
        self.keys = None       # names in the object, for whoever flattens it

    def text(self):
        d, s = self.derives, self.serde
        disp, from_str = "SerializeDisplay" in d, "DeserializeFromStr" in d
        if disp and "Serialize" in d or from_str and "Deserialize" in d: raise Lost(f"{self.where}: derived twice")
        if disp and from_str:
            if s: raise Lost(f"{self.where}: serde({s})")
            return self.impl(f"<{self.name} as AsText>::W", f"J::Str(<{self.name} as AsText>::print(m))", f"match j {{ J::Str(s) => <{self.name} as AsText>::read(s), _ => None }}",
                             f"<{self.name} as AsText>::fit(m)", f"<{self.name} as AsText>::again(m);")
        if from_str and "Serialize" not in d:
            # written by an `impl Serialize` in the source, under contract in the template
            return self.impl(f"<{self.name} as AsText>::W", f"w_{self.name}(m)", f"match j {{ J::Str(s) => <{self.name} as AsText>::read(s), _ => None }}",
                             f"<{self.name} as AsText>::fit(m)", f"<{self.name} as AsText>::again(m);")
        if "Serialize" not in d or "Deserialize" not in d: raise Lost(f"{self.where}: derives {d}")
        return self.conversion() if {"try_from", "from", "into"} & set(s) else self.record() if self.it.kind == "struct" else self.choice()

    def impl(self, W, w, r, fit, back):
        return "\n".join([f"impl Js for {self.name} {{", f"    type W = {W};", f"    open spec fn w(m: Self::W) -> J {{ {w} }}", f"    open spec fn r(j: J) -> Option<Self::W> {{ {r} }}",
                          f"    open spec fn fit(m: Self::W) -> bool {{ {fit} }}", f"    proof fn back(m: Self::W) {{ {back} }}", "}"])

    def conversion(self):
        """serde(try_from / from = "H", into = "H"): by way of another type"""
        s = dict(self.serde)
        src = s.pop("try_from", None) or s.pop("from", None); dst = s.pop("into", None)
        if s or not src or not dst: raise Lost(f"{self.where}: serde({self.serde})")
        src, dst = [re.sub(r"<.*", "", x.replace(" ", "")) for x in (src, dst)]
        n = self.name
        return self.impl(f"{n}W", f"<{dst} as Js>::w(into_{n}(m))", f"match <{src} as Js>::r(j) {{ Some(h) => of_{n}(h), None => None }}", f"fit_{n}(m)",
                         f"lemma_{n}(m); <{dst} as Js>::back(into_{n}(m));")

    def record(self):
        it, s = self.it, dict(self.serde)
        n, toks, where = self.name, it.toks, self.where
        k = it.s
        while toks[k].t not in ("{", "(", ";"): k += 1
        rename = s.pop("rename_all", None); s.pop("transparent", None)
        if s: raise Lost(f"{where}: serde({s})")
        if rename is not None and rename not in RENAME: raise Lost(f"{where}: rename_all {rename}")
        if toks[k].t == ";": raise Lost(f"{where}: no fields")
        named = toks[k].t == "{"
        fs = fields(it, k + 1, match_close(toks, k), named, where)
        if not named:
            if len(fs) != 1 or fs[0][2]: raise Lost(f"{where}: a tuple")
            t = fs[0][1]
            return self.impl(f"<{t} as Js>::W", f"<{t} as Js>::w(m)", f"<{t} as Js>::r(j)", f"<{t} as Js>::fit(m)", f"<{t} as Js>::back(m);")
        rows, flat = [], None
        for f, t, a in fs:
            a = dict(a)
            row = dict(f=f, t=t, key=a.pop("rename", None) or (RENAME[rename](f) if rename else f), default=a.pop("default", False), skip=a.pop("skip_serializing_if", None), sw=a.pop("serialize_with", None), flatten=a.pop("flatten", False))
            if a.pop("skip", False): row["never"] = row["unread"] = True
            if a.pop("skip_serializing", False): row["never"] = True
            if a.pop("skip_deserializing", False): row["unread"] = True
            row["aliases"] = [a.pop("alias")] if "alias" in a else []
            if a or row["default"] not in (False, True): raise Lost(f"{where}.{f}: serde({a} {row['default']})")
            if row["flatten"]:
                if flat or row["default"] or row["skip"] or row["sw"] or row.get("never") or row.get("unread") or t not in self.known or self.known[t].keys is None: raise Lost(f"{where}.{f}: flatten")
                flat = row
            rows.append(row)
        own = [r for r in rows if not r["flatten"]]
        self.keys = [x for r in own for x in [r["key"]] + r["aliases"]] + (self.known[flat["t"]].keys if flat else [])
        # writing
        w = "let o = nothing_yet(); "
        for r in rows:
            v = f"w_{r['sw'].split('::')[-1]}(m.{r['f']})" if r["sw"] else f"<{r['t']} as Js>::w(m.{r['f']})"
            if r["flatten"]: w += f"let o = o.merge(members({v})); "
            elif r.get("never"): continue
            else:
                put = f"o.put(\"{r['key']}\"@, {v})"
                w += f"let o = if {'skips_' + r['skip'].split('::')[-1]}(m.{r['f']}) {{ o }} else {{ {put} }}; " if r["skip"] else f"let o = {put}; "
        w += "J::Obj(o)"
        # reading
        known = "".join(f".insert(\"{x}\"@)" for r in own for x in [r["key"]] + r["aliases"])
        r_ = f"Some({n}W {{ " + ", ".join(f"{r['f']}: f_{r['f']}" for r in rows) + " })"
        for r in reversed(rows):
            if r["flatten"]: get = f"<{r['t']} as Js>::r(J::Obj(o.rest(Set::empty(){known})))"
            elif r.get("unread"): get = f"Some(<{r['t']} as Dflt>::dflt())"
            else:
                get = (f"or_default" if r["default"] else "need") + f"::<{r['t']}>(o, \"{r['key']}\"@)"
                for al in r["aliases"]: get = f"(if o.m.contains_key(\"{al}\"@) {{ need::<{r['t']}>(o, \"{al}\"@) }} else {{ {get} }})"
            r_ = f"match {get} {{ None => None, Some(f_{r['f']}) => {r_} }}"
        r_ = f"match j {{ J::Obj(o) => if o.twice {{ None }} else {{ {r_} }}, _ => None }}"
        fit = " && ".join(f"<{r['t']} as Js>::fit(m.{r['f']})" for r in rows)
        names = sorted(set(self.keys))
        b = " ".join(f'reveal_strlit("{x}");' for x in names) + " "
        b += " ".join(differ(x, y) for i, x in enumerate(names) for y in names[i + 1:]) + " "
        for r in rows:
            b += f"<{r['t']} as Js>::back(m.{r['f']}); "
            if r["skip"]: b += f"lemma_skips_{r['skip'].split('::')[-1]}(m.{r['f']}); "
            if r["sw"]: b += f"lemma_{r['sw'].split('::')[-1]}(m.{r['f']}); "
        if flat: b += f"let o = members(Self::w(m)); let i = members(<{flat['t']} as Js>::w(m.{flat['f']})); assert(o.rest(Set::empty(){known}).m =~= i.m); assert(o.twice == i.twice); "
        model = f"pub struct {n}W {{ " + ", ".join(f"pub {r['f']}: <{r['t']} as Js>::W" for r in rows) + " }\n"
        return model + self.impl(f"{n}W", w, r_, fit, b)

    def choice(self):
        """an untagged enum of variants with one value each: the first that can be read"""
        it, n, where = self.it, self.name, self.where
        if self.serde != {"untagged": True}: raise Lost(f"{where}: serde({self.serde})")
        toks = it.toks
        k, close = it.body[0] + 1, it.body[1]
        vs = []
        while k < close:
            _, a, k = attrs(toks, k, close, where)
            v = toks[k].t
            if a or toks[k + 1].t != "(": raise Lost(f"{where}::{v}")
            c = match_close(toks, k + 1)
            fs = fields(it, k + 2, c, False, where)
            if len(fs) != 1 or fs[0][2]: raise Lost(f"{where}::{v}: a tuple")
            vs.append((v, fs[0][1])); k = c + 1
            if k < close and toks[k].t == ",": k += 1
        model = f"pub enum {n}W {{ " + ", ".join(f"{v}(<{t} as Js>::W)" for v, t in vs) + " }\n"
        arms = lambda g: "match m { " + ", ".join(f"{n}W::{v}(x) => {g(v, t)}" for v, t in vs) + " }"
        r = "None"
        for v, t in reversed(vs): r = f"match <{t} as Js>::r(j) {{ Option::Some(x) => Option::Some({n}W::{v}(x)), Option::None => {r} }}"
        return model + self.impl(f"{n}W", arms(lambda v, t: f"<{t} as Js>::w(x)"), r, arms(lambda v, t: f"<{t} as Js>::fit(x)"), arms(lambda v, t: f"{{ <{t} as Js>::back(x); }}"))
