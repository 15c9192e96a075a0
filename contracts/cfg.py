"""What the grammars handed to Lark accept, from the rules and terminals of the parser objects the code builds: for every kind of
tree, the regular language of its children."""
from pyvc import regex
from pyvc.values import Unsupported

BASE = 0x20000      # letters: symbols of the grammar


class Letters:
    def __init__(self):
        self.at, self.names = {}, []

    def __getitem__(self, x):
        if x not in self.at:
            self.at[x] = BASE + len(self.names)
            self.names.append(x)
        return ("cls", ((self.at[x], self.at[x]),))

    def name(self, w):
        return " ".join(str(self.names[ord(c) - BASE]) for c in w)


def terminals(lk, known):
    """name of every terminal -> what it is: by a function of its language, or the name of the known language it has"""
    out = {}
    for t in lk.terminals:
        l = regex.lang(t.pattern.to_regexp())
        if callable(known):
            out[t.name] = known(t.name, l)
            continue
        for n, r in known.items():
            if regex.difference(l, r) is None:
                out[t.name] = n
                break
        else:
            out[t.name] = ("terminal", t.name)
    return out


class Grammar:
    """trees: kind of tree -> language of its children; tokens that are left out of the tree are marked"""

    def __init__(self, lk, known, letters):
        self.lk, self.letters, self.term = lk, letters, terminals(lk, known)
        self.rules = {}
        for r in lk.rules:
            if any(r.options.empty_indices or ()):
                raise Unsupported("placeholders")
            self.rules.setdefault(r.origin.name, []).append(r)
        self.trees, self.done, self.busy, self.todo = {}, {}, set(), []
        self.start = [self.symbol(s) for s in lk.options.start]
        seen = set()
        while self.todo:
            name, r = self.todo.pop()
            if id(r) not in seen:
                seen.add(id(r))
                e = self.expansion(r)
                self.trees[name] = regex.alt(self.trees[name], e) if name in self.trees else e

    def tok(self, s):
        return self.letters[("token", self.term[s.name])]

    def expansion(self, r, skip=0):
        out = regex.EPS
        for s in r.expansion[skip:]:
            out = regex.cat(out, self.tok(s) if s.is_term else self.symbol(s.name))
        return out

    def kept(self, r):
        return [s for s in r.expansion if not (s.is_term and s.filter_out and not r.options.keep_all_tokens)]

    def symbol(self, n):
        """language of what the nonterminal leaves in the tree above"""
        if n in self.done:
            return self.done[n]
        rs = self.rules.get(n)
        if rs is None:
            raise Unsupported(f"no rule {n}")
        if n in self.busy:
            raise Unsupported(f"rule {n} is recursive without a tree of its own")
        self.busy.add(n)
        res = []
        if n.startswith("_"):
            rec = [r for r in rs if r.expansion and r.expansion[0].name == n and not r.expansion[0].is_term]
            base = regex.alt(*[self.expansion(r) for r in rs if r not in rec])
            step = regex.alt(*[self.expansion(r, 1) for r in rec]) if rec else None
            out = regex.cat(base, regex.star(step)) if step is not None else base
        else:
            for r in rs:
                if r.alias is None and r.options.expand1:
                    k = self.kept(r)
                    if len(k) == 1 and self.single(k[0]):
                        res.append(self.expansion(r))
                        continue
                    if self.least(r) < 2 and len(k) > 0:
                        raise Unsupported(f"rule {n} may or may not make a tree")
                name = r.alias or n
                if name.startswith("_"):
                    raise Unsupported(f"inlined alias {name}")
                self.todo.append((name, r))
                res.append(self.letters[("tree", name)])
            out = regex.alt(*res)
        self.busy.discard(n)
        self.done[n] = out
        return out

    def single(self, s, busy=()):
        """the symbol gives exactly one child"""
        if s.is_term or not s.name.startswith("_"):
            return True
        return s.name not in busy and all(len(self.kept(q)) == 1 and self.single(self.kept(q)[0], busy + (s.name,)) for q in self.rules[s.name])

    def least(self, r, busy=()):
        """least number of children the rule gives"""
        n = 0
        for s in self.kept(r):
            if s.is_term or not s.name.startswith("_"):
                n += 1
            else:
                n += min([self.least(q, busy + (s.name,)) for q in self.rules[s.name]
                          if not any(not x.is_term and x.name in busy + (s.name,) for x in q.expansion)] or [0])
        return n


def filtered(lk, known):
    """which tokens are left out of the trees"""
    t = terminals(lk, known)
    out = {}
    for r in lk.rules:
        for s in r.expansion:
            if s.is_term:
                out.setdefault(t[s.name], set()).add(bool(s.filter_out and not r.options.keep_all_tokens))
    return out


def spec(letters, text, known):
    """a rule of the specification, as a regular expression over symbols: names of trees in lower case, of terminals as given"""
    import re
    toks = re.findall(r"'[^']*'|[A-Za-z_0-9]+|[()|*+?]", text)
    pos = 0

    def alt():
        nonlocal pos
        xs = [seq()]
        while pos < len(toks) and toks[pos] == "|":
            pos += 1
            xs.append(seq())
        return regex.alt(*xs)

    def seq():
        nonlocal pos
        out = regex.EPS
        while pos < len(toks) and toks[pos] not in "|)":
            out = regex.cat(out, post())
        return out

    def post():
        nonlocal pos
        if toks[pos] == "(":
            pos += 1
            x = alt()
            assert toks[pos] == ")"
            pos += 1
        else:
            n = toks[pos]
            pos += 1
            x = letters[("token", n)] if n in known else letters[("tree", n)]
        while pos < len(toks) and toks[pos] in "*+?":
            x = {"*": lambda: regex.star(x), "+": lambda: regex.cat(x, regex.star(x)), "?": lambda: regex.alt(regex.EPS, x)}[toks[pos]]()
            pos += 1
        return x
    r = alt()
    assert pos == len(toks)
    return r


def first(r):
    """characters a string of the language may start with"""
    out = ()
    for cs, d in regex.groups(r):
        if d != regex.NULL:
            out = regex.norm(tuple(out) + tuple(cs))
    return out
