"""Queries that are valid SQL for some schema, with the scope of every column known.

The scopes are computed here from the reference tree, independently of the code under test.  A source is a pair
(alias or None, columns): columns is None for tables and the like (any column may exist), else a list of (name, type); a pair with the
name * stands for further columns that are not known.
"""
from lib import sqlast as A
from lib.sqlgen import NAMES, RESERVED, Gen

ALIASES = ("s", "u", "r", "T1", "sub", "q2", "Left_1", "zed", "W", "k9")
FALSY_TYPES = ("num", "str", "other")


def is_open(cols):
    return cols is None or ("*", "other") in cols


class Scope:
    """The columns one SELECT (or join condition) can use."""

    def __init__(self, sources, merged=(), node=None):
        self.sources = sources
        self.merged = {}  # columns of USING: the number of subqueries that provide it
        self.unclear = set()
        for name, count in dict(merged).items():
            if len(self.providers(name)) == count:
                self.merged[name] = count
            else:
                self.unclear.add(name)
        self.node = node

    @property
    def open(self):
        return any(is_open(cols) for _, cols in self.sources)

    def providers(self, name):
        return [
            (alias, n, t) for alias, cols in self.sources for n, t in cols or () if n == name
        ]

    def unqualified(self):
        """(name, type) of the known columns that can be used without alias."""
        out = []
        seen = {}
        for _, cols in self.sources:
            for name, _ in cols or ():
                seen[name] = seen.get(name, 0) + 1
        for _, cols in self.sources:
            for name, t in cols or ():
                if name in self.merged or name in self.unclear:
                    continue
                if seen[name] == 1:
                    out.append((name, t))
        out = [(name, t) for name, t in out if name != "*"]
        return out + [(name, "unknown") for name in sorted(self.merged)]

    def qualified(self):
        out = []
        for alias, cols in self.sources:
            if alias is not None and not is_open(cols):
                names = [n for n, _ in cols]
                out += [(alias, n, t) for n, t in cols if names.count(n) == 1]
        return out

    def aliases(self):
        return {alias for alias, _ in self.sources if alias is not None}

    def names(self):
        known = {n for _, cols in self.sources for n, _ in cols or () if n != "*"}
        return known | set(self.merged) | self.unclear

    def ambiguous(self):
        """Names two or more aliased subqueries provide."""
        return sorted(
            n
            for n in self.names() - set(self.merged) - self.unclear
            if len({a for a, _, _ in self.providers(n)}) > 1
            and all(a is not None for a, _, _ in self.providers(n))
        )


def tok_name(tok):
    return tok.text[1:-1] if tok.kind == "q" else tok.text


def is_quoted_name(node):
    if not isinstance(node, A.Tok) or node.kind != "q" or node.text[0] not in '"`':
        return False
    return node.text[1:-1].isidentifier() and node.text[1:-1].lower() not in RESERVED


def is_star(node):
    while isinstance(node, A.StarBut):
        node = node.star
    if isinstance(node, A.Chain):
        node = node.parts[-1]
    return isinstance(node, A.Tok) and node.text == "*"


# written like columns, but none
UNCOLUMNS = tuple(("kw", w) for w in ("current_date", "current_timestamp", "current_time", "session_user", "localtime")) + (
    ("ph", "%s"), ("ph", "%(n)s"), ("ph", "{n}"), ("ph", ":n"), ("ph", "@n"),
)  # fmt: skip


class ScopeGen(Gen):
    typed = True
    oversized = True  # a few have something very large
    pool = NAMES
    open_percent = 70  # of the sources that are tables
    flat_percent = 15  # of the sources: (SELECT a, 1 AS b FROM t) AS u
    star_chance = 1  # of 20 select items
    join_chance = 5

    def __init__(self, ch, budget=30):
        super().__init__(ch, budget)
        self.scopes = []  # outermost first
        self.aliases = [set()]
        self.types = {}
        self.sites = []
        self.alias_sites = []
        self.star_sites = []  # names in EXCEPT and REPLACE
        self.usings = []  # (columns of a USING, their tokens' names on the left, on the right; None: open)
        self.selects = []
        self.in_source = 0
        self.late = 0  # in GROUP BY, HAVING or ORDER BY
        self.item_names = set()
        self.lateral = None  # what UNNEST can use

    # -- the model of scopes -----------------------------------------------------------------------------------------

    def set_type(self, node, t):
        self.types[id(node)] = (t, node)
        return node

    def type_of(self, node):
        if id(node) in self.types:
            return self.types[id(node)][0]
        if isinstance(node, A.Tok):
            if node.kind == "kw":
                return "unknown" if node.text.lower() == "null" else "bool"
            if node.kind == "num":
                return "num"
            if node.kind == "q" and node.text[0] == "'":
                return "str"
            return "other"
        if isinstance(node, (A.Cond, A.Between, A.Neg, A.Bool)):
            return "bool"
        if isinstance(node, A.Paren) and len(node.items) == 1 and not node.select:
            return self.type_of(node.items[0])
        if isinstance(node, A.Fn) and node.name.lower() not in ("extract", "count"):
            return "unknown"
        if isinstance(node, A.Operands) and len(node.items) > 1:
            if all(op in ("", "+", "-", "*", "/", "%") and not signs for op, signs, _ in node.items):
                return "num"
        return "other"

    def outputs(self, query):
        """[(name, type)]"""
        if isinstance(query, A.With):
            query = query.select
        out = []
        for item in query.items:
            if isinstance(item, A.Aliased):
                t = self.type_of(item.arg)
                arg = item.arg
                while isinstance(arg, A.Paren) and len(arg.items) == 1:
                    arg = arg.items[0]
                if isinstance(arg, (A.Tok, A.Chain)) and id(arg) in self.types and t != "bool":
                    t = "pass"
                out.append((tok_name(item.name), t))
            elif is_star(item):
                out += self.star_columns(query, item)
            elif isinstance(item, A.Tok) and item.kind == "id":
                out.append((item.text, "pass"))
            elif is_quoted_name(item):
                out.append((tok_name(item), "other"))
            elif isinstance(item, A.Chain) and isinstance(item.parts[-1], A.Tok):
                out.append((tok_name(item.parts[-1]), "pass"))
        return out

    def star_columns(self, query, star):
        excluded = set()
        while isinstance(star, A.StarBut):
            if star.word == "except":
                excluded |= {tok_name(t) for t in star.items}
            star = star.star
        scope = self.scope_of(query)
        sources = scope.sources
        if isinstance(star, A.Chain):
            alias = tok_name(star.parts[0])
            sources = [s for s in sources if s[0] == alias]
            if not sources:
                return [("*", "other")]
        # merged columns come once
        out, seen = [], set()
        for _, cols in sources:
            for name, t in [("*", "other")] if cols is None else cols:
                if name in excluded or name in scope.merged and name in seen:
                    continue
                seen.add(name)
                out.append((name, "other" if name in scope.merged else t))
                if name in scope.unclear:
                    out.append((name, t))  # not to be used
        return out

    def sources_of(self, node, alias=None):
        if node is None:
            return [], {}
        if isinstance(node, A.Aliased):
            return self.sources_of(node.arg, tok_name(node.name))
        if isinstance(node, A.FromParen):
            if isinstance(node.arg, (A.Select, A.With)):
                return [(alias, self.outputs(node.arg))], {}
            return self.sources_of(node.arg, alias)
        if isinstance(node, A.SetOp):
            return self.sources_of(node.items[0][1], alias)
        if isinstance(node, A.Join):
            return self.join_sources(node.first, node.items)
        if isinstance(node, A.Unnest) and node.alias:
            alias = tok_name(node.alias[1])
        return [(alias, None)], {}

    def join_sources(self, first, items):
        """A comma binds less than JOIN: USING merges within the sources since the last comma."""
        sources, merged = self.sources_of(first)
        group = 0
        for words, node, how, cond in items:
            if words == ",":
                group = len(sources)
            more, more_merged = self.sources_of(node)
            sources = sources + more
            merged = dict(merged, **more_merged)
            if how == "using":
                for t in cond.items:
                    merged[t.text] = len(Scope(sources[group:]).providers(t.text))
        return sources, merged

    @staticmethod
    def since_comma(first, items):
        for i in range(len(items) - 1, -1, -1):
            if items[i][0] == ",":
                return items[i][1], items[i + 1 :]
        return first, items

    def scope_of(self, select):
        sources, merged = self.sources_of(select.source)
        return Scope(sources, merged, select)

    # -- columns -----------------------------------------------------------------------------------------------------

    def bare_name(self, pool=NAMES):
        name = super().bare_name(self.pool if pool is NAMES else pool)
        return "x" if name in ALIASES else name

    def constant(self, want):
        if want == "bool":
            return A.Tok("kw", self.ch.pick(("true", "false")))
        return A.Tok("num", str(self.ch.below(50)))

    def suits(self, want, t):
        return want != "bool" or t in ("bool", "unknown")

    def column(self, want="any", bare=False):
        ch = self.ch
        if not self.scopes:
            return self.constant(want)
        if want != "bool" and not bare and ch.below(40) == 39:
            return A.Tok(*ch.pick(UNCOLUMNS))
        i = len(self.scopes) - 1
        inner = []
        while i > 0 and (ch.below(10) >= 8 or not self.scopes[i].sources):
            if self.scopes[i].open:
                break
            inner.append(self.scopes[i])
            i -= 1
        scope = self.scopes[i]
        hidden = set().union(*(s.names() for s in inner))
        if self.in_fn:
            # date parts and the like can be keywords in a function call
            hidden |= RESERVED
        hidden_aliases = set().union(*(s.aliases() for s in inner))
        if self.late:
            # an alias of the select list may have another type
            hidden |= {n for n, _ in self.outputs(scope.node)} if scope.node else set()
        if scope.open and ch.below(10) < 8:
            return self.open_column(scope, want, bare, hidden, hidden_aliases)
        plain = [(n, t) for n, t in scope.unqualified() if n not in hidden and self.suits(want, t)]
        chains = [] if bare else [
            c for c in scope.qualified() if c[0] not in hidden_aliases and self.suits(want, c[2])
        ]
        if not plain and not chains:
            return self.constant(want)
        k = ch.below(len(plain) + len(chains))
        if k < len(plain):
            name, t = plain[k]
            node = leaf = self.name_token(name)
            alias = None
        else:
            alias, name, t = chains[k - len(plain)]
            leaf = self.name_token(name)
            node = A.Chain([self.name_token(alias), leaf])
            self.alias_site(node)
        self.set_type(node, t)
        if want != "any" or bare or leaf.kind != "id" or not ch.chance(3):
            self.site(leaf, alias, scope)
        else:
            # a field of a struct
            node = A.Chain((node.parts if alias else [node]) + [A.Tok("id", self.bare_name())])
            self.set_type(node, "other")
        return node

    def name_token(self, name):
        if name.isidentifier():
            return A.Tok("id", name)
        return A.Tok("q", "`" + name + "`")

    def open_column(self, scope, want, bare, hidden, hidden_aliases):
        ch = self.ch
        r = ch.below(10)
        if r < 7 or bare:
            name = self.bare_name()
            known = scope.providers(name) or name in hidden
            if known or name in self.item_names or any(s.providers(name) for s in self.scopes):
                name = "free_" + str(ch.below(3))
            node = A.Tok("id", name)
        else:
            opened = [a for a, cols in scope.sources if is_open(cols) and a and a not in hidden_aliases]
            if opened and r < 9:
                name = self.bare_name()
                if name in self.item_names:
                    name = "free_" + str(ch.below(3))
                parts = [self.name_token(ch.pick(opened)), A.Tok("id", name)]
            else:
                parts = [A.Tok("id", ch.pick(("tbl", "Users", "db"))), A.Tok("id", self.bare_name())]
                if ch.chance(20):
                    parts.append(A.Tok("id", self.bare_name()))
            node = A.Chain(parts)
        return self.set_type(node, "unknown")

    def site(self, leaf, alias, scope):
        if not self.in_source and leaf.kind == "id":
            self.sites.append((leaf, alias, list(self.scopes), scope))

    def alias_site(self, chain):
        if not self.in_source and chain.parts[0].kind == "id":
            self.alias_sites.append((chain.parts[0], chain.parts[1], list(self.scopes)))

    def star_site(self, leaf, scope):
        if not self.in_source:
            self.star_sites.append((leaf, None, list(self.scopes), scope))

    def index_base(self):
        node = self.column(bare=True)
        if isinstance(node, A.Tok) and node.kind == "id":
            return node
        return A.Chain([A.Tok("id", "lib"), A.Fn("my_func", [])])

    def trunc_column(self):
        return self.column()

    def atom_index(self, want, last):
        base = self.index_base()
        if not isinstance(base, A.Tok):
            return self.column(want)
        node = A.Index(base, self.index_items())
        if last and self.ch.chance(15):
            node = A.Index(node, self.index_items())
        return node

    def atom_case(self, want, last):
        if want != "bool":
            return super().atom_case(want, last)
        ch = self.ch
        whens = [(self.expr("bool"), self.expr("bool")) for _ in range(self.many(ch.weighted(((6, 1), (4, 2)))))]
        return A.Case(None, whens, self.expr("bool") if ch.chance(60) else None)

    # -- sources -----------------------------------------------------------------------------------------------------

    def alias_name(self):
        used = self.aliases[-1]
        free = [a for a in ALIASES if a not in used] or ["al%d" % len(used)]
        name = self.ch.pick(free[:6])
        used.add(name)
        return A.Tok("id", name)

    def flat_source(self):
        """A small subquery with known columns."""
        ch = self.ch
        names = list(dict.fromkeys(self.bare_name() for _ in range(self.many(ch.between(1, 4)))))
        items = []
        for name in names:
            leaf = A.Tok("id", name)
            kind = ch.below(10)
            if kind < 5:
                items.append(self.set_type(leaf, "unknown"))
                continue
            if kind < 6:
                items.append(self.set_type(A.Chain([A.Tok("id", "t"), leaf]), "unknown"))
                continue
            if kind == 6:
                node = A.Tok("num", ch.pick(("1", "0", "2.5", "1e3")))
            elif kind == 7:
                node = A.Tok("q", ch.pick(("'x'", "'true'", "''")))
            elif kind == 8:
                node = A.Cond(A.Tok("id", "k"), ch.pick(("=", "<", "is not")), A.Tok("kw", "null"))
            else:
                node = A.Fn("f", [])
            self.item_names.add(name)
            items.append(A.Aliased(node, ch.chance(50), leaf))
        node = A.Select(items)
        node.source = A.Tok("id", "t")
        if ch.chance(20):
            node.where = A.Cond(A.Tok("id", "k"), "=", A.Tok("num", "1"))
        self.selects.append((node, self.scopes + [self.scope_of(node)]))
        return A.Aliased(A.FromParen(node), ch.chance(50), self.alias_name())

    def simple_source(self):
        ch = self.ch
        if self.deep and ch.below(3) == 2:
            self.deep = 0
            node = self.flat_source()
            for _ in range(ch.between(5, 20)):
                names = dict(self.outputs(node.arg.arg))
                stars = self.star_chance and ch.below(2)
                items = [self.set_type(self.name_token(n), t) for n, t in names.items()]
                select = A.Select([A.Tok("op", "*")] if stars else items)
                select.source = node
                self.selects.append((select, self.scopes + [self.scope_of(select)]))
                node = A.Aliased(A.FromParen(select), ch.chance(50), self.alias_name())
            return node
        if ch.chance(self.flat_percent):
            return self.flat_source()
        if not self.spend() or ch.below(100) < self.open_percent:
            kind = ch.weighted(((12, "table"), (1, "unnest"), (1, "brackets")))
            if kind == "table":
                return self.alias(self.table(), 40)
            if kind == "brackets":
                return self.alias(A.Brackets(A.Chain([A.Tok("id", "p:d"), A.Tok("id", "tbl")])), 50)
            self.in_source += 1
            if self.lateral:
                self.scopes.append(self.lateral)
            try:
                return self.unnest()
            finally:
                self.in_source -= 1
                if self.lateral:
                    self.scopes.pop()
        kind = ch.weighted(((12, "select"), (2, "with"), (2, "paren")))
        if kind == "select":
            node = A.FromParen(self.subselect())
            while ch.below(10) == 9:
                node = A.FromParen(node)
            return self.alias(node, 70)
        if kind == "with":
            return self.alias(A.FromParen(self.with_statement()), 70)
        inner = self.source()
        node = A.FromParen(inner)
        if isinstance(inner, A.SetOp) and not any(isinstance(n, A.Aliased) for _, n in inner.items):
            return self.alias(node, 60)
        return node

    def unnest(self):
        ch = self.ch
        alias = (ch.chance(50), self.alias_name()) if ch.chance(60) else None
        offset = None
        if ch.chance(40):
            offset = (ch.chance(50), A.Tok("id", ch.pick(("off", "pos")))) if ch.chance(60) else (False, None)
        return A.Unnest([self.operands()], alias, offset)

    def partial_scope(self, first, items, node, how="", cond=None):
        first, items = self.since_comma(first, items)
        sources, merged = self.join_sources(first, items + [("join", node, how, cond)])
        return Scope(sources, merged)

    def join_source(self, first, items):
        lateral, self.lateral = self.lateral, Scope(*self.join_sources(first, items))
        try:
            return self.simple_source()
        finally:
            self.lateral = lateral

    def using_columns(self, first, items, node):
        ch = self.ch
        first, items = self.since_comma(first, items)
        left = Scope(*self.join_sources(first, items))
        right = Scope(*self.sources_of(node))
        left_names = {n for n, _ in left.unqualified()}
        right_names = {n for n, _ in right.unqualified()}
        if left.open and right.open:
            names = [self.bare_name() for _ in range(ch.between(1, 2))]
            names = [n for n in names if not left.providers(n) and not right.providers(n)]
        elif left.open:
            names = sorted(n for n in right_names if n in left_names or not left.providers(n))
        elif right.open:
            names = sorted(n for n in left_names if n in right_names or not right.providers(n))
        else:
            names = sorted(left_names & right_names)
        names = [n for n in names if n.isidentifier()]
        if not names:
            return None
        cols = [A.Tok("id", n) for n in dict.fromkeys(ch.pick(names) for _ in range(ch.between(1, 2)))]
        self.usings.append((cols, None if left.open else left.names(), None if right.open else right.names()))
        return cols

    def on_condition(self, first, items, node):
        self.scopes.append(self.partial_scope(first, items, node))
        try:
            return self.expr("bool")
        finally:
            self.scopes.pop()

    # -- statements --------------------------------------------------------------------------------------------------

    def select(self, columns=None, branch=False):
        self.aliases.append(set())
        in_source, self.in_source = self.in_source, 0
        late, self.late = self.late, 0
        lateral, self.lateral = self.lateral, None
        try:
            return super().select(columns, branch)
        finally:
            self.aliases.pop()
            self.in_source, self.late, self.lateral = in_source, late, lateral

    def statement(self):
        if self.oversized:
            self.oversize()
        tree = super().statement()
        # what was generated but not used
        kept = {id(n) for n in walk(tree)}
        self.sites = [s for s in self.sites if id(s[0]) in kept]
        self.selects = [s for s in self.selects if id(s[0]) in kept]
        self.star_sites = [s for s in self.star_sites if id(s[0]) in kept]
        self.alias_sites = [s for s in self.alias_sites if id(s[0]) in kept]
        self.usings = [u for u in self.usings if id(u[0][0]) in kept]
        return tree

    def branch(self, node):
        """Sees what is around the first query, but not its sources."""
        scope = self.scopes.pop()
        try:
            return super().branch(node)
        finally:
            self.scopes.append(scope)

    def whole_queries(self):
        """The queries that may have ORDER BY, LIMIT and OFFSET: all but the operands of set operations."""
        operands = {id(query) for s, _ in self.selects for _, query in s.combined}
        return [s for s, _ in self.selects if id(s) not in operands]

    def enter(self, node):
        scope = self.scope_of(node)
        self.scopes.append(scope)
        self.selects.append((node, list(self.scopes)))

    def leave(self, node):
        self.scopes.pop()

    def select_item(self):
        ch = self.ch
        r = ch.below(20)
        if r < 3:
            return self.column()
        if r >= 20 - self.star_chance and self.scopes[-1].sources:
            return self.star()
        node = self.expr()
        if ch.chance(60):
            return self.select_alias(node)
        return node

    def select_alias(self, node):
        ch = self.ch
        with_as = ch.chance(65)
        if with_as and ch.chance(5):
            name = A.Tok("q", ch.pick(('"Total"', "`name`", '"my col"', "`a b`")))
        else:
            name = A.Tok("id", self.bare_name())
        self.item_names.add(tok_name(name))
        return A.Aliased(node, with_as, name)

    def star(self):
        ch = self.ch
        scope = self.scopes[-1]
        star = A.Tok("op", "*")
        names = sorted({n for n, _ in scope.unqualified() if n.isidentifier()})
        aliases = sorted(scope.aliases())
        if ch.chance(30) and aliases:
            alias = ch.pick(aliases)
            star = A.Chain([A.Tok("id", alias), star])
            self.alias_site(star)
            names = sorted({n for a, n, _ in scope.qualified() if a == alias and n in names})
        if ch.chance(25) and names:
            gone = list(dict.fromkeys(ch.pick(names) for _ in range(ch.between(1, 2))))
            names = [n for n in names if n not in gone]
        else:
            gone = None
        if gone and names:
            star = A.StarBut(star, "except", [A.Tok("id", n) for n in gone])
            self.star_site(star.items[-1], scope)
        if ch.chance(20) and names:
            star = A.StarBut(star, "replace", [A.Aliased(self.column(), True, A.Tok("id", ch.pick(names)))])
            self.star_site(star.items[0].name, scope)
        return star

    def having(self):
        self.late += 1
        try:
            return self.expr("bool")
        finally:
            self.late -= 1

    def key(self, grouping):
        """An item of GROUP BY or ORDER BY."""
        ch = self.ch
        select = self.scopes[-1].node
        r = ch.below(10)
        if select.combined:
            r = r % 5  # only what the queries have in common
        if r < 2:
            node = A.Tok("num", str(ch.between(1, len(select.items))))
            return A.Paren([node]) if ch.chance(15) else node
        if r < 5:
            names = [i.name.text for i in select.items if isinstance(i, A.Aliased) and i.name.kind == "id"]
            names = [n for n in names if not self.clashes(n)]
            if names:
                return A.Tok("id", ch.pick(names))
        if select.combined:
            return A.Tok("num", "1")
        self.late += 1
        try:
            node = self.operands() if r < 8 else self.column()
        finally:
            self.late -= 1
        if any(may_be_position(n) for n in flat_items(node)):
            return A.Tok("num", "1")
        return node

    def clashes(self, name):
        return any(len(s.providers(name)) > 1 for s in self.scopes)

    def group_key(self):
        return self.key(True)

    def order_key(self):
        return self.key(False)

    def limit(self):
        if self.ch.chance(10):
            return A.Tok("ph", self.ch.pick(("%s", "%(n)s", "{n}", ":n", "@n")))
        return super().limit()


def may_be_position(node):
    if isinstance(node, A.Operands) and len(node.items) == 1:
        node = node.items[0][2]
    return isinstance(node, A.Tok) and node.kind != "id" and (node.kind, node.text) not in UNCOLUMNS


def flat_items(node):
    if isinstance(node, A.Paren) and not node.select:
        for item in node.items:
            yield from flat_items(item)
    else:
        yield node


def walk(obj, seen=None):
    """All nodes of a tree."""
    if isinstance(obj, A.Node):
        yield obj
        for cls in type(obj).__mro__:
            for slot in getattr(cls, "__slots__", ()):
                if slot != "_fmt":
                    yield from walk(getattr(obj, slot, None))
    elif isinstance(obj, (list, tuple)):
        for item in obj:
            yield from walk(item)
