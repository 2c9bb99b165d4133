"""C09: results do not depend on the history of calls."""
import json
import os
import re
import subprocess
import sys
import threading

from lib import reflex, scopegen, sqlgen
from lib.harness import Leg, Violation
from lib.props_format import UNKNOWN, corpus_cache
from lib.props_work import EXPRESSIONS, PLACES, nest
from lib.sqlgen import spell

import sqlvalidator


def raised(e):
    return ["raise", type(e).__name__, str(e)]


def answer(op, sql):
    """What a fresh process answers to one question about one query."""
    try:
        if op == "format_sql":
            return ["value", sqlvalidator.format_sql(sql)]
        query = sqlvalidator.parse(sql)
        if op == "format":
            return ["value", query.format()]
        if op == "is_valid":
            return ["value", query.is_valid()]
        query.is_valid()
        return ["value", list(query.errors)]
    except Exception as e:
        return raised(e)


class Zygote:
    """A process that imported the code under test and never called it; every question is answered by a fork of it."""

    def __init__(self):
        self.to, child_in = os.pipe()[::-1]
        child_out, self.back = None, None
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(self.to)
            os.close(r)
            self.serve(os.fdopen(child_in, "r"), w)
            os._exit(0)
        os.close(child_in)
        os.close(w)
        self.to = os.fdopen(self.to, "w")
        self.back = os.fdopen(r, "r")

    def serve(self, questions, w):
        for line in questions:
            pid = os.fork()
            if pid == 0:
                try:
                    op, sql = json.loads(line)
                    data = json.dumps(answer(op, sql)) + "\n"
                    data = data.encode()
                    while data:
                        data = data[os.write(w, data) :]
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)

    def ask(self, op, sql):
        self.to.write(json.dumps([op, sql]) + "\n")
        self.to.flush()
        return json.loads(self.back.readline())


_ZYGOTE = None
_ASKED = {}


def fresh(op, sql):
    global _ZYGOTE
    if _ZYGOTE is None:
        _ZYGOTE = Zygote()
    key = (op, sql)
    if key not in _ASKED:
        if len(_ASKED) > 4000:
            _ASKED.clear()
        try:
            _ASKED[key] = _ZYGOTE.ask(op, sql)
        except BaseException:  # an answer would be taken for the next one
            _ZYGOTE = None
            raise
    return _ASKED[key]


class QueriesGen(sqlgen.Gen):
    """Small queries over few names, so that one query's answer could be taken for another's."""

    def bare_name(self, pool=sqlgen.NAMES):
        if self.wordy and self.ch.below(2):
            return self.ch.pick(WORDS)
        return self.ch.pick("abt")

    wordy = False


# names that mean something else in some places
WORDS = ("string", "date", "timestamp", "int", "month", "day", "year", "filter", "offset", "first", "rows", "nulls", "ignore")
# expressions the parser gives up in
FAULTS = (
    "case when a", "case a", "a between b or c", "a between", "(", "[", "f(", "count(", "count(distinct", "cast(a", "cast(a b)",
    "sum(a) over", "sum(a) over x", "sum(a) over (partition a)", "sum(a) over (order b)", "array_agg(a limit x)", "array_agg(a order b)",
    "array_agg(a ignore)", "a is", "not", "-", "a +", "a.", "f(a) filter (a)", "f(a) filter", "(select", "(select a from)", "a except b",
    "* replace (a)", "a like", "a in", "a -- b", "a b c", "extract(day from", "'a", "a as", "case when a then b end c d",
)


def nested(ch):
    """One construct in another, with a fault or a word that means something elsewhere in the middle."""
    patterns = [ch.pick(EXPRESSIONS) for _ in range(ch.weighted(((3, 1), (3, 2), (1, 3))))]
    middle = ch.pick(FAULTS) if ch.below(2) else ch.pick(WORDS)
    sql = ch.pick(PLACES).replace("{}", nest(patterns, len(patterns), middle))
    if ch.below(3) == 0:
        sql = sql.replace("from t", "from (select a, b from t) s", 1)
    return sql


def faulty(ch, tokens):
    """Text of the query with a fault in place of a column or number."""
    words = [t for _, t in tokens]
    sites = [i for i, (kind, _) in enumerate(tokens) if kind in ("id", "num")]
    if sites:
        calls = [i for i in sites if i > 1 and words[i - 1] == "("]
        i = ch.pick(calls if calls and ch.below(2) else sites)
        words[i : i + 1] = ch.pick(FAULTS).split(" ")
    return " ".join(words)


SPACES = re.compile(r"[ \n]+")
STRING = re.compile(r"'[^'\\]*'")


def near(ch, sql):
    """A text that is nearly the same, and may mean something else."""

    def replace(pattern, new):
        found = list(pattern.finditer(sql))
        if not found:
            return sql
        m = ch.pick(found)
        return sql[: m.start()] + new(m.group()) + sql[m.end() :]

    kind = ch.below(8)
    if kind == 0:
        return replace(SPACES, lambda t: ch.pick(("  ", "\n", "\t", " \n ")))
    if kind == 1:
        return replace(re.compile(r"\w+"), str.swapcase)
    if kind == 2:
        return replace(STRING, lambda t: ch.pick((t.upper(), t[:-1] + " '", t.replace(" ", "  "), "'" + t[1:-1][::-1] + "'")))
    if kind == 3:
        return replace(re.compile(r"\d+"), lambda t: str((int(t) + 1) % 10 ** len(t)))
    if kind == 4:
        return sql.swapcase()
    if kind == 5:
        return sql + ch.pick((";", " ", "\n", " limit 1"))
    if kind == 6:
        return replace(re.compile(r"\b[abtu]\b"), lambda t: ch.pick("abtu"))
    return replace(STRING, lambda t: ch.pick(("`", '"')) + t[1:-1] + "'") if ch.below(3) == 0 else sql[: ch.below(len(sql) + 1)]


class Histories(Leg):
    name = "histories"
    quick = 6000
    thorough = 120000

    def query(self, ch):
        r = ch.below(13)
        if r >= 10:
            return nested(ch)
        if r < 5:
            g = (QueriesGen if ch.below(3) else sqlgen.Gen)(ch, ch.between(2, 25))
            g.wordy = ch.below(2)
            tokens = g.statement().tokens()
            if r == 3:
                return faulty(ch, tokens)
            sql = spell(ch, tokens, "plain")
            if r == 4:
                words = [t for _, t in reflex.lex(sql)]
                at = 1 + ch.below(len(words))
                words[at:at] = [t for _, t in reflex.lex(ch.pick(UNKNOWN))]
                sql = " ".join(words)
            return sql
        if r < 7:
            return ch.pick(
                (
                    "select a from (select b from t) s", "select s.b from (select b from t) s", "select 1 limit -1",
                    "select b from (select a from t)", "select a from t where 1", "select a from t group by 2",
                    "select a from t join u", "select x from (select a as x from t) where x",
                    "select x from (select 1 as x from t) where x", "select 'a", "select (", "", "with", "drop table t",
                    "select b from (select a b from t)", "select a from t offset 1.5", "select a -- b",
                    "select 'a b' from t", "select 'a' as x, a from t where a = 'b'", "select 'A\\' b' from t where x in ('', ' ')",
                )  # fmt: skip
            )
        return ch.pick(corpus_cache())

    def gen(self, ch, tier):
        queries = [self.query(ch)]
        if ch.below(4) == 0:
            queries = [nested(ch) for _ in range(ch.between(2, 4))]
        literals = list(STRING.finditer(queries[0]))
        if literals and ch.below(2):  # the same query with contents that are easily taken for one another
            m = ch.pick(literals)
            contents = ("a b", "a  b", "A b", "a\tb", "a\nb", "ab", " a b", "a b ", "a\u00a0b", "a, b", "a,b", "", " ")
            queries = [
                queries[0][: m.start()] + "'" + ch.pick(contents) + "'" + queries[0][m.end() :] for _ in range(ch.between(2, 3))
            ]
        for _ in range(ch.below(5 - len(queries))):
            queries.append(near(ch, ch.pick(queries)) if ch.below(2) else self.query(ch))
        ops = []
        objects = 0
        for _ in range(ch.between(2, 14)):
            kind = ch.below(6)
            if kind == 0 or objects == 0 and kind != 1:
                ops.append(["parse", ch.below(len(queries))])
                objects += 1
            elif kind == 1:
                ops.append(["format_sql", ch.below(len(queries))])
            else:
                ops.append([("format", "is_valid", "errors", "is_valid")[kind - 2], ch.below(objects)])
        return {"queries": queries, "ops": ops}

    def nontrivial(self, case):
        return len({tuple(o) for o in case["ops"]}) >= 4

    def labels(self, case):
        names = [o[0] for o in case["ops"]]
        found = set()
        if len(set(case["queries"])) > 1:
            found.add("several queries")
        if len({"".join(q.lower().split()) for q in case["queries"]}) < len(set(case["queries"])):
            found.add("queries that differ in case or white space")
        for a, b in zip(case["ops"], case["ops"][1:]):
            if a == b:
                found.add("repeated call")
            elif a[0] != "parse" and b[0] != "parse" and a[1] == b[1]:
                found.add(a[0] + " then " + b[0])
        if len(names) >= 10:
            found.add("ten calls or more")
        return found

    def check(self, case):
        queries = case["queries"]
        objects = []  # [query object, index of its text, validated?]
        for n, (op, i) in enumerate(case["ops"]):
            if op == "parse":
                objects.append([sqlvalidator.parse(queries[i]), i, False])
                continue
            if op == "format_sql":
                text = queries[i]
                want = fresh("format_sql", text)
                try:
                    got = ["value", sqlvalidator.format_sql(text)]
                except Exception as e:
                    got = raised(e)
            else:
                obj, index, validated = objects[i]
                text = queries[index]
                if op == "errors":
                    want = fresh("errors", text) if validated else ["value", []]
                    got = ["value", list(obj.errors)]
                    if want[0] == "raise":
                        want = ["value", []]
                else:
                    want = fresh(op, text)
                    try:
                        got = ["value", obj.format() if op == "format" else obj.is_valid()]
                    except Exception as e:
                        got = raised(e)
                    if op == "is_valid":
                        objects[i][2] = True
                        if got[0] == "value" and got[1] != (obj.errors == []):
                            raise Violation("is_valid() is {} with errors {!r}\n{}".format(got[1], obj.errors, text))
            if json.loads(json.dumps(got)) != want:
                raise Violation(
                    "call {} ({}) answers {!r}, in a fresh process {!r}\n{}".format(n, op, got, want, text)
                )


PACKAGE = os.path.dirname(os.path.abspath(sqlvalidator.__file__))


class Schedule:
    """Threads that take turns as the schedule says: so many lines of the package's code, then the next thread."""

    def __init__(self, jobs, turns):
        self.jobs = jobs
        self.turns = turns
        self.switches = 0
        self.answers = [[] for _ in jobs]
        self.alive = [True] * len(jobs)
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.done = threading.Event()
        self.left = turns[0]

    def hand_over(self, me):
        for other in list(range(me + 1, len(self.jobs))) + list(range(me)):
            if self.alive[other]:
                self.switches += 1
                self.left = self.turns[self.switches % len(self.turns)]
                if self.switches > 300:  # long enough
                    self.left += 1000
                self.go[other].release()
                return True
        return False

    def work(self, me):
        def line(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0 and self.hand_over(me):
                    self.go[me].acquire()
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(PACKAGE) else None

        self.go[me].acquire()
        sys.settrace(call)
        try:
            for op, sql in self.jobs[me]:
                self.answers[me].append(json.loads(json.dumps(answer(op, sql))))
        finally:
            sys.settrace(None)
            self.alive[me] = False
            if not self.hand_over(me):
                self.done.set()

    def run(self):
        threads = [threading.Thread(target=self.work, args=(me,), daemon=True) for me in range(len(self.jobs))]
        for thread in threads:
            thread.start()
        self.go[0].release()
        self.done.wait()
        for thread in threads:
            thread.join()
        return self.answers


class Threads(Leg):
    """Calls that run in other threads meanwhile have no influence."""

    name = "threads"
    quick = 1200
    thorough = 40000

    def gen(self, ch, tier):
        jobs = []
        queries = []
        for _ in range(ch.between(2, 3)):
            job = []
            for _ in range(ch.between(1, 2)):
                if queries and ch.below(3) == 0:
                    sql = near(ch, ch.pick(queries))
                elif ch.below(3) == 0:
                    g = scopegen.ScopeGen(ch, ch.between(5, 30))
                    g.oversized = False
                    g.open_percent = 10
                    sql = spell(ch, g.statement().tokens(), "plain")
                else:
                    sql = Histories.query(self, ch)
                queries.append(sql[:400])
                job.append([ch.pick(("format_sql", "is_valid", "errors", "format")), queries[-1]])
            jobs.append(job)
        if ch.below(2):  # the others run to their ends in the middle of the first one
            return {"jobs": jobs, "turns": [ch.between(1, ch.pick((20, 200, 2000))), 10**9]}
        longest = ch.pick((3, 20, 100, 400))
        return {"jobs": jobs, "turns": [ch.between(1, longest) for _ in range(ch.between(1, 12))]}

    def nontrivial(self, case):
        return len({sql for job in case["jobs"] for _, sql in job}) > 1

    def labels(self, case):
        found = {op for job in case["jobs"] for op, _ in job}
        found.add("{} threads".format(len(case["jobs"])))
        if max(case["turns"]) <= 20:
            found.add("turns of 20 lines at most")
        return found

    def check(self, case):
        schedule = Schedule(case["jobs"], case["turns"])
        answers = schedule.run()
        self.observed = ["{} switches".format("under 10" if schedule.switches < 10 else "10 to 99" if schedule.switches < 100 else "100 or more")]
        for job, got in zip(case["jobs"], answers):
            for n, (op, sql) in enumerate(job):
                want = fresh(op, sql)
                if n >= len(got) or got[n] != want:
                    raise Violation(
                        "{} answers {!r} while other threads work, {!r} alone\n{}".format(
                            op, got[n] if n < len(got) else "nothing", want, sql
                        )
                    )


_SERVERS = None
SEEDS = ("1", "2", "3")


def servers():
    """Processes that differ in their hash seed only."""
    global _SERVERS
    if _SERVERS is None:
        _SERVERS = []
        for seed in SEEDS:
            env = dict(os.environ, PYTHONHASHSEED=seed)
            env["PYTHONPYCACHEPREFIX"] = os.path.join(os.environ["VERIF_SCRATCH"], "pycache")
            _SERVERS.append(
                subprocess.Popen(
                    [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedserver.py")],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                )
            )  # fmt: skip
    return _SERVERS


class HashSeeds(Leg):
    """Every process gives the same answers, whatever its hash seed."""

    name = "hash seeds"
    quick = 4000
    thorough = 100000

    def gen(self, ch, tier):
        kind = ch.below(5)
        if kind == 4:
            return {"sql": spell(ch, sqlgen.Gen(ch, ch.between(3, 60)).statement().tokens(), "plain")}
        g = scopegen.ScopeGen(ch, ch.between(10, 60))
        g.pool = ("a", "b", "x", "id") if ch.below(2) else sqlgen.NAMES
        g.open_percent = ch.pick((5, 30))
        g.flat_percent = ch.pick((15, 50, 85))
        g.star_chance = ch.below(2)
        g.join_chance = 30
        tree = g.statement()
        # names anywhere, valid or not
        for _ in range(ch.between(0, 4)):
            if g.sites:
                ch.pick(g.sites)[0].text = ch.pick(("a", "b", "x", "id", "zz_missing"))
        return {"sql": spell(ch, tree.tokens(), "plain")}

    def key(self, case):
        return case["sql"]

    def nontrivial(self, case):
        return case["sql"].lower().count("select") > 1

    def check(self, case):
        global _SERVERS
        for server in servers():
            server.stdin.write(json.dumps(case["sql"]) + "\n")
            server.stdin.flush()
        here = [answer(op, case["sql"]) for op in ("format_sql", "is_valid", "errors")]
        here = json.loads(json.dumps(here))
        self.observed = [str(here[1][1])]
        try:
            answers = [json.loads(server.stdout.readline()) for server in servers()]
        except BaseException:  # an answer would be taken for the next one
            for server in _SERVERS:
                server.kill()
            _SERVERS = None
            raise
        for seed, there in zip(SEEDS, answers):
            if there != here:
                raise Violation(
                    "another process (hash seed {}) answers {!r} instead of {!r}\n{}".format(
                        seed, there, here, case["sql"]
                    )
                )
