"""C20 to C27: what the command line does to files and trees of files."""
import ast
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import warnings

from lib import pygen
from lib.harness import Leg, Violation

import sqlvalidator
from sqlvalidator import main as sut_main

LITERAL = re.compile(
    r"([A-Za-z]{0,2})(?:(\"\"\"|''')((?:\\.|(?!\2)[^\\])*)\2|([\"'])((?:\\.|(?!\4)[^\\\n])*)\4)", re.DOTALL
)


# -- the model -------------------------------------------------------------------------------------------------------


_FORMATTED = {}


def formatted_text(value):
    """What format_sql makes of it, also when that is an exception."""
    if value not in _FORMATTED:
        if len(_FORMATTED) > 2000:
            _FORMATTED.clear()
        try:
            _FORMATTED[value] = sqlvalidator.format_sql(value)
        except Exception as e:
            _FORMATTED[value] = e
    if isinstance(_FORMATTED[value], Exception):
        raise _FORMATTED[value]
    return _FORMATTED[value]


def wanted(info):
    """(value, quote) after formatting; raises what format_sql raises."""
    value, quote = info["value"], info["quote"]
    formatted = formatted_text(value)
    if "\n" in formatted:
        quote = quote[0] * 3
    if len(quote) == 3 and ("\n" in formatted or formatted.endswith(quote[0])):
        formatted = "\n" + formatted + "\n"
    return formatted, quote


def is_changed(info):
    value, quote = wanted(info)
    return value != info["value"] or quote != info["quote"]


def outcome(file, formatting, validating):
    """What must be reported for a file: None if it can not be analysed."""
    changed, invalid = [], []
    if file.get("bad"):
        return None
    for index, info, no_format, no_validation, line in pygen.strings(file):
        try:
            if formatting and not no_format and is_changed(info):
                changed.append(index)
            if validating and not no_validation:
                query = sqlvalidator.parse(info["value"])
                if not query.is_valid():
                    invalid.append((line, list(query.errors)))
        except Exception:
            return None
    return {"changed": changed, "invalid": invalid}


# -- running ---------------------------------------------------------------------------------------------------------


def counts(line, n, one, more):
    """Whether the line says 1 file, or 2 files."""
    return re.search(r"(?<!\d){} {}\b".format(n, one if n == 1 else more), line)


class Run:
    """One run of the command line, in this process."""

    encoding = "utf-8"  # of the output

    def __init__(self, argv, cwd):
        raw, err = io.BytesIO(), io.StringIO()
        out = io.TextIOWrapper(raw, encoding=self.encoding, newline="", write_through=True)
        old_argv, old_cwd = sys.argv, os.getcwd()
        sys.argv = ["sqlvalidator"] + argv
        os.chdir(cwd)
        self.code = 0
        self.raised = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                sut_main._main()
        except SystemExit as e:
            self.code = 0 if e.code is None else e.code
        except Exception as e:
            self.raised = "{}: {}".format(type(e).__name__, e)[:300]
        finally:
            os.chdir(old_cwd)
            sys.argv = old_argv
        self.argv = argv
        self.cwd = cwd
        self.out = raw.getvalue().decode(self.encoding)
        self.err = err.getvalue()
        self.parse()

    def parse(self):
        self.changed, self.invalid, self.bad, self.other = [], [], [], []
        self.summaries = {}
        where = None
        lines = self.out.splitlines(keepends=True)
        for line, end in [(line.splitlines()[0], line) for line in lines]:
            m = re.fullmatch(r"(reformatted|would reformat) (.*) \((\d+) changed SQL\)", line)
            if m:
                self.changed.append((m[1], self.path(m[2]), int(m[3])))
                continue
            m = re.fullmatch(r"invalid queries in (.*) \((\d+) invalid SQL\)", line)
            if m:
                where = (self.path(m[1]), int(m[2]), [])
                self.invalid.append(where)
                continue
            m = re.fullmatch(r"(?:error analysing|could not analyse) (.*?)(?: \(\w+: .*)?", line)
            if m:
                self.bad.append(self.path(m[1]))
                continue
            m = re.fullmatch(r"(\d+) files? (would be reformatted|reformatted) \((\d+) changed SQL quer(?:y|ies)\)\.", line)
            if m and counts(line, int(m[1]), "file", "files"):
                self.summaries["format"] = (m[2], int(m[1]), int(m[3]))
                continue
            m = re.fullmatch(r"No file (would be reformatted|reformatted)\.", line)
            if m:
                self.summaries["format"] = (m[1], 0, 0)
                continue
            m = re.fullmatch(r"(\d+) files? detected with invalid SQL \((\d+) invalid SQL quer(?:y|ies)\)\.", line)
            if m and counts(line, int(m[1]), "file", "files") and counts(line, int(m[2]), "invalid SQL query", "invalid SQL queries"):
                self.summaries["validate"] = (int(m[1]), int(m[2]))
                continue
            if line == "No invalid queries found.":
                self.summaries["validate"] = (0, 0)
                continue
            m = re.match(r"L(\d+)\b", line)
            if m and where:
                where[2].append((int(m[1]), end))
                continue
            if where and where[2] and "invalid input" not in line.lower():
                where[2][-1] = (where[2][-1][0], where[2][-1][1] + end)  # a message may name a text of several lines
                continue
            self.other.append(line)

    @classmethod
    def printed(cls, text):
        return text.encode(cls.encoding, "backslashreplace").decode(cls.encoding)

    def path(self, name):
        # what the output's encoding has no characters for
        name = re.sub(r"\\(?:x([0-9a-f]{2})|u([0-9a-f]{4})|U([0-9a-f]{8}))", lambda m: chr(int(m[1] or m[2] or m[3], 16)), name)
        return os.path.normpath(os.path.join(self.cwd, name))

    def text(self):
        return "$ sqlvalidator {}   (exit code {})\n{}{}".format(
            " ".join(self.argv), self.code, self.out, self.err + (self.raised or "")
        )


def flags_of(case):
    return case["flags"]


def does(flags):
    """(formatting, writing, validating, verbose)"""
    return (
        "--format" in flags or "--check-format" in flags,
        "--format" in flags,
        "--validate" in flags or "--verbose-validate" in flags,
        "--verbose-validate" in flags,
    )


# -- comparing a file before and after -------------------------------------------------------------------------------


def show(text):
    return text if len(text) < 1500 else text[:700] + "\n...\n" + text[-700:]


def compare_file(file, before, after, formatting=True, values=True):
    """The only differences are those that formatting must make."""
    segments = file["segments"]
    expected = {}
    for index, info, no_format, _, _ in pygen.strings(file):
        if formatting and not no_format and is_changed(info):
            expected[index] = info
    newline = file["newline"]
    pos = 0
    # the original text, in pieces between the strings that change
    pieces = [""]
    changed = []
    for i, s in enumerate(segments):
        if i in expected:
            changed.append((i, expected[i]))
            pieces.append("")
        else:
            pieces[-1] += s[1]
    if newline == "mixed":
        text = "".join(s[1] if i not in expected else "\0" + "\n" * s[1].count("\n") for i, s in enumerate(segments))
        pieces = split_mixed(text, [segments[i][1].count("\n") for i, _ in changed])
    elif newline == "\r\n":
        pieces = [p.replace("\n", "\r\n") for p in pieces]

    def fail(what):
        raise Violation("{}\nbefore:\n{}\nafter:\n{}".format(what, show(before), show(after)))

    for piece, (index, info) in zip(pieces, changed + [(None, None)]):
        if after[pos : pos + len(piece)] != piece:
            got = after[pos : pos + len(piece)]
            at = next((i for i, (a, b) in enumerate(zip(piece, got)) if a != b), len(got))
            fail("text outside the SQL strings changed at character {}: {!r} became {!r}".format(
                pos + at, piece[at : at + 40], got[at : at + 40]))
        pos += len(piece)
        if index is None:
            break
        m = LITERAL.match(after, pos)
        if not m:
            fail("no string literal at character {}: {!r}".format(pos, after[pos : pos + 40]))
        pos = m.end()
        if values:
            check_literal(m, info, newline, fail)
    if pos != len(after):
        fail("text was added at the end: {!r}".format(after[pos : pos + 40]))
    if newline == "\r\n" and "\n" in before and re.search(r"(?<!\r)\n", after):
        fail("a line end changed its kind")
    if newline == "\n" and "\r" in after:
        fail("a line end changed its kind")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            trees = [ast.parse(text) for text in (before, after)]
        except (SyntaxError, ValueError) as e:
            fail("the file does not compile any more: {}".format(e))
    if skeleton(trees[0]) != skeleton(trees[1]):
        fail("the program changed")


def split_mixed(text, skipped):
    """The pieces of a file with mixed line ends (the same rule as pygen.with_newlines), cut at NUL."""
    lines = text.split("\n")
    out = "".join(l + ("\r\n" if i % 3 == 1 else "\n") for i, l in enumerate(lines[:-1])) + lines[-1]
    parts = out.split("\0")
    result = [parts[0]]
    for part, n in zip(parts[1:], skipped):
        # the line ends of the string itself
        for _ in range(n):
            part = part[2:] if part.startswith("\r\n") else part[1:]
        result.append(part)
    return result


def skeleton(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.Constant) and isinstance(node.value, (str, bytes)):
            node.value = type(node.value)()
            node.kind = None
    return ast.dump(tree)


def check_literal(m, info, newline, fail):
    value, quote = wanted(info)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = ast.literal_eval(m[0].replace("\r\n", "\n"))
        except (SyntaxError, ValueError) as e:
            fail("not a literal ({}): {!r}".format(e, m[0]))
    if isinstance(got, bytes):
        got = got.decode("latin-1")
    if got != value:
        fail("value {!r} instead of {!r}".format(got, value))
    if m[0].count("\n") != value.count("\n"):
        fail("the text's {} line breaks are not those of the literal: {!r}".format(value.count("\n"), m[0]))
    if m[1] != info["prefix"]:
        fail("the prefix {!r} became {!r}".format(info["prefix"], m[1]))
    if (m[2] or m[4]) != quote:
        fail("quote {!r} instead of {!r} in {!r}".format(m[2] or m[4], quote, m[0]))


# -- C20, C21, C24: one file -----------------------------------------------------------------------------------------


def scratch(encoding="utf-8"):
    Run.encoding = encoding
    path = os.path.join(os.environ["VERIF_SCRATCH"], "tree")
    shutil.rmtree(path, ignore_errors=True)
    os.mkdir(path)
    return path


def decode(file, data):
    """The text of the file's bytes."""
    encoding = file["encoding"]
    if encoding == "utf-8-sig" and not data.startswith(b"\xef\xbb\xbf"):
        raise Violation("the byte order mark is gone\n" + show(pygen.source(file)))
    try:
        return data.decode(encoding)
    except UnicodeDecodeError:
        raise Violation("the file is not in the encoding {} any more\n{}".format(encoding, show(pygen.source(file))))


class FileLeg(Leg):
    values = True
    quick = 14000
    thorough = 400000
    most = 5
    comment_percent = 25

    def gen(self, ch, tier):
        files = pygen.Files(ch)
        files.comment_percent = self.comment_percent
        files.sql_percent = ch.pick((70, 40, 95))
        return files.make(ch.between(1, self.most))

    def key(self, case):
        return pygen.source(case)

    def nontrivial(self, case):
        return any(True for _ in pygen.strings(case))

    def sample(self, case):
        return pygen.source(case)[:1500]

    def labels(self, case):
        found = {"newline " + json.dumps(case["newline"]), "encoding " + case["encoding"]}
        for i, info, no_format, no_validation, _ in pygen.strings(case):
            found.add("quote " + info["quote"])
            found.add("prefix " + info["prefix"])
            if no_format:
                found.add("marked nosqlformat")
            if no_validation:
                found.add("marked nosqlvalidation")
            if "\\" in case["segments"][i][1] and "r" not in info["prefix"].lower():
                found.add("escapes")
        kinds = [s[0] for s in case["segments"]]
        if "fstr" in kinds:
            found.add("f-string")
        if kinds.count("str") > 4:
            found.add("five strings or more")
        if kinds.count("str") > 30:
            found.add("more than 30 strings")
        return found

    def check(self, case):
        root = scratch()
        name = os.path.join(root, "a.py")
        data = pygen.encoded(case)
        with open(name, "wb") as f:
            f.write(data)
        mode = (0o644, 0o755, 0o600, 0o664)[len(data) % 4]
        os.chmod(name, mode)
        run = Run(["--format", name], root)
        if os.stat(name).st_mode & 0o7777 != mode:
            raise Violation("the permissions changed\n" + run.text())
        with open(name, "rb") as f:
            after = f.read()
        want = outcome(case, True, False)
        if run.raised:
            raise Violation("the run raised\n" + run.text())
        if want is None:
            self.observed = ["not supported"]
            if after != data:
                raise Violation("a file that can not be analysed was changed\n" + run.text())
            return
        n = len(want["changed"])
        self.observed = ["%d changed" % min(n, 3)]
        compare_file(case, decode(case, data), decode(case, after), True, self.values)
        self.more(case, run, n)

    def more(self, case, run, n):
        pass


class OnlySql(FileLeg):
    name = "only SQL strings"
    values = False


class Values(FileLeg):
    name = "formatted values"
    quick = 20000
    most = 3


class Marks(FileLeg):
    name = "marked strings"
    comment_percent = 60

    def nontrivial(self, case):
        return any(a or b for _, _, a, b, _ in pygen.strings(case))

    def more(self, case, run, n):
        want = ("reformatted", 1 if n else 0, n)
        if run.summaries.get("format") != want:
            raise Violation("summary {} instead of {}\n{}\n{}".format(
                run.summaries.get("format"), want, run.text(), show(pygen.source(case))))
        root = scratch()
        name = os.path.join(root, "a.py")
        with open(name, "wb") as f:
            f.write(pygen.encoded(case))
        want = outcome(case, False, True)
        if want is None:
            return
        run = Run(["--verbose-validate", name], root)
        lines = sorted(line for _, _, lines in run.invalid for line, _ in lines)
        if lines != sorted(line for line, _ in want["invalid"]):
            raise Violation("invalid queries reported in lines {} instead of {}\n{}\n{}".format(
                lines, [line for line, _ in want["invalid"]], run.text(), show(pygen.source(case))))
        # together: one mark says nothing about the other
        both = outcome(case, True, True)
        if both is None:
            return
        flags = ["--check-format", "--format"][len(both["changed"]) % 2]
        run = Run([flags, "--verbose-validate", name], root)
        lines = sorted(line for _, _, lines in run.invalid for line, _ in lines)
        if lines != sorted(line for line, _ in both["invalid"]) or sum(e[2] for e in run.changed) != len(both["changed"]):
            raise Violation("{} to change and lines {} invalid with {}\n{}\n{}".format(
                len(both["changed"]), [line for line, _ in both["invalid"]], flags, run.text(), show(pygen.source(case))))


# -- trees -----------------------------------------------------------------------------------------------------------

NAMES = ("a.py", "b.py", "c.py", "é.py", "a b.py", ".py", ".hidden.py", "test_sql.py", "__init__.py", "a.b.py", "x.py.py",
         "\udcff.py", "名前.py", "_x.py", "setup.py", "conftest.py", "A.py", "a_pb2.py", "-a.py", "~a.py", "0001_initial.py", "#a#.py", "a.test.py")
OTHER_NAMES = ("a.txt", "py", "b.pyc", "a.PY", "c.py.bak", "README", "d.pyi", "e.sql", "apy", "a.py~", "a.py ", "a.pyx", "a.Py", "a.ipynb", "a.py.", ".py.swp", "a.pyw", "a.py3")
DIRS = ("d", "e f", "pkg.py", ".d", "d1", "deep", "_d", "__pycache__", "tests", "venv", "node_modules", "build", "a.egg-info", "~", "-d", "migrations")
FLAGS = (
    ["--format"], ["--check-format"], ["--validate"], ["--verbose-validate"], ["--format", "--validate"],
    ["--check-format", "--validate"], ["--format", "--verbose-validate"], ["--check-format", "--verbose-validate"],
)  # fmt: skip
BAD = {
    "undecodable": b"x = 'select a, b from t'\ny = '\xff\xfe'\n",
    "open string": b"x = 'select a, b from t'\ny = '''select\n",
    "open bracket": b"x = 'select a, b from t'\ny = (\n",
    "dedent": b"def f():\n        x = 'select a, b from t'\n    y = 1\n",
    "NUL": b"x = 'select a, b from t'\ny = 1\0\n",
    "dangling link": None,
    "link to itself": None,
}


BAD_SQL = (
    "select (a from t", "select a from t where", "select " + "(" * 500 + "1" + ")" * 500, "select 'a", "select a b c from t",
    "select a from t limit", "select case when a from t", "select a from t order", "select a, from (",
)  # fmt: skip


def bad_sql(ch):
    """A file with a query that may be impossible to parse, among others."""
    sql = [ch.pick(BAD_SQL), "select a, b from t"]
    if ch.below(2):
        sql.reverse()
    segments = []
    for i, value in enumerate(sql):
        info = {"prefix": "", "quote": '"', "value": value}
        segments += [["code", "x%d = " % i], ["str", '"' + value + '"', info], ["code", "\n"]]
    return {"segments": segments, "newline": "\n", "encoding": "utf-8"}


MADE = 10**18  # when the files of a tree were last written


class TreeLeg(Leg):
    quick = 2400
    thorough = 80000
    all_flags = FLAGS
    bad_percent = 8
    broken = 2
    fancy_inputs = False

    def tree(self, ch):
        """{relative path: file}"""
        dirs = [""]
        many = ch.below(60) == 59  # a large tree of short files
        deep = many and ch.below(3) == 2
        for _ in range(ch.weighted(((3, 0), (3, 1), (2, 2), (1, 4))) if not many else ch.between(3, 25)):
            d = os.path.join(dirs[-1] if deep else ch.pick(dirs), ch.pick(DIRS))
            if d not in dirs:
                dirs.append(d)
        out = {}
        for _ in range(ch.between(1, 5) if not many else ch.between(10, 60)):
            bad = ch.chance(self.bad_percent)
            python = bad or ch.below(5) < 4
            path = os.path.join(ch.pick(dirs), ch.pick(NAMES if python else OTHER_NAMES))
            if path in out or path in dirs:
                continue
            if bad and ch.below(3) == 2:
                out[path] = bad_sql(ch)
            elif bad:
                out[path] = {"bad": ch.pick(sorted(BAD))}
            else:
                files = pygen.Files(ch, self.broken)
                files.sql_percent = ch.pick((70, 95, 10))
                files.small = many
                out[path] = files.make(1 if many else 2)
        return out, dirs

    def links(self, ch, files, dirs):
        """{path: the file or directory of the tree it is a symbolic link to}"""
        out = {}
        good = sorted(p for p in files if not (files[p].get("bad") or "").endswith(("link", "itself")))
        for _ in range(ch.weighted(((6, 0), (1, 1), (1, 2)))):
            if good and ch.below(4):
                path = os.path.join(ch.pick(dirs), ch.pick(NAMES if ch.below(4) else OTHER_NAMES))
                target = ch.pick(good)
            else:
                path = os.path.join(ch.pick(dirs), ch.pick(DIRS))
                target = ch.pick(dirs)
            if path not in files and path not in dirs and path not in out:
                out[path] = target
        return out

    def inputs(self, ch, files, dirs, links):
        """What is named on the command line, relative to the root of the tree."""
        if not self.fancy_inputs or ch.below(3) == 0:
            return [ch.pick((".", "", "./"))] if ch.below(3) else sorted(files)
        out = []
        for _ in range(ch.between(1, 4)):
            kind = ch.below(4)
            if kind == 3:
                path = ch.pick(("missing.py", "missing", "d/missing.py"))
            else:
                path = ch.pick(sorted(files)) if kind else ch.pick(dirs) or "."
                if links and ch.below(3) == 2:
                    path = ch.pick(sorted(links))
                    kind = 0 if links[path] in dirs else 1
                    if links[path] in dirs and ch.below(2) and any(os.path.dirname(f) == links[path] for f in files):
                        path = os.path.join(path, ch.pick([os.path.basename(f) for f in sorted(files) if os.path.dirname(f) == links[path]]))
                        kind = 1
            style = ch.below(6)
            if style == 1:
                path = "./" + path
            elif style == 2:
                path = "ROOT/" + path
            elif style == 3 and kind == 0:
                path += "/"
            elif style == 4 and [d for d in dirs if d]:
                d = ch.pick([d for d in dirs if d])
                path = os.path.join(d, *([".."] * (d.count("/") + 1)), path)
            elif style == 5 and kind == 0:
                path = "ROOT/" + path + "/."
            out.append(path)
            if ch.below(4) == 3:
                out.append(path)
        return out

    def gen(self, ch, tier):
        files, dirs = self.tree(ch)
        links = self.links(ch, files, dirs)
        return {
            "files": files,
            "dirs": dirs,
            "links": links,
            "inputs": self.inputs(ch, files, dirs, links),
            "flags": ch.pick(self.all_flags),
            "output": ch.weighted(((6, "utf-8"), (1, "ascii"), (1, "cp1252"))),
        }

    def labels(self, case):
        found = {" ".join(case["flags"]), "output in " + case["output"]}
        for f in case["files"].values():
            if f.get("bad"):
                found.add("bad: " + f["bad"])
        found.add("%d files" % len(case["files"]) if len(case["files"]) < 8 else "8 files or more")
        if len(case["dirs"]) > 1:
            found.add("directories")
        if len(case["inputs"]) > 1:
            found.add("several inputs")
        for target in case["links"].values():
            found.add("link to a directory" if target in case["dirs"] else "link to a file")
        return found

    def nontrivial(self, case):
        return any(not f.get("bad") and any(True for _ in pygen.strings(f)) for f in case["files"].values())

    def sample(self, case):
        return {
            "flags": case["flags"],
            "inputs": case["inputs"],
            "files": {p: f["bad"] if f.get("bad") else pygen.source(f)[:300] for p, f in case["files"].items()},
        }

    # -- the file system

    def build(self, case, skip=()):
        root = scratch(case.get("output", "utf-8"))
        for d in case["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for path, file in case["files"].items():
            if path in skip:
                continue
            name = os.path.join(root, path)
            bad = file.get("bad")
            if bad:
                if bad == "dangling link":
                    os.symlink("nowhere-" + os.path.basename(name), name)
                elif bad == "link to itself":
                    os.symlink(os.path.basename(name), name)
                else:
                    with open(name, "wb") as f:
                        f.write(BAD[bad])
            else:
                with open(name, "wb") as f:
                    f.write(pygen.encoded(file))
            if not os.path.islink(name):
                os.utime(name, ns=(MADE, MADE))
        for path, target in case["links"].items():
            if target not in skip:
                name = os.path.join(root, path)
                os.symlink(os.path.relpath(os.path.join(root, target), os.path.dirname(name)), name)
        return root

    @staticmethod
    def real(case, rel):
        """The file of the tree that a path, relative to its root, leads to."""
        for path, target in sorted(case["links"].items(), key=lambda item: len(item[0])):
            if rel == path or rel.startswith(path + "/"):
                return TreeLeg.real(case, os.path.normpath(os.path.join(target or ".", rel[len(path) + 1 :])))
        return rel

    @staticmethod
    def snapshot(root):
        out = {}
        for base, dirs, files in os.walk(root):
            for d in dirs:
                out[os.path.relpath(os.path.join(base, d), root) + "/"] = None
            for f in files:
                name = os.path.join(base, f)
                rel = os.path.relpath(name, root)
                if os.path.islink(name):
                    out[rel] = "-> " + os.readlink(name)
                else:
                    with open(name, "rb") as h:
                        out[rel] = h.read()
        return out

    @staticmethod
    def touched(root):
        """The files that were written or replaced since they were made."""
        out = []
        for base, _, files in os.walk(root):
            for f in files:
                name = os.path.join(base, f)
                if not os.path.islink(name) and os.stat(name).st_mtime_ns != MADE:
                    out.append(os.path.relpath(name, root))
        return sorted(out)

    def argv(self, case, root, flags=None):
        names = [i.replace("ROOT", root) if i.startswith("ROOT") else i or root for i in case["inputs"]]
        return (flags or case["flags"]) + ["--"] + names

    # -- the model

    def reached(self, case, root):
        """({relative path: file} to be analysed, number of inputs that do not exist)"""
        out, missing = {}, 0
        for i in self.argv(case, root)[len(case["flags"]) + 1 :]:
            path = os.path.normpath(os.path.join(root, i))
            rel = self.real(case, os.path.relpath(path, root))
            if rel == "." or rel in case["dirs"]:
                prefix = "" if rel == "." else rel + "/"
                for p, f in case["files"].items():
                    if p.startswith(prefix) and p.endswith(".py"):
                        out[p] = f
                for p, target in case["links"].items():
                    if p.startswith(prefix) and p.endswith(".py") and target in case["files"]:
                        out[target] = case["files"][target]
            elif rel in case["files"] and not (case["files"][rel].get("bad") or "").endswith(("link", "itself")):
                out[rel] = case["files"][rel]
            else:
                missing += 1
        return out, missing

    def outcome(self, case, path, flags):
        formatting, _, validating, _ = does(flags)
        return outcome(case["files"][path], formatting, validating)

    def verify(self, case, root, run, before, flags=None):
        """The run, the first one on this tree, did what the model says."""
        flags = flags or case["flags"]
        formatting, writing, validating, verbose = does(flags)
        after = self.snapshot(root)

        def fail(what):
            files = "\n".join(
                "--- {}\n{}".format(p, f["bad"] if f.get("bad") else show(pygen.source(f)))
                for p, f in case["files"].items()
            )
            raise Violation("{}\n{}{}".format(what, run.text(), files))

        if run.raised:
            fail("the run raised")
        files, missing = self.reached(case, root)
        want = {p: self.outcome(case, p, flags) for p in files}
        good = {p: o for p, o in want.items() if o is not None}
        # files
        if sorted(before) != sorted(after):
            fail("files came or went: {}".format(sorted(set(before) ^ set(after))))
        for p in before:
            if p in good and writing and good[p]["changed"]:
                try:
                    compare_file(case["files"][p], *(decode(case["files"][p], d[p]) for d in (before, after)))
                except Violation as v:
                    fail("{}: {}".format(p, v))
            elif before[p] != after[p]:
                fail("{} was changed".format(p))
        written = [p for p in self.touched(root) if not writing or p not in files]
        if written:
            fail("{} were written".format(written))
        # reports
        def names(entries):
            return sorted((self.real(case, os.path.relpath(e[0], root)),) + tuple(e[1:]) for e in entries)

        expected = names((os.path.join(root, p), len(o["changed"])) for p, o in good.items() if o["changed"])
        got = names(e[1:] for e in run.changed)
        if got != expected:
            fail("changed files {} instead of {}".format(got, expected))
        word = "reformatted" if writing else "would reformat"
        if any(e[0] != word for e in run.changed):
            fail("not all changed files are said to be {!r}".format(word))
        expected = names((os.path.join(root, p), len(o["invalid"])) for p, o in good.items() if o["invalid"])
        got = names(e[:2] for e in run.invalid)
        if got != expected:
            fail("invalid files {} instead of {}".format(got, expected))
        for path, _, lines in run.invalid:
            p = self.real(case, os.path.relpath(path, root))
            self.verify_lines(p, good[p]["invalid"] if verbose else [], lines, fail)
        expected = sorted(p for p, o in want.items() if o is None)
        got = sorted(self.real(case, os.path.relpath(p, root)) for p in run.bad)
        if got != expected:
            fail("files that can not be analysed: {} instead of {}".format(got, expected))
        # summaries
        n_files = sum(1 for o in good.values() if o["changed"])
        n_sql = sum(len(o["changed"]) for o in good.values())
        expected = ("reformatted" if writing else "would be reformatted", n_files, n_sql) if formatting else None
        if run.summaries.get("format") != expected:
            fail("format summary {} instead of {}".format(run.summaries.get("format"), expected))
        i_files = sum(1 for o in good.values() if o["invalid"])
        i_sql = sum(len(o["invalid"]) for o in good.values())
        expected = (i_files, i_sql) if validating else None
        if run.summaries.get("validate") != expected:
            fail("validation summary {} instead of {}".format(run.summaries.get("validate"), expected))
        code = 1 if ("--check-format" in flags and n_sql) or (validating and i_sql) else 0
        if run.code != code:
            fail("exit code {} instead of {}".format(run.code, code))
        if len(run.other) != missing:
            fail("{} inputs do not exist, but there are {} messages: {}".format(missing, len(run.other), run.other))
        if any("invalid input" not in line.lower() for line in run.other):
            fail("unexpected output {}".format(run.other))
        return {"files": n_files, "sql": n_sql, "invalid": i_sql, "bad": len(want) - len(good), "seen": len(want)}

    @staticmethod
    def verify_lines(p, want, got, fail):
        if len(want) != len(got):
            fail("{}: {} lines about errors instead of {}".format(p, len(got), len(want)))
        left = [(line, text.rstrip("\n")) for line, text in got]
        if not any(len(e.splitlines()) > 1 for _, errors in want for e in errors):
            for line, text in left:
                if len(text.splitlines()) > 1:
                    fail("{}: unexpected output {!r}".format(p, text))
        for line, errors in sorted(want, key=lambda w: -len(", ".join(w[1]))):
            errors = [Run.printed(e) for e in errors]
            found = [g for g in left if g[0] == line and all(g[1].count(e) >= errors.count(e) for e in errors)]
            if not found:
                fail("{}: no line reports {} in line {}: {}".format(p, errors, line, got))
            left.remove(max(found, key=lambda g: g[1].endswith(", ".join(errors))))

    def run(self, case, root, flags=None):
        before = self.snapshot(root)
        run = Run(self.argv(case, root, flags), root)
        self.stats = self.verify(case, root, run, before, flags)
        return run

    def check(self, case):
        root = self.build(case)
        self.run(case, root)
        s = self.stats
        self.observed = [k for k in s if s[k]] + (["several changed files"] if s["files"] > 1 else [])


class Inputs(TreeLeg):
    """C25"""

    name = "inputs"
    fancy_inputs = True
    quick = 7000
    thorough = 150000
    bad_percent = 3


class Validate(TreeLeg):
    """C27"""

    name = "validation"
    quick = 4500
    all_flags = [f for f in FLAGS if len(f) > 1 or "validate" in f[0]]

    def check(self, case):
        super().check(case)
        if len(case["flags"]) == 2 and self.stats["bad"] == 0:
            # each flag acts as alone
            both = Run(self.argv(case, self.build(case)), os.path.join(os.environ["VERIF_SCRATCH"], "tree"))
            for flag in case["flags"]:
                root = self.build(case)
                alone = Run(self.argv(case, root, [flag]), root)
                what = "format" if "format" in flag else "validate"
                if alone.summaries.get(what) != both.summaries.get(what):
                    raise Violation("together\n{}alone\n{}".format(both.text(), alone.text()))


class CheckNeverWrites(TreeLeg):
    """Whatever the other flags are."""

    name = "check never writes"
    quick = 1500
    thorough = 40000

    def gen(self, ch, tier):
        case = super().gen(ch, tier)
        flags = ["--check-format"]
        for _ in range(ch.between(0, 3)):
            flag = ch.pick(("--format", "--validate", "--verbose-validate", "--check-format", "--version", "--nonsense", "-f", "--form"))
            flags.insert(ch.below(len(flags) + 1), flag)
        case["flags"] = flags
        return case

    def check(self, case):
        root = self.build(case)
        before = self.snapshot(root)
        run = Run(self.argv(case, root), root)
        if before != self.snapshot(root) or self.touched(root):
            raise Violation("files changed: {}\n{}".format(self.touched(root), run.text()))
        self.observed = ["exit code {}".format(run.code)]


EXCLUSIVE = (("--format", "--check-format"), ("--validate", "--verbose-validate"))


class Flags(TreeLeg):
    """C30: flags before, behind or around the inputs, repeated; and refused command lines."""

    name = "flags"
    quick = 6000
    thorough = 40000

    def gen(self, ch, tier):
        case = super().gen(ch, tier)
        if any(i.startswith("-") or not i for i in case["inputs"]):
            case["inputs"] = ["."]
        kind = ch.weighted(((4, "order"), (1, "no flag"), (1, "no input"), (2, "exclusive"), (1, "unknown")))
        flags = list(case["flags"])
        if kind == "exclusive":
            flags += ch.pick(EXCLUSIVE)
            flags = list(dict.fromkeys(flags))
        elif kind == "unknown":
            flags.append(ch.pick(("--nonsense", "-x", "--fmt", "--checkformat", "--validate-verbose")))
        elif kind == "no flag":
            flags = []
        if kind != "no flag" and ch.below(3) == 2:
            flags.append(flags[0])
        for i in range(len(flags) - 1, 0, -1):
            j = ch.below(i + 1)
            flags[i], flags[j] = flags[j], flags[i]
        at = ch.below(len(flags) + 1)
        case["kind"] = kind
        case["around"] = [flags[:at], flags[at:]]
        return case

    def labels(self, case):
        return super().labels(case) | {"kind: " + case["kind"]}

    def check(self, case):
        root = self.build(case)
        before = self.snapshot(root)
        inputs = self.argv(case, root, ["--x"])[2:] if case["kind"] != "no input" else []
        run = Run(case["around"][0] + inputs + case["around"][1], root)
        self.observed = ["exit code {}".format(run.code)]
        if case["kind"] == "order":
            self.verify(case, root, run, before)
        elif run.raised or run.code != 2:
            raise Violation("exit code {} instead of 2\n{}".format(run.code, run.text()))
        elif run.out.strip() or before != self.snapshot(root) or self.touched(root):
            raise Violation("something was done\n{}".format(run.text()))


class CheckThenFormat(TreeLeg):
    """C22"""

    name = "check predicts format"
    quick = 3500
    fancy_inputs = True
    bad_percent = 3
    all_flags = [["--check-format"], ["--check-format"], ["--check-format", "--validate"], ["--check-format", "--verbose-validate"]]

    def check(self, case):
        root = self.build(case)
        before = self.snapshot(root)
        checked = Run(self.argv(case, root), root)
        middle = self.snapshot(root)
        if before != middle or self.touched(root):
            raise Violation("files changed: {}\n{}".format(
                sorted(p for p in set(before) | set(middle) if before.get(p) != middle.get(p)), checked.text()))
        flags = [f if f != "--check-format" else "--format" for f in case["flags"]]
        done = Run(self.argv(case, root, flags), root)
        after = self.snapshot(root)
        changed = sorted(p for p in before if before[p] != after.get(p))
        said = sorted(self.real(case, os.path.relpath(e[1], root)) for e in checked.changed)
        if changed != said:
            raise Violation("check names {}, format changes {}\n{}{}".format(said, changed, checked.text(), done.text()))
        if [e[1:] for e in checked.changed] != [e[1:] for e in done.changed]:
            raise Violation("different files or numbers\n{}{}".format(checked.text(), done.text()))
        if checked.summaries.get("format", (0, 0, 0))[1:] != done.summaries.get("format", (0, 0, 0))[1:]:
            raise Violation("different summaries\n{}{}".format(checked.text(), done.text()))
        if checked.summaries.get("format", (0, 0, 0))[1] != len(changed):
            raise Violation("{} files changed\n{}{}".format(len(changed), checked.text(), done.text()))
        invalid = checked.summaries.get("validate", (0, 0))[1]
        if checked.code != (1 if changed or invalid else 0):
            raise Violation("exit code {}\n{}".format(checked.code, checked.text()))
        # and the model agrees
        root = self.build(case)
        self.run(case, root)
        self.observed = ["changed"] if changed else ["nothing to change"]


class Converge(TreeLeg):
    """C23"""

    name = "sequences of runs"
    fancy_inputs = True
    bad_percent = 3
    quick = 3000

    def gen(self, ch, tier):
        case = super().gen(ch, tier)
        case["flags"] = ["--format"]
        case["runs"] = [ch.pick(FLAGS) for _ in range(ch.between(0, 3))]
        return case

    def check(self, case):
        root = self.build(case)
        # runs before the first --format change nothing, those after it neither
        formatted = False
        bad = None
        before = self.snapshot(root)
        for flags in case["runs"] + [["--format"], ["--format"], ["--check-format"]]:
            run = Run(self.argv(case, root, flags), root)
            if run.raised:
                raise Violation("the run raised\n" + run.text())
            after = self.snapshot(root)
            summary = run.summaries.get("format")
            if before != after:
                changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
                if formatted or "--format" not in flags:
                    raise Violation("{} changed again by\n{}{}".format(changed, run.text(), show(str(after.get(changed[0])))))
            elif formatted and summary is not None and summary[1:] != (0, 0):
                raise Violation("something left to do after --format\n{}".format(run.text()))
            if formatted and flags == ["--check-format"] and run.code != 0:
                raise Violation("exit code {}\n{}".format(run.code, run.text()))
            if flags in (["--format"], ["--check-format"]):
                if bad is not None and bad != sorted(run.bad):
                    raise Violation("after formatting, {} instead of {} can not be analysed\n{}".format(run.bad, bad, run.text()))
                bad = sorted(run.bad)
            if flags == ["--format"]:
                formatted = True
            before = after
        self.observed = ["%d runs" % (len(case["runs"]) + 3)]


@contextlib.contextmanager
def as_nobody():
    """Without the rights of root."""
    os.seteuid(NOBODY)
    try:
        yield
    finally:
        os.seteuid(0)


NOBODY = 65534


class Locked(TreeLeg):
    """C26: files that can not be read or written, for a user without the rights of root."""

    name = "locked files"
    quick = 700
    thorough = 20000
    broken = 2
    all_flags = tuple(FLAGS) + (["--format"], ["--format", "--validate"])

    def gen(self, ch, tier):
        case = super().gen(ch, tier)
        names = sorted(p for p, f in case["files"].items() if not f.get("bad"))
        case["locked"] = {p: ch.pick((0o000, 0o444, 0o444)) for p in names if ch.chance(40)}
        return case if case["locked"] else None

    def build(self, case, skip=()):
        root = super().build(case, skip)
        for base, _, names in os.walk(root):
            os.chown(base, NOBODY, -1)
            for name in names:
                rel = os.path.relpath(os.path.join(base, name), root)
                if rel in case["locked"]:
                    os.chmod(os.path.join(base, name), case["locked"][rel])
                else:
                    os.lchown(os.path.join(base, name), NOBODY, -1)
        return root

    def outcome(self, case, path, flags):
        formatting, writing, validating, _ = does(flags)
        want = super().outcome(case, path, flags)
        mode = case["locked"].get(path)
        if mode == 0 or (mode is not None and want and writing and want["changed"]):
            return None
        return want

    def check(self, case):
        try:
            scratch = os.environ["VERIF_SCRATCH"]
            for path in (scratch, os.path.dirname(scratch)):
                if path.startswith(tempfile.gettempdir() + "/"):
                    os.chmod(path, 0o755)
            root = self.build(case)
            with as_nobody():
                os.listdir(root)
        except PermissionError:
            self.observed = ["not possible here"]
            return
        before = self.snapshot(root)
        with as_nobody():
            run = Run(self.argv(case, root), root)
        self.stats = self.verify(case, root, run, before)
        self.observed = [k for k in self.stats if self.stats[k]]

    def nontrivial(self, case):
        return len(case["files"]) > 1


class Faults(TreeLeg):
    """C26"""

    name = "faulty files"
    bad_percent = 45
    broken = 10
    fancy_inputs = True

    def nontrivial(self, case):
        formatting, _, validating, _ = does(case["flags"])
        good = [outcome(f, formatting, validating) is not None for f in case["files"].values()]
        return any(good) and not all(good)

    def check(self, case):
        root = self.build(case)
        before = self.snapshot(root)
        run = Run(self.argv(case, root), root)
        self.stats = self.verify(case, root, run, before)
        after = self.snapshot(root)
        # the other files are treated as if the bad ones were not there
        formatting, _, validating, _ = does(case["flags"])
        bad = {p for p, f in case["files"].items() if outcome(f, formatting, validating) is None}
        alone_root = self.build(case, bad)
        alone = Run(self.argv(case, alone_root), alone_root)
        alone_after = self.snapshot(alone_root)
        for p in alone_after:
            if alone_after[p] != after.get(p):
                raise Violation("{} is treated differently without {}\n{}{}".format(p, sorted(bad), run.text(), alone.text()))
        if (run.summaries, run.code) != (alone.summaries, alone.code):
            raise Violation("different results without {}\n{}{}".format(sorted(bad), run.text(), alone.text()))
        self.observed = [k for k in self.stats if self.stats[k]]
