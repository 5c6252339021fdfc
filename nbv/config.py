"""An independent reading of the documented configuration language, and of
which paths a configuration selects from a file system tree."""
import ctypes
import locale
import re

from . import fs

POLICIES = {"[copy]": "copy", "[mirror]": "mirror", "[track]": "track",
            "[ignore]": "ignore", "[summarize]": "summarize"}

_libc = None


def _lib():
    global _libc
    if _libc is None:
        locale.setlocale(locale.LC_ALL, "C")
        _libc = ctypes.CDLL(None)
    return _libc


class Regex:
    """A POSIX extended regular expression."""
    cache = {}

    def __init__(self, text):
        lib = _lib()
        self.buf = ctypes.create_string_buffer(512)
        self.err = lib.regcomp(self.buf, text.encode("latin-1"), 1 | 8)
        self.memo = {}

    @classmethod
    def get(cls, text):
        r = cls.cache.get(text)
        if r is None:
            if len(cls.cache) > 5000:
                cls.cache.clear()
            r = cls.cache[text] = cls(text)
        return r

    def matches(self, s):
        m = self.memo.get(s)
        if m is None:
            if len(self.memo) > 5000:
                self.memo.clear()
            m = _lib().regexec(self.buf, s.encode("latin-1"), 0, None, 0) == 0
            self.memo[s] = m
        return m


class ConfigError(Exception):
    def __init__(self, line, what, other=None):
        super().__init__("%s: %s" % (line, what))
        self.line, self.what, self.other = line, what, other


class Node:
    def __init__(self, name, regex, line, parent):
        self.name, self.regex, self.line = name, regex, line
        self.parent = parent
        self.explicit = None
        self.policy_line = None
        self.subs = []

    @property
    def policy(self):
        n = self
        while n is not None:
            if n.explicit is not None:
                return n.explicit
            n = n.parent
        return "none"

    def matches(self, name):
        if self.regex is not None:
            return self.regex.matches(name)
        return self.name == name


class Config:
    def __init__(self):
        self.root = Node("/", None, 0, None)
        self.ignore = []        # (line, text, Regex)
        self.summarize = []


def split_path(path):
    """[(name, is_regex)] of a configured path."""
    res = []
    rest = path
    while rest:
        # The last element starts behind the last slash; if that slash has
        # slashes in front of it, the element is a regular expression.
        i = rest.rindex("/")
        j = i
        while j > 0 and rest[j - 1] == "/":
            j -= 1
        tail = rest[j + 1:]
        res.append((tail, rest[:j]))
        rest = rest[:j]
    res.reverse()
    out = []
    for tail, _ in res:
        if len(tail) >= 2 and tail[0] == "/":
            out.append((tail[1:], True))
        else:
            out.append((tail, False))
    return out


def parse(text):
    cfg = Config()
    if "\0" in text:
        raise ConfigError(0, "null-bytes")
    if text.startswith("\xef\xbb\xbf"):
        text = text[3:]
    current = None
    lines = text.split("\n")
    defined = {}
    for nr, line in enumerate(lines, 1):
        if line.strip(" \t") == "" or line.startswith("#"):
            continue
        if line in POLICIES:
            current = POLICIES[line]
            continue
        if line.startswith("[") and line.endswith("]"):
            raise ConfigError(nr, "invalid policy")
        if current is None:
            raise ConfigError(nr, "pattern without policy")
        if current in ("ignore", "summarize"):
            r = Regex.get(line)
            if r.err:
                raise ConfigError(nr, "regex")
            (cfg.ignore if current == "ignore" else
             cfg.summarize).append((nr, line, r))
            continue
        if not line.startswith("/"):
            raise ConfigError(nr, "invalid path")
        if len(re.findall("/+", line)) > 4096:
            raise ConfigError(nr, "too many elements")
        parts = split_path(line)
        if any(n in (".", "..") and not rx for n, rx in parts):
            raise ConfigError(nr, "contains \".\" or \"..\"")
        path = line.rstrip("/")
        parts = split_path(path) if path else []
        node = cfg.root
        key = ""
        for nm, rx in parts:
            key = key + ("//" if rx else "/") + nm
            sub = None
            for s in node.subs:
                if s.name == nm and (s.regex is not None) == rx:
                    sub = s
            if sub is None:
                r = None
                if rx:
                    r = Regex.get(nm)
                    if r.err:
                        raise ConfigError(nr, "regex")
                sub = Node(nm, r, nr, node)
                node.subs.append(sub)
            node = sub
        if node.explicit is not None:
            raise ConfigError(nr, "redefining", node.policy_line)
        node.explicit = current
        node.policy_line = nr
    return cfg


class Die(Exception):
    """The program is expected to terminate with an error."""

    def __init__(self, kind, what=""):
        super().__init__(kind + " " + what)
        self.kind = kind


class Found:
    __slots__ = ("path", "type", "policy", "node", "st", "subs")

    def __init__(self, path, typ, policy, node, st):
        self.path, self.type, self.policy = path, typ, policy
        self.node, self.st, self.subs = node, st, []


TYPES = {"f": "f", "d": "d", "l": "l"}


class Search:
    """Walks the tree; collects what matched."""

    def __init__(self, tree, cfg):
        self.tree, self.cfg = tree, cfg
        self.kids = {}
        for p in tree:
            if p != "/":
                self.kids.setdefault(fs.parent(p), []).append(fs.name(p))
        self.matched = {}          # id(Node) -> set of types
        self.ignored = set()       # lines of ignore rules that excluded a path
        self.found = []
        self.descend("/", "", cfg.root, cfg.root.policy, self.found)

    def listing(self, path):
        r = fs.resolve(self.tree, path, True)
        if r is None or r.startswith("!") or self.tree[r]["t"] != "d":
            raise Die("list", path)
        return sorted(self.kids.get(r, []))

    def descend(self, path, prefix, node, policy, out):
        """path: what to list; prefix: what found paths start with."""
        if node is not None and policy == "none" and \
                not any(s.regex is not None for s in node.subs):
            for s in node.subs:
                p = prefix + "/" + s.name
                r = fs.resolve(self.tree, p, False)
                if r is not None and r.startswith("!"):
                    raise Die("access", p)
                if r is None:
                    continue
                self.visit(p, s, s.policy, out)
            return
        for nm in self.listing(path):
            p = prefix + "/" + nm
            hits = [s for s in node.subs if s.matches(nm)] if node else []
            if len(hits) > 1:
                raise Die("ambiguous", p)
            if hits:
                self.visit(p, hits[0], hits[0].policy, out)
                continue
            if policy == "none":
                continue
            # Which of several matching ignore rules gets credited is not
            # specified: remember all of them.
            ign = [(ln, r) for ln, _, r in self.cfg.ignore if r.matches(p)]
            if ign:
                self.ignored.add(tuple(ln for ln, _ in ign))
                continue
            self.visit(p, None, policy, out)

    def visit(self, p, node, policy, out):
        if node is not None and node.subs:
            st = fs.stat(self.tree, p)
        else:
            st = fs.lstat(self.tree, p)
        if st is None:
            raise Die("stat", p)
        if node is not None:
            self.matched.setdefault(id(node), set()).add(st["t"])
        if st["t"] not in TYPES:
            return
        f = Found(p, st["t"], policy, node, st)
        out.append(f)
        if st["t"] == "d":
            self.descend(p, p, node, policy, f.subs)


def flatten(found):
    for f in found:
        yield f
        yield from flatten(f.subs)
