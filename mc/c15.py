"""C15: the class database is a stable bijection between classes and dense labels.

sequences: Alphabet: get_label / add / get_class / is_empty / set_empty (with the truth) over a
few classes (equal instances, empty ones, colliding hashes), plain and compressed, and
lookups that fail.  Bound: every operation sequence up to a length.
Oracle: a list of classes in order of appearance; membership of everything (known and
unknown classes, labels around the range, foreign objects) after every operation.

searches: the database of every search of the menu, with plain and compressed classes; all
calls are watched (first appearances), everything is compared after every work packet.
"""

import copy
import itertools
import json

from mc import kit
from mc import universe as U
from mc.common import Chooser, RandomSeam, Result, SubCheck, Violation, in_library, short_tb
from mc.kit import K, KB, lang, tuplify

from comb_spec_searcher.class_db import ClassDB
from comb_spec_searcher.exception import SpecificationNotFound

LEVEL = "model_checking"
TECHNIQUE = "stateless exhaustive exploration of operation sequences on the real ClassDB, against a list model"
NOTE = "Every sequence of operations within the bounds is replayed on the real object; all observations after each step."
RULE = "every operation sequence; outcome = (order of appearance, emptiness asked)"
ASSUMPTIONS = ["equal classes have equal bytes (contract of to_bytes)"]


class KHash(K):
    """Every class has the same hash."""

    def __hash__(self):
        return 7


class KPair(K):
    """Not compressible: to_bytes exists, from_bytes does not, and is never needed."""


class KZ(KB):
    """Compressed, colliding hashes, and bytes containing nul and long runs."""

    def to_bytes(self):
        return json.dumps([self.kind, self.stats, self.tag]).encode() + b"\0" * 40

    @classmethod
    def from_bytes(cls, b):
        return super().from_bytes(b.rstrip(b"\0"))

    def __hash__(self):
        return 7


TYPES = {"plain": K, "hash": KHash, "bytes": KB, "padded": KZ}

SPECS = [
    (lang("ab", "", ("aa",)), (), ""),
    (lang("ab", "aa", ("aa",)), (), ""),  # empty
    (lang("ab", "", ("aa",)), (("k", "a"),), ""),
    (lang("ab", "", ("aa",)), (), "x"),
    (lang("ab", "bb", ("b",)), (), "x"),  # empty
    (lang("ab", "", ("bb",)), (), ""),  # never added when n <= 5
]


def make(typ, i):
    """A fresh instance."""
    kind, stats, tag = SPECS[i]
    return TYPES[typ](tuplify(json.loads(json.dumps(kind))), stats, tag)


class Other:
    pass


def check_state(db, typ, known, asked, n):
    """Everything observable, against the list of indices `known`."""
    m = len(known)
    # labels and integers around them
    for i in (-m - 1, -m, -2, -1, 0, 1, 2, 3, 4, 5, m, m + 1, 10**9, 10**30):
        want = 0 <= i < m
        if (i in db) != want:
            return f"({i} in db) is {i in db} with {m} classes"
    for i in range(n + 1):
        want = i in known
        if (make(typ, i) in db) != want:
            return f"(class {i} in db) is {not want}"
    for other in ("0", "", None, 0.5, (0,), b"", Other(), kit.Word("a"), K):
        if other in db:
            return f"({other!r} in db) is True"
    if list(db) != list(range(m)):
        return f"labels {list(db)} with {m} classes"
    for lab, i in enumerate(known):
        c = db.get_class(lab)
        if c != make(typ, i) or type(c) is not TYPES[typ]:
            return f"get_class({lab}) = {c!r}, stored {make(typ, i)!r}"
        if db.get_label(make(typ, i)) != lab:
            return f"get_label(class {i}) = {db.get_label(make(typ, i))}, first label {lab}"
        if db.get_label(lab) != lab:
            return f"get_label({lab}) = {db.get_label(lab)}"
        c = db.get_class(make(typ, i))
        if c != make(typ, i):
            return f"get_class(class {i}) = {c!r}"
    for lab, i in enumerate(known):
        if asked == "all" or i in asked:
            want = make(typ, i).is_empty()
            if db.is_empty(make(typ, i), lab) is not want or db.is_empty(make(typ, i)) is not want:
                return f"is_empty(class {i}) is not {want}"
    if list(db) != list(range(m)):
        return "asking added a class"
    return None


def apply_op(db, op, typ, known, asked):
    """Returns a message when the operation itself answers wrongly."""
    k = op[0]
    if k == "label":
        got = db.get_label(make(typ, op[1]))
        if op[1] not in known:
            known.append(op[1])
        if got != known.index(op[1]) or not isinstance(got, int):
            return f"label {got}, should be {known.index(op[1])}"
    elif k == "add":
        db.add(make(typ, op[1]))
        if op[1] not in known:
            known.append(op[1])
    elif k == "class":
        got = db.get_class(make(typ, op[1]))
        if op[1] not in known:
            known.append(op[1])
        if got != make(typ, op[1]):
            return f"got {got!r}"
    elif k == "empty":
        # the class itself, with its label, or the label twice
        if op[1] not in known:
            return None
        lab = known.index(op[1])
        want = make(typ, op[1]).is_empty()
        asked.add(op[1])
        if op[2] == "class":
            got = db.is_empty(make(typ, op[1]))
        elif op[2] == "both":
            got = db.is_empty(make(typ, op[1]), lab)
        else:
            got = db.is_empty(lab, lab)
        if got is not want:
            return f"got {got}, the class says {want}"
    elif k == "set":
        if op[1] not in known:
            return None
        asked.add(op[1])
        key = make(typ, op[1]) if op[2] else known.index(op[1])
        db.set_empty(key, make(typ, op[1]).is_empty())
    elif k == "lookup":
        # labels nobody has: a KeyError, and nothing happens
        for f in (db.get_class, db.get_label):
            try:
                f(len(known) + op[1])
            except KeyError:
                continue
            return f"the unknown label {len(known) + op[1]} was accepted"
    elif k == "foreign":
        for f in (db.get_label, db.add, db.get_class):
            try:
                f("no class")
            except (TypeError, KeyError, ValueError, AssertionError):
                continue
            return "a string was accepted"
    elif k == "read":
        db.status()
        list(db)
        for x in known:
            make(typ, x) in db
    else:
        raise ValueError(op)
    return None


def judge(typ, ops, n, res):
    known, asked = [], set()
    try:
        db = ClassDB(TYPES[typ])
        msg = check_state(db, typ, known, asked, n) if not ops else None
        for j, op in enumerate(ops):
            m = apply_op(db, op, typ, known, asked)
            if m:
                msg = f"{op}: {m}"
                break
        if not msg:
            msg = check_state(db, typ, known, asked, n)
        if not msg:
            msg = check_state(db, typ, known, "all", n)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.add("transitions", len(ops))
    if msg:
        res.violation("classdb", f"{typ}, after {list(ops)}: {msg}", {"typ": typ, "n": n, "ops": [list(o) for o in ops]})
    else:
        res.outcome(repr((known, sorted(asked))))


def alphabet(n, kind):
    if kind == "core":
        out = [("label", i) for i in range(n)] + [("add", i) for i in range(n)]
        out += [("empty", i, h) for i in range(min(n, 2)) for h in ("class", "both", "label")]
        out += [("lookup", 0), ("foreign",)]
    else:
        out = [("label", i) for i in range(n)] + [("class", i) for i in range(n)]
        out += [("empty", i, "both") for i in range(n)]
        out += [("set", i, h) for i in range(n) for h in (False, True)]
        out += [("lookup", 0), ("lookup", 1), ("read",)]
    return out


SEQ = {
    "quick": [(3, "core", 4), (5, "more", 3)],
    "thorough": [(3, "core", 5), (5, "more", 4), (2, "core", 6)],
}


def gen(tier):
    for n, kind, length in SEQ[tier]:
        alpha = alphabet(n, kind)
        for typ in TYPES:
            for i in range(len(alpha)):
                yield {"n": n, "kind": kind, "length": length, "typ": typ, "first": i}


def run(b):
    res = Result()
    if "ops" in b:
        judge(b["typ"], tuple(tuple(o) for o in b["ops"]), b["n"], res)
        return res
    alpha = alphabet(b["n"], b["kind"])
    first = (alpha[b["first"]],)
    if b["first"] == 0:
        judge(b["typ"], (), b["n"], res)
    for k in range(b["length"]):
        for rest in itertools.product(alpha, repeat=k):
            judge(b["typ"], first + rest, b["n"], res)
            if len(res.violations) > 5:
                return res
    res.sample(f"{b['typ']}: all sequences of length {b['length']} starting with {first[0]}")
    return res


# ----------------------------------------------------------------------------------
# The database of a search
# ----------------------------------------------------------------------------------


class Watch:
    """Records the first appearances of the classes handed to a database."""

    CALLS = ("get_label", "get_class", "add", "set_empty")

    def __init__(self, db):
        self.db = db
        self.seen = {}
        for label in list(db):
            self.meet(db.get_class(label))
        for name in self.CALLS:
            setattr(db, name, self.watched(getattr(db, name)))

    def stop(self):
        for name in self.CALLS:
            delattr(self.db, name)

    def meet(self, key):
        # a copy that shares nothing with the class of the search
        if isinstance(key, K) and key not in self.seen:
            self.seen[type(key)(key.kind, key.stats, key.tag)] = len(self.seen)

    def watched(self, call):
        def f(key, *args, **kwargs):
            self.meet(key)
            return call(key, *args, **kwargs)

        return f

    def check(self, emptiness):
        db, m = self.db, len(self.seen)
        if list(db) != list(range(m)):
            raise Violation(f"labels {list(db)} after {m} classes")
        for c, label in self.seen.items():
            if c not in db or label not in db:
                raise Violation(f"{c!r} or its label {label} is not in the database")
            if db.get_label(c) != label:
                raise Violation(f"label {db.get_label(c)} for class number {label}: {c!r}")
            got = db.get_class(label)
            if got != c or type(got) is not type(c):
                raise Violation(f"class {got!r} for the label {label} of {c!r}")
        for other in (m, m + 1, -1, -m, K(lang("ab", "aba", ("bab",)), (), "unknown")):
            if other in db:
                raise Violation(f"{other!r} is in the database of {m} classes")
        if emptiness:
            other = copy.deepcopy(db)
            for c, label in self.seen.items():
                if other.is_empty(c, label) is not c.is_empty() or other.is_empty(c) is not c.is_empty():
                    raise Violation(f"cached emptiness of {c!r} is {not c.is_empty()}")
        return m


def judge_search(cfg, res):
    try:
        searcher = U.make_searcher(cfg)
        clock = U.SearchClock()
        watch = Watch(searcher.classdb)

        def check(number):
            watch.stop()
            res.add("states", watch.check(number is None or number < 8))
            return Watch(searcher.classdb)

        def hook(number, wp=None):
            nonlocal watch
            seen = watch.seen
            watch = check(number)
            watch.seen = seen
            clock.packet(number, wp)

        searcher.classqueue.hook = hook
        with clock, RandomSeam(Chooser()):
            try:
                searcher.auto_search()
            except SpecificationNotFound:
                pass
            finally:
                searcher.classqueue.hook = None
        check(None)
    except Violation as e:
        res.violation("search", f"{cfg}: {e}", {"cfg": cfg})
    except Exception as e:
        if not in_library(e):
            raise
        res.violation("crash", f"{cfg}: {short_tb(e)}", {"cfg": cfg})
    res.add("executions")


def gen_search(tier):
    cfgs = [c for c in U.configs(tier) if not c.get("compress")]
    n = max(1, len(cfgs) // 12)
    for i in range(n):
        yield {"cfgs": cfgs[i::n]}


def run_search(b):
    res = Result()
    for cfg in b.get("cfgs", ()):
        for compress in (False, True):
            judge_search(dict(cfg, compress=compress), res)
        if len(res.violations) > 5:
            break
    if "cfg" in b:
        judge_search(b["cfg"], res)
    else:
        res.sample(f"{b['cfgs'][0]}, plain and compressed")
    return res


SUBCHECKS = {"sequences": SubCheck(gen, run, None, 900), "searches": SubCheck(gen_search, run_search, None, 150)}
BOUNDS = {t: str(SEQ[t]) for t in SEQ}
