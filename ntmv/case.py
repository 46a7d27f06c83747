"""One execution of one workload: seeded randomness, observed violations, coverage counters."""
import hashlib
import random
import traceback
from collections import Counter

from . import env


class Violation(Exception):
    """Raised by a workload that cannot usefully continue after what it saw."""


class HarnessError(Exception):
    pass


class Case(object):
    def __init__(self, prop, tier, seed, idx):
        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        h = hashlib.sha256(("%s|%s|%s" % (prop, seed, idx)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        random.seed(int.from_bytes(h[8:16], "big"))
        self.v = []
        self.n = Counter()
        self.keys = set()      # digests of distinct non-trivial things this case exercised
        self.log = []          # the operations, for replays
        self.known = []        # known findings seen
        self.thorough = tier == "thorough"

    def bad(self, msg):
        if len(self.v) < 20:
            self.v.append(msg)

    def check(self, cond, msg):
        self.n["checks"] += 1
        if not cond:
            self.bad(msg() if callable(msg) else msg)
        return cond

    def note(self, *what):
        if len(self.log) < 400:
            self.log.append(what if len(what) > 1 else what[0])

    def key(self, obj):
        from .spec import digest
        self.keys.add(digest(obj))

    def order(self):
        """An iteration-order seed (0: whatever the hash gives)."""
        return self.rng.choice([0, self.rng.randint(1, 10**6)])

    def must(self, what, f, *a, **k):
        """Call code under test that must not raise here."""
        try:
            return f(*a, **k)
        except Exception as ex:
            self.bad("%s raised %s: %s at %s" % (what, type(ex).__name__, str(ex)[:300], where(ex)))
            raise Violation()

    def must_raise(self, what, f, *a, **k):
        """Call code under test that must refuse with its model error."""
        self.n["refusals_expected"] += 1
        try:
            r = f(*a, **k)
        except env.ModelException:
            return True
        except Exception as ex:
            self.bad("%s: expected a ModelException, got %s: %s at %s" % (what, type(ex).__name__, str(ex)[:200], where(ex)))
            return False
        self.bad("%s: accepted (returned %s), expected a ModelException" % (what, str(r)[:120]))
        return False


def where(ex):
    fr = traceback.extract_tb(ex.__traceback__)
    mine = [f for f in fr if f.filename.startswith(env.REPO)]
    f = (mine or fr)[-1]
    return "%s:%s %s" % (f.filename.rsplit("/", 1)[-1], f.lineno, f.name)


def in_code_under_test(ex):
    return any(f.filename.startswith(env.REPO) for f in traceback.extract_tb(ex.__traceback__))


def run_case(fn, prop, tier, seed, idx):
    c = Case(prop, tier, seed, idx)
    try:
        fn(c)
    except Violation:
        pass
    except Exception as ex:
        if not in_code_under_test(ex):
            if not isinstance(ex, (LookupError, TypeError, AttributeError, ValueError)):
                raise HarnessError(traceback.format_exc())
            # What the code returned has not the shape its callers read: no key, no such attribute, not a list.
            c.bad("a result could not be read: %s: %s at %s" % (type(ex).__name__, str(ex)[:300], where(ex)))
            c.note("traceback", traceback.format_exc()[-1500:])
            return c
        c.bad("unexpected %s: %s at %s" % (type(ex).__name__, str(ex)[:300], where(ex)))
        c.note("traceback", traceback.format_exc()[-1500:])
    return c
