"""Shared by the witness searches: scratch space, case counting, generators, constants of the current source."""
import ast
import glob
import json
import os
import random
import shutil
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")


class Stop(Exception):
    """Enough failures, or the time is up."""


class Witness:
    def __init__(self, prop, seed, seconds, scratch=None):
        self.prop, self.seed, self.t0 = prop, seed, time.time()
        self.deadline = self.t0 + seconds
        self.rng = random.Random(seed)
        self.scratch = tempfile.mkdtemp(prefix="w-", dir=scratch)
        self.count, self.distinct, self.failures, self.samples, self.known = 0, set(), [], [], []
        self.n = 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self):
        """A fresh path (not created) in the scratch space."""
        self.n += 1
        return os.path.join(self.scratch, "d%d" % self.n)

    def mkdir(self):
        d = self.dir()
        os.mkdir(d)
        return d

    def rmdir(self, d):
        assert d.startswith(self.scratch)
        shutil.rmtree(d, ignore_errors=True)

    def more(self):
        return time.time() < self.deadline

    def time_share(self, share):
        """True when more than the given share of the time is used up."""
        return time.time() > self.t0 + share * (self.deadline - self.t0)

    def case(self, key, nontrivial=True):
        """Count one evaluation."""
        self.count += 1
        if nontrivial:
            self.distinct.add(hash(repr(key)))
        if len(self.samples) < 5 and self.rng.random() < 0.3:
            self.samples.append(repr(key)[:300])

    def fail(self, what, inp):
        self.failures.append({"what": what, "input": inp})
        if len(self.failures) >= 3:
            raise Stop()

    def check(self, ok, what, inp):
        if not ok:
            self.fail(what, inp)
        return ok


def source_constants(files=None):
    """String and int constants of the current source: seeds for the generators."""
    strs, ints = set(), set()
    for p in glob.glob(os.path.join(REPO, "ocfl", "*.py")):
        if files and os.path.basename(p) not in files:
            continue
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except (SyntaxError, OSError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 60:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 10 ** 9:
                    ints.add(n.value)
    return sorted(strs), sorted(ints)


def unicode_dec_digits():
    return ["\u0661", "\u0967", "\uff11", "\u0e51", "\U0001d7cf"]


WEIRD = ["", " ", "a", "Z", "0", "9", "é", "\u00e9\u0301", "\u2028", "\n", "\r", "\t", "\x00", "\x7f", "\x85", "/", "\\", ".", "..", "-", "_", ":",
         "%", "%2e", "%s", "+", "*", "?", "[", "]", "{", "}", "'", '"', "\u00df", "\u0130", "\ufeff", "\U0001F600", "\ud7ff", "v1", "content"]


def word(rng, maxlen=6, alphabet="abcXYZ019-_. éß%"):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(1, maxlen)))


def text(rng, n=6):
    return "".join(rng.choice(WEIRD) if rng.random() < 0.5 else word(rng, 3) for _ in range(rng.randint(0, n)))
