"""
Shared vocabulary of the checks.
"""
import collections
import hashlib
import json
import os
import random


class Violation(Exception):
    """
    the oracle of a check refuted the property.
    mechanism: key that is compared to the list of known findings
    """
    def __init__(self, message, mechanism=None):
        super(Violation, self).__init__(message)
        self.mechanism = mechanism


class Skip(Exception):
    "the case does not apply"


class Ctx(object):
    """
    what a check gets: counters for the evidence, scratch directories
    """
    def __init__(self, spec):
        self.spec = spec
        self.tier = spec["tier"]
        self.seed = spec["seed"]
        self.dir = spec["dir"]
        self.fs = os.path.join(spec["dir"], "fs")
        self.counters = collections.Counter()
        self.signatures = set()
        self.mined_ints = []
        self.mined_strings = []
        self.new_ints = []
        self.new_strings = []
        self._n = 0

    def count(self, key, n=1):
        self.counters[key] += n

    def sig(self, *parts):
        "note a distinct non-trivial case (or state, interleaving)"
        self.signatures.add(hashlib.blake2b(repr(parts).encode("utf-8", "surrogatepass"),
                                            digest_size=8).hexdigest())

    def fresh_dir(self, name=None):
        self._n += 1
        d = os.path.join(self.fs, name or "c%d" % self._n)
        os.mkdir(d)
        return d


def rng_for(spec, prop, i):
    return random.Random("%s/%s/%s/%d" % (spec["seed"], prop, spec["tier"], i))


def jsonable(x):
    if isinstance(x, bytes):
        return {"b": x.decode("latin-1")}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    return x


def unjson(x):
    if isinstance(x, dict):
        if set(x) == {"b"}:
            return x["b"].encode("latin-1")
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(y) for y in x]
    return x


def case_key(case):
    return json.dumps(jsonable(case), sort_keys=True)
