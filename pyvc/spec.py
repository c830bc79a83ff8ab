"""Contracts: specifications attached to functions of /repo by name, outside the repository."""
from __future__ import annotations

import functools
import importlib
import inspect
import types

from . import values as V


class Missing(Exception):
    """The function a contract is about does not exist (any more)."""


def resolve(target):
    """The underlying function of 'module:Class.attr' and its owner class."""
    mod, _, path = target.partition(":")
    try:
        obj = importlib.import_module(mod)
    except ImportError as e:
        raise Missing(f"{target}: {e}")
    owner = None
    for part in path.split("."):
        if part.startswith("__") and not part.endswith("__") and isinstance(obj, type):
            part = f"_{obj.__name__.lstrip('_')}{part}"
        found = None
        if isinstance(obj, type):
            for c in obj.__mro__:
                if part in c.__dict__:
                    found = c.__dict__[part]
                    break
            if found is None:
                raise Missing(target)
            owner, obj = obj, found
        else:
            if not hasattr(obj, part):
                raise Missing(target)
            obj = getattr(obj, part)
    return underlying(obj), owner


def underlying(obj):
    if isinstance(obj, property):
        return obj.fget
    if isinstance(obj, (staticmethod, classmethod)):
        return obj.__func__
    if type(obj).__name__ in ("cached_property", "threaded_cached_property") and hasattr(obj, "func"):
        return obj.func
    while hasattr(obj, "__wrapped__"):
        obj = obj.__wrapped__
    return obj


class Contract(object):
    def __init__(self, target, params=None, result="none", props=(), assumed=None, assert_mode="prove", opaque=True,
                 symbol=None, setter=False, variant="", loops=None, ignore_args=(), expand=None, custom=None, unfold=(1, 2),
                 max_paths=300, budget=60.0, inline_args=None, note="", modifies=None, track=False, frame=True, creates=False, views=None):
        self.target = target
        self.variant = variant
        self.params = dict(params or {})
        self.result = result
        self.props = list(props)
        self.assumed = assumed
        self.assert_mode = assert_mode
        self.opaque = opaque
        self.requires, self.ensures_, self.raises, self.raise_posts = [], [], [], []
        self.heap_free = False    # the result depends on immutable fields only
        self.symbol = symbol or target.split(":")[1]
        self.setter = setter
        self.loops = loops or {}
        self.ignore_args = set(ignore_args)
        self.expand, self.custom = expand, custom
        self.unfold = unfold
        self.max_paths = max_paths
        self.budget = budget
        self.note = note
        self.modifies = modifies  # [("Class.field", None or specification function giving the object, or a list of them)]
        self.creates = creates    # the result is a new object, and no existing one is changed
        self.track = track        # follow which stored (cached) values are outdated
        self.views = views or {}  # {"module:Class.attr": fn(eng, args, kwargs, node)}: what calls of it answer, in this proof
        self.frame = frame        # show that nothing outside ``modifies`` changes
        self.checks = []      # engine-level post-conditions: fn(eng, frame_binding, result)
        self.hints = []
        self.for_callers = None   # post-conditions proved by variants, for call sites
        self.setup = None     # fn(eng) -> (args, kwargs, binding)

    @property
    def name(self):
        return self.target.split(":")[1] + (f" [{self.variant}]" if self.variant else "")

    # decorators
    def pre(self, label):
        def deco(fn):
            self.requires.append((label, fn))
            return fn

        return deco

    def post(self, label, props=None):
        def deco(fn):
            self.ensures_.append((label, fn))
            return fn

        return deco

    def post_on_raise(self, label):
        def deco(fn):
            self.raise_posts.append((label, fn))
            return fn

        return deco

    def check(self, label):
        def deco(fn):
            self.checks.append((label, fn))
            return fn

        return deco

    def hint(self, fn):
        """Instances of proved lemmas for the proof of the post-conditions: fn(eng, binding, result)."""
        self.hints.append(fn)
        return fn

    def arrange(self, fn):
        self.setup = fn
        return fn

    def raising(self, exc, label):
        """The function raises ``exc`` exactly when the condition holds (on entry)."""

        def deco(fn):
            self.raises.append((exc, label, fn))
            return fn

        return deco

    @property
    def ensures(self):
        return self.ensures_ if self.for_callers is None else self.for_callers

    def function(self):
        f, _ = resolve_setter(self.target) if self.setter else resolve(self.target)
        return f

    def signature(self, func):
        return inspect.signature(func)

    def result_kind(self, binding, eng):
        return self.result(binding, eng) if callable(self.result) else self.result


def resolve_setter(target):
    mod, _, path = target.partition(":")
    obj = importlib.import_module(mod)
    parts = path.split(".")
    for p in parts[:-1]:
        obj = getattr(obj, p)
    a = obj.__dict__[parts[-1]]
    if not isinstance(a, property) or a.fset is None:
        raise Missing(target)
    return a.fset, obj


class Lemma(object):
    """A consequence of contracts, proved on its own: a specification function over symbolic arguments."""

    def __init__(self, name, params, fn, props, assumes=(), unfold=(2, 3), budget=60.0):
        self.name, self.params, self.fn, self.props = name, params, fn, list(props)
        self.assumes = list(assumes)
        self.unfold = unfold
        self.budget = budget


class Registry(object):
    def __init__(self):
        self.contracts = []
        self.lemmas = []
        self.custom = []      # (props, name, fn): other proof units: fn(reporter)
        self.by_func = None
        self.missing = []

    def add(self, *a, **k):
        c = Contract(*a, **k)
        self.contracts.append(c)
        self.by_func = None
        return c

    def lemma(self, name, props, assumes=(), unfold=(2, 3), **params):
        def deco(fn):
            self.lemmas.append(Lemma(name, params, fn, props, assumes, unfold))
            return fn

        return deco

    def unit(self, name, props):
        def deco(fn):
            self.custom.append((list(props), name, fn))
            return fn

        return deco

    def index(self):
        if self.by_func is None:
            self.by_func = {}
            self.missing = []
            for c in self.contracts:
                try:
                    f = c.function()
                except Missing as e:
                    self.missing.append((c, str(e)))
                    continue
                except Exception as e:
                    self.missing.append((c, f"{type(e).__name__}: {e}"))
                    continue
                if c.opaque and c.variant == "":
                    self.by_func[f] = c
        return self.by_func

    def for_function(self, func, args):
        try:
            return self.index().get(func)
        except TypeError:
            return None


class Schema(object):
    def __init__(self):
        self.fields = {}
        self.classes = {}
        self.consts = {}
        self.allocate = {}
        self.tracked = set()     # classes whose cached values depend on fields that change

    def cls(self, c, allocate=False, **fields):
        self.classes[c.__name__] = c
        self.fields.setdefault(c.__name__, {}).update(fields)
        self.allocate[c.__name__] = allocate


R = Registry()
S = Schema()


def engine_level(fn):
    """A specification written against the interpreter (quantifiers over all objects, effect traces...)."""
    fn.engine_level = True
    return fn


def each(fn):
    """A ``modifies`` target: every object ``each`` that satisfies the specification function."""
    fn.each = True
    return fn
