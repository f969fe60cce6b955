"""Sets whose iteration order is a per-rank choice of the simulator.

Real MPI ranks are separate Python processes, each with its own hash seed, so
iterating one and the same set of bytes/str objects gives a different order on
every rank.  All simulated ranks share one interpreter; these subclasses bring
that nondeterminism back under the simulator's control: the order is a pure
function of (salt of the rank that iterates, elements), independent of
PYTHONHASHSEED.
"""

import io
import pickle
import zlib

_current_salt = lambda: None  # noqa: E731  (set by sim.core)
_stats = {"permuted_iterations": 0}


def set_salt_provider(func):
    global _current_salt
    _current_salt = func


def _ordered(raw):
    items = list(raw)
    if len(items) < 2:
        return items
    salt = _current_salt()
    keyed = [(repr(x), x) for x in items]
    keyed.sort(key=lambda t: t[0])
    if salt is None:
        return [x for _, x in keyed]
    _stats["permuted_iterations"] += 1
    keyed.sort(key=lambda t: zlib.crc32(t[0].encode(), salt))
    return [x for _, x in keyed]


class _Meta(type):
    base: type = object

    def __instancecheck__(cls, obj):
        return isinstance(obj, cls.__mro__[-2])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls.__mro__[-2])


def _wrap(cls, names):
    for name in names:
        if not hasattr(cls.__mro__[-2], name):
            continue

        def method(self, *args, _orig=getattr(cls.__mro__[-2], name), **kw):
            res = _orig(self, *args, **kw)
            return order(res)

        method.__name__ = name
        setattr(cls, name, method)


_NEW = [
    "copy", "union", "intersection", "difference", "symmetric_difference",
    "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__",
]  # fmt: skip


class SimSet(set, metaclass=_Meta):
    __slots__ = ()

    def __iter__(self):
        return iter(_ordered(set.__iter__(self)))

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def __reduce__(self):
        return (set, (sorted(set.__iter__(self), key=repr),))

    def __repr__(self):
        return repr(set(set.__iter__(self)))


class SimFrozenSet(frozenset, metaclass=_Meta):
    __slots__ = ()

    def __iter__(self):
        return iter(_ordered(frozenset.__iter__(self)))

    def __reduce__(self):
        return (frozenset, (sorted(frozenset.__iter__(self), key=repr),))

    def __repr__(self):
        return repr(frozenset(frozenset.__iter__(self)))


_wrap(SimSet, _NEW)
_wrap(SimFrozenSet, _NEW)


def _rebuild(frozen, items):
    return SimFrozenSet(items) if frozen else SimSet(items)


class Pickler(pickle.Pickler):
    """For messages between ranks: the receiver's sets are under simulator control too."""

    def reducer_override(self, obj):
        t = type(obj)
        if t is SimSet:
            return (_rebuild, (False, sorted(set.__iter__(obj), key=repr)))
        if t is SimFrozenSet:
            return (_rebuild, (True, sorted(frozenset.__iter__(obj), key=repr)))
        return NotImplemented


def dumps(obj, protocol=5):
    f = io.BytesIO()
    Pickler(f, protocol).dump(order(obj))
    return f.getvalue()


def loads(data):
    return order(pickle.loads(data))


def order(res):
    """Bring a plain set produced by repository code under simulator control."""
    t = type(res)
    if t is set:
        return SimSet(res)
    if t is frozenset:
        return SimFrozenSet(res)
    return res
