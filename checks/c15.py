"""C15 configurable properties take exactly the values given to them."""

import copy
import datetime
import pickle
import sys
import warnings

import numpy as np
import yaml

from vf.core import group

from caput import config
from caput.config import CaputConfigError, Property, Reader
from caput.memdata import fileformats
from caput.pipeline import extensions

RULE = (
    "random class hierarchies of properties of every kind, with defaults, renamed keys and overrides, "
    "read from random dictionaries (complete, partial, with unknown keys or refused values) and "
    "assigned to; every property of every instance is compared with a model; non-trivial when a "
    "property is read from a configuration; distinct by the classes and values"
)
ASSUMPTIONS = ["a property that overrides another one accepts no value the other one refuses"]

UNSET = object()


class Kind:
    """A kind of property: how to make it, good and refused values, and the conversion."""

    def __init__(self, name, make, good, bad, conv=lambda x: x, dflt=None):
        self.name, self.make, self.good, self.bad, self.conv, self.dflt = name, make, good, bad, conv, dflt or good


def k_int(c):
    return Kind("int", lambda d, **k: Property(proptype=int, default=d, **k), [0, 3, -7, "12", 4.9, True], [[1], None, {}], int)


def k_float(c):
    return Kind("float", lambda d, **k: Property(proptype=float, default=d, **k), [0, 2.5, "1e3", -1, float("inf")], [[1.0], None, {}], float)


def k_str(c):
    return Kind("str", lambda d, **k: Property(proptype=str, default=d, **k), ["", "a", 5, "x y"], [], str)


def k_bool(c):
    return Kind("bool", lambda d, **k: Property(proptype=bool, default=d, **k), [True, False, 0, "x", []], [], bool)


def k_list(c):
    return Kind("list", lambda d, **k: Property(proptype=list, default=d, **k), [[], [1, 2], (3,), "ab"], [5, None], list)


def k_dict(c):
    return Kind("dict", lambda d, **k: Property(proptype=dict, default=d, **k), [{}, {"a": [1]}], [5, None], dict)


def k_any(c):
    return Kind("any", lambda d, **k: Property(default=d, **k), [0, "", [], {"a": 1}, False, 5], [])


def k_func(c):
    def f(x):
        if x < 0:
            raise CaputConfigError("negative")
        return ("made", x)

    return Kind("func", lambda d, **k: Property(proptype=f, default=d, **k), [0, 1.5, 7], [-1, "x"], f)


def k_range(c):
    a, b = sorted([c.pick([-10, 0, 0.5, 2]), c.pick([1, 2.5, 360, 2])])
    mid = (a + b) / 2
    bad = [a - 0.01, b + 0.01, float("nan"), float("inf"), str(b + 1), -1e9]
    return Kind("range", lambda d, **k: config.float_in_range(a, b, default=d), [a, b, mid, str(mid)], [*bad, [1]], float)


def k_enum(c):
    opts = c.pick([["forward", "backward"], [1, 2, 3], ["a", 5, 2.5], ["x"], ["5", "2.5", "None", "True"]])
    bad = ["other", 99, None, "FORWARD", "", *(str(o) for o in opts if not isinstance(o, str)), *([o] for o in opts)]
    bad += [] if 5 in opts else [5, 2.5]
    bad += [o + " " for o in opts if isinstance(o, str)] + [o.title() for o in opts if isinstance(o, str) and o.title() not in opts]
    return Kind("enum", lambda d, **k: config.enum(opts, default=d), opts, bad)


def k_listtype(c):
    t = c.pick([None, int, str, (int, float)])
    length = c.pick([None, 1, 2, 3])
    maxl = c.pick([None, 1, 2, 4]) if length is None else c.pick([None, None, length, length + 2])
    el = {None: [1, "a", None], int: [1, 2, -3], str: ["a", "b", ""], (int, float): [1, 2.5, 3]}[t]
    n = length if length is not None else c.int(0, maxl if maxl is not None else 5)
    good = [[c.pick(el) for _ in range(n)], tuple(c.pick(el) for _ in range(n))]
    bad = [5, "a" * max(n, 1), None, {"a": 1}]
    if length is not None:
        bad += [[el[0]] * (length + 1), [el[0]] * (length - 1)]
    if maxl is not None:
        bad += [[el[0]] * (maxl + 1), [el[0]] * (maxl + 5)]
    if t is not None and (length is not None or maxl != 0):
        k = length or 1
        bad.append([el[0]] * (k - 1) + [None])
        bad.append(["s" if t is not str else 5, *[el[0]] * (k - 1)])
    return Kind("list_type", lambda d, **k: config.list_type(t, length=length, maxlength=maxl, default=d), good, bad)


def k_time(c):
    x = c.pick([0.0, 1.5e9, 1234567890.25])
    dt = datetime.datetime.fromtimestamp(x, datetime.timezone.utc)
    good = [x, np.float64(x), dt, dt.replace(tzinfo=None)]
    if x == 1.5e9:
        good.append("20170714T024000")
    return Kind("utc_time", lambda d, **k: config.utc_time(default=d), good, [None, {"a": 1}], lambda v: x)


def k_logging(c):
    def conv(v):
        v = {"root": v} if isinstance(v, str) else v
        return {k: x.upper() for k, x in v.items()}

    good = ["DEBUG", "info", {"root": "WARNING"}, {"a.b": "error", "root": "NotSet"}, {}]
    return Kind("logging", lambda d, **k: config.logging_config(default=d), good, ["loud", {"root": "x"}, 5, ["INFO"]], conv)


def k_format(c):
    def conv(v):
        return v if isinstance(v, type) else {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[v.lower()]

    good = ["hdf5", "zarr", "HDF5", "Zarr", fileformats.HDF5, fileformats.Zarr]
    return Kind("format", lambda d, **k: extensions.file_format(default=d), good, ["netcdf", 5, "", ["zarr"], int], conv)


KINDS = [k_int, k_float, k_str, k_bool, k_list, k_dict, k_any, k_func, k_range, k_enum, k_listtype, k_time, k_logging, k_format]
PLAIN = {"int", "float", "str", "bool", "list", "dict", "any", "func"}
NAMES = ["alpha", "beta", "gamma", "_delta", "Eps", "zeta_"]


def equal(a, b):
    if isinstance(b, float) and isinstance(a, float | np.floating):
        return float(a) == b
    return type(a) is type(b) and a == b


def hierarchy(c):
    """Classes (base first) with the model {name: (kind, key, default)} of each."""
    classes, models = [], []
    mixin = c.chance(0.3)
    for lvl in range(c.int(1, 3)):
        model = dict(models[-1]) if models else {}
        ns = {}
        used = {k for _, k, _ in model.values()}
        for name in NAMES:
            if not c.chance(0.45):
                continue
            if name in model:
                if not c.chance(0.5):
                    continue
                # Override with the same kind and key, but another default
                kind, key, _ = model[name]
                if kind.name not in PLAIN and key != name:
                    continue
            else:
                kind = c.pick(KINDS)(c)
                key = name
                if kind.name in PLAIN and c.chance(0.3):
                    key = c.pick([f"key_{name}", f"{name} key", name.upper()])
            if name not in model and key in used:
                continue
            d = c.pick(kind.dflt) if c.chance(0.7) else UNSET
            if kind.name == "logging" and d is UNSET:
                d = {}
            kw = {"key": key} if key != name else {}
            ns[name] = kind.make(copy.deepcopy(None if d is UNSET else d), **kw)
            model[name] = (kind, key, d)
            used.add(key)
        if c.chance(0.2):
            ns["plain"] = 36
        bases = (classes[-1],) if classes else ((Reader,) if not mixin else (type("Mix", (), {"q": 1}), Reader))
        cls = type(f"L{lvl}", bases, ns)
        cls.__module__ = __name__
        classes.append(cls)
        models.append(model)
    return classes, models


def expect(model, values):
    out = {}
    for name, (kind, _, d) in model.items():
        v = values.get(name, UNSET)
        if v is UNSET:
            v = d
            # A property without a default is None
            out[name] = None if v is UNSET else kind.conv(v)
        else:
            out[name] = kind.conv(v)
    return out


def verify(c, obj, model, values, msg):
    for name, w in expect(model, values).items():
        g = getattr(obj, name)
        c.check(equal(g, w), f"{msg}: {name} ({model[name][0].name}) is {g!r}, expected {w!r}")


@group(quick=1200, thorough=20000)
def reading(c):
    classes, models = hierarchy(c)
    i = c.int(0, len(classes) - 1)
    cls, model = classes[i], models[i]
    conf, values = {}, {}
    for name, (kind, key, _) in model.items():
        if c.chance(0.6):
            values[name] = c.pick(kind.good)
            conf[key] = copy.deepcopy(values[name])
    extra = [f"x{j}" for j in range(c.int(0, 2))] if c.chance(0.4) else []
    if c.chance(0.2):
        # the name of a property with another key is not a key
        extra += [n for n, (k, key, _) in model.items() if key != n and n not in conf][:1]
    conf.update({x: 1 for x in extra})
    known = [k for _, k, _ in model.values()]
    c.note(cls=str({n: (k.name, key, repr(d)) for n, (k, key, d) in model.items()}), conf=repr(conf))
    mode = c.pick(["plain", "plain", "compare", "list", "nodefaults", "from_config"])
    other = cls()
    keep = copy.deepcopy(conf)
    listed = [x for x in extra if c.chance(0.6)] + (["unrelated"] if c.chance(0.3) else [])
    if mode == "list" and not listed:
        listed = ["unrelated"]
    fail = (
        (mode == "compare" and bool(extra))
        or (mode == "list" and bool(set(extra) - set(listed)))
        or (mode == "nodefaults" and bool(set(known) - set(conf)))
    )
    obj = cls()
    verify(c, obj, model, {}, "before reading")
    if mode == "from_config":
        obj = cls.from_config(conf)
    else:
        kw = {"plain": {}, "compare": {"compare_keys": True}, "list": {"compare_keys": listed}, "nodefaults": {"use_defaults": False}}[mode]
        if fail:
            err = c.raises(CaputConfigError, obj.read_config, conf, **kw, msg=f"unused or missing keys with {kw}")
            wrong = set(known) - set(conf) if mode == "nodefaults" else set(extra) - set(listed if mode == "list" else [])
            c.check(all(w in str(err) for w in wrong), f"the error {err!s} does not name {wrong}")
            c.nontrivial(mode, repr(conf))
            return
        obj.read_config(conf, **kw)
    verify(c, obj, model, values, f"after reading ({mode})")
    verify(c, other, model, {}, "another instance")
    c.check(repr(conf) == repr(keep), "the configuration was changed")
    if c.chance(0.3):
        # Subclasses process the configuration once it has been read
        seen = []
        sub = type("Final", (cls,), {"_finalise_config": lambda self: seen.append(copy.deepcopy({n: getattr(self, n) for n in model}))})
        fin = sub.from_config(copy.deepcopy(conf)) if c.chance(0.5) else sub()
        if not seen:
            fin.read_config(copy.deepcopy(conf))
        verify(c, fin, model, values, "with processing")
        c.check(len(seen) == 1 and repr(seen[0]) == repr({n: getattr(fin, n) for n in model}), f"processing saw {seen}")
    # Assignment converts as well
    for name, (kind, _, _) in model.items():
        if c.chance(0.3):
            values[name] = c.pick(kind.good)
            setattr(obj, name, copy.deepcopy(values[name]))
    verify(c, obj, model, values, "after assignment")
    # A second configuration only changes what it gives
    name = c.pick(sorted(model)) if model else None
    if name:
        values[name] = c.pick(model[name][0].good)
        obj.read_config({model[name][1]: copy.deepcopy(values[name])})
        verify(c, obj, model, values, "after reading again")
    verify(c, other, model, {}, "another instance")
    # Instances of the other classes are not affected
    for k, m in zip(classes, models):
        verify(c, k(), m, {}, f"a new {k.__name__}")
    if c.chance(0.3) and not any(k.name == "func" for k, _, _ in model.values()):
        sys.modules[__name__].__dict__[cls.__name__] = cls
        verify(c, pickle.loads(pickle.dumps(obj)), model, values, "after pickling")  # noqa: S301
        verify(c, copy.deepcopy(obj), model, values, "a deep copy")
    if conf:
        c.nontrivial(repr(conf), str(sorted(model)), mode)


@group(quick=4000, thorough=40000)
def refusing(c):
    """Values of the wrong kind are refused and leave the property as it was."""
    kind = c.pick(KINDS)(c)
    d = c.pick(kind.good) if c.chance(0.5) else None
    if kind.name == "logging" and d is None:
        d = {}
    try:
        prop = kind.make(copy.deepcopy(d))
    except Exception as e:  # noqa: BLE001
        c.fail(f"a valid default {d!r} of {kind.name} is refused: {e!r}")
    cls = type("Cls", (Reader,), {"p": prop})
    obj = cls()
    want = None if d is None else kind.conv(d)
    if not kind.bad:
        return
    c.note(kind=kind.name, default=repr(d), bad=repr(kind.bad))
    for b in kind.bad:
        if c.chance(0.3):
            v = c.pick(kind.good)
            obj.p = copy.deepcopy(v)
            want = kind.conv(v)
        how = c.pick(["config", "set"])
        if how == "set":
            err = c.raises(Exception, setattr, obj, "p", b, msg=f"{kind.name} accepts {b!r}")
        else:
            err = c.raises(Exception, obj.read_config, {"p": b}, msg=f"{kind.name} accepts {b!r}")
            if isinstance(err, TypeError):
                c.fail(f"a value of the wrong type gives a bare {err!r} rather than CaputConfigError")
        if kind.name in ("range", "enum", "list_type", "format") and not (kind.name == "range" and how == "set"):
            c.check(isinstance(err, CaputConfigError), f"{kind.name} refuses {b!r} with {err!r}")
        c.check(equal(obj.p, want), f"{kind.name}: value {obj.p!r} after a refused {b!r}, expected {want!r}")
        if kind.name in ("enum", "list_type") and b not in (None, [], ()) and b:
            c.raises(ValueError, kind.make, b, msg=f"{kind.name} accepts the default {b!r}")
        c.count("refused")
    # What is allowed is taken
    for v in kind.good:
        obj.p = copy.deepcopy(v)
        c.check(equal(obj.p, kind.conv(v)), f"{kind.name}: {obj.p!r} after setting {v!r}")
    c.nontrivial(kind.name, repr(kind.bad), repr(d))


@group(quick=150, thorough=1500)
def deprecated(c):
    """Only the use of a deprecated property warns."""
    flags = {n: c.chance(0.5) for n in NAMES[: c.int(1, 4)]}
    cls = type("Dep", (Reader,), {n: Property(proptype=int, default=i, deprecated=f) for i, (n, f) in enumerate(flags.items())})
    conf = {n: c.pick([10 + i, i]) for i, n in enumerate(flags) if c.chance(0.5)}
    c.note(flags=str(flags), conf=str(conf))

    def warned(f):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = f()
        return [x for x in w if issubclass(x.category, FutureWarning)], r

    w, obj = warned(lambda: cls.from_config(conf))
    need = [n for n in conf if flags[n]]
    c.check(len(w) == len(need), f"{len(w)} warnings while reading {conf} with deprecated {flags}")
    c.check(all(any(f"`{n}`" in str(x.message) for x in w) for n in need), "the warning names the property")
    for i, (n, f) in enumerate(flags.items()):
        w, v = warned(lambda n=n: getattr(obj, n))
        c.check(len(w) == int(f), f"reading {n} (deprecated {f}) warned {len(w)} times")
        c.check(v == conf.get(n, i), f"{n} is {v}")
        w, _ = warned(lambda n=n: setattr(obj, n, "77"))
        c.check(len(w) == int(f) and obj.__dict__ and warned(lambda n=n: getattr(obj, n))[1] == 77, f"setting {n}")
    c.nontrivial(str(flags), str(conf))


def nested(c, depth=0):
    k = c.int(0, 6 if depth < 3 else 4)
    if k <= 3:
        return c.pick([1, 2.5, "text", None, True, [], {}, "2020-01-01x", -3])
    if k == 4:
        return [c.pick([1, "a"]) for _ in range(c.int(0, 3))]
    if k == 5:
        return {f"k{i}": nested(c, depth + 1) for i in range(c.int(0, 3))}
    return [nested(c, depth + 1) for _ in range(c.int(0, 3))]


@group(quick=200, thorough=3000)
def yamldocs(c):
    """Documents read with line numbers are the same documents."""
    doc = {f"s{i}": nested(c) for i in range(c.int(0, 5))}
    s = yaml.dump(doc, default_flow_style=c.pick([True, False, None]), sort_keys=c.chance(0.5))
    if c.chance(0.3):
        s += "base: &b {a: 1, b: 2}\nderived:\n  <<: *b\n  b: 3\n"
        doc = {**doc, "base": {"a": 1, "b": 2}, "derived": {"a": 1, "b": 3}} if doc else None
        if doc is None:
            return
    if s.startswith("{") and "base" in s:
        return
    c.note(doc=s)
    got = yaml.load(s, Loader=config.SafeLineLoader)  # noqa: S506
    c.check(got == yaml.safe_load(s) == doc, f"{got} != {doc}")
    c.check(yaml.safe_load(yaml.safe_dump(got)) == doc, "dumping the document again")
    lines = []

    def walk(node, val):
        if isinstance(node, yaml.MappingNode):
            lines.append((node.start_mark.line + 1, config.CaputConfigError("m", location=val).line))
            keys = {}
            for k, v in node.value:
                keys[k.value] = v
            for k, v in val.items():
                if k in keys:
                    walk(keys[k], v)
        elif isinstance(node, yaml.SequenceNode):
            for n, v in zip(node.value, val):
                walk(n, v)

    if "<<" not in s:
        walk(yaml.compose(s), got)
        c.check(all(a == b for a, b in lines), f"line numbers {lines} (actual, reported)")
        c.count("blocks", len(lines))
    if doc:
        c.nontrivial(s)
