"""Configuration schemas: loading, access paths, alternatives selected by the discriminators."""

import itertools
import pathlib

import yaml

from sa.repo import AnalysisBroken, ROOT, PKG
from sa.term import is_const, cval, children

ANY = "*"
MAX_ALT = 4096


class _Loader(yaml.SafeLoader):
    pass


def _include(loader, node):
    return load_file(pathlib.Path(loader.base) / loader.construct_scalar(node))


_Loader.add_constructor("!include", _include)


def load_file(path):
    if not path.is_file():
        raise AnalysisBroken(f"schema not found: {path}")
    with open(path, encoding="utf8") as fid:
        ld = _Loader(fid)
        ld.base = path.parent
        try:
            return ld.get_single_data()
        except yaml.YAMLError as ex:
            raise AnalysisBroken(f"cannot parse {path}: {ex}") from None
        finally:
            ld.dispose()


def load(name):
    return load_file(ROOT / PKG / "data" / name)


def types(node):
    t = node.get("type")
    return None if t is None else ({t} if isinstance(t, str) else set(t))


def domain(node):
    """Finite set of the values of a leaf (None: not finite)."""
    t = types(node)
    if "const" in node:
        return [node["const"]]
    if "enum" in node:
        return [v for v in node["enum"] if t is None or (v is None) == ("null" in t and v is None)]
    if t is not None and t <= {"boolean", "null"}:
        return ([True, False] if "boolean" in t else []) + ([None] if "null" in t else [])
    return None


def merge(a, b):
    """Conjunction of two schema nodes."""
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif k == "required":
            out[k] = list(dict.fromkeys(list(out[k]) + list(v)))
        elif k == "properties":
            p = dict(out[k])
            for x, y in v.items():
                p[x] = merge(p[x], y) if x in p else y
            out[k] = p
        elif k in ("items", "additionalProperties") and isinstance(v, dict) and isinstance(out[k], dict):
            out[k] = merge(out[k], v)
        elif k == "type":
            t = types(out) & types(b)
            out[k] = sorted(t)
        elif k == "enum":
            out[k] = [x for x in out[k] if x in v]
        elif k == "allOf":
            out[k] = list(out[k]) + list(v)
    return out


def selects(cond, vals):
    """Condition of an if node for given values of the properties (None: unknown)."""
    res = True
    for k, c in cond.get("properties", {}).items():
        if k not in vals:
            return None
        v = vals[k]
        ok = (v == c["const"]) if "const" in c else (v in c["enum"]) if "enum" in c else None
        if ok is None:
            return None
        res = res and ok
    return res


def discriminators(node):
    out = []
    for a in node.get("allOf", []):
        for k in a.get("if", {}).get("properties", {}):
            if k not in out:
                out.append(k)
    return out


def alternatives(node, allowed=lambda key, val: True):
    """Schema nodes for all the values of the discriminators: [(values, node)].

    allowed(key, value): False if the path excludes this value of the discriminator.
    """
    node = dict(node)
    disc = discriminators(node)
    plain = [a for a in node.get("allOf", []) if "if" not in a]
    cond = [a for a in node.get("allOf", []) if "if" in a]
    node.pop("allOf", None)
    for a in plain:
        node = merge(node, a)
    if not disc:
        return [({}, node)]
    doms = []
    for k in disc:
        d = domain(node.get("properties", {}).get(k, {}))
        if d is None:
            raise AnalysisBroken(f"selector without finite domain: {k}")
        doms.append(d)
    out = []
    for vals in itertools.product(*doms):
        vals = dict(zip(disc, vals))
        cur = node
        for a in cond:
            s = selects(a["if"], vals)
            if s is None:
                raise AnalysisBroken("condition of the schema not resolved")
            part = a.get("then") if s else a.get("else")
            if part:
                cur = merge(cur, part)
        ok = all(allowed(k, v) for k, v in vals.items())
        for k, v in vals.items():
            d = domain(cur.get("properties", {}).get(k, {}))
            if "const" in cur["properties"][k] and cur["properties"][k]["const"] != v or d is not None and v not in d:
                ok = False
        if ok:
            cur = dict(cur)
            cur["properties"] = dict(cur["properties"])
            for k, v in vals.items():
                cur["properties"][k] = merge(cur["properties"][k], {"enum": [v]}) if "enum" in cur["properties"][k] else dict(cur["properties"][k], enum=[v])
            out.append((vals, cur))
    if len(out) > MAX_ALT:
        raise AnalysisBroken("too many alternatives in the schema")
    return out


def child(node, key):
    """Schema node of an entry (None: not described)."""
    if key is ANY or not isinstance(key, str):
        if isinstance(node.get("items"), dict):
            return node["items"]
        if isinstance(node.get("additionalProperties"), dict):
            return node["additionalProperties"]
        return None
    p = node.get("properties", {})
    if key in p:
        return p[key]
    a = node.get("additionalProperties")
    return a if isinstance(a, dict) else None


def nodes(schema, path, allowed=lambda prefix, key, val: True):
    """Schema nodes of an access path (selectors applied), for the alternatives that describe it."""
    cur = [n for _, n in alternatives(schema, lambda k, v: allowed((), k, v))]
    for i, key in enumerate(path):
        pre = tuple(path[:i + 1])
        nxt, seen = [], []
        for n in cur:
            c = child(n, key)
            if c is not None and c not in seen:
                seen.append(c)
                nxt += [x for _, x in alternatives(c, lambda k, v: allowed(pre, k, v))]
        cur = nxt
    return cur


def every_path(schema):
    """All the described entries: {path: [nodes]}."""
    out = {}

    def rec(path, node):
        for _, n in alternatives(node):
            out.setdefault(path, []).append(n)
            for k, c in n.get("properties", {}).items():
                rec(path + (k,), c)
            for k in ("items", "additionalProperties"):
                if isinstance(n.get(k), dict):
                    rec(path + (ANY,), n[k])
    rec((), schema)
    return out


class Locator:
    """Access path of a value in the inputs."""

    def __init__(self, roots):
        self.roots = roots
        self.memo = {}

    def locs(self, t):
        """Set of (schema name, path) of a value; empty: not an entry of an input."""
        if t.cid in self.memo:
            return self.memo[t.cid]
        self.memo[t.cid] = set()
        out = self._locs(t)
        self.memo[t.cid] = out
        return out

    def _locs(self, t):
        if t.op == "sym":
            r = self.roots.get(t.args[0])
            return set() if r is None else {r}
        if t.op == "phi":
            return self.locs(t.args[1]) | self.locs(t.args[2])
        if t.op == "item":
            b, k = t.args
            if b.op == "elem" and self._view(b.args[0]) == "items":
                src = self._base(b.args[0])
                if is_const(k) and cval(k) == 1:
                    return {(r, p + (ANY,)) for r, p in self.locs(src)}
                return set()
            if is_const(k) and isinstance(cval(k), str):
                return {(r, p + (cval(k),)) for r, p in self.locs(b)}
            return {(r, p + (ANY,)) for r, p in self.locs(b)}
        if t.op == "elem":
            v = self._view(t.args[0])
            if v == "items" or v == "keys":
                return set()
            if v == "values":
                return {(r, p + (ANY,)) for r, p in self.locs(self._base(t.args[0]))}
            return {(r, p + (ANY,)) for r, p in self.locs(t.args[0])}
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("copy.deepcopy", "copy.copy", "builtins.dict", "builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and t.args[1]:
            return self.locs(t.args[1][0])
        return set()

    def _call(self, t):
        if t.op == "call":
            f = t.args[0]
            if f.op in ("attr", "bmeth") and f.args[1] in ("items", "keys", "values"):
                return f.args[1], f.args[0]
        return None

    def _view(self, t):
        c = self._call(t)
        return c[0] if c else None

    def _base(self, t):
        return self._call(t)[1]


def uses(loc, t, seen):
    """All the input locations in a term (seen: set of cids, shared)."""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.cid in seen:
            continue
        seen.add(x.cid)
        out |= loc.locs(x)
        stack.extend(children(x))
    return out
