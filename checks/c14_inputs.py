"""C14: what an input says is what the simulation uses, and what it writes back."""
import contextlib
import io
import json
import os
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from vf import confgen as cg
from vf import simgen as sg
from vf.core import sub_seed

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitor: generated documents with known content are read, written and read again by the real input classes; every value is compared with the generator's own record, and mutated (invalid) documents must be refused"
NOTE = "Three layers: random input schemas with every data type; every field of every motion/thermostat/barostat/forcefield/ensemble class that matters in a mode; whole simulations in random layouts, as XML and JSON, with and without templates."
RULE = "each evaluation is one value, one document or one refusal compared with the generator's record; distinct counts distinct (class, mode, field) or (type, layout) keys"
ASSUMPTIONS = ["floats are written with 16 digits in these runs (floatformat), 9 by default", "strings contain no commas or brackets inside arrays and dictionaries, as the input format cannot express them"]
REQUIRE = {"value": 1000, "rewritten": 1000, "refused": 200, "kept": 300, "document": 30, "template": 4}
TIMEOUT = {"quick": 200, "thorough": 900}

RT = 1e-13
UT = 1e-4  # unit conversions are the business of C12


# ---------------------------------------------------------------- generators
def ws(rng, newline=True):
    return "".join(rng.choice(list(" \t\n" if newline else " \t"), int(rng.integers(0, 4))))


def float_text(rng):
    v = float(rng.choice([0.0, 1.0, -1.0])) if rng.random() < 0.1 else float(rng.normal() * 10.0 ** int(rng.integers(-12, 12)))
    r = rng.random()
    if r < 0.4:
        t = repr(v)
    elif r < 0.6:
        t = "%.12e" % v
    elif r < 0.75:
        t = ("%+.8E" % v)
    elif r < 0.85:
        t = "%d" % int(rng.integers(-1000, 1000))
    elif r < 0.92:
        t = "%d." % int(rng.integers(-1000, 1000))
    else:
        t = "-.5e+2"
    return t, float(t)


WORDS = ["a", "Xy_z", "some-file.xyz", "/tmp/x y/z.dat", "a=b", "1", "1.5", "True", "path:with:colons", "potential(units=ev)", "x&y", "p<q", "r>s", 'say "hi"', "it's", "100%", "äö", "#no comment", "back\\slash"]
SIMPLE = ["a", "Xy_z", "file.xyz", "H", "O2", "x&y", "p<q", "100%", "1a", "back\\slash", "v.1-2"]


def value(rng, typ, opts=None):
    """(text, value) for one scalar; text is not XML-escaped."""
    if opts is not None:
        v = opts[int(rng.integers(len(opts)))]
        return ws(rng) + str(v) + ws(rng), v
    if typ is float:
        t, v = float_text(rng)
    elif typ is int:
        v = int(rng.integers(-10**9, 10**9))
        t = ("+%d" % v) if v > 0 and rng.random() < 0.3 else str(v)
    elif typ is bool:
        v = bool(rng.random() < 0.5)
        t = str(v)
        t = [t, t.lower(), t.upper()][int(rng.integers(3))]
    elif typ is str:
        v = str(rng.choice(WORDS))
        t = v
    elif typ is tuple:
        v = tuple(int(x) for x in rng.integers(-5, 50, int(rng.integers(1, 5))))
        t = "(" + ",".join(ws(rng) + str(x) + ws(rng) for x in v) + ")"
    elif typ is dict:
        v = {}
        parts = []
        for k in rng.permutation(["k", "l1", "long_key", "x0"])[: int(rng.integers(1, 5))]:
            w = [int, float, bool, str][int(rng.integers(4))]
            if w is str:
                a = b = str(rng.choice(["abc", "file.xyz", "a.b/c", "p<q", "u:v"]))
            else:
                a, b = value(rng, w)
                if w is float and float(b) == int(float(b)) and "." not in a and "e" not in a.lower():
                    b = int(a)
            v[str(k)] = b
            parts.append(ws(rng) + str(k) + ws(rng) + ":" + ws(rng) + a + ws(rng))
        t = "{" + ",".join(parts) + "}"
    return ws(rng) + t + ws(rng), v


def array(rng, typ, n=None):
    n = int(rng.integers(0, 14)) if n is None else n
    items = []
    vals = []
    for _ in range(n):
        if typ is str:
            b = str(rng.choice(SIMPLE))
            a = b if rng.random() < 0.8 else "'" + b + "'"
        else:
            a, b = value(rng, typ)
        items.append(ws(rng) + a.strip() + ws(rng))
        vals.append(b)
    return ws(rng) + "[" + ",".join(items) + "]" + ws(rng), vals


def eq(a, b, tol=RT):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(eq(a[k], b[k], tol) and type(a[k]) is type(b[k]) for k in b)
    if isinstance(b, (list, np.ndarray)):
        a = np.asarray(a)
        b = np.asarray(b)
        if b.size == 0:
            return a.size == 0
        if a.shape != b.shape:
            return False
        if b.dtype.kind in "US":
            return bool(np.all(a == b))
        return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol * np.abs(np.asarray(b, float))))
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if isinstance(b, int):
        return isinstance(a, (int, np.integer)) and not isinstance(a, bool) and int(a) == b
    if isinstance(b, float):
        return isinstance(a, (float, np.floating)) and abs(float(a) - b) <= tol * abs(b)
    return a == b


def full_precision():
    import ipi

    ipi.ipi_global_settings["floatformat"] = "%24.16e"


def attr(rng, name, text):
    q = quoteattr(text)
    if rng.random() < 0.5 and '"' not in text and "'" not in text:
        q = "'" + q[1:-1] + "'"
    return " " + ws(rng) + name + ws(rng) + "=" + ws(rng) + q


def node(doc):
    from ipi.utils.io.inputs.io_xml import xml_parse_string

    return xml_parse_string(doc).fields[0][1]


# ---------------------------------------------------------------- random schemas
def rand_schema(rng, depth=0):
    """A description of an input class: fields, attributes and repeated tags."""
    from checks.c12_units import table

    T = {d: u for d, u in table().items() if u and d != "undefined"}
    sch = {"fields": {}, "attribs": {}, "dynamic": {}}

    def leaf(kinds):
        kind = kinds[int(rng.integers(len(kinds)))]
        typ = [float, int, bool, str][int(rng.integers(4))]
        L = {"kind": kind, "type": typ, "dim": None, "opts": None, "default": None}
        if kind == "value":
            typ = L["type"] = [float, int, bool, str, tuple, dict][int(rng.integers(6))]
        if typ is float and kind in ("value", "array") and rng.random() < 0.6:
            L["dim"] = str(rng.choice(sorted(T)))
        if kind in ("value", "attr") and typ in (int, str) and rng.random() < 0.25:
            L["opts"] = [3, 7, -2] if typ is int else ["one", "two_2", "Three"]
        if rng.random() < 0.6:
            L["default"] = np.array(array(rng, typ)[1], typ) if kind == "array" else value(rng, typ, L["opts"])[1]
        return L

    for i in range(int(rng.integers(1, 7))):
        sch["fields"]["f%d" % i] = leaf(["value", "array"])
    for i in range(int(rng.integers(0, 4))):
        sch["attribs"]["at%d" % i] = leaf(["attr"])
    if depth < 2:
        for i in range(int(rng.integers(0, 3))):
            sch["fields"]["sub%d" % i] = {"kind": "class", "schema": rand_schema(rng, depth + 1)}
        for i in range(int(rng.integers(0, 2))):
            sch["dynamic"]["dyn%d" % i] = {"kind": "class", "schema": rand_schema(rng, depth + 1)} if rng.random() < 0.5 else leaf(["value", "array"])
    return sch


def make_class(sch):
    from ipi.utils.inputvalue import Input, InputArray, InputAttribute, InputValue

    def entry(L):
        if L["kind"] == "class":
            return (make_class(L["schema"]), {"help": "x"})
        kw = {"dtype": L["type"], "help": "x"}
        if L["default"] is not None:
            kw["default"] = L["default"]
        if L["opts"] is not None:
            kw["options"] = L["opts"]
        if L["dim"] is not None:
            kw["dimension"] = L["dim"]
        return ({"value": InputValue, "array": InputArray, "attr": InputAttribute}[L["kind"]], kw)

    class T(Input):
        fields = {k: entry(v) for k, v in sch["fields"].items()}
        attribs = {k: entry(v) for k, v in sch["attribs"].items()}
        dynamic = {k: entry(v) for k, v in sch["dynamic"].items()}

    return T


def units_for(rng, dim):
    from checks.c12_units import table

    if dim is None:
        return None, 1.0
    us = table()[dim]
    r = rng.random()
    if r < 0.3:
        return None, 1.0
    if r < 0.45:
        return str(rng.choice(["atomic_unit", "automatic"])), 1.0
    u = str(rng.choice(sorted(us)))
    if u == "ase":
        return u, us[u]
    p = str(rng.choice(["", "", "milli", "kilo", "pico"]))
    return p + u, us[u] * {"": 1.0, "milli": 1e-3, "kilo": 1e3, "pico": 1e-12}[p]


def leaf_doc(rng, name, L):
    """(xml, expected value) of one leaf tag."""
    u, fac = units_for(rng, L["dim"])
    at = "" if u is None else attr(rng, "units", u)
    if L["kind"] == "array":
        t, v = array(rng, L["type"])
        v = np.array(v, L["type"])
        if len(v) and rng.random() < 0.4:
            d = [k for k in range(1, len(v) + 1) if len(v) % k == 0]
            k = int(rng.choice(d))
            v = v.reshape(k, -1)
            at += attr(rng, "shape", "(%d, %d)" % v.shape)
        if v.size and L["type"] in (float, int) and rng.random() < 0.15:
            fn = "arr%d.dat" % int(rng.integers(10**9))
            np.savetxt(fn, v.reshape(-1)[:, None] if rng.random() < 0.5 else v.reshape(1, -1), fmt="%.17e" if L["type"] is float else "%d", header="x")
            at += attr(rng, "mode", "file")
            t = fn
        v = v * fac if L["dim"] is not None else v
    else:
        t, v = value(rng, L["type"], L["opts"])
        v = v * fac if L["dim"] is not None else v
    return "<%s%s>%s</%s>" % (name, at, escape(t), name), v


def rand_doc(rng, name, sch, explicit=None):
    """A valid document and the record of what it says."""
    parts = []
    said = {"f": {}, "a": {}, "d": []}
    at = ""
    for k, L in sch["attribs"].items():
        if L["default"] is not None and rng.random() < 0.4:
            said["a"][k] = L["default"]
            continue
        t, v = value(rng, L["type"], L["opts"])
        t = t.replace("\n", " ").replace("\t", " ")
        at += attr(rng, k, t)
        said["a"][k] = v
    for k, L in sch["fields"].items():
        if L["kind"] == "class":
            x, s = rand_doc(rng, k, L["schema"])
            parts.append((k, x))
            said["f"][k] = s
            continue
        if L["default"] is not None and rng.random() < 0.4:
            said["f"][k] = L["default"]
            continue
        x, v = leaf_doc(rng, k, L)
        parts.append((k, x))
        said["f"][k] = v
    dyn = []
    for k, L in sch["dynamic"].items():
        for _ in range(int(rng.integers(0, 4))):
            dyn.append((k, L))
    for j in rng.permutation(len(dyn)):
        k, L = dyn[j]
        x, v = rand_doc(rng, k, L["schema"]) if L["kind"] == "class" else leaf_doc(rng, k, L)
        parts.append((k, x))
        said["d"].append((k, v))
    stat = [x for k, x in parts if k in sch["fields"]]
    dynx = [x for k, x in parts if k not in sch["fields"]]
    seq = ["s"] * len(stat) + ["d"] * len(dynx)
    stat = [stat[i] for i in rng.permutation(len(stat))]
    out = ""
    for c in rng.permutation(seq) if seq else []:
        out += ws(rng) + (stat.pop(0) if c == "s" else dynx.pop(0))
        if rng.random() < 0.1:
            out += "<!-- a <comment> of %d -->" % int(rng.integers(100))
    return "<%s%s>%s%s</%s>" % (name, at, out, ws(rng), name), said


def compare(rec, inp, said, sch, kind, tol, path=""):
    for k, L in sch["attribs"].items():
        got = inp.__dict__[k].fetch()
        rec.check(eq(got, said["a"][k], tol), kind, "%s@%s: read %r where the document says %r" % (path, k, got, said["a"][k]), "attr/%s/%s" % (L["type"].__name__, bool(L["opts"])))
    for k, L in sch["fields"].items():
        if L["kind"] == "class":
            compare(rec, inp.__dict__[k], said["f"][k], L["schema"], kind, tol, path + "/" + k)
            continue
        got = inp.__dict__[k].fetch()
        rec.check(eq(got, said["f"][k], UT if L["dim"] else tol), kind, "%s/%s: read %r where the document says %r" % (path, k, got, said["f"][k]), "%s/%s/%s" % (L["kind"], L["type"].__name__, L["dim"]))
    rec.check([k for k, _ in inp.extra] == [k for k, _ in said["d"]], kind, "%s: repeated tags read as %r, document has %r" % (path, [k for k, _ in inp.extra], [k for k, _ in said["d"]]), "order")
    for (k, got), (_, v) in zip(inp.extra, said["d"]):
        L = sch["dynamic"][k]
        if L["kind"] == "class":
            compare(rec, got, v, L["schema"], kind, tol, path + "/" + k)
        else:
            g = got.fetch()
            rec.check(eq(g, v, UT if L["dim"] else tol), kind, "%s/%s: read %r where the document says %r" % (path, k, g, v), "dyn/%s/%s" % (L["kind"], L["type"].__name__))


def wrong(rng, L):
    """Text that is not a value of the leaf's type."""
    t = L["type"]
    bad = {
        float: ["abc", "1.0 2.0", "", "1,5", "1d0", "[1.0]", "0x10", "true"],
        int: ["1.5", "abc", "", "1e3", "1 2", "3.0", "[1]", "true"],
        bool: ["yes", "0", "1", "", "truee", "T", "on", "None"],
        tuple: ["1, 2", "(1, 2", "(a, b)", "(1.5, 2)", "[1, 2]"],
        dict: ["a: 1", "{a 1}", "[a: 1]", "{a: 1", "{a}"],
    }
    if L["opts"] is not None:
        return str(rng.choice(["nope", "ONE", "on"])) if t is str else "12"
    if L["kind"] == "array":
        if t is str:
            return str(rng.choice(["a, b", "(a, b)", "[a, b", "a b"]))
        r = rng.random()
        if r < 0.4:
            return str(rng.choice(["1, 2", "(1, 2)", "[1, 2", "", "1 2 3"]))
        x = str(rng.choice([b for b in bad[t] if b not in ("1,5",) and "[" not in b and b != ""]))
        return "[ %s, %s ]" % (x, value(rng, t)[0].strip())
    if t is str:
        return None
    return str(rng.choice(bad[t]))


def fetch_all(inp, sch):
    for k in sch["attribs"]:
        inp.__dict__[k].fetch()
    for k, L in sch["fields"].items():
        fetch_all(inp.__dict__[k], L["schema"]) if L["kind"] == "class" else inp.__dict__[k].fetch()
    for k, v in inp.extra:
        L = sch["dynamic"][k]
        fetch_all(v, L["schema"]) if L["kind"] == "class" else v.fetch()


def refused(rec, cls, sch, doc, what, key):
    try:
        inp = cls()
        with contextlib.redirect_stdout(io.StringIO()):
            inp.parse(node(doc))
            fetch_all(inp, sch)
    except Exception:
        rec.ok("refused", key)
        return
    rec.fail("refused", "%s accepted without an error: %s" % (what, doc[:300]), key)


def run_schema(case, rec):
    full_precision()
    rng = np.random.default_rng(case["cseed"])
    for _ in range(case["n"]):
        sch = rand_schema(rng)
        cls = make_class(sch)
        doc, said = rand_doc(rng, "top", sch)
        inp = cls()
        inp.parse(node(doc))
        compare(rec, inp, said, sch, "value", RT)
        inline(inp, sch)
        text = inp.write("top")
        again = cls()
        try:
            again.parse(node(text))
        except Exception as e:
            rec.fail("rewritten", "what was written cannot be read again (%r): %s" % (e, text[:300]))
            continue
        # the same values, at full precision
        exact = dump(inp, sch)
        exact2 = dump(again, sch)
        for k in exact:
            rec.check(k in exact2 and eq(exact2[k], exact[k], RT), "rewritten", "%s is %r, written and read again %r" % (k, exact[k], exact2.get(k)), k.split("/")[-1])
        rec.check(set(exact) == set(exact2), "rewritten", "fields appear or disappear when written: %s" % sorted(set(exact) ^ set(exact2))[:5], "set")
        rec.check(again.write("top") == text, "rewritten", "writing what was read differs from what was written", "fixpoint")
        # storing values in internal units
        store_back(rec, rng, cls, sch, said)
        # refusals
        for what in ("tag", "attr", "type", "missing", "xml", "unit", "shape"):
            mutate(rec, rng, cls, sch, doc, what)


def inline(inp, sch):
    """Arrays read from a file are written in full (as every checkpoint does)."""
    for k, L in list(sch["fields"].items()):
        if L["kind"] == "class":
            inline(inp.__dict__[k], L["schema"])
        elif L["kind"] == "array":
            inp.__dict__[k].mode.store("manual")
    for k, v in inp.extra:
        L = sch["dynamic"][k]
        if L["kind"] == "class":
            inline(v, L["schema"])
        elif L["kind"] == "array":
            v.mode.store("manual")


def dump(inp, sch, path=""):
    out = {}
    for k in sch["attribs"]:
        out[path + "@" + k] = inp.__dict__[k].fetch()
    for k, L in sch["fields"].items():
        if L["kind"] == "class":
            out.update(dump(inp.__dict__[k], L["schema"], path + "/" + k))
        else:
            out[path + "/" + k] = inp.__dict__[k].fetch()
    for j, (k, v) in enumerate(inp.extra):
        L = sch["dynamic"][k]
        if L["kind"] == "class":
            out.update(dump(v, L["schema"], path + "/%d:%s" % (j, k)))
        else:
            out[path + "/%d:%s" % (j, k)] = v.fetch()
    return out


def store_back(rec, rng, cls, sch, said):
    new = cls()
    for k, L in sch["fields"].items():
        if L["kind"] == "class":
            continue
        u, fac = units_for(rng, L["dim"])
        v = said["f"][k]
        if u is None or L["kind"] == "class":
            new.__dict__[k].store(v)
        else:
            new.__dict__[k].store(v, u)
    for k in sch["attribs"]:
        new.__dict__[k].store(said["a"][k])
    for k, L in sch["fields"].items():
        if L["kind"] == "class":
            continue
        one = new.__dict__[k].write(k)
        v = said["f"][k]
        if L["type"] is str and L["kind"] == "array" and np.size(v) == 0:
            continue
        c = type(new.__dict__[k])
        kw = {"dtype": L["type"], "help": "x", "dimension": L["dim"]}
        x = c(**kw)
        x.parse(node(one))
        rec.check(eq(x.fetch(), v, 1e-12), "rewritten", "%s stored as %r is written as %s" % (k, v, one[:100]), "store/%s/%s" % (L["kind"], L["type"].__name__))


def mutate(rec, rng, cls, sch, doc, what):
    root = ET.fromstring(doc)

    def walk(el, s, path):
        yield el, s, path
        for ch in el:
            if ch.tag in s["fields"]:
                L = s["fields"][ch.tag]
            else:
                L = s["dynamic"][ch.tag]
            if L["kind"] == "class":
                yield from walk(ch, L["schema"], path + (ch.tag,))

    places = list(walk(root, sch, ()))
    el, s, path = places[int(rng.integers(len(places)))]

    def leaves():
        for e, ss, _ in places:
            for ch in e:
                L = ss["fields"].get(ch.tag) or ss["dynamic"].get(ch.tag)
                if L["kind"] != "class":
                    yield e, ch, L

    if what == "tag":
        k = str(rng.choice(["unknown", "F0", "f00", "sub", "f9", "_f1"]))
        ET.SubElement(el, k).text = "1"
    elif what == "attr":
        el.set(str(rng.choice(["unknown", "At0", "at00", "mode", "units"])), "1")
    elif what == "type":
        ls = list(leaves())
        if not ls:
            return
        e, ch, L = ls[int(rng.integers(len(ls)))]
        t = wrong(rng, L)
        if t is None:
            return
        ch.text = t
        for a in ("shape", "mode"):
            ch.attrib.pop(a, None)
        for c in list(ch):
            ch.remove(c)
        what = "type/%s/%s" % (L["kind"], L["type"].__name__)
    elif what == "missing":
        cand = []
        for e, ss, _ in places:
            cand += [(e, "f", k) for k, L in ss["fields"].items() if L["kind"] == "class" and needs(L["schema"]) or L.get("default") is None and L["kind"] != "class"]
            cand += [(e, "a", k) for k, L in ss["attribs"].items() if L["default"] is None]
        if not cand:
            return
        e, t, k = cand[int(rng.integers(len(cand)))]
        if t == "a":
            del e.attrib[k]
        else:
            for ch in list(e):
                if ch.tag == k:
                    e.remove(ch)
    elif what == "xml":
        t = ET.tostring(root, encoding="unicode")
        r = rng.random()
        if r < 0.4 or "</top>" not in t:
            t = t[: int(rng.integers(1, len(t) - 1))]
        elif r < 0.7:
            t = t.replace("</top>", "</tpo>")
        else:
            t = t.replace("</top>", "<f0></top>")
        return refused(rec, cls, sch, t, "malformed XML", "xml")
    elif what == "unit":
        ls = [x for x in leaves() if x[2]["dim"] is not None]
        if not ls:
            return
        e, ch, L = ls[int(rng.integers(len(ls)))]
        dim = L["dim"]
        bad = ["furlong", "kiloo%s" % "second", "xx"]
        bad += ["kelvin"] if dim not in ("energy", "temperature") else ["second"]
        ch.set("units", str(rng.choice(bad)))
    elif what == "shape":
        ls = [x for x in leaves() if x[2]["kind"] == "array" and x[1].get("mode") is None]
        if not ls:
            return
        e, ch, L = ls[int(rng.integers(len(ls)))]
        n = 0 if ch.text.strip().strip("[]").strip() == "" else ch.text.count(",") + 1
        ch.set("shape", "(%d, 2)" % (n + 1))
    refused(rec, cls, sch, ET.tostring(root, encoding="unicode"), "a document with a wrong " + what, what)


def needs(s):
    return True  # nested classes without a default are mandatory


# ---------------------------------------------------------------- fields of the real classes
def T(tagname, text, /, **at):
    return sg.tag(tagname, text, **at)


def V(cls, tag, inner="%s", sub=(), leaves=(), base=None, at=None):
    return dict(cls=cls, tag=tag, inner=inner, sub=tuple(sub), leaves=leaves, base=base or {}, at=at or {})


def sq(rng, shape, kind=float):
    n = int(np.prod(shape))
    v = np.array([float_text(rng)[1] for _ in range(n)]).reshape(shape)
    return v


def variants():
    """Every field that a mode uses (or keeps as its state) must survive being read, turned into an object, and stored."""
    G = "tolerances.energy tolerances.force tolerances.position exit_on_convergence"
    LS = " ls_options.tolerance ls_options.iter ls_options.step ls_options.adaptive"
    out = {}
    opt = lambda m, l: V("motion.InputMotion", "motion", T("optimizer", "%s", mode=m), ("optimizer",), (G + " " + l).split(), at={"mode": "minimize"})
    out["geop/bfgs"] = opt("bfgs", "biggest_step old_direction invhessian_bfgs" + LS)
    out["geop/bfgstrm"] = opt("bfgstrm", "biggest_step hessian_trm tr_trm")
    out["geop/lbfgs"] = opt("lbfgs", "biggest_step old_direction qlist_lbfgs glist_lbfgs corrections_lbfgs scale_lbfgs" + LS)
    out["geop/sd"] = opt("sd", LS)
    out["geop/cg"] = opt("cg", "old_direction" + LS)
    out["geop/damped_bfgs"] = opt("damped_bfgs", "biggest_step old_direction invhessian_bfgs")
    neb = "tolerances.energy tolerances.force tolerances.position biggest_step old_coord full_force full_pots old_nebpotential old_nebgradient old_direction hessian_bfgs qlist_lbfgs glist_lbfgs scale_lbfgs corrections_lbfgs dtmax_fire dt_fire alpha_fire N_down_fire N_up_fire v_fire endpoints.optimize endpoints.algorithm spring.varsprings spring.kappa spring.kappamax spring.kappamin tangent stage use_climb climb_bead"
    out["neb"] = V("motion.InputMotion", "motion", T("neb_optimizer", "%s"), ("neb_optimizer",), neb.split(), at={"mode": "neb"})
    inst = "tolerances.energy tolerances.force tolerances.position biggest_step max_e max_ms discretization alt_out prefix delta hessian_final old_pot old_force energy_shift "
    ins = lambda o, l, fr="false", sd="true": V("motion.InputMotion", "motion", T("instanton", "%s", mode="rate"), ("instanton",), (inst + l).split(), base={"opt": o, "friction": fr, "frictionSD": sd}, at={"mode": "instanton"})
    for o in ("nichols", "NR", "lanczos"):
        out["instanton/" + o] = ins(o, "hessian hessian_update hessian_asr")
    out["instanton/friction"] = ins("nichols", "hessian hessian_update hessian_asr fric_spec_dens fric_spec_dens_ener fric_hessian", "true")
    out["instanton/eta"] = ins("nichols", "hessian hessian_update hessian_asr fric_spec_dens fric_spec_dens_ener eta", "true", "false")
    out["instanton/lbfgs"] = ins("lbfgs", "qlist_lbfgs glist_lbfgs old_direction scale_lbfgs corrections_lbfgs ls_options.tolerance ls_options.iter")
    mot = lambda mode, sub, l, **kw: V("motion.InputMotion", "motion", T(sub, "%s"), (sub,), l.split(), at={"mode": mode}, **kw)
    out["vibrations"] = mot("vibrations", "vibrations", "pos_shift energy_shift output_shift prefix asr dynmat refdynmat")
    out["normalmodes"] = mot("normalmodes", "normalmodes", "prefix asr dynmat nprim fnmrms nevib nint pair_range nbasis athresh ethresh alpha nkbt nexc mptwo solve grid print_mftpot print_1b_map print_2b_map print_vib_density threebody nparallel")
    out["scp"] = mot("scp", "scp", "prefix asr displace_mode dynmat max_steps max_iter tau wthreshold precheck checkweights chop nparallel batch_weight_exponent", base={"max_steps": "7"})
    out["alchemy"] = mot("alchemy", "alchemy", "names nxc ealc")
    out["atomswap"] = mot("atomswap", "atomswap", "names nxc ealc")
    out["planetary"] = mot("planetary", "planetary", "timestep nmts nsamples stride nbeads screen")
    out["t_ramp"] = mot("t_ramp", "t_ramp", "t_start t_end logscale total_steps current_step")
    out["p_ramp"] = mot("p_ramp", "p_ramp", "p_start p_end logscale total_steps current_step")
    out["al-kmc"] = mot("al-kmc", "al6xxx_kmc", "nstep a0 diffusion_barrier_al diffusion_prefactor_al diffusion_barrier_mg diffusion_prefactor_mg diffusion_barrier_si diffusion_prefactor_si neval nvac nsi nmg")
    for m in ("nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"):
        for sp in ("obabo", "baoab"):
            out["dynamics/%s/%s" % (m, sp)] = V("motion.InputMotion", "motion", T("dynamics", "%s", mode=m, splitting=sp), ("dynamics",), ["timestep", "nmts"], at={"mode": "dynamics"})
    out["driven"] = V("motion.InputMotion", "motion", T("driven_dynamics", "%s", mode="eda-nve"), ("driven_dynamics",), "timestep nmts efield.amp efield.freq efield.phase efield.peak efield.sigma".split(), at={"mode": "driven_dynamics"})
    out["motion/fixatoms_dof"] = V("motion.InputMotion", "motion", "%s" + T("dynamics", "", mode="nve"), (), ["fixatoms_dof"], base={"fixcom": "false"}, at={"mode": "dynamics"})
    out["motion/fixcom"] = V("motion.InputMotion", "motion", "%s" + T("dynamics", "", mode="nve"), (), ["fixcom"], at={"mode": "dynamics"})
    th = lambda m, l, base: V("thermostats.InputThermo", "thermostat", "%s", (), ("ethermo " + l).split(), base=base, at={"mode": m})
    out["thermo/langevin"] = th("langevin", "tau", {"tau": "7.0"})
    out["thermo/svr"] = th("svr", "tau", {"tau": "7.0"})
    out["thermo/pile_l"] = th("pile_l", "tau pile_lambda pile_centroid_t", {"tau": "7.0"})
    out["thermo/pile_g"] = th("pile_g", "tau pile_lambda pile_centroid_t", {"tau": "7.0"})
    gle = {"A": "[ 1.0, 0.2, 0.3, 2.0 ]|(2, 2)"}
    out["thermo/gle"] = th("gle", "A C", gle)
    gleb = {"A": "[ 1.0, 0.2, 0.3, 2.0, 1.0, 0.2, 0.3, 2.0 ]|(2, 2, 2)"}
    out["thermo/nm_gle"] = th("nm_gle", "A C", gleb)
    out["thermo/nm_gle_g"] = th("nm_gle_g", "A C tau", dict(gleb, tau="3.0"))
    out["thermo/cl"] = th("cl", "tau intau idtau apat", {"tau": "7.0"})
    out["thermo/ffl"] = th("ffl", "tau flip", {"tau": "7.0"})
    ba = lambda m, l, base=None: V("barostats.InputBaro", "barostat", "%s" + T("thermostat", T("tau", "5.0"), mode="langevin"), (), ("tau " + l).split(), base=base, at={"mode": m})
    out["baro/isotropic"] = ba("isotropic", "p thermostat.ethermo")
    out["baro/flexible"] = ba("flexible", "p hfix vol_constraint")
    out["baro/anisotropic"] = ba("anisotropic", "p h0 hfix", {"h0": "[ 9.0, 0, 0, 0, 8.0, 0, 0, 0, 7.0 ]"})
    out["baro/sc-isotropic"] = ba("sc-isotropic", "p")
    out["ensemble"] = V("ensembles.InputEnsemble", "ensemble", "%s", (), "temperature pressure stress eens bias_weights hamiltonian_weights time".split())
    base = "latency offset parameters"
    sock = base + " activelist address port slots exit_on_disconnect timeout max_workers consolidate_messages batch_size"
    FF = lambda c, l, b=None, inner="%s", sub=(), **at: V("forcefields." + c, "ff", inner, sub, l.split(), base=b, at=dict({"name": "theff"}, **at))
    out["ff/socket"] = FF("InputFFSocket", sock, mode="unix", pbc="true", matching="any")
    out["ff/cavph"] = FF("InputFFCavPhSocket", sock + " charge_array apply_photon dipole_surface evaluate_photon E0 omega_c ph_rep")
    out["ff/direct"] = FF("InputFFDirect", base + " batch_size", {"pes": "dummy"})
    out["ff/lj"] = FF("InputFFLennardJones", "latency offset parameters", {"parameters": "{eps: 0.1, sigma: 0.3, rcut: 5.0}"})
    out["ff/debye"] = FF("InputFFDebye", "hessian x_reference v_reference latency offset", {"hessian": "[ 1.0, 0.5, 0.5, 2.0 ]|(2, 2)", "x_reference": "[ 1.0, 2.0 ]"})
    out["ff/dmd"] = FF("InputFFdmd", "latency offset parameters dmd_coupling dmd_freq dmd_step")
    com = "".join(T("ffdirect", T("pes", "dummy"), name="m%d" % i) for i in range(3))
    out["ff/committee"] = FF("InputFFCommittee", "latency offset parameters weights alpha active_thresh active_output parse_json", None, "%s" + com)
    out["ff/committee_base"] = FF("InputFFCommittee", "baseline_uncertainty active_thresh", {"baseline_name": "m1", "baseline_uncertainty": "0.3"}, "%s" + com)
    rot = T("ffdirect", T("pes", "dummy"), name="r0")
    out["ff/rotations"] = FF("InputFFRotations", "latency offset parameters random grid_order grid_mode inversion", None, "%s" + rot)
    sm = lambda m, l: V("smotion.InputSmotion", "smotion", T(m, "%s"), (m,), l.split(), at={"mode": m})
    out["smotion/remd"] = sm("remd", "stride krescale swapfile repindex")
    out["smotion/metad"] = sm("metad", "metaff use_energy")
    out["smotion/dmd"] = sm("dmd", "dmdff")
    out["prng"] = V("prng.InputRandom", "prng", "%s", (), ["seed"])
    return out


SHAPES = {"stress": (3, 3), "baro.p": (3, 3), "weights": (3,), "fric_spec_dens": (2, 2)}


def field_value(rng, key, leaf, obj):
    """(attributes, text, value) for a real field."""
    from ipi.utils.inputvalue import InputArray

    typ = obj.type
    dim = None if obj._dimension in ("undefined", None, "number") else obj._dimension
    u, fac = units_for(rng, dim)
    at = {} if u is None else {"units": u}
    if leaf == "hfix":
        v = ["offdiagonal"] if rng.random() < 0.3 else list(rng.permutation(["xy", "xz", "yz"])[: int(rng.integers(1, 3))])
        return {}, "[ %s ]" % ", ".join(v), np.array(v)
    if leaf == "A" and "thermo" in key:
        sh = (2, 2) if key.endswith("/gle") else (int(rng.integers(1, 4)), 2, 2)
        v = np.round(np.abs(sq(rng, sh)) * 0 + rng.uniform(0.1, 2.0, sh), 6)
        return dict(at, shape=str(sh)), sg.arr(v.flatten()), v * fac
    if leaf == "C" and "thermo" in key:
        sh = (2, 2) if key.endswith("/gle") else (2, 2, 2)
        v = np.broadcast_to(np.eye(2) * float(rng.uniform(1, 3)), sh).copy()
        return dict(at, shape=str(sh)), sg.arr(v.flatten()), v * fac
    if leaf == "h0":
        v = np.triu(rng.uniform(0.0, 1.0, (3, 3)) + 5 * np.eye(3))
        return at, sg.arr(v.flatten()), v * fac
    if leaf == "hessian" and key == "ff/debye":
        v = np.diag(rng.uniform(1, 2, 2))
        return dict(at, shape="(2, 2)"), sg.arr(v.flatten()), v * fac
    if leaf == "x_reference":
        v = rng.uniform(1, 2, 2)
        return at, sg.arr(v), v * fac
    if leaf == "parameters" and key == "ff/lj":
        v = {"eps": float(rng.uniform(0.1, 1)), "sigma": 2.5, "rcut": 7.25}
        return {}, str(v).replace("'", ""), v
    if leaf == "current_step":
        return {}, "3", 3
    if leaf == "total_steps":
        v = int(rng.integers(5, 90))
        return {}, str(v), v
    if leaf == "grid_order":
        return {}, "3", 3
    if leaf == "flip":
        v = str(rng.choice(["soft", "hard", "rescale", "none"]))
        return {}, v, v
    if leaf == "fixatoms_dof":
        v = np.sort(rng.permutation(60)[: int(rng.integers(1, 9))])
        return {}, "[ " + ", ".join(map(str, v)) + " ]", v
    if leaf == "dtype":
        return None
    if isinstance(obj, InputArray):
        sh = SHAPES.get(leaf) or ((3, 3) if leaf == "p" and ("flexible" in key or "anisotropic" in key) else (1,) if leaf == "p" else None)
        n = int(np.prod(sh)) if sh else int(rng.integers(1, 9))
        if typ is float:
            v = rng.normal(size=n)
        elif typ is int:
            v = rng.integers(0, 50, n)
        elif typ is bool:
            v = rng.random(n) < 0.5
        else:
            v = np.array(["n%d" % x for x in rng.integers(0, 9, n)])
        if sh is None and n % 2 == 0 and leaf not in ("names", "nmts", "pair_range", "fixatoms_dof", "bias_weights", "hamiltonian_weights", "repindex", "metaff", "dmdff", "activelist", "charge_array", "dmd_coupling"):
            sh = (2, n // 2)
        v = v.reshape(sh) if sh else v
        if len(v.shape) > 1:
            at["shape"] = str(v.shape)
        if typ is float:
            v = np.array([float("%.15e" % x) for x in v.flatten()]).reshape(v.shape)
        return at, sg.arr(v.flatten()) if typ is float else "[ " + ", ".join(str(x) for x in v.flatten()) + " ]", v * fac if dim else v
    if obj._valid is not None:
        v = obj._valid[int(rng.integers(len(obj._valid)))]
        return at, str(v), v
    if typ is float:
        v = float("%.12e" % rng.uniform(0.05, 0.95))
        return at, repr(v), v * fac
    if typ is int:
        v = int(rng.integers(2, 60))
        return at, str(v), v
    if typ is bool:
        v = not bool(obj.value) if rng.random() < 0.8 else bool(obj.value)
        return at, str(v), v
    if typ is dict:
        t, v = value(rng, dict)
        return at, t, v
    v = str(rng.choice(["abc", "x_1", "y/z.w"]))
    return at, v, v


def deep(obj, path):
    for p in path:
        obj = getattr(obj, p)
    return obj


def plain(v):
    if hasattr(v, "h"):
        return np.array(v.h)
    return v


def keep(got, want, key):
    got, want = plain(got), plain(want)
    if isinstance(want, tuple) and any(isinstance(x, (np.ndarray, str)) for x in want):
        return len(got) == len(want) and all(keep(a, b, key) for a, b in zip(got, want))
    if isinstance(want, np.ndarray) and want.dtype.kind == "f":
        got = np.asarray(got, float)
        return got.size == want.size and np.allclose(got.flatten(), want.flatten(), rtol=1e-9, atol=1e-300)
    if isinstance(want, np.ndarray):
        got = np.asarray(got)
        return got.size == want.size and list(map(str, got.flatten())) == list(map(str, want.flatten()))
    if isinstance(want, float):
        return abs(float(got) - want) <= 1e-9 * abs(want)
    return eq(got, want)


def run_fields(case, rec):
    import importlib

    full_precision()
    rng = np.random.default_rng(case["cseed"])
    for key in case["keys"]:
        v = variants()[key]
        mod, cname = v["cls"].rsplit(".", 1)
        cls = getattr(importlib.import_module("ipi.inputs." + mod), cname)
        leaves = v["leaves"]
        plan = [[l] for l in leaves] + [[l for l in leaves if rng.random() < 0.5] for _ in range(case["combos"])]
        for sel in plan:
            proto = cls()
            tree = {}
            want = {}
            for l in sel:
                path = tuple(l.split("."))
                at, text, val = field_value(rng, key, path[-1], deep(proto, v["sub"] + path))
                want[path] = val
                tree.setdefault(path[:-1], []).append(sg.tag(path[-1], escape(text), **at))
            for b, text in v["base"].items():
                if b not in sel:
                    text, _, sh = text.partition("|")
                    tree.setdefault((), []).append(sg.tag(b, text, **({"shape": sh} if sh else {})))
            body = "".join("".join(x) if p == () else sg.tag(p[0], "".join(x)) for p, x in tree.items() if p != ("thermostat",))
            inner = v["inner"] % body if "%s" in v["inner"] else body
            if ("thermostat",) in tree:
                inner = inner.replace("</thermostat>", "".join(tree[("thermostat",)]) + "</thermostat>")
            doc = sg.tag(v["tag"], inner, **v["at"])
            a = cls()
            with contextlib.redirect_stdout(io.StringIO()):
                a.parse(node(doc))
                for path, val in want.items():
                    got = deep(a, v["sub"] + path).fetch()
                    rec.check(keep(got, val, key) if not isinstance(val, float) else abs(got - val) <= UT * abs(val), "value", "%s: %s is read as %r: %s" % (key, path, plain(got), doc[:300]), key + "." + ".".join(path)) if "units" not in doc else None
                want = {p: deep(a, v["sub"] + p).fetch() for p in want}
                obj = a.fetch()
                b = cls()
                b.store(obj)
                text = b.write(v["tag"])
                c = cls()
                c.parse(node(text))
            for path, val in want.items():
                k = key + "." + ".".join(path)
                got = deep(b, v["sub"] + path).fetch()
                if not rec.check(keep(got, val, key), "kept", "%s: %s is %r in the input and %r when the object is stored" % (key, ".".join(path), plain(val), plain(got)), k):
                    continue
                got = deep(c, v["sub"] + path).fetch()
                rec.check(keep(got, val, key), "rewritten", "%s: %s is %r in the input and %r after being written and read" % (key, ".".join(path), plain(val), plain(got)), k)
            for an, av in v["at"].items():
                if an in c.attribs:
                    rec.check(str(c.__dict__[an].fetch()).lower() == av.lower(), "kept", "%s: attribute %s=%s becomes %s" % (key, an, av, c.__dict__[an].fetch()), key + "@" + an)


# ---------------------------------------------------------------- whole simulations
def outputs(rng):
    o = []
    for i in range(int(rng.integers(1, 4))):
        at = dict(filename="o%d" % i, stride=int(rng.integers(1, 9)))
        if rng.random() < 0.5:
            at["flush"] = int(rng.integers(1, 9))
        o.append(sg.tag("properties", "[ " + ", ".join(rng.permutation(["step", "time{picosecond}", "conserved{ev}", "temperature(nm=0){kelvin}", "potential", "kinetic_cv{kilojoule/mol}".replace("kilojoule/mol", "kelvin"), "atom_x(atom=1;bead=0){angstrom}"])[: int(rng.integers(1, 6))]) + " ]", **at))
    for i in range(int(rng.integers(0, 3))):
        at = dict(filename="t%d" % i, stride=int(rng.integers(1, 9)), format=str(rng.choice(["xyz", "pdb"])))
        if rng.random() < 0.4:
            at["bead"] = 0
        if rng.random() < 0.4:
            at["cell_units"] = "angstrom"
        o.append(sg.tag("trajectory", str(rng.choice(["positions{angstrom}", "x_centroid", "forces"])), **at))
    o.append(sg.tag("checkpoint", "3", filename="chk", stride=int(rng.integers(1, 50)), overwrite=str(bool(rng.random() < 0.5))))
    return "".join(o[j] for j in rng.permutation(len(o)))


def make_doc(case, rng):
    spec = cg.rand_spec(rng, modes=[case["mode"]] if case.get("mode") else ("nve", "nvt", "npt", "nst", "sc", "nvt-cc"), allow=cg.ALL)
    return cg.xml(spec, 10, outputs(rng)).replace("<simulation ", "<simulation floatformat='%24.16e' ", 1), cg.label(spec)


def relayout(rng, el):
    """The same document with different whitespace, quotes, order of the tags and comments."""
    ch = list(el)
    names = [c.tag for c in ch]
    order = list(rng.permutation(len(ch)))
    # tags of the same name keep their order
    slots = {}
    for j in order:
        slots.setdefault(names[j], []).append(j)
    for k in slots:
        slots[k].sort()
    seq = [slots[names[j]].pop(0) for j in order]
    if el.tag in ("motion", "thermostat", "output", "simulation") or len(set(names)) < len(names):
        seq = range(len(ch))
    at = [(k, v) for k, v in el.attrib.items()]
    txt = el.text or ""
    out = "<" + el.tag + "".join(attr(rng, *at[j]) for j in rng.permutation(len(at))) + ws(rng) + ">"
    if txt.strip():
        t = txt.strip()
        if t[0] in "[({":
            t = t[0] + ws(rng) + ",".join(ws(rng) + x.strip() + ws(rng) for x in t[1:-1].split(",")) + t[-1]
        out += ws(rng) + escape(t) + ws(rng)
    for j in seq:
        out += ws(rng) + relayout(rng, ch[j])
        if rng.random() < 0.05:
            out += "<!-- note -->"
    return out + "</" + el.tag + ws(rng) + ">"


def to_json(rng, el):
    """Our own conversion of the document to the JSON form of the input."""
    d = {}
    if el.attrib:
        d["attributes"] = {k: typed(rng, v) for k, v in el.attrib.items()}
    t = (el.text or "").strip()
    if t:
        d["value"] = typed(rng, t)
    for c in el:
        j = to_json(rng, c)
        if c.tag in d:
            if not isinstance(d[c.tag], list):
                d[c.tag] = [d[c.tag]]
            d[c.tag].append(j)
        else:
            d[c.tag] = j
    if set(d) == {"value"} and rng.random() < 0.8 and not isinstance(d["value"], list):
        return d["value"]
    return d


def typed(rng, t):
    if rng.random() < 0.4:
        return t
    for f in (int, float):
        try:
            return f(t)
        except ValueError:
            pass
    if t.lower() in ("true", "false"):
        return t.lower() == "true"
    if t.startswith("["):
        try:
            return [(float(x) if "." in x or "e" in x.lower() else int(x)) for x in t.strip("[] ").split(",")]
        except ValueError:
            return t
    return t


def load_written(sim):
    from ipi.inputs.simulation import InputSimulation

    st = InputSimulation()
    st.store(sim)
    return st, st.write("simulation")


def explicit(inp, path=()):
    """Every leaf the user wrote, with its path."""
    from ipi.utils.inputvalue import InputRaw, InputValue

    for a in inp.attribs:
        o = inp.__dict__[a]
        if o._explicit and a not in ("units", "shape", "mode_", "cell_units"):
            yield path + ("@" + a,), o
    for f in inp.instancefields:
        o = inp.__dict__[f]
        if not o._explicit:
            continue
        if isinstance(o, InputValue) and not o.instancefields:
            if not isinstance(o, InputRaw):
                yield path + (f,), o
        else:
            yield from explicit(o, path + (f,))
    count = {}
    for k, o in inp.extra:
        n = count.get(k, 0)
        count[k] = n + 1
        if isinstance(o, InputValue) and not o.instancefields:
            yield path + ("%s#%d" % (k, n),), o
        yield from explicit(o, path + ("%s#%d" % (k, n),)) if not isinstance(o, InputRaw) else ()


def content(o):
    """The value of a leaf in internal units, or its text for tags that become objects."""
    v = o.fetch()
    if isinstance(v, (str, float, int, bool, dict, tuple, list, np.ndarray, np.generic)) or hasattr(v, "h"):
        return v
    return o.value


def resolve(inp, path):
    for p in path:
        if p.startswith("@"):
            inp = inp.__dict__[p[1:]]
        elif "#" in p:
            k, n = p.split("#")
            inp = [o for kk, o in inp.extra if kk == k][int(n)]
        else:
            inp = inp.__dict__[p]
    return inp


SKIP_KEPT = ("initialize", "@verbosity", "@mode", "prng", "safe_stride", "@floatformat", "beads/p", "motion/fixatoms")


def run_doc(case, rec):
    from ipi.engine.simulation import Simulation
    from ipi.inputs.simulation import InputSimulation

    full_precision()
    rng = np.random.default_rng(case["cseed"])
    doc, lab = make_doc(case, rng)
    root = ET.fromstring(doc)
    with contextlib.redirect_stdout(io.StringIO()):
        sim = sg.load(doc)
    ref = cg.state(sim)
    st, text = load_written(sim)
    # (1) every value the user wrote is in what is stored
    said = InputSimulation()
    said.parse(node(doc))
    for path, o in explicit(said):
        p = "/".join(path)
        if any(x in p for x in SKIP_KEPT):
            continue
        try:
            want = content(o)
        except Exception:
            continue
        try:
            got = content(resolve(st, path))
        except Exception as e:
            rec.fail("kept", "%s is written in the input but missing in the stored simulation (%r) [%s]" % (p, e, lab), p)
            continue
        if path[-1] == "parameters" and isinstance(got, dict):
            got = {k: v for k, v in got.items() if k in want}  # forcefields may add their own
        try:
            good = keep(got, want, p)
        except Exception as e:
            raise RuntimeError("%s %r %r %r" % (p, want, got, e))
        rec.check(good, "kept", "%s is %r in the input and %r in the stored simulation [%s]" % (p, plain(want), plain(got), lab), "doc:" + "/".join(q for q in path if not q.startswith("system")))
    sg.shutdown(sim)
    # (2) written and read again: the same simulation, and the same text
    with contextlib.redirect_stdout(io.StringIO()):
        sim2 = sg.load(text)
    bad = cg.diff_states(ref, cg.state(sim2), 1e-11)
    rec.check(not bad, "document", "a simulation written and read again differs: %s [%s]" % (bad[:3], lab), "again/" + lab)
    text2 = load_written(sim2)[1]
    bad = text_diff(text, text2)
    rec.check(not bad, "document", "writing a simulation that was read from its own output gives another text: %s [%s]" % (bad[:3], lab), "fixpoint/" + lab)
    sg.shutdown(sim2)
    # (3) other layouts and formats
    forms = [("layout", "<!-- header -->" + relayout(rng, root), "x.xml")]
    forms.append(("json", json.dumps(to_json(rng, root), indent=int(rng.integers(0, 4))), "x.json"))
    forms.append(("json-root", json.dumps({"simulation": to_json(rng, root)}), "x.json"))
    for how, other, fn in forms:
        with open(fn, "w") as f:
            f.write(other)
        with contextlib.redirect_stdout(io.StringIO()):
            sim3 = Simulation.load_from_xml(open(fn) if rng.random() < 0.5 else other, request_banner=False)
        bad = cg.diff_states(ref, cg.state(sim3), 0.0)
        rec.check(not bad, "document", "the same input in another form (%s) gives a different simulation: %s [%s]" % (how, bad[:3], lab), how + "/" + lab)
        t3 = load_written(sim3)[1]
        bad = text_diff(text, t3)
        rec.check(not bad, "document", "the same input in another form (%s) is written differently: %s [%s]" % (how, bad[:3], lab), how + "-text/" + lab)
        sg.shutdown(sim3)


def text_diff(a, b):
    for n, t in (("a.txt", a), ("b.txt", b)):
        with open(n, "w") as f:
            f.write(t)
    return cg.diff_xml(cg.xml_numbers("a.txt"), cg.xml_numbers("b.txt"), 1e-11)


def run_template(case, rec):
    """Systems made from a template are the systems written out in full."""
    full_precision()
    rng = np.random.default_rng(case["cseed"])
    spec = cg.rand_spec(rng, modes=["nvt"], thermos=["langevin", "pile_g", "svr"], allow=("multi", "contraction", "fixcom"))
    n = int(rng.integers(2, 5))
    labels = [str(x) for x in rng.permutation(["TEMP", "TEMPO", "PREF", "$x", "TAU1", "TAU"])[:3]]
    temps = [repr(float(t)) for t in rng.uniform(1e-4, 1e-2, n)]
    prefs = ["sys%d" % i for i in range(n)]
    wts = [repr(float(w)) for w in rng.uniform(0, 9, n)]
    base = cg.system_xml(spec, prefix="@P@")
    import re

    base, k = re.subn(r"(<temperature[^>]*>)[^<]*(</temperature>)", r"\1 @T@ \2", base)
    if k != 1:
        base = base.replace("<ensemble>", "<ensemble><temperature> @T@ </temperature>", 1)
    base = base.replace("<ensemble>", "<ensemble><eens> @W@ </eens>", 1)

    def fill(t, w, p):
        return base.replace("@T@", t).replace("@W@", w).replace("@P@", p)

    full = sg.simulation([fill(t, w, p) for t, w, p in zip(temps, wts, prefs)], cg.ff_xml(spec), 5, seed=7)
    perm = rng.permutation(3)
    cols = [(labels[0], temps), (labels[1], wts), (labels[2], prefs)]
    cols = [cols[i] for i in perm]
    tmpl = sg.tag("template", fill(labels[0], labels[1], labels[2])) + sg.tag("labels", "[ " + ", ".join(c[0] for c in cols) + " ]")
    tmpl += "".join(sg.tag("instance", "[ " + ", ".join(c[1][i] for c in cols) + " ]") for i in range(n))
    short = sg.simulation([sg.tag("system_template", tmpl)], cg.ff_xml(spec), 5, seed=7)
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = sg.load(full), sg.load(short)
    rec.check(len(a.syslist) == len(b.syslist) == n, "template", "a template with %d instances makes %d systems" % (n, len(b.syslist)), "n")
    bad = cg.diff_states(cg.state(a), cg.state(b), 0.0)
    rec.check(not bad, "template", "systems made from a template differ from the same systems in full: %s" % bad[:3], "state/%s" % cg.label(spec))
    rec.check([s.prefix for s in b.syslist] == prefs, "template", "prefixes %s" % [s.prefix for s in b.syslist], "prefix")
    bad = text_diff(load_written(a)[1], load_written(b)[1])
    rec.check(not bad, "template", "template and full systems are written differently: %s" % bad[:3], "text/%s" % cg.label(spec))
    sg.shutdown(a)
    sg.shutdown(b)


def run_invalid(case, rec):
    """One thing wrong anywhere in a real input: the simulation does not start."""
    from ipi.engine.simulation import Simulation

    rng = np.random.default_rng(case["cseed"])
    doc, lab = make_doc(case, rng)
    for _ in range(case["n"]):
        root = ET.fromstring(doc)
        els = [e for e in root.iter()]
        what = str(rng.choice(["tag", "attr", "number", "option", "mandatory", "unit", "typo"]))
        if what == "tag":
            e = els[int(rng.integers(len(els)))]
            ET.SubElement(e, str(rng.choice(["frobnicate", "Temperature", "systems", "time-step", "thermostats"]))).text = "1"
            where = e.tag
        elif what == "typo":
            e = els[int(rng.integers(1, len(els)))]
            where = e.tag
            e.tag = e.tag + "s" if rng.random() < 0.5 or e.tag == e.tag.upper() else e.tag.upper()
        elif what == "attr":
            e = els[int(rng.integers(len(els)))]
            e.set(str(rng.choice(["frobnicate", "Mode", "unit", "names"])), "1")
            where = e.tag
        elif what in ("number", "unit"):
            c = [e for e in els if len(e) == 0 and e.text and _num(e.text) and e.tag != "checkpoint"]
            if what == "unit":
                c = [e for e in c if e.tag in ("timestep", "tau", "temperature", "pressure", "q", "p", "m", "cell", "pile_centroid_t", "t_start")]
            e = c[int(rng.integers(len(c)))]
            where = e.tag
            if what == "unit":
                e.set("units", str(rng.choice(["furlong", "debye", "megaangstroms"])))
            elif e.text.strip()[0] in "[(":
                e.text = str(rng.choice([e.text.replace("]", ", x ]"), e.text.replace("[", "("), e.text.strip()[1:-1], "[ a, b ]"]))
            else:
                e.text = str(rng.choice(["abc", "1.0 2.0", "", "1,0", "[ 1 ]"]))
        elif what == "option":
            c = [(e, a) for e in els for a in e.attrib if a in ("mode", "splitting", "format", "verbosity", "matching") and e.tag != "cell"]
            e, a = c[int(rng.integers(len(c)))]
            e.set(a, str(rng.choice(["nope", e.get(a).upper() + "_", ""])) or "nope")
            where = e.tag + "@" + a
        else:
            c = [(p, ch) for p in els for ch in p if ch.tag in ("forces",)]
            d = [(e, "name") for e in els if e.tag.startswith("ff")] + [(e, "mode") for e in els if e.tag == "thermostat"] + [(e, "forcefield") for e in els if e.tag in ("force", "bias") and e.get("forcefield")]
            if rng.random() < 0.5 and d:
                e, a = d[int(rng.integers(len(d)))]
                del e.attrib[a]
                where = e.tag + "@" + a
            else:
                e, ch = c[int(rng.integers(len(c)))]
                e.remove(ch)
                where = ch.tag
        bad = ET.tostring(root, encoding="unicode")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sim = Simulation.load_from_xml(bad, request_banner=False)
        except (Exception, SystemExit):
            rec.ok("refused", "%s/%s" % (what, where))
            continue
        rec.fail("refused", "an input with a wrong %s in <%s> is accepted [%s]" % (what, where, lab), "%s/%s" % (what, where))
        sg.shutdown(sim)


def _num(t):
    try:
        [float(x) for x in t.strip().strip("[]()").split(",")]
        return True
    except ValueError:
        return False


def cases(tier, seed):
    n = {"quick": (10, 12), "thorough": (60, 40)}[tier]
    out = [dict(name="schema_%d" % i, kind="schema", n=n[1], cseed=sub_seed(seed, "s", i)) for i in range(n[0])]
    ks = sorted(variants())
    k = 6
    out += [dict(name="fields_%d" % i, kind="fields", keys=ks[i::k], combos={"quick": 2, "thorough": 25}[tier], cseed=sub_seed(seed, "f", i)) for i in range(k)]
    out += [dict(name="doc_%d" % i, kind="doc", mode=["nve", "nvt", "npt", "nst", "sc", "nvt-cc"][i % 6], cseed=sub_seed(seed, "d", i)) for i in range({"quick": 12, "thorough": 120}[tier])]
    out += [dict(name="template_%d" % i, kind="template", cseed=sub_seed(seed, "t", i)) for i in range({"quick": 3, "thorough": 30}[tier])]
    out += [dict(name="invalid_%d" % i, kind="invalid", n={"quick": 10, "thorough": 40}[tier], cseed=sub_seed(seed, "v", i)) for i in range({"quick": 6, "thorough": 30}[tier])]
    return out


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
