"""Strings as concatenations: String, str, Cow<str> and format! by the text they hold."""
import ast
import re
from .bdd import FALSE, TRUE
from .terms import *

STRTY = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std::string::String|str|std::borrow::Cow<'\w+, str>)$")
STRREF = re.compile(r"^(?:<std::string::String as std::(?:ops::Deref(?:Mut)?|convert::AsRef<str>|borrow::Borrow<str>)>::|std::string::String::as_(?:mut_)?str$|std::str::<impl str>::as_|<std::borrow::Cow<'_, B> as std::ops::Deref>::deref$|<str as std::convert::AsRef<str>>)")
STRNEW = re.compile(r"^std::string::String::(?:new|with_capacity)$")
EMPTY = ("cat", ())
LITS = {}


def literal(v):
    """The text of a string (or char) literal."""
    if v[0] != "konst" or v[1]:
        return None
    if v not in LITS:
        LITS[v] = text_of(v[2])
    return LITS[v]


def text_of(s):
    m = re.match(r'^(?:const )?("|\')(.*)\1$', s, re.S)
    if not m:
        return None
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), m.group(2))


def mkcat(parts):
    out = []
    for p in parts:
        for q in p[1] if p[0] == "cat" else (p,):
            if q[0] == "lit":
                if not q[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + q[1])
                    continue
            out.append(q)
    return ("cat", tuple(out))


def see(an, st, v, d=0):
    """A value behind any number of references."""
    if d > 6:
        return v
    if v[0] == "ref":
        return see(an, st, an.read(st, v[1]), d + 1)
    if v[0] == "&":
        return see(an, st, v[1], d + 1)
    if v[0] == "gv":
        return gv([(c, see(an, st, x, d + 1)) for c, x in v[1]])
    return v


def piece(an, st, v, how="disp"):
    """What displaying a value contributes to a text."""
    v = see(an, st, v)
    if how == "disp":
        if v[0] == "cat":
            return v
        t = literal(v)
        if t is not None:
            return ("lit", t)
        if v[0] == "gv":
            xs = [(c, piece(an, st, x)) for c, x in v[1]]
            if any(x[0] in ("lit", "cat") for _, x in xs):
                return ("disp", gv([(c, mkcat([x]) if x[0] in ("lit", "cat") else x[1]) for c, x in xs]))
    return (how, an.value_of(st, v))


def append(an, st, ref, x, cond, sp):
    from .engine import static_path as static
    from .models import places

    for c, pl in places(ref):
        cc = M.AND(cond, c)
        if pl[1][0] == "L":
            old = an.read(st, pl)
            nv = joined(old, x)
            an.write(st, pl, nv if c == TRUE else gv([(c, nv), (M.NOT(c), old)]), cond, sp, record=False)
        else:
            an.effect("append", pl, mkcat([x]), cc, sp)
            an.kill(st, pl)
            an.bump(st, pl[1], static(pl[2]))
    return st


def joined(old, x):
    if old[0] == "gv" and any(v[0] == "cat" for _, v in old[1]):
        return gv([(c, joined(v, x)) for c, v in old[1]])
    return mkcat([text(old), x])


def text(v):
    return v if v[0] == "cat" else EMPTY if v[0] == "empty" else ("disp", v)


def appends(step, old):
    """Does a step of a loop only ever append to the string it starts from?"""
    vs = [v for _, v in step[1]] if step[0] == "gv" else [step]
    vs = [v for v in vs if v != old]
    return bool(vs) and all(v[0] == "cat" and v[1] and v[1][0] == ("disp", old) for v in vs)


def template(b):
    """Pieces of an encoded format string: literal texts and None for a plain argument."""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out if i == len(b) else None
        if n < 0x80:
            out.append(b[i : i + n].decode("utf8"))
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2 : i + 2 + k].decode("utf8"))
            i += 2 + k
        elif n == 0xC0:
            out.append(None)
        else:
            return None
    return None


def arguments(an, st, t, xs):
    if t[0] != "konst" or t[1]:
        return None
    m = re.match(r'^(?:const )?(b".*")$', t[2], re.S)
    xs = xs[1] if xs[0] in ("ref", "&") else xs
    if xs[0] == "pl":
        xs = an.read(st, xs)
    if not m or xs[0] != "arr":
        return None
    try:
        ps = template(ast.literal_eval(m.group(1)))
    except (SyntaxError, ValueError, UnicodeDecodeError, IndexError):
        return None
    if ps is None or sum(p is None for p in ps) != len(xs[1]) or any(x[0] != "fmtarg" for x in xs[1]):
        return None
    it = iter(xs[1])
    return mkcat([("lit", p) if p is not None else next(it)[1] for p in ps])


def items(v, d=0):
    """The elements of a sequence known element by element, as guarded alternatives."""
    if v[0] == "arr":
        return [(TRUE, list(v[1]))]
    if v == ("empty", "seq"):
        return [(TRUE, [])]
    if v[0] == "m" and v[1] == "push" and len(v) == 4:
        xs = items(v[2], d)
        return None if xs is None else [(c, x + [v[3]]) for c, x in xs]
    if v[0] == "gv" and d < 8:
        out = []
        for c, x in v[1]:
            xs = items(x, d + 1)
            if xs is None:
                return None
            out += [(M.AND(c, c2), y) for c2, y in xs if M.AND(c, c2) != FALSE]
            if len(out) > 256:
                return None
        return out
    return None


def join(an, st, v, sep):
    alts = items(v)
    if alts is None:
        return None
    out = []
    for c, xs in alts:
        ps = []
        for i, x in enumerate(xs):
            if i:
                ps.append(sep)
            ps.append(piece(an, st, x))
        out.append((c, mkcat(ps)))
    return gv(out)


def call(an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
    if f.get("rcrate") and "inst" in f:
        return None
    self = f.get("rself") or f.get("self") or ""
    a = args[0] if args else None
    if rdef == "std::fmt::Arguments::<'a>::new" and len(args) == 2:
        r = arguments(an, st, args[0], args[1])
        return None if r is None else (("fmtargs", r), st, TRUE)
    if rdef in ("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst") and literal(a) is not None:
        return ("fmtargs", mkcat([piece(an, st, a)])), st, TRUE
    if rdef in ("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug"):
        p = piece(an, st, a, "disp" if name == "new_display" else "debug")
        return ("fmtarg", p if p[0] != "debug" else p + (re.sub(r"^(&('\w+ )?(mut )?)*", "", aty[0] if aty else ""),)), st, TRUE
    if rdef == "std::fmt::format" and a[0] == "fmtargs":
        return a[1], st, TRUE
    if rdef.startswith("std::fmt::Formatter::<'a>::write_") and len(args) == 2:
        x = None
        if name == "write_fmt" and args[1][0] == "fmtargs":
            x = args[1][1]
        elif name == "write_str":
            x = mkcat([piece(an, st, args[1])])
        if x is not None:
            return an.opaque_call(dict(f, rdef="std::fmt::Formatter::<'a>::write_fmt"), "std::fmt::Formatter::<'a>::write_fmt", "write_fmt", [a, x], st, cond, sp, aty, rty)
    if STRNEW.match(rdef) or trait == "std::default::Default" and rty == "std::string::String":
        return EMPTY, st, TRUE
    if STRREF.match(rdef):
        return a, st, TRUE
    if rdef in ("std::string::String::push_str", "std::string::String::push", "<std::string::String as std::ops::AddAssign<&str>>::add_assign"):
        return UNIT, append(an, st, a, piece(an, st, args[1]), cond, sp), TRUE
    if self == "std::string::String" and trait == "std::fmt::Write":
        x = args[1][1] if name == "write_fmt" and args[1][0] == "fmtargs" else piece(an, st, args[1]) if name in ("write_str", "write_char") else None
        if x is not None:
            return ("agg", "Result", "Ok", (("0", UNIT),)), append(an, st, a, x, cond, sp), TRUE
    if rdef in ("std::string::String::reserve", "std::string::String::shrink_to_fit"):
        return UNIT, st, TRUE
    if rdef == "<std::string::String as std::ops::Add<&str>>::add":
        return mkcat([piece(an, st, a), piece(an, st, args[1])]), st, TRUE
    if name in ("to_string", "to_owned", "into", "from", "into_owned", "into_string", "clone") and len(args) == 1 and STRTY.match(rty):
        if STRTY.match(aty[0] if aty else ""):
            v = see(an, st, a)
            return (mkcat([piece(an, st, v)]) if v[0] == "cat" or literal(v) is not None else v), st, TRUE
        if name == "to_string":
            return mkcat([piece(an, st, a)]), st, TRUE
        if name in ("into", "from") and aty and aty[0] == "char":
            return mkcat([piece(an, st, a)]), st, TRUE
    if name in ("concat", "join") and rty == "std::string::String" and ("slice" in rdef or rdef == "itertools::Itertools::join"):
        sep = piece(an, st, args[1]) if name == "join" else ("lit", "")
        v = see(an, st, a)
        if v[0] == "it" and v[1] in ("slice", "arr", "of"):
            v = see(an, st, v[2])
        r = join(an, st, v, sep)
        if r is None: import sys; print('J',rdef,str(v)[:500],file=sys.stderr)
        if r is not None:
            return r, st, TRUE
    return None
