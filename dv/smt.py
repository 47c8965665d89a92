"""SMT layer: sorts, function symbols, ground-instantiated lemma schemas, prover.

Strings are z3 strings (sequences of Unicode code points); Python integers are
mathematical integers (exact for Python); Python lists are z3 sequences over the
uninterpreted sort Val of boxed Python values.  Library string functions are
uninterpreted symbols constrained only by the ground instances of the lemma
schemas in `lemmas_for` (each schema is listed in TRUSTED_LEMMAS and is tested
against CPython by dv/selftest.py).
"""
import os
import time
import z3

Val = z3.DeclareSort("Val")
Exc = z3.DeclareSort("Exc")
S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
SeqV = z3.SeqSort(Val)

_fn = {}


def uf(name, *sorts):
    key = (name, tuple(str(s) for s in sorts))
    f = _fn.get(key)
    if f is None:
        f = _fn[key] = z3.Function(name, *sorts)
    return f


_ctr = [0]


def fresh(prefix, sort):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (prefix, _ctr[0]), sort)


KINDS = ["none", "opt", "req", "bool", "int", "float", "str", "list", "dict", "node", "mark", "other"]
K = {k: i for i, k in enumerate(KINDS)}
kind = uf("kind", Val, I)
bs = uf("box_str", S, Val)
sv = uf("str_of", Val, S)
bi = uf("box_int", I, Val)
iv = uf("int_of", Val, I)
bb = uf("box_bool", B, Val)
bv = uf("bool_of", Val, B)
bl = uf("box_list", SeqV, Val)
lv = uf("list_of", Val, SeqV)
V_NONE = z3.Const("V_NONE", Val)
V_OPT = z3.Const("V_OPT", Val)
V_REQ = z3.Const("V_REQ", Val)
BASE_FACTS = [kind(V_NONE) == K["none"], kind(V_OPT) == K["opt"], kind(V_REQ) == K["req"]]
typ = uf("typ", Val, S)
has = uf("has", Val, S, B)
get = uf("get", Val, S, Val)
# virtual contract of a child node's rendering: value, raises?, exception
MD = uf("MD", Val, B, I, S)
RZ = uf("RZ", Val, B, I, B)
EX = uf("EX", Val, B, I, Exc)
# virtual contract of a mark's rendering
MM = uf("MM", Val, S, S)
RM = uf("RM", Val, S, B)
EM = uf("EM", Val, S, Exc)
# contract of parse_node / parse_mark
PN = uf("PN", Val, Val)
PU = uf("PU", Val, B)
PR = uf("PR", Val, B)
PE = uf("PE", Val, Exc)
QN = uf("QN", Val, Val)
QU = uf("QU", Val, B)
QR = uf("QR", Val, B)
QE = uf("QE", Val, Exc)
TD = uf("TD", Val, Val)
# library string functions
strip = uf("strip", S, S)
lstrip = uf("lstrip", S, S)
rstrip = uf("rstrip", S, S)
cstrip = uf("strip_chars", S, S, S)
clstrip = uf("lstrip_chars", S, S, S)
crstrip = uf("rstrip_chars", S, S, S)
replace = uf("replace_all", S, S, S, S)
split = uf("split", S, S, SeqV)
splitlines = uf("splitlines", S, SeqV)
join = uf("join", S, SeqV, S)
upper = uf("upper", S, S)
lower = uf("lower", S, S)
indent = uf("indent_all", S, S, S)
indent_ne = uf("indent_nonblank", S, S, S)
repeat = uf("repeat", S, I, S)
itos = uf("int_to_str", I, S)
collapse = uf("collapse_newlines", S, S)
allfree = uf("all_free_of", S, SeqV, B)
int_ok = uf("int_ok", S, B)
int_val = uf("int_val", S, I)
iso_day = uf("iso_day", I, S)
exc_isa = uf("exc_isa", Exc, S, B)
mk_exc = uf("mk_exc", S, SeqV, Exc)
exc_str = uf("exc_str", Exc, S)
val_str = uf("val_str", Val, S)
truthy = uf("truthy", Val, B)
at = uf("elem", SeqV, I, Val)
lrep = uf("list_repeat", SeqV, I, SeqV)
reverse_ = uf("seq_reverse", SeqV, SeqV)


def reverse(L):
    if is_empty(L) or is_unit(L):
        return L
    if z3.is_app(L) and L.decl().name() == "seq_reverse":
        return L.arg(0)
    ps = seq_parts(L)
    if len(ps) > 1:
        return vconcat(*[reverse(p) for p in reversed(ps)])
    return reverse_(L)
enum_value = uf("enum_value", Val, S)
mem = uf("member", SeqV, Val, B)
idx = uf("index_of", SeqV, Val, I)
EXTRA = {}  # further lemma schemata of one task: function name -> (term -> facts)

TRUSTED_LEMMAS = {
    "box": "boxing of str/int/bool/list is injective and kind-tagged",
    "strip.empty": "strip('')==''; strip(s)=='' iff rstrip(s)=='' iff lstrip(s)==''; strip/rstrip/lstrip idempotent",
    "strip.len": "stripping never lengthens a string; a stripped result is a substring",
    "replace.absent": "a not in s -> s.replace(a,b)==s;  s.replace('','x') excluded",
    "replace.removed": "single-character a not in b -> a not in s.replace(a,b)",
    "replace.shrinks": "s.replace('\\n'*3,'\\n'*2) is shorter than s when it contains the pattern, equal to s otherwise",
    "replace.run": "s == c*len(s) -> s.replace(c,y) == y*len(s) (one-character c)",
    "split.shape": "len(s.split(c))>=1; no element of s.split(c) contains c; c not in s -> s.split(c)==[s]",
    "split.head": "c in s -> h = s.split(c)[0] ends at s.find(c), s == h+c+s[len(h)+len(c):], c.join(s.split(c)[1:]) == s[len(h)+len(c):]; s.split(c) has one element iff c not in s",
    "find": "c in s -> with i = s.find(c): s == s[:i]+c+s[i+len(c):] and c not in s[:i]; otherwise s.find(c) == -1",
    "split.join": "c.join(s.split(c))==s; x.join(s.split(c))==s.replace(c,x)",
    "join.rec": "join of [], [x], xs+[x]",
    "join.free": "c not in sep and no element contains c -> c not in sep.join(xs) (one-character c)",
    "collapse": "collapse(s.replace('\\n'*3,'\\n'*2))==collapse(s); '\\n'*3 not in s -> collapse(s)==s; '\\n'*3 not in collapse(s); collapse('')==''",
    "repeat": "c*0=='' ; c*1==c; negative counts give ''; (c*m)*n==c*(m*n) for m,n>=0; len(c*n)==n; c*(m+j)==c*m+c*j==c*j+c*m for m>=0, 1<=j<=8; x+(y+x)*n == (x+y)*n+x; s.startswith(c*n), s[n]==c -> s.startswith(c*(n+1))",
    "list_repeat": "[x]*n has max(n,0) elements; [x]*(m+j)==[x]*m+[x]*j; sep.join([x]*n)==(x+sep)*(n-1)+x for n>=1, '' otherwise; ''.join([x]*n)==x*n",
    "indent": "textwrap.indent with an always-true predicate is a function of (text,prefix)",
    "exc": "class membership of constructed exceptions follows the real class hierarchy",
    "member": "x in [] is false; x in [y] iff x == y; x in a+b iff x in a or x in b; L[k] in L; x in L -> L[i] == x for some index i of L",
    "reverse": "xs[::-1] has the length of xs; (xs+ys)[::-1]==ys[::-1]+xs[::-1]; its k-th element is the k-th from the end of xs",
    "index": "x in L -> L.index(x) is an index of x in L, and x not in L[:L.index(x)]",
    "lstrip_chars": "len(s)>=len(s.lstrip(c)); s.lstrip(c) is a suffix of s; one-char c: s == c*(len(s)-len(t)) + t, t == s iff s does not start with c, (c+x).lstrip(c)==x.lstrip(c); s.startswith(c*n) and s[n:n+1]!=c -> s.lstrip(c)==s[n:]; the same for rstrip",
}

STATS = {"queries": 0, "time": 0.0, "unknown": 0, "by": {"z3": 0, "simplify": 0, "cvc5": 0}}
TIMEOUT_MS = 4000
DUMP = None  # list collecting (name, smt2) when thorough


def is_str_const(t):
    return z3.is_string_value(t)


def str_const(t):
    # z3 escapes non-ascii as \u{..}
    s = t.as_string()
    out, i = [], 0
    import re
    def rep(m):
        return chr(int(m.group(1), 16))
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", rep, s)


def sval(s):
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))


_walk_cache = {}


def subterms(t, seen, out):
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_app(x):
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


E_ = z3.Empty(SeqV)
ES = z3.StringVal("")
NL = sval("\n")
NL3 = sval("\n\n\n")
NL2 = sval("\n\n")

_EXC_CLASSES = {}


def register_exc_class(cls):
    _EXC_CLASSES[cls.__name__] = cls
    return cls.__name__


def exc_subclass(name, sup):
    a, b = _EXC_CLASSES.get(name), _EXC_CLASSES.get(sup)
    if a is None or b is None:
        return None
    return issubclass(a, b)


def seq_parts(t):
    """flatten concat of sequences"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += seq_parts(c)
        return out
    return [t]


def is_unit(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT


def is_empty(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY


def sconcat(*ts):
    flat = []
    for t in ts:
        for p in seq_parts(t):
            if is_str_const(p):
                s = str_const(p)
                if s == "":
                    continue
                if flat and is_str_const(flat[-1]):
                    flat[-1] = sval(str_const(flat[-1]) + s)
                    continue
            flat.append(p)
    if not flat:
        return ES
    if len(flat) == 1:
        return flat[0]
    return z3.Concat(*flat)


def vconcat(*ts):
    flat = []
    for t in ts:
        for p in seq_parts(t):
            if not is_empty(p):
                flat.append(p)
    if not flat:
        return E_
    if len(flat) == 1:
        return flat[0]
    return z3.Concat(*flat)


def repeat_of(s, n):
    """n copies of the constant string s (runs of one character have one normal form)"""
    if s == "":
        return ES
    if len(set(s)) == 1:
        return repeat(sval(s[0]), z3.simplify(n * len(s)))
    return repeat(sval(s), z3.simplify(n))


def boxed_const(x):
    """the constant string a term boxes, or None"""
    if z3.is_app(x) and x.decl().name() == "box_str" and is_str_const(x.arg(0)):
        return str_const(x.arg(0))
    return None


def successor_of(k):
    """(m, j) when k is m + j for a small constant j >= 1"""
    if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_ADD and k.num_args() == 2:
        for c, m in ((k.arg(0), k.arg(1)), (k.arg(1), k.arg(0))):
            if z3.is_int_value(c) and 1 <= c.as_long() <= 8:
                return m, c.as_long()
    return None, 0


def member_of(L, x):
    """membership, unfolded over the structure of the sequence"""
    if is_empty(L):
        return z3.BoolVal(False)
    if is_unit(L):
        return L.arg(0) == x
    ps = seq_parts(L)
    if len(ps) > 1:
        return z3.Or(*[member_of(p, x) for p in ps])
    if z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE:
        c, p, q = L.children()
        return z3.If(c, member_of(p, x), member_of(q, x))
    return mem(L, x)


def lemmas_for(t):
    """ground lemma instances triggered by the single term t"""
    if not z3.is_app(t):
        return []
    d = t.decl()
    if d.kind() == z3.Z3_OP_SEQ_INDEX and t.arg(0).sort() == S and is_str_const(t.arg(1)) and str_const(t.arg(1)) and z3.is_int_value(t.arg(2)) and t.arg(2).as_long() == 0:
        s, c = t.arg(0), t.arg(1)
        m = t + len(str_const(c))
        h, tail = z3.SubString(s, z3.IntVal(0), t), z3.SubString(s, m, z3.Length(s) - m)
        return [z3.If(z3.Contains(s, c), z3.And(t >= 0, s == z3.Concat(h, c, tail), z3.Not(z3.Contains(h, c))), t == -1)]
    if d.kind() == z3.Z3_OP_SEQ_PREFIX and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "repeat" and is_str_const(t.arg(0).arg(0)) and len(str_const(t.arg(0).arg(0))) == 1:
        c, k = t.arg(0).children()
        s, m = t.arg(1), z3.simplify(k - 1)
        return [z3.Implies(z3.And(m >= 0, z3.PrefixOf(repeat(c, m), s), z3.SubString(s, m, z3.IntVal(1)) == c), t)]
    if d.kind() != z3.Z3_OP_UNINTERPRETED or d.arity() == 0:
        return []
    n = d.name()
    a = t.children()
    out = []
    if n == "box_str":
        out += [sv(t) == a[0], kind(t) == K["str"], truthy(t) == (a[0] != ES), val_str(t) == a[0]]
    elif n == "box_int":
        out += [iv(t) == a[0], kind(t) == K["int"], truthy(t) == (a[0] != 0), val_str(t) == itos(a[0])]
    elif n == "box_bool":
        out += [bv(t) == a[0], kind(t) == K["bool"], truthy(t) == a[0]]
    elif n == "box_list":
        out += [lv(t) == a[0], kind(t) == K["list"], truthy(t) == (z3.Length(a[0]) > 0)]
    elif n == "str_of":
        out += [z3.Implies(kind(a[0]) == K["str"], z3.And(bs(t) == a[0], val_str(a[0]) == t, truthy(a[0]) == (t != ES)))]
    elif n == "int_of":
        out += [z3.Implies(kind(a[0]) == K["int"], bi(t) == a[0])]
    elif n == "bool_of":
        out += [z3.Implies(kind(a[0]) == K["bool"], bb(t) == a[0])]
    elif n == "list_of":
        out += [z3.Implies(kind(a[0]) == K["list"], bl(t) == a[0])]
    elif n in ("strip", "lstrip", "rstrip"):
        s = a[0]
        out += [
            (strip(s) == ES) == (t == ES),
            z3.Implies(s == ES, t == ES),
            z3.Length(t) <= z3.Length(s),
            d(t) == t,
        ]
        if n == "strip":
            out += [z3.Contains(s, t)]
        if n == "rstrip":
            out += [z3.PrefixOf(t, s)]
        if n == "lstrip":
            out += [z3.SuffixOf(t, s)]
    elif n in ("strip_chars", "lstrip_chars", "rstrip_chars"):
        s = a[0]
        out += [z3.Length(t) <= z3.Length(s), z3.Implies(s == ES, t == ES), d(t, a[1]) == t]
        if n == "lstrip_chars":
            out += [z3.SuffixOf(t, s)]
            if is_str_const(a[1]) and len(str_const(a[1])) == 1:
                rp = repeat(a[1], z3.Length(s) - z3.Length(t))
                out += [s == z3.Concat(rp, t), z3.Length(rp) == z3.Length(s) - z3.Length(t)]
                out += [z3.SubString(s, 0, z3.Length(s) - z3.Length(t)) == rp]
        if n == "rstrip_chars":
            out += [z3.PrefixOf(t, s)]
        if n != "strip_chars" and is_str_const(a[1]) and len(str_const(a[1])) == 1:
            at_end = z3.PrefixOf if n == "lstrip_chars" else z3.SuffixOf
            out += [(t == s) == z3.Not(at_end(a[1], s))]
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                x, i, l = s.children()
                out += [z3.Implies(z3.And(at_end(a[1], x), i == (1 if n == "lstrip_chars" else 0), l == z3.Length(x) - 1), d(x, a[1]) == t)]
    elif n == "replace_all":
        s, x, y = a
        out += [z3.Implies(z3.And(x != ES, z3.Not(z3.Contains(s, x))), t == s)]
        if is_str_const(x) and is_str_const(y):
            cx, cy = str_const(x), str_const(y)
            if len(cx) == 1 and cx not in cy:
                out += [z3.Not(z3.Contains(t, x))]
            if len(cy) < len(cx):
                out += [
                    z3.Length(t) <= z3.Length(s),
                    z3.Implies(z3.Contains(s, x), z3.Length(t) < z3.Length(s)),
                ]
            if cx == "\n\n\n" and cy == "\n\n":
                out += [collapse(t) == collapse(s), (t == s) == z3.Not(z3.Contains(s, x))]
            if len(cx) == 1:
                out += [join(y, split(s, x)) == t]
            if cx == " ":
                out += [z3.Implies(s == repeat_of(cx, z3.Length(s)), t == repeat_of(cy, z3.Length(s)))]
            # replacing characters other than newline cannot create or remove newlines
            for c in ("\n", "|"):
                if c not in cx and c not in cy:
                    out += [z3.Contains(t, sval(c)) == z3.Contains(s, sval(c))]
    elif n == "collapse_newlines":
        s = a[0]
        out += [
            z3.Not(z3.Contains(t, NL3)),
            z3.Implies(z3.Not(z3.Contains(s, NL3)), t == s),
            z3.Length(t) <= z3.Length(s),
        ]
    elif n == "split":
        s, c = a
        h = at(t, z3.IntVal(0))
        out += [
            z3.Length(t) >= 1,
            join(c, t) == s,
            z3.Implies(z3.Not(z3.Contains(s, c)), z3.And(t == z3.Unit(bs(s)), h == bs(s))),
            bs(sv(h)) == h,
            kind(h) == K["str"],
        ]
        T = z3.SubSeq(t, z3.IntVal(1), z3.Length(t) - 1)
        out += [
            z3.Length(T) == z3.Length(t) - 1,
            s == z3.If(z3.Length(t) == 1, sv(h), z3.Concat(sv(h), c, join(c, T))),
        ]
        if is_str_const(c) and len(str_const(c)) >= 1:
            m = z3.Length(sv(h)) + len(str_const(c))
            tail = z3.SubString(s, m, z3.Length(s) - m)
            has_c = z3.Contains(s, c)
            out += [
                (z3.Length(t) == 1) == z3.Not(has_c),
                z3.Implies(has_c, z3.And(tail == join(c, T), s == z3.Concat(sv(h), c, tail), z3.IndexOf(s, c, 0) == z3.Length(sv(h)))),
            ]
        if is_str_const(c) and len(str_const(c)) == 1:
            out += [allfree(c, t)]
    elif n == "join":
        sep, L = a
        ps = seq_parts(L)
        if is_empty(L):
            out += [t == ES]
        elif len(ps) == 1:
            out += [z3.Implies(L == E_, t == ES)]
            if is_unit(L):
                out += [t == sv(L.arg(0))]
            if z3.is_app(L) and L.decl().name() == "list_repeat" and is_unit(L.arg(0)) and is_str_const(sep):
                x, k = boxed_const(L.arg(0).arg(0)), L.arg(1)
                if x is not None:
                    s_ = str_const(sep)
                    out += [t == (repeat_of(x, k) if s_ == "" else z3.If(k <= 0, ES, z3.Concat(repeat_of(x + s_, k - 1), sval(x))))]
            if z3.is_app(L) and L.decl().name() == "split" and is_str_const(L.arg(1)) and len(str_const(L.arg(1))) == 1:
                out += [t == replace(L.arg(0), L.arg(1), sep)]
            if z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE:
                c, x, y = L.children()
                out += [t == z3.If(c, join(sep, x), join(sep, y))]
        else:
            last, init = ps[-1], vconcat(*ps[:-1])
            if is_unit(last):
                j = join(sep, init)
                x = sv(last.arg(0))
                if is_str_const(sep) and str_const(sep) == "":
                    out += [t == z3.Concat(j, x)]
                else:
                    out += [t == z3.If(z3.Length(init) == 0, x, z3.Concat(j, sep, x))]
            elif is_str_const(sep) and str_const(sep) == "":
                out += [t == z3.Concat(join(sep, init), join(sep, last))]
            else:
                ji, jl = join(sep, init), join(sep, last)
                out += [t == z3.If(z3.Length(init) == 0, jl, z3.If(z3.Length(last) == 0, ji, z3.Concat(ji, sep, jl)))]
        if is_str_const(sep):
            for c in ("\n", "|"):
                if c not in str_const(sep):
                    out += [z3.Implies(allfree(sval(c), L), z3.Not(z3.Contains(t, sval(c))))]
    elif n == "all_free_of":
        c, L = a
        ps = seq_parts(L)
        if is_empty(L):
            out += [t]
        elif is_unit(L):
            out += [t == z3.Not(z3.Contains(sv(L.arg(0)), c))]
        elif len(ps) > 1:
            out += [t == z3.And(*[allfree(c, p) for p in ps])]
        elif z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE:
            cc, x, y = L.children()
            out += [t == z3.If(cc, allfree(c, x), allfree(c, y))]
    elif n == "repeat":
        s, k = a
        out += [z3.Implies(k <= 0, t == ES), z3.Implies(k == 1, t == s)]
        m, j = successor_of(k)
        if m is not None:
            out += [z3.Implies(m >= 0, z3.And(t == sconcat(repeat(s, m), *[s] * j), t == sconcat(*[s] * j, repeat(s, m))))]
        if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_ADD and any(z3.is_int_value(c) and c.as_long() < 0 for c in k.children()):
            up = repeat(s, z3.simplify(k + 1))
            out += [z3.Implies(k >= 0, z3.And(up == sconcat(s, t), up == sconcat(t, s)))]
        if is_str_const(s):
            out += [z3.Length(t) == z3.If(k <= 0, 0, k * len(str_const(s)))]
            w = str_const(s)
            rot, r = min((w[i:] + w[:i], i) for i in range(max(1, len(w))))
            if r:
                out += [sconcat(sval(w[:r]), repeat(sval(rot), k)) == sconcat(t, sval(w[:r]))]
            for c in ("\n", "|"):
                if c not in str_const(s):
                    out += [z3.Not(z3.Contains(t, sval(c)))]
    elif n == "list_repeat":
        L, k = a
        out += [z3.Implies(k <= 0, t == E_), z3.Implies(k == 1, t == L)]
        if is_unit(L):
            out += [z3.Length(t) == z3.If(k <= 0, 0, k)]
            m, j = successor_of(k)
            if m is not None:
                out += [z3.Implies(m >= 0, t == z3.Concat(lrep(L, m), *[L] * j))]
    elif n == "seq_reverse":
        L = a[0]
        out += [z3.Length(t) == z3.Length(L), (t == E_) == (L == E_)]
        e = reverse(L)
        if not e.eq(t):
            out += [t == e]
        elif z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = L.children()
            out += [t == z3.If(c, reverse(x), reverse(y))]
    elif n == "index_of":
        L, x = a
        out += [z3.Implies(mem(L, x), z3.And(t >= 0, t < z3.Length(L), at(L, t) == x, z3.Not(mem(z3.SubSeq(L, 0, t), x))))]
    elif n == "exc_isa":
        e, c = a
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            cc, x, y = e.children()
            out += [t == z3.If(cc, exc_isa(x, c), exc_isa(y, c))]
        elif z3.is_app(e) and e.decl().name() == "mk_exc" and is_str_const(e.arg(0)):
            r = exc_subclass(str_const(e.arg(0)), str_const(c))
            if r is not None:
                out += [t == z3.BoolVal(r)]
        elif str_const(c) in ("Exception", "BaseException", "object"):
            out += [t]
    elif n == "member":
        L, x = a
        e = member_of(L, x)
        if not e.eq(t):
            out += [t == e]
        else:
            i = idx(L, x)
            out += [z3.Implies(t, z3.And(i >= 0, i < z3.Length(L), at(L, i) == x))]
    elif n in ("upper", "lower"):
        out += [d(t) == t if n == "lower" else z3.BoolVal(True), (t == ES) == (a[0] == ES)]
    elif n == "int_to_str":
        out += [z3.Length(t) >= 1]
    return out


def counted_run(s, c, n):
    """n copies of the character c begin s and s ends there or goes on with another character:
    s.lstrip(c) is what follows them"""
    rest = z3.SubString(s, n, z3.Length(s) - n)
    return z3.Implies(
        z3.And(n >= 0, z3.PrefixOf(repeat(sval(c), n), s), z3.Or(n == z3.Length(s), z3.SubString(s, n, z3.IntVal(1)) != sval(c))),
        clstrip(s, sval(c)) == rest,
    )


def nth_lemmas(t):
    """elem(L,k) is L[k]; elements of a split list are boxed strings free of the separator"""
    if not (z3.is_app(t) and t.decl().name() == "elem"):
        return []
    L, k = t.children()
    out = []
    inb = z3.And(k >= 0, k < z3.Length(L))
    name = L.decl().name()
    if name not in ("list_of", "split"):
        out += [z3.Implies(inb, t == L[k])]
    if name == "seq_reverse":
        out += [z3.Implies(inb, t == at(L.arg(0), z3.Length(L.arg(0)) - 1 - k))]
    if name == "split":
        c = L.arg(1)
        out += [z3.Implies(inb, z3.And(kind(t) == K["str"], z3.Not(z3.Contains(sv(t), c))))]
    return out


MAX_ROUNDS = 3
RLIMIT_PER_MS = 1000
SCALE = float(os.environ.get("DV_SCALE") or 1)


def instantiate(fs):
    extra = EXTRA
    seen, terms, facts = set(), [], []
    frontier = list(fs)
    for rnd in range(MAX_ROUNDS):
        new = []
        for f in frontier:
            subterms(f, seen, new)
        if not new:
            break
        nf = []
        for t in new:
            for l in lemmas_for(t):
                nf.append(l)
            for l in nth_lemmas(t):
                nf.append(l)
            if extra and z3.is_app(t) and t.decl().name() in extra:
                nf += extra[t.decl().name()](t)
        facts += nf
        frontier = nf
    return facts


_SOFT = {}
_consts = {}


def soft(f):
    """register f as an always-valid fact that a query may leave out when unrelated"""
    _SOFT[f.get_id()] = f
    return f


def consts_of(f):
    i = f.get_id()
    r = _consts.get(i)
    if r is None:
        out = []
        subterms(f, set(), out)
        r = (f, frozenset(t.decl().name() for t in out if z3.is_app(t) and t.num_args() == 0 and "!" in t.decl().name()))
        _consts[i] = r
    return r[1]


def relevant(fs):
    """drop always-valid facts that share no constant with the rest of the query (sound:
    fewer premises)"""
    hard, pool = [], []
    for f in fs:
        (pool if f.get_id() in _SOFT else hard).append(f)
    if not pool:
        return fs
    cs = set()
    for f in hard:
        cs |= consts_of(f)
    out = list(hard)
    while True:
        rest, n = [], len(out)
        for f in pool:
            c = consts_of(f)
            if not c or c & cs:
                out.append(f)
            else:
                rest.append(f)
        if len(out) == n:
            return out
        for f in out[n:]:
            cs |= consts_of(f)
        pool = rest


class Result:
    def __init__(self, ok, status, model=None, by="z3", secs=0.0):
        self.ok, self.status, self.model, self.by, self.secs = ok, status, model, by, secs

    def __bool__(self):
        return self.ok


_cache = {}


def check(fs, timeout=None, want_model=False):
    """sat / unsat / unknown of a conjunction, with lemma instances"""
    fs = [f for f in fs if not z3.is_true(f)]
    for f in fs:
        if z3.is_false(f):
            STATS["by"]["simplify"] += 1
            return Result(True, "unsat", by="simplify")
    fs = relevant(fs)
    key = frozenset(f.get_id() for f in fs)
    if key in _cache and not want_model:
        r, keep = _cache[key]
        return r
    t0 = time.time()
    allf = BASE_FACTS + list(fs) + instantiate(fs)
    s = z3.Solver()
    ms = int((timeout or TIMEOUT_MS) * SCALE)
    # the deterministic resource limit decides; wall-clock is only a safety net
    s.set("rlimit", ms * RLIMIT_PER_MS)
    s.set("timeout", ms * 6)
    s.add(*allf)
    st = str(s.check())
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["by"]["z3"] += 1
    model = None
    if st == "sat" and want_model:
        model = s.model()
    if st == "unknown":
        STATS["unknown"] += 1
    r = Result(st == "unsat", st, model, "z3", dt)
    if DUMP is not None:
        DUMP.append((st, s.to_smt2()))
    _cache[key] = (r, fs)
    return r


def second_opinion(budget):
    """thorough tier: every query z3 refuted, given to cvc5 as well"""
    import subprocess

    out = {"confirmed": 0, "no_answer": 0, "contradicted": 0, "not_tried": 0}
    t0 = time.time()
    for st, text in DUMP:
        if st != "unsat":
            continue
        if time.time() - t0 > budget:
            out["not_tried"] += 1
            continue
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", "--strings-exp", "--tlimit=4000", "-"], input="(set-logic ALL)\n" + text, capture_output=True, text=True, timeout=20)
            a = (r.stdout.split() or [""])[0]
        except (OSError, subprocess.TimeoutExpired):
            a = ""
        out["confirmed" if a == "unsat" else "contradicted" if a == "sat" else "no_answer"] += 1
    return out


def prove(prem, goal, timeout=None):
    g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    if z3.is_true(g):
        STATS["by"]["simplify"] += 1
        return Result(True, "unsat", by="simplify")
    r = check(list(prem) + [z3.Not(goal if not isinstance(goal, bool) else z3.BoolVal(goal))], timeout)
    return r


def filter_provable(prem, cands, goal_of, timeout):
    """the candidates whose goal follows from prem (one pass of Houdini: candidates
    refuted by a common counterexample are dropped together)"""
    cands = list(cands)
    goals = {f.get_id(): goal_of(f) for f in cands}
    while cands:
        gs = [goals[f.get_id()] for f in cands]
        r = check(list(prem) + [z3.Not(z3.And(*gs) if len(gs) > 1 else gs[0])], timeout, want_model=True)
        if r.ok:
            return cands
        if r.status == "sat" and r.model is not None:
            keep = [f for f, g in zip(cands, gs) if not z3.is_false(r.model.eval(g, model_completion=True))]
            if len(keep) < len(cands):
                cands = keep
                continue
        return [f for f, g in zip(cands, gs) if prove_cases(prem, f, g, timeout)]
    return []


def prove_cases(prem, f, g, timeout):
    """prem => g, by the cases that the invariant f distinguishes when that is needed"""
    r = prove(prem, g, timeout)
    if r.status == "unknown" and z3.is_eq(f):
        for c in f.children():
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                h = c.arg(0)
                return prove(list(prem) + [h], g, timeout) and prove(list(prem) + [z3.Not(h)], g, timeout)
    return r
