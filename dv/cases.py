"""Small functions over the built-ins the package (or a plausible edit of it) uses; dv/selftest.py executes each
symbolically and compares the contract with CPython.  Parameters: s, t, u strings; n, m integers; b, c truth values;
xs, ys lists of strings; d a dictionary with the optional keys a and b."""
import copy
import functools
import io
import itertools
import operator
import re
import textwrap
import datetime


def c_strip(s): return s.strip()
def c_lstrip(s): return s.lstrip()
def c_rstrip(s): return s.rstrip()
def c_strip_nl(s): return s.strip("\n")
def c_lstrip_sp(s): return s.lstrip(" ")
def c_rstrip_nl(s): return s.rstrip("\n")
def c_strip_test(s): return bool(s.strip())
def c_isspace(s): return s.isspace()
def c_upper(s): return s.upper()
def c_lower(s): return s.lower()
def c_title(s): return s.title()
def c_replace_nl(s): return s.replace("\n", " ")
def c_replace_pipe(s): return s.replace("|", "\\|")
def c_replace3(s): return s.replace("\n\n\n", "\n\n")
def c_replace_del(s): return s.replace("a", "")
def c_split(s): return s.split("\n")
def c_split_join(s): return "|".join(s.split("\n"))
def c_split1(s): return s.split("a", 1)
def c_split_ws(s): return len(s.split()) >= 0
def c_splitlines(s): return len(s.splitlines()) >= 0
def c_splitlines2(s): return s.splitlines() == s.splitlines(True)
def c_splitlines3(s): return s.splitlines() == s.splitlines(keepends=False)
def c_partition(s): return s.partition("a")
def c_partition0(s): return s.partition("\n")[0] + "-" + s.partition("\n")[2]
def c_starts(s): return s.startswith(("a", "\n"))
def c_ends(s, t): return s.endswith(t)
def c_removeprefix(s): return s.removeprefix("ab")
def c_removesuffix(s): return s.removesuffix("\n")
def c_removesuffix0(s, t): return s.removesuffix(t)
def c_find(s, t): return s.find(t)
def c_count(s): return s.count("\n") >= 0
def c_in(s, t): return t in s
def c_not_in(s): return "\n\n" not in s
def c_concat(s, t): return s + "-" + t
def c_fstring(s, n): return f"{s}:{n}"
def c_fstring_conv(n, s): return f"{n!s} {s!s}"
def c_format(s, t): return "{} ({})".format(s, t)
def c_format_kw(s, t): return "{a}[{b}]".format(a=s, b=t)
def c_percent(s, t): return "%s|%s" % (s, t)
def c_percent1(s): return "<%s>" % s
def c_add_assign(s, n):
    r = s
    r += str(n)
    return r


def c_repeat(n): return "#" * n
def c_repeat_s(s, n): return s * 2
def c_repeat4(n): return "    " * n
def c_repeat_len(s): return len("-" * len(s)) == len(s)
def c_repeat_ab(n): return "ab" * n
def c_repeat_succ(n): return "\t" * (n + 1)
def c_slice(s, n): return s[n:]
def c_slice2(s, n, m): return s[n:m]
def c_slice_neg(s): return s[:-1]
def c_slice_tail(s): return s[-2:]
def c_index(s, n): return s[n]
def c_last(s): return s[-1]
def c_len(s): return len(s)
def c_str_int(n): return str(n)
def c_int_str(s): return int(s)
def c_str_bool(b): return str(b)
def c_eq(s, t): return s == t
def c_lt_len(s, t): return len(s) < len(t)
def c_or(s, t): return s or t
def c_and(s, t): return s and t
def c_not(s): return not s
def c_ternary(b, s, t): return s if b else t
def c_chained(n, m): return 0 <= n < m
def c_add(n, m): return n + m
def c_sub(n, m): return n - m
def c_mul(n, m): return n * m
def c_floordiv(n): return n // 3
def c_floordiv_neg(n): return n // -3
def c_mod(n): return n % 3
def c_mod_neg(n): return n % -3
def c_truediv(n): return int(n / 4)
def c_div_zero(n, m): return n // m
def c_divmod(n): return divmod(n, 7)
def c_neg(n): return -n
def c_abs(n): return abs(n)
def c_min(n, m): return min(n, m)
def c_max(n, m): return max(n, m, 0)
def c_pow(n): return n * n >= 0
def c_bool_int(b, n): return b + n
def c_bool_eq(b): return b == 1
def c_isinst(n, b): return (isinstance(n, int), isinstance(b, int), isinstance(n, bool), isinstance(b, bool))
def c_isinst_s(s): return (isinstance(s, str), isinstance(s, (int, list)), isinstance(s, object))
def c_type(s, n, b): return (type(s) is str, type(n) is int, type(b) is int, type(b) is bool)
def c_none(s): return (s is None, s == None, None or s)  # noqa
def c_join(xs): return ",".join(xs)
def c_join0(xs): return "".join(xs)
def c_join_cat(xs, s): return "\n".join(xs + [s])
def c_join_cat2(xs, ys): return "\n".join(xs + ys)
def c_join_pre(xs, s): return " | ".join([s] + xs)
def c_join_nonempty(xs): return "\n".join(x for x in xs if x)
def c_list_len(xs): return len(xs)
def c_list_index(xs, n): return xs[n]
def c_list_first(xs): return xs[0]
def c_list_last(xs): return xs[-1]
def c_list_slice(xs): return xs[1:]
def c_list_slice2(xs, n): return xs[:n]
def c_list_slice3(xs, n, m): return xs[n:m]
def c_list_in(xs, s): return s in xs
def c_list_eq(xs, ys): return xs == ys
def c_list_truth(xs): return "yes" if xs else "no"
def c_list_mul(n): return ["a"] * n
def c_list_mul_join(n): return "-".join(["a"] * n)
def c_list_mul_join2(n): return "".join(["ab"] * n)
def c_list_append(xs, s):
    r = list(xs)
    r.append(s)
    return r


def c_list_extend(xs, ys):
    r = []
    r.extend(xs)
    r += ys
    return r


def c_list_insert(xs, s):
    r = list(xs)
    r.insert(0, s)
    return r


def c_list_pop(xs):
    r = list(xs)
    x = r.pop()
    return (x, r)


def c_list_pop0(xs):
    r = list(xs)
    x = r.pop(0)
    return (x, r)


def c_list_copy(xs):
    r = xs.copy()
    r.append("z")
    return (len(xs), len(r))


def c_list_clear(xs):
    r = list(xs)
    r.clear()
    return r


def c_list_star(xs, ys): return [*xs, "m", *ys]
def c_unpack(xs):
    a, *r = xs
    return (a, r)


def c_chain(xs, ys): return list(itertools.chain(xs, ys))
def c_any_const(s, t): return any([s, t])
def c_all_const(s, t): return all([s, t])
def c_tuple(s, t):
    a, b = (t, s)
    return (a, b)


def c_sum_const(n, m): return sum([n, m, 1])
def c_reversed_const(s, t): return list(reversed([s, t]))
def c_zip_const(s, t): return [x + y for x, y in zip([s, t], ["1", "2", "3"])]
def c_enum_const(s, t): return [f"{i}{x}" for i, x in enumerate([s, t], start=1)]
def c_map_const(s, t): return list(map(str.strip, [s, t]))
def c_filter_const(s, t): return list(filter(None, [s, t]))
def c_next_const(s, t): return next((x for x in [s, t] if x), "none")
def c_range(n): return list(range(3))
def c_range2(): return list(range(7, 1, -2))
def c_set_const(s): return s in {"a", "b"}
def c_fold(s, t): return functools.reduce(lambda a, x: a + x, [s, t], "")
def c_sub_nl(s): return re.sub(r"\n{3,}", "\n\n", s)
def c_sub_pipe(s): return re.sub(r"\|", r"\\|", s)
def c_sub_char(s): return re.sub("a", "bb", s)
def c_indent_all(s): return textwrap.indent(s, "> ", lambda line: True) == textwrap.indent(s, "> ", predicate=lambda line: True)
def c_indent_none(s): return textwrap.indent(s, "> ", lambda line: False)
def c_loop_count(xs):
    n = 0
    for x in xs:
        n += 1
    return n


def c_loop_flag(xs):
    seen = False
    for x in xs:
        seen = True
    return seen


def c_loop_list(xs):
    r = []
    for x in xs:
        r.append("c")
    return r


def c_loop_str(n):
    r = ""
    for _ in range(n):
        r += "#"
    return r


def c_loop_while(n):
    r = ""
    while len(r) < n:
        r += "-"
    return r


def c_while_collapse(s):
    while "\n\n\n" in s:
        s = s.replace("\n\n\n", "\n\n")
    return s


def c_while_down(n):
    k = 0
    while n > 0:
        n -= 1
        k += 1
    return k >= 0


def c_loop_join(xs): return "".join("#" for _ in xs)
def c_loop_enum(xs):
    r = 0
    for i, x in enumerate(xs, start=1):
        r = i
    return r


def c_for_else(xs):
    for x in xs:
        return "first " + x
    else:
        return "none"


def c_try(s):
    try:
        n = int(s)
    except ValueError:
        return "bad"
    else:
        return "ok"
    finally:
        s = ""


def c_try_index(xs):
    try:
        return xs[0]
    except IndexError:
        return None


def c_try_finally(s, b):
    r = [s]
    try:
        if b:
            raise KeyError(s)
        return r
    except (ValueError, KeyError):
        r.append("k")
        return r
    finally:
        r.append("f")


def c_raise_from(s):
    try:
        raise ValueError(s)
    except ValueError as e:
        raise KeyError("x") from e


def c_reraise(b):
    try:
        if b:
            raise IndexError("i")
    except LookupError:
        raise
    return 1


def c_match(s):
    match s:
        case "a" | "b":
            return 1
        case "":
            return 0
        case _:
            return 2


def c_walrus(s):
    if (t := s.strip()):
        return t
    return "-"


def c_nested(s, t):
    r = []

    def add(x):
        r.append(x + t)

    add(s)
    add("k")
    return r


def c_default_arg(s, b):
    def f(x, y="d", *rest, z="e", **kw):
        return x + y + z + str(len(rest)) + "".join(kw)

    return f(s) if b else f(s, "1", "2", z="3", w=1)


def c_lambda(s): return (lambda x, y="!": x + y)(s)
def c_comp_cond(s, t): return [x for x in (s, t) if x != "a"]
def c_dict_comp(s): return {k: s for k in ("a", "b")}["b"]
def c_gen(s):
    def g():
        yield s
        yield "z"

    return "".join(g())


def c_gen_send(s, b):
    def g():
        if b:
            yield s
        yield from [s, "q"]

    return list(g())


def c_dict_get(d): return d.get("a")
def c_dict_get_def(d): return d.get("b", "none")
def c_dict_in(d): return "a" in d
def c_dict_item(d): return d["a"]
def c_dict_len(d): return len(d)
def c_dict_pop(d):
    e = dict(d)
    return (e.pop("a", "gone"), len(e))


def c_dict_set(d, s):
    e = {**d, "a": s}
    return e["a"]


def c_dict_update(d, s):
    e = dict(d)
    e.update({"b": s})
    return (e["b"], len(e))


def c_dict_or(d): return (d | {"c": "x"}).get("c")
def c_dict_del(d):
    e = dict(d)
    del e["a"]
    return len(e)


def c_dict_setdefault(d, s):
    e = dict(d)
    e.setdefault("a", s)
    return e["a"]


def c_dict_keys(d): return list(d)
def c_dict_items(d): return [k + v for k, v in d.items()]
def c_dict_values(d): return "".join(d.values())
def c_dict_copy(d):
    e = copy.copy(d)
    e["z"] = "1"
    return ("z" in d, "z" in e)


def c_dict_clear(d):
    e = dict(d)
    e.clear()
    return len(e)


def c_dict_truth(d): return bool(d)
def c_dict_popitem_missing(d): return d.get("missing", d.get("a"))
def c_date(n): return str(datetime.datetime.fromtimestamp(n / 1000, tz=datetime.timezone.utc).date())
def c_date_iso(n): return datetime.datetime.fromtimestamp(n / 1000, tz=datetime.timezone.utc).date().isoformat()
def c_date_fmt(n): return datetime.datetime.fromtimestamp(n // 1000, tz=datetime.timezone.utc).strftime("%Y-%m-%d")
def c_date_delta(n): return str((datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=n)).date())
def c_scope(s):
    for x in [s, "w"]:
        pass
    return x


def c_aug_list(xs):
    r = xs
    r = r + ["t"]
    return len(r) - len(xs)


def c_short_circuit(xs): return xs and xs[0]
def c_cond_index(xs, n): return xs[n] if 0 <= n < len(xs) else "out"
def c_cmp_str_const(s): return s != "" and s[0] == "a"
def c_str_of_none(): return str(None)
def c_iter_twice(s, t):
    it = iter([s, t])
    return (list(it), list(it))


def c_zip_twice(s, t):
    z = zip([s], [t])
    return (len(list(z)), len(list(z)))


def c_sorted_const(): return sorted({"b", "a"})
def c_set_ops(s): return len({"a", "b"} & {"b", "c"}) + len({"a"} | {"b"}) + len({"a"} - {"a"})
def c_del_local(s):
    t = s
    del t
    return s


def c_assert(b):
    assert b, "message"
    return 1


def c_global_const(): return re.__name__
def c_bool_of(n): return bool(n)
def c_int_bool(b): return int(b)
def c_int_float(n): return int(n / 1)
def c_str_mul_neg(s): return s * -1
def c_eq_types(s, n, b): return (s == n, n == b, s == b)
def c_ord(s): return s < "b" if len(s) == 1 else None
def c_iter_str(s): return [ch for ch in s if ch != "\n"] if len(s) == 1 else []
def c_join_chars(s): return "".join(s.split("a"))
def c_center(s): return s.center(5) == s.center(5)
def c_expandtabs(s): return s.expandtabs(4) == s.expandtabs(4)
def c_isdigit(s): return s.isdigit() or not s.isdigit()
def c_swap(n, m):
    n, m = m, n
    return (n, m)


def c_nested_try(s, b):
    out = []
    for x in [s, "k"]:
        try:
            if b:
                raise ValueError
        except ValueError:
            continue
        out.append(x)
    return out


def c_break(xs):
    n = 0
    for x in xs:
        if x == "a":
            break
        n += 1
    return n <= len(xs)


def c_ljust(s, n): return (s.ljust(n), s.rjust(n, "-"), s.center(n), s.zfill(n))
def c_center2(s, n): return s.center(n, "*")
def c_part_join(s):
    h, m, t = s.partition("\n")
    return "\n".join([h, *t.split("\n")]) if m else h
def c_find_slices(s): return (s[:s.find("|")], s[s.find("|") + 1:]) if "|" in s else s
def c_split_head(s):
    h = s.split("\n")[0]
    return (h, s[len(h) + 1:])
def c_dict_assign(s):
    d = {"a": s, "b": "x"}
    for k, v in d.items():
        d[k] = v + k
    return d
def c_dict_grow(s):
    d = {"a": s}
    for k in d:
        d["b"] = k
    return d
def c_items_later(s):
    d = {"a": s}
    it = d.items()
    d["b"] = s
    return list(it)


def c_partial(s, t):
    f = functools.partial(lambda a, b, c="x": a + b + c, s, c=t)
    return f("-") + f("+", c="!")
def c_methodcaller(xs): return [operator.methodcaller("strip")(str(x)) for x in xs]
def c_methodcaller2(s): return operator.methodcaller("replace", "a", "b")(s)
def c_attrgetter(b): return operator.attrgetter("real")(b) if b else None
def c_itemgetter(xs): return operator.itemgetter(0)(xs) if xs else operator.itemgetter("k")({"k": 1})
def c_stringio(s, t):
    b = io.StringIO()
    b.write(s)
    n = b.write("|")
    b.writelines([t, s])
    return (b.getvalue(), n)
def c_islice(xs, n): return list(itertools.islice(xs, n)) if n >= 0 else list(itertools.islice(xs, 1, None))
def c_islice_bad(xs, n): return list(itertools.islice(xs, n, None))
def c_counter(s):
    c = itertools.count(1)
    return ["%d%s" % (next(c), p) for p in s.split("\n")]
def c_count_zip(s): return [(i, p) for i, p in zip(itertools.count(3, 2), s.split("|"))]
def c_next_rest(s):
    it = iter(s.split("\n"))
    h = next(it)
    return (h, list(it))
def c_next_twice(s):
    it = iter(s.split("|"))
    a = next(it)
    b = next(it, "none")
    return (a, b, "+".join(it))
def c_next_stop(xs):
    it = iter(xs)
    n = next(it)
    return (n, next(it))
def c_next_loop(s):
    it = iter(s.split("|"))
    out = []
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        out.append(x + "!")
    return out
def c_next_loop2(xs):
    it = iter(xs)
    out = []
    x = next(it, None)
    while x is not None:
        out.append(x)
        x = next(it, None)
    return out
def c_chain_once(s):
    c = itertools.chain([s], ["x"])
    return (list(c), list(c))
def c_sentinel(s, t):
    missing = object()
    d = {"a": s}
    if t == "a":
        d["b"] = t
    v = d.get("b", missing)
    return "none" if v is missing else v
def c_format_map(s, n): return "{a}-{b}".format_map({"a": s, "b": n})
def c_compiled(s): return re.compile(r"\n{3,}").sub("\n\n", s)
def c_iter_break(s):
    it = iter(["a", s, "b"])
    for x in it:
        if x == s:
            break
    return list(it)
def c_iter_in(s):
    it = iter(["a", "b", "c"])
    return (s in it, list(it))
