"""Random programs for the self-test: the executor's reading of each must admit what CPython does.

Programs use the statements and expressions the executor covers, over strings, integers, truth values and lists of strings."""
import random


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.lines = []
        self.n = 0
        self.rich = seed % 2 == 1

    def pick(self, *xs):
        return self.r.choice(xs)

    # expressions; scope: name -> kind
    def var(self, sc, k):
        vs = [n for n, q in sc.items() if q == k]
        return self.r.choice(vs) if vs else None

    def s(self, sc, d=2):
        r = self.r
        v = self.var(sc, "s")
        if d <= 0 or r.random() < 0.3:
            return v if v and r.random() < 0.75 else repr(self.pick("", "a", "\n", "ab", " ", "|"))
        t = lambda: self.s(sc, d - 1)
        return self.pick(
            lambda: "%s + %s" % (t(), t()), lambda: "(%s).strip()" % t(), lambda: "(%s).replace(%r, %r)" % (t(), self.pick("a", "\n", "|", " "), self.pick("", "b", " ")),
            lambda: "(%s if %s else %s)" % (t(), self.b(sc, d - 1), t()), lambda: "%r.join(%s)" % (self.pick("", ",", "\n"), self.l(sc, d - 1)),
            lambda: "f\"<{%s}>{%s}\"" % (v or "''", self.var(sc, "n") or "0"), lambda: "str(%s)" % self.n_(sc, d - 1), lambda: "(%s)[%s:]" % (t(), self.pick("1", "-1", "2")),
            lambda: "(%s)[:%s]" % (t(), self.pick("1", "-1")), lambda: "(%s or %s)" % (t(), t()), lambda: "(%s and %s)" % (t(), t()),
            lambda: "(%s)[%s]" % (self.l(sc, d - 1), self.pick("0", "-1", "1")), lambda: "(%s)[%s]" % (t(), self.pick("0", "-1")), lambda: "%s * %s" % (repr(self.pick("a", "ab", "-")), self.n_(sc, d - 1)),
            lambda: "next((z for z in %s if %s), %s)" % (self.l(sc, d - 1), self.b(dict(sc, z="s"), d - 1), t()),
            lambda: "(lambda w: w + %s)(%s)" % (t(), t()), lambda: self.dget(sc, d), lambda: "(%s).partition(%r)[%s]" % (t(), self.pick("|", "\n"), self.pick("0", "2")),
            lambda: self.call(sc, d), lambda: "(%s).rstrip(%r)" % (t(), self.pick("\n", " |", "a")), lambda: "str(%s)" % self.b(sc, d - 1),
        )()

    def n_(self, sc, d=2):
        r = self.r
        v = self.var(sc, "n")
        if d <= 0 or r.random() < 0.35:
            return v if v and r.random() < 0.7 else str(r.randrange(-2, 4))
        t = lambda: self.n_(sc, d - 1)
        return self.pick(
            lambda: "(%s + %s)" % (t(), t()), lambda: "(%s - %s)" % (t(), t()), lambda: "len(%s)" % self.s(sc, d - 1), lambda: "len(%s)" % self.l(sc, d - 1),
            lambda: "(%s if %s else %s)" % (t(), self.b(sc, d - 1), t()), lambda: "min(%s, %s)" % (t(), t()), lambda: "(%s // 2)" % t(), lambda: "(%s %% 3)" % t(),
            lambda: "int(%s)" % self.b(sc, d - 1), lambda: "sum(1 for z in %s if %s)" % (self.l(sc, d - 1), self.b(dict(sc, z="s"), d - 1)),
        )()

    def b(self, sc, d=2):
        r = self.r
        v = self.var(sc, "b")
        if d <= 0:
            return v if v else self.pick("True", "False")
        t = lambda: self.b(sc, d - 1)
        return self.pick(
            lambda: "%s == %s" % (self.s(sc, d - 1), self.s(sc, d - 1)), lambda: "%s < %s" % (self.n_(sc, d - 1), self.n_(sc, d - 1)), lambda: "%r in %s" % (self.pick("a", "\n"), self.s(sc, 0)),
            lambda: "(%s and %s)" % (t(), t()), lambda: "(%s or %s)" % (t(), t()), lambda: "not (%s)" % t(), lambda: "bool(%s)" % self.s(sc, d - 1), lambda: "bool(%s)" % self.l(sc, 0),
            lambda: "(%s).startswith(%r)" % (self.s(sc, 0), self.pick("a", "", "\n")), lambda: "0 <= %s < %s" % (self.n_(sc, d - 1), self.n_(sc, d - 1)), lambda: v or "True",
            lambda: "any(%s for z in %s)" % (self.b(dict(sc, z="s"), 1), self.l(sc, 0)), lambda: "all(%s for z in %s)" % (self.b(dict(sc, z="s"), 1), self.l(sc, 0)),
            lambda: "(%s) in %s" % (self.s(sc, 0), self.l(sc, 0)), lambda: "%s is None" % (v or "None"), lambda: "isinstance(%s, str)" % self.s(sc, 0),
        )()

    def l(self, sc, d=2):
        r = self.r
        v = self.var(sc, "l")
        if d <= 0:
            return v if v and r.random() < 0.8 else "[%s]" % self.s(sc, 0)
        t = lambda: self.l(sc, d - 1)
        return self.pick(
            lambda: v or "[]", lambda: "[%s, %s]" % (self.s(sc, d - 1), self.s(sc, d - 1)), lambda: "(%s + %s)" % (t(), t()), lambda: "[z for z in %s if %s]" % (t(), self.b(dict(sc, z="s"), 1)),
            lambda: "[%s for z in %s]" % (self.s(dict(sc, z="s"), 1), t()), lambda: "(%s)[1:]" % t(), lambda: "list(%s)" % t(), lambda: "[%s, *%s]" % (self.s(sc, d - 1), t()),
            lambda: "list(map(str.strip, %s))" % t(), lambda: "list(filter(None, %s))" % t(), lambda: "(%s).split('\\n')" % self.s(sc, 0), lambda: "[f\"{i}{z}\" for i, z in enumerate(%s, start=%s)]" % (t(), self.pick("0", "1", "2")),
            lambda: "[z + w for z, w in zip(%s, %s)]" % (t(), t()),
        )()

    def dget(self, sc, d):
        v = self.var(sc, "d")
        if not v:
            return self.s(sc, d - 1)
        k = self.pick("a", "b", "c")
        return self.pick(
            lambda: "%s.get(%r, %s)" % (v, k, self.s(sc, d - 1)), lambda: "%s[%r]" % (v, k), lambda: "(%s[%r] if %r in %s else %s)" % (v, k, k, v, self.s(sc, d - 1)),
            lambda: "''.join(%s)" % v, lambda: "'|'.join(z + w for z, w in %s.items())" % v, lambda: "next(iter(%s.values()), '')" % v,
        )()

    def call(self, sc, d):
        v = self.var(sc, "f")
        return "%s(%s)" % (v, self.s(sc, d - 1)) if v else self.s(sc, d - 1)

    def rows(self, sc, d=2):
        v = self.var(sc, "r")
        if d <= 0:
            return v if v and self.r.random() < 0.8 else "[%s]" % self.l(sc, 0)
        return self.pick(
            lambda: v or "[]", lambda: "[%s, %s]" % (self.l(sc, d - 1), self.l(sc, d - 1)), lambda: "[[z] for z in %s]" % self.l(sc, d - 1), lambda: "[(z).split('|') for z in %s]" % self.l(sc, d - 1),
            lambda: "[list(q) for q in %s]" % self.rows(sc, 0), lambda: "[]", lambda: "[q for q in %s if len(q) > 1]" % self.rows(sc, 0),
        )()

    def table(self, sc, d=2):
        v = self.var(sc, "d")
        if d <= 0:
            return v or "{}"
        return self.pick(
            lambda: v or "{}", lambda: "{'a': %s}" % self.s(sc, d - 1), lambda: "{'a': %s, 'b': %s}" % (self.s(sc, d - 1), self.s(sc, d - 1)), lambda: "dict(%s)" % self.table(sc, 0),
            lambda: "{**%s, 'c': %s}" % (self.table(sc, 0), self.s(sc, d - 1)), lambda: "dict(b=%s)" % self.s(sc, d - 1), lambda: "{k: w + 'x' for k, w in %s.items()}" % self.table(sc, 0),
        )()

    EXPR = {"s": s, "n": n_, "b": b, "l": l, "r": rows, "d": table}

    # statements
    def emit(self, ind, x):
        self.lines.append("    " * ind + x)

    def new(self, sc, k):
        same = [n for n, q in sc.items() if q == k and len(n) == 2]
        if same and self.r.random() < 0.6:
            return self.r.choice(same)
        self.n += 1
        return "%s%d" % (k, self.n % 10)

    def stmt(self, sc, ind, d, loop=False):
        """emit one statement; returns the names it certainly defines"""
        r = self.r
        x = r.random()
        if self.rich and d > 0 and r.random() < 0.35:
            return self.rich_stmt(sc, ind, d, loop)
        if x < 0.34 or d <= 0:
            k = self.pick("s", "s", "n", "b", "l", "l", "r", "d") if self.rich else self.pick("s", "s", "n", "b", "l")
            e = self.EXPR[k](self, sc)
            n = self.new(sc, k)
            self.emit(ind, "%s = %s" % (n, e))
            sc[n] = k
        elif x < 0.42:
            k = self.pick("s", "n", "l")
            v = self.var({n: q for n, q in sc.items() if len(n) == 2}, k)
            if v:
                self.emit(ind, "%s += %s" % (v, self.EXPR[k](self, sc, 1)))
            else:
                self.emit(ind, "pass")
        elif x < 0.5:
            v = self.var({n: q for n, q in sc.items() if len(n) == 2}, "l")
            if v:
                self.emit(ind, "%s.%s" % (v, self.pick(lambda: "append(%s)" % self.s(sc), lambda: "extend(%s)" % self.l(sc, 1), lambda: "insert(0, %s)" % self.s(sc, 1), lambda: "pop()")()))
            else:
                self.emit(ind, "pass")
        elif x < 0.66:
            self.emit(ind, "if %s:" % self.b(sc))
            a = dict(sc)
            self.block(a, ind + 1, d - 1, loop)
            if r.random() < 0.6:
                b = dict(sc)
                self.emit(ind, "else:")
                self.block(b, ind + 1, d - 1, loop)
                for n in a:
                    if n in b:
                        sc[n] = a[n]
        elif x < 0.78:
            i = "i%d" % self.r.randrange(3)
            a = dict(sc)
            if r.random() < 0.7:
                self.emit(ind, "for %s in %s:" % (i, self.l(sc, 1)))
                a[i] = "s"
            else:
                self.emit(ind, "for %s in range(%s):" % (i, self.n_(sc, 1)))
                a[i] = "n"
            self.block(a, ind + 1, d - 1, True)
            if r.random() < 0.2:
                self.emit(ind, "else:")
                self.block(dict(sc), ind + 1, d - 1, loop)
        elif x < 0.88:
            self.emit(ind, "try:")
            a = dict(sc)
            self.block(a, ind + 1, d - 1, loop)
            self.emit(ind, "except %s:" % self.pick("IndexError", "Exception", "(ValueError, KeyError)", "LookupError"))
            b = dict(sc)
            self.block(b, ind + 1, d - 1, loop)
            if r.random() < 0.3:
                self.emit(ind, "finally:")
                self.emit(ind + 1, "%s = %s" % (self.pick("s8", "s9"), repr(self.pick("f", "g"))))
            for n in a:
                if n in b:
                    sc[n] = a[n]
        elif x < 0.93:
            self.emit(ind, "raise %s(%s)" % (self.pick("ValueError", "KeyError", "IndexError"), self.s(sc, 0)) if r.random() < 0.4 else "return %s" % self.EXPR[self.pick("s", "n", "b", "l")](self, sc, 1))
        elif loop:
            self.emit(ind, self.pick("continue", "break"))
        else:
            self.emit(ind, "pass")

    def rich_stmt(self, sc, ind, d, loop):
        """aliases, lists of lists, dictionaries, counted loops, local functions"""
        r = self.r
        own = {n: q for n, q in sc.items() if len(n) == 2}
        l, rw, dc, nn, ss = (self.var(own, k) for k in "lrdns")
        opts = []
        if l:
            def alias():
                n = self.new(sc, "l")
                self.emit(ind, "%s = %s" % (n, l))
                sc[n] = "l"

            opts += [alias, lambda: self.emit(ind, "%s[%s] = %s" % (l, self.pick("0", "-1", "1"), self.s(sc, 1))), lambda: self.emit(ind, "%s.insert(%s, %s)" % (l, self.n_(sc, 1), self.s(sc, 1))), lambda: self.emit(ind, "del %s[%s]" % (l, self.pick("0", "-1", self.n_(sc, 1)))),
                     lambda: self.emit(ind, "%s.reverse()" % l), lambda: self.emit(ind, "%s.%s(%s)" % (l, self.pick("append", "remove"), self.s(sc, 1)))]

            def upto():
                self.emit(ind, "while len(%s) < %s:" % (l, self.n_(sc, 1)))
                self.emit(ind + 1, "%s.append(%s)" % (l, self.s(sc, 1)))

            def drain():
                self.emit(ind, "while %s:" % l)
                a = dict(sc)
                self.emit(ind + 1, "s7 = %s.pop(%s)" % (l, self.pick("", "0")))
                a["s7"] = "s"
                if r.random() < 0.6:
                    self.stmt({k: v for k, v in a.items() if k != l}, ind + 1, 1, True)

            def steps():
                self.emit(ind, "it0 = iter(%s)" % l)
                self.emit(ind, "s7 = next(it0, 'z')" if r.random() < 0.7 else "s7 = next(it0)")
                a = dict(sc, s7="s")
                x = r.random()
                if x < 0.4:
                    self.emit(ind, "for s8 in it0:")
                    self.block({k: v for k, v in dict(a, s8="s").items() if k != l}, ind + 1, d - 1, True)
                elif x < 0.7:
                    self.emit(ind, "while s7 != 'z':")
                    self.emit(ind + 1, "s7 = next(it0, 'z')")
                    self.stmt({k: v for k, v in a.items() if k not in (l, "s7")}, ind + 1, 1, True)
                else:
                    n = self.new(sc, "l")
                    self.emit(ind, "%s = [s7, *it0]" % n)
                    sc[n] = "l"
                sc["s7"] = "s"

            opts += [upto, drain, steps]
        if rw:
            def each():
                self.emit(ind, "for l7 in %s:" % rw)
                self.block(dict(sc, l7="l"), ind + 1, d - 1, True)

            opts += [each, each, lambda: self.emit(ind, "%s.append(%s)" % (rw, self.l(sc, 1))), lambda: self.emit(ind, "%s.append(%s)" % (rw, l or "[]")),
                     lambda: self.emit(ind, "%s[-1].append(%s)" % (rw, self.s(sc, 1))), lambda: self.emit(ind, "%s[0] = %s" % (rw, l or "[]"))]

            def last():
                n = self.new(sc, "l")
                self.emit(ind, "%s = %s[%s]" % (n, rw, self.pick("0", "-1")))
                sc[n] = "l"

            opts.append(last)
        if dc:
            def items():
                self.emit(ind, "for k0, s7 in %s.items():" % dc)
                self.block(dict(sc, k0="s", s7="s"), ind + 1, d - 1, True)

            opts += [items, lambda: self.emit(ind, "%s[%r] = %s" % (dc, self.pick("a", "b"), self.s(sc, 1))), lambda: self.emit(ind, "%s.pop(%r, None)" % (dc, self.pick("a", "b"))),
                     lambda: self.emit(ind, "%s.update(%s)" % (dc, self.table(sc, 1))), lambda: self.emit(ind, "del %s[%r]" % (dc, self.pick("a", "b")))]
        if nn:
            def count():
                self.emit(ind, "while %s < %s:" % (nn, self.pick("3", "len(%s)" % (ss or "'ab'"))))
                a = dict(sc)
                self.emit(ind + 1, "%s += 1" % nn)
                self.block({k: v for k, v in a.items() if k != nn and k != ss}, ind + 1, d - 1, True)

            opts.append(count)
        if ss:
            def eat():
                self.emit(ind, "while %s.startswith(%r):" % (ss, self.pick("a", "\n", " ")))
                self.emit(ind + 1, "%s = %s[1:]" % (ss, ss))

            def parts():
                self.emit(ind, "s5, s6 = %s" % self.pick("%s, %s" % (self.s(sc, 1), self.s(sc, 1)), "(%s).split('|')" % ss, "%s[0], %s" % (ss, ss)))
                sc.update(s5="s", s6="s")

            opts += [eat, parts]

        def local():
            self.emit(ind, "def f0(w):")
            a = {k: v for k, v in sc.items()}
            if nn and r.random() < 0.4:
                self.emit(ind + 1, "nonlocal %s" % nn)
                self.emit(ind + 1, "%s = %s + 1" % (nn, nn))
            if l and r.random() < 0.4:
                self.emit(ind + 1, "%s.append(w)" % l)
            a = {k: v for k, v in a.items() if k not in ("s5", "s6", "s7", "s8", "s9")}
            a["w"] = "s"
            a.pop("f0", None)
            if r.random() < 0.4:
                self.emit(ind + 1, "if %s:" % self.b(a, 1))
                self.emit(ind + 2, "return %s" % self.s(a, 1))
            self.emit(ind + 1, "return %s" % self.s(a, 1))
            sc["f0"] = "f"

        def gen():
            self.emit(ind, "def g0(w):")
            self.emit(ind + 1, "for z in w:")
            self.emit(ind + 2, "if %s:" % self.b({"z": "s"}, 1))
            self.emit(ind + 3, "yield %s" % self.s({"z": "s"}, 1))
            self.emit(ind, "l6 = %s" % self.pick("list(g0(%s))", "[z + 'g' for z in g0(%s)]", "[*g0(%s)]") % self.l(sc, 1))
            sc["l6"] = "l"

        opts += [local, gen]
        r.choice(opts)()

    def block(self, sc, ind, d, loop=False):
        for _ in range(self.r.randrange(1, 4 if d > 0 else 3)):
            self.stmt(sc, ind, d, loop)
            if self.lines[-1].strip().split(" ")[0] in ("return", "raise", "continue", "break") and self.lines[-1].startswith("    " * ind + self.lines[-1].strip()[0]):
                break

    def function(self, name):
        ps = self.r.choice([["s", "n"], ["s", "t", "b"], ["xs", "s"], ["xs", "n", "b"], ["xs", "ys"]])
        sc = {p: {"s": "s", "t": "s", "n": "n", "b": "b", "xs": "l", "ys": "l"}[p] for p in ps}
        self.lines.append("def %s(%s):" % (name, ", ".join(ps)))
        for p in ("xs", "ys"):
            if p in sc:
                self.emit(1, "l%d = list(%s)" % (0 if p == "xs" else 1, p))
                sc["l%d" % (0 if p == "xs" else 1)] = "l"
        if self.rich and self.r.random() < 0.6:
            self.emit(1, "r0 = %s" % self.rows(sc, 1))
            sc["r0"] = "r"
        if self.rich and self.r.random() < 0.4:
            self.emit(1, "d0 = %s" % self.table(sc, 1))
            sc["d0"] = "d"
        self.block(sc, 1, 3)
        outs = sorted(k for k in sc if sc[k] != "f")
        outs = self.r.sample(outs, min(len(outs), 3))
        self.emit(1, "return (%s,)" % ", ".join(outs))
        self.lines.append("")


def source(seed, count):
    g = Gen(seed)
    for i in range(count):
        g.n = 0
        g.function("c_%d" % i)
    return "\n".join(g.lines) + "\n"
