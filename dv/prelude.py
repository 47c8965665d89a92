"""What helpers of the standard library do, in Python the verifier executes (checked against
the originals by dv.selftest)."""


def partial(f, *args, **kwargs):
    def call(*more, **named):
        return f(*args, *more, **{**kwargs, **named})

    return call


def methodcaller(name, *args, **kwargs):
    def call(obj):
        return getattr(obj, name)(*args, **kwargs)

    return call


def attrgetter(name):
    def call(obj):
        return getattr(obj, name)

    return call


def itemgetter(key):
    def call(obj):
        return obj[key]

    return call


def count(start, step):
    n = start - step

    def advance():
        nonlocal n
        n += step
        return n

    return advance


class StringIO:
    def __init__(self, initial=""):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.parts.append(s)

    def getvalue(self):
        return "".join(self.parts)

    def close(self):
        pass
