"""What functools.lru_cache does between two of its atomic steps (executed symbolically)."""


def call(table, fn, args, key):
    try:
        return table[key]
    except KeyError:
        value = fn(*args)
        table[key] = value
        return value
