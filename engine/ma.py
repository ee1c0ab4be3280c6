"""The small abstract language both front ends lower to."""


class N:
    """Node: k = kind, a = children/attributes, loc = (file, line), t = type."""
    __slots__ = ("k", "a", "loc", "t")

    def __init__(self, k, a, loc, t=""):
        self.k, self.a, self.loc, self.t = k, a, loc, t

    def __reduce__(self):
        return (N, (self.k, self.a, self.loc, self.t))

    def __repr__(self):
        return f"{self.k}{self.a!r}"

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            for c in reversed(n.a):
                push(c, stack)


def push(c, stack):
    if isinstance(c, N):
        stack.append(c)
    elif isinstance(c, (tuple, list)):
        for x in reversed(c):
            push(x, stack)
