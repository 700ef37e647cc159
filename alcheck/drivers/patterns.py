"""Relations between patterns."""
from asterisklint.defines import MessageDefManager
from asterisklint.pattern import Pattern
from asterisklint.where import Where
from prims import event


def make(text):
    return Pattern(text, Where('a.conf', 1, b'x'))


def used(text):
    """A pattern that everything has been done with."""
    a = make(text)
    b = make('_X')
    a.is_canonical
    a.canonical_pattern
    a.example
    a.matches_extension('123')
    a.matches_same(b)
    str(a)
    repr(a)
    sorted([a, b])
    {a: b}
    return a


def row(text, others):
    """One pattern against the others."""
    MessageDefManager.muted = True
    a = make(text)
    aa = used(text)
    event('self', a == aa, aa == a, hash(a) == hash(aa), a < aa, aa < a,
          a.canonical_pattern == aa.canonical_pattern,
          a.values == aa.values)
    for other in others:
        b = make(other)
        event('pair', other, a == b, a != b, a < b, b < a,
              hash(a) == hash(b),
              a.canonical_pattern == b.canonical_pattern)


def ordered(texts):
    return [i.raw for i in sorted([make(i) for i in texts])]
