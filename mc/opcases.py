""" Enumerated lists of normal-ordered operators for the contraction checks. """
from itertools import combinations_with_replacement, product

ALL = 'gphvca'


def halves(n, alphabet):
    """ Multisets of spaces for n operators of one kind. """
    return [''.join(w) for w in combinations_with_replacement(alphabet, n)]


def op_spaces(shape, alphabet):
    return [(c, a) for c in halves(shape[0], alphabet) for a in halves(shape[1], alphabet)]


def label(spaces_list, style):
    """
    Attach numbers: every index of the list gets its own number.
    style 0: ascending with the operators; 1: descending; 2: alternating between the operators.
    """
    total = sum(len(c) + len(a) for c, a in spaces_list)
    if style == 0:
        nums = list(range(total))
    elif style == 1:
        nums = list(range(total))[::-1]
    else:
        nums = list(range(0, total, 2)) + list(range(1, total, 2))
    out, n = [], 0
    for c, a in spaces_list:
        cc = [[s, nums[n + k]] for k, s in enumerate(c)]
        n += len(c)
        aa = [[s, nums[n + k]] for k, s in enumerate(a)]
        n += len(a)
        out.append([cc, aa])
    return out


def spec(shapes, alphabet, styles=(0,)):
    """ A block of cases: all assignments of spaces to the given operator shapes. """
    for sp in product(*[op_spaces(s, alphabet) for s in shapes]):
        for st in styles:
            yield label(sp, st)


def tup(ops):
    return tuple((tuple((s, n) for s, n in c), tuple((s, n) for s, n in a)) for c, a in ops)
