"""Aligning what was returned with what came out of the channel.

Every piece of the byte stream may account for a number of returned rows:
an undamaged record that had to be returned for exactly one, equal to it; an
undamaged one that need not be returned for at most one, equal to it; a damaged
piece for at most `slack` rows of any content.
"""


def align(pieces, nrows, match, slack=2):
    """pieces: list of (kind, rec), kind in 'must' 'may' 'bad'
    match(row, rec) -> bool (cached here)
    -> None if it aligns, else ('lost', piece index, row positions reachable)
       or ('extra', rows accounted for)"""
    cache = {}

    def m(r, i):
        key = (r, id(pieces[i][1]))
        if key not in cache:
            cache[key] = match(r, pieces[i][1])
        return cache[key]
    pos = {0}
    for i, (kind, rec) in enumerate(pieces):
        if kind == 'must':
            new = {p + 1 for p in pos if p < nrows and m(p, i)}
            if not new:
                return 'lost', i, sorted(pos)
        elif kind == 'may':
            new = set(pos) | {p + 1 for p in pos if p < nrows and m(p, i)}
        else:
            new = {q for p in pos for q in range(p, min(nrows, p + slack) + 1)}
        pos = new
    if nrows not in pos:
        return 'extra', max(pos), sorted(pos)
    return None
