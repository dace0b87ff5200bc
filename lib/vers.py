"""Versions: token sequences (spec/Versions.tla) and their texts."""
DEV, ALPHA, BETA, RC, PATCH = -50, -40, -30, -20, -5
TAGS = {DEV: ('dev',), ALPHA: ('a', 'alpha'), BETA: ('b', 'beta'),
        RC: ('rc', 'c'), PATCH: ('-',)}
FINAL = -10


def text(tokens, rng=None, pad=False):
    out = ''
    previous = None
    for token in tokens:
        if token < 0:
            names = TAGS[token]
            tag = names[0]
            if rng is not None and rng.random() < .2:
                # 'alpha' is not a longer spelling of 'a': both compare by
                # their first letter only against other tags
                tag = names[0]
            if token == DEV and previous is not None:
                out += '.'
            out += tag
        else:
            if previous is not None and previous >= 0:
                out += '.'
            out += str(token)
        previous = token
    return out


def key(tokens):
    """Only used to build universes of distinct versions, never to judge."""
    done = []
    for t in list(tokens) + [FINAL]:
        if t < FINAL:
            while done and done[-1] == PATCH:
                done.pop()
        if t < 0:
            while done and done[-1] == 0:
                done.pop()
        done.append(t)
    return tuple(done)


def distinct(universe):
    seen, result = set(), []
    for v in universe:
        if key(v) not in seen:
            seen.add(key(v))
            result.append(v)
    return result


SMALL = [[0], [0, 9], [1], [1, 0], [1, 0, 0], [1, 1], [1, 2], [1, 9], [1, 10],
         [2], [2, 0, 1], [9], [10], [10, 1], [100],
         [1, ALPHA, 1], [1, ALPHA, 2], [1, BETA, 1], [1, RC, 1],
         [1, RC, 10], [1, 0, DEV, 1], [1, DEV, 3], [1, PATCH, 1],
         [1, 0, PATCH, 2], [1, 0, PATCH, 10], [1, 2, ALPHA, 1], [1, 2, 3, 4],
         [1, 2, 3], [0, 0, 1], [2, BETA, 2], [1, 10, RC, 2], [3, 0],
         [1, 1, PATCH, 1], [1, 9, 9], [2013, 1, 5], [0, 10]]


def random_version(rng):
    tokens = [rng.choice([0, 1, 2, 3, 9, 10, 11, 99, 100])
              for _ in range(rng.randint(1, 4))]
    if rng.random() < .35:
        tokens += [rng.choice([DEV, ALPHA, BETA, RC, PATCH]),
                   rng.choice([0, 1, 2, 9, 10])]
    return tokens
