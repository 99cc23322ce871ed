"""Dense tile layouts for the edge calculations."""
from hypothesis import strategies as st

from . import gen
from . import geometry as G

# sprite tuples that differ in a single component
SPRITES = [(1, 1, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1), (5, 1, 0), (0, 0, 0)]


def tile_from(d, shape, sprite):
    edges = tuple(gen.edge_of(d[9 * i:9 * i + 9]) for i in range(4))
    return (shape, d[36] & 7) + sprite + (edges,)


# shapes by family, so that slants and halves meet often
FAMILIES = [list(range(21)), [0], [0, 17, 18, 19, 20], [0] + list(range(1, 17)), [1, 2, 9, 10, 0], [3, 4, 11, 12, 0], list(range(17, 21))]


@st.composite
def layouts(draw, max_w=5, max_h=5, filth=None, n_sprites=3):
    """[(layer, x, y, tile)] of up to two layers, in arbitrary order."""
    w, h = draw(st.integers(1, max_w)), draw(st.integers(1, max_h))
    at = st.one_of(st.sampled_from([0, -2, 14, -16, 254, 1000, -1000]), st.integers(-40, 40), gen.ints(gen.TLO, gen.THI - 8),
                   st.sampled_from([s * 2 ** k - 2 for k in range(7, 23) for s in (1, -1)]))
    x0, y0 = draw(at), draw(at)
    layers = draw(st.sampled_from([[19], [19], [19, 18], [12, 20]]))
    fam = draw(st.sampled_from(FAMILIES))
    sprites = [SPRITES[i] for i in draw(st.lists(st.integers(0, len(SPRITES) - 1), min_size=1, max_size=n_sprites))]
    dens = draw(st.sampled_from([9, 7, 5, 10]))
    cells = [(l, x0 + i, y0 + j) for l in layers for i in range(w) for j in range(h)]
    raw = draw(st.binary(min_size=len(cells) * 3, max_size=len(cells) * 3))
    pool = [draw(st.binary(min_size=37, max_size=37)) for _ in range(2)]
    out = []
    for n, c in enumerate(cells):
        a, b, d = raw[3 * n:3 * n + 3]
        if a % 10 >= dens:
            continue
        # edge data is derived from a small pool so that filth often matches
        base = bytearray(pool[d & 1])
        if d & 2:
            base = bytearray(v ^ (d >> 2) for v in base)
        out.append(c + (tile_from(bytes(base), fam[b % len(fam)], sprites[(d >> 2) % len(sprites)]),))
    rot = draw(st.integers(0, max(0, len(out) - 1)))
    out = out[rot:] + out[:rot]
    if draw(st.booleans()):
        out.reverse()
    return out
