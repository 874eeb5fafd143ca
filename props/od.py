"""Object-detection scenes with a free IoU matrix."""
from fractions import Fraction
from itertools import combinations

from symx.ctx import Skip
from symx.logic import and_, implies, not_, or_

from .common import score


class Scene:
    """one datum: gts [(uid, label)], pds [(uid, labels, scores)], iou[g][p]."""

    def __init__(self, uid, gts, pds, iou, meta=None, gmeta=None, pmeta=None):
        self.uid, self.gts, self.pds, self.iou = uid, gts, pds, iou
        self.meta, self.gmeta, self.pmeta = meta, gmeta, pmeta


def scene(ctx, uid, ng, np_, labels=("b", "a"), fixed_first=False, scores=None, glabels=None, plabels=None, pad=0):
    gts = []
    for i in range(ng):
        if glabels is not None:
            l = glabels[i]
        else:
            l = labels[0] if (fixed_first and i == 0) else ctx.choose(f"{uid}g{i}", list(labels))
        # annotation identifiers recur in every datum and on both sides
        gts.append((f"n{9 - i}", l))
    pds = []
    for j in range(np_):
        l = plabels[j] if plabels is not None else ctx.choose(f"{uid}p{j}", list(labels))
        s = scores[j] if scores is not None else score(ctx, f"{uid}s{j}")
        pds.append((f"n{9 - j}", [l], [s]))
    iou = [[None] * np_ for _ in range(ng)]
    for i in range(ng):
        for j in range(np_):
            r = ctx.real(f"{uid}r{i}{j}", 0.0, 1.0)
            ctx.assume(or_(r <= 0.0, r >= 1e-3))
            iou[i][j] = r
    # necessary conditions for realisable shapes (1 - IoU is a metric)
    for a, b in combinations(range(ng), 2):
        for c, d in combinations(range(np_), 2):
            q = [iou[a][c], iou[a][d], iou[b][c], iou[b][d]]
            t = q[0] + q[1] + q[2] + q[3]
            for x in q:
                # the other three distances sum to at least this one
                ctx.assume((t - x) - x <= 2.0)
    if ctx.symbolic:
        # easily realised: what one shape shares with others does not add up to more than half
        h = []
        for i in range(ng):
            h.append(sum(iou[i], 0.0) <= 0.5)
        for j in range(np_):
            h.append(sum((iou[i][j] for i in range(ng)), 0.0) <= 0.5)
        if ng > 1 and np_ > 1:
            ctx.hint(and_(*h))
    if pad:
        # concrete bystanders that overlap nothing, so that identifiers spread out
        pg, pp = pad
        gts = gts[:1] + [(f"x{k}", "a") for k in range(pg)] + gts[1:]
        pds = pds[:1] + [(f"x{k}", ["a"], [0.5]) for k in range(pp)] + pds[1:]
        iou = [[row[0]] + [0.0] * pp + row[1:] for row in iou]
        iou = iou[:1] + [[0.0] * len(pds) for _ in range(pg)] + iou[1:]
    return Scene(uid, gts, pds, iou)


# ---------------------------------------------------------------- building
def build_symbolic(ctx, scenes):
    from symx.geom import Polygon as Stub

    D = ctx.mod("object_detection")
    out = []
    for sc in scenes:
        pairs = {}
        for i, (gu, _) in enumerate(sc.gts):
            for j, (pu, _, _) in enumerate(sc.pds):
                pairs[("g" + gu, "p" + pu)] = (sc.iou[i][j], 1.0)
        gts = [D.Polygon(uid=u, shape=Stub(name="g" + u, pairs=pairs), labels=[l], metadata=(sc.gmeta or {}).get(u)) for u, l in sc.gts]
        pds = [D.Polygon(uid=u, shape=Stub(name="p" + u, pairs=pairs), labels=list(ls), scores=list(ss), metadata=(sc.pmeta or {}).get(u)) for u, ls, ss in sc.pds]
        out.append(D.Detection(uid=sc.uid, groundtruths=gts, predictions=pds, metadata=sc.meta))
    return out


def atoms(ng, np_, iou):
    """integer sizes of the Venn atoms of ng + np_ sets with exactly these IoUs."""
    import sys

    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    import z3

    n = ng + np_
    x = {m: z3.Real(f"x{m}") for m in range(1, 2**n)}
    s = z3.Solver()
    s.set("timeout", 10000)
    for v in x.values():
        s.add(v >= 0)
    for k in range(n):
        s.add(z3.Sum([v for m, v in x.items() if m >> k & 1]) >= 1)
    for i in range(ng):
        for j in range(np_):
            a, b = 1 << i, 1 << (ng + j)
            inter = z3.Sum([v for m, v in x.items() if m & a and m & b])
            union = z3.Sum([v for m, v in x.items() if m & a or m & b])
            f = Fraction(iou[i][j]).limit_denominator(2**22)
            if float(f) != float(iou[i][j]):
                return None
            s.add(inter * f.denominator == union * f.numerator)
    if s.check() != z3.sat:
        return None
    mod = s.model()
    vals = {}
    for m, v in x.items():
        q = mod.eval(v, model_completion=True)
        vals[m] = Fraction(q.numerator_as_long(), q.denominator_as_long())
    den = 1
    from math import lcm

    for v in vals.values():
        den = lcm(den, v.denominator)
    out = {m: int(v * den) for m, v in vals.items()}
    if sum(out.values()) > 3_000_000:
        return None
    return {m: v for m, v in out.items() if v}


def build_bitmask(ctx, scenes):
    D = ctx.mod("object_detection")
    np = ctx.np
    out = []
    for sc in scenes:
        ng, npd = len(sc.gts), len(sc.pds)
        if ng == 0 or npd == 0:
            at = {1 << k: 1 for k in range(ng + npd)}
        else:
            # shapes that overlap nothing get a pixel of their own
            gi = [i for i in range(ng) if any(r > 0 for r in sc.iou[i])]
            pj = [j for j in range(npd) if any(sc.iou[i][j] > 0 for i in range(ng))]
            sub = atoms(len(gi), len(pj), [[sc.iou[i][j] for j in pj] for i in gi]) if gi else {}
            if sub is None:
                raise Skip()
            ks = gi + [ng + j for j in pj]
            at = {sum(1 << k for b, k in enumerate(ks) if m >> b & 1): v for m, v in sub.items()}
            for k in set(range(ng + npd)) - set(ks):
                at[1 << k] = 1
        total = sum(at.values()) or 1
        masks = [np.zeros((1, total), dtype=np.bool_) for _ in range(ng + npd)]
        pos = 0
        for m, v in at.items():
            for k in range(ng + npd):
                if m >> k & 1:
                    masks[k][0, pos: pos + v] = True
            pos += v
        gts = [D.Bitmask(uid=u, mask=masks[i], labels=[l], metadata=(sc.gmeta or {}).get(u)) for i, (u, l) in enumerate(sc.gts)]
        pds = [D.Bitmask(uid=u, mask=masks[ng + j], labels=list(ls), scores=list(ss), metadata=(sc.pmeta or {}).get(u)) for j, (u, ls, ss) in enumerate(sc.pds)]
        out.append(D.Detection(uid=sc.uid, groundtruths=gts, predictions=pds, metadata=sc.meta))
    return out


def _bands(sc):
    """vertical extents (y0, y1) in a unit-wide column, when one side has one shape."""
    ng, npd = len(sc.gts), len(sc.pds)
    if ng == 1 or npd == 1 or ng == 0 or npd == 0:
        single = (0.0, 1.0)
        g, p = [], []
        if ng == 0 or npd == 0:
            return [single] * ng, [single] * npd

        def other(r):
            return (0.0, r) if r > 0 else (5.0, 6.0)

        if ng == 1:
            return [single], [other(sc.iou[0][j]) for j in range(npd)]
        return [other(sc.iou[i][0]) for i in range(ng)], [single]
    return None


def build_boxes(ctx, scenes, polygons=False):
    D = ctx.mod("object_detection")
    out = []
    for sc in scenes:
        b = _bands(sc)
        if b is None:
            raise Skip()
        gb, pb = b

        def make(u, band, labels, scores, meta):
            y0, y1 = band
            kw = dict(uid=u, labels=list(labels), metadata=meta)
            if scores is not None:
                kw["scores"] = list(scores)
            if polygons:
                from shapely.geometry import Polygon as SP

                return D.Polygon(shape=SP([(0, y0), (1, y0), (1, y1), (0, y1)]), **kw)
            return D.BoundingBox(xmin=0.0, xmax=1.0, ymin=y0, ymax=y1, **kw)

        gts = [make(u, gb[i], [l], None, (sc.gmeta or {}).get(u)) for i, (u, l) in enumerate(sc.gts)]
        pds = [make(u, pb[j], ls, ss, (sc.pmeta or {}).get(u)) for j, (u, ls, ss) in enumerate(sc.pds)]
        out.append(D.Detection(uid=sc.uid, groundtruths=gts, predictions=pds, metadata=sc.meta))
    return out


def load(ctx, scenes, loader=None, one_by_one=False, meta=None):
    """a Loader holding the scenes."""
    D = ctx.mod("object_detection")
    if loader is None:
        loader = D.Loader.in_memory(metadata_fields=meta)
    if ctx.symbolic:
        dets, add = build_symbolic(ctx, scenes), loader.add_polygons
    else:
        route = ctx.route
        if route == "bitmask":
            dets, add = build_bitmask(ctx, scenes), loader.add_bitmasks
        elif route == "box":
            dets, add = build_boxes(ctx, scenes), loader.add_bounding_boxes
        else:
            dets, add = build_boxes(ctx, scenes, polygons=True), loader.add_polygons
    if one_by_one:
        for d in dets:
            add([d])
    else:
        add(dets)
    return loader


ROUTES = ("bitmask", "box", "polygon")
