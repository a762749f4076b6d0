""" Run the real contraction code and bring its output to the key form of mc.wick. """
from mc import conv, wick
from dsrg_generator.sqop_contraction import compute_operator_contractions


def run_impl(ops, max_cu, max_open, min_open, conn, expand, **kw):
    """ -> ({key: signed count}, number of contributions) from the real code on fresh operator objects. """
    real = [conv.real_op(c, a) for c, a in ops]
    return collect(compute_operator_contractions(real, max_cu, max_open, min_open, conn, expand, **kw))


def collect(batches):
    out, n = {}, 0
    for batch in batches:
        for sign, dens, sq_op in batch:
            n += 1
            ds = []
            for t in dens:
                k, _, u, l = conv.plain_tensor(t)
                ds.append((k, u, l))
            key, s = wick.norm_key(sign, ds, tuple(conv.idx(i) for i in sq_op.cre_ops.indices),
                                   tuple(conv.idx(i) for i in sq_op.ann_ops.indices))
            if key is not None:
                out[key] = out.get(key, 0) + s
    return out, n


def compare(got, ref):
    """ None when equal, else a description. """
    if got == ref:
        return None
    g = {k: v for k, v in got.items() if v}
    r = {k: v for k, v in ref.items() if v}
    if g == r:
        return None
    bad = [(k, g.get(k, 0), r.get(k, 0)) for k in sorted(set(g) | set(r)) if g.get(k, 0) != r.get(k, 0)]
    return f"{len(bad)} contributions differ; first (densities, cre, ann), got, expected: {bad[0]}"
