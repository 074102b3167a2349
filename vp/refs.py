"""Reference models shared by several checks."""
import numpy as np


def spatial_weights(mask, w, fuzzy):
    """Weights [k, y, x] for masks [k, y, x] and weights [k]: normalised over the unmasked
    slices; slices with zeros fade in linearly with the distance (in grid squares) to their
    nearest zero; the others share what is left.  Also: which were changed, and where there
    is a slice that could take up the difference."""
    k, ny, nx = mask.shape
    base = np.where(mask, 0.0, np.asarray(w, np.float64)[:, None, None])
    tot = base.sum(axis=0)
    base = np.where(tot > 0, base / np.where(tot > 0, tot, 1), 0.0)
    fade = base.copy()
    changed = np.zeros(mask.shape, bool)
    yy, xx = np.mgrid[0:ny, 0:nx]
    for i in range(k):
        zero = np.argwhere(base[i] <= 0)
        if len(zero) == 0:
            continue
        d = np.min([np.hypot(yy - a, xx - b) for a, b in zero], axis=0)
        f = np.clip(d / fuzzy, 0, 1)
        fade[i] = base[i] * f
        changed[i] = (f < 1 - 1e-9) & (base[i] > 0)
    fixed = np.where(changed, fade, 0).sum(axis=0)
    free = np.where(changed, 0, fade).sum(axis=0)
    scale = np.where(free > 0, (1 - fixed) / np.where(free > 0, free, 1), 0)
    return np.where(changed, fade, fade * scale), changed, free
