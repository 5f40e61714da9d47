"""Mesh helpers shared by the checks."""

import pathlib

import numpy as np

import core

NAMES = ["bird", "cheetah", "cube", "dragon", "homer", "teapot"]
SMALL = ["bird", "teapot", "dragon"]


def mesh(name, nb=None, **kw):
    import sleplet

    return sleplet.meshes.Mesh(name, number_basis_functions=nb, **kw)


def data_dir():
    return pathlib.Path(core.REPO_SRC) / "sleplet" / "_data"


def config(name):
    import tomllib

    f = data_dir() / f"meshes_regions_{name}.toml"
    if not f.exists():
        raise core.Gone(f"no {f}")
    return tomllib.loads(f.read_text())


def raw(name):
    """Vertices and faces from the file of the mesh, subdivided as configured."""
    import igl

    c = config(name)
    v, f = igl.read_triangle_mesh(data_dir() / f"meshes_polygons_{c['FILENAME']}")
    return subdivide(v, f, c["UPSAMPLE"])


def subdivide(v, f, n):
    """Each triangle in four by its edge midpoints."""
    v, f = np.asarray(v, float), np.asarray(f)
    for _ in range(n):
        mid, extra, nf = {}, [], []

        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                mid[k] = len(v) + len(extra)
                extra.append((v[a] + v[b]) / 2)
            return mid[k]

        for a, b, c in f.tolist():
            ab, bc, ca = m(a, b), m(b, c), m(c, a)
            nf += [(a, ab, ca), (b, bc, ab), (c, ca, bc), (ab, bc, ca)]
        v, f = np.vstack([v, extra]), np.array(nf)
    return v, f


def cot_laplacian(v, f):
    """Positive semi-definite cotangent Laplacian as a sparse matrix, by its definition."""
    import scipy.sparse as sp

    n = len(v)
    I, J, W = [], [], []
    for k in range(3):
        a, b, c = f[:, k], f[:, (k + 1) % 3], f[:, (k + 2) % 3]
        u, w = v[b] - v[a], v[c] - v[a]
        cot = (u * w).sum(1) / np.linalg.norm(np.cross(u, w), axis=1)
        I += [b, c]
        J += [c, b]
        W += [cot / 2, cot / 2]
    I, J, W = map(np.concatenate, (I, J, W))
    A = sp.coo_matrix((W, (I, J)), shape=(n, n)).tocsr()
    return sp.diags(np.asarray(A.sum(1)).ravel()) - A
