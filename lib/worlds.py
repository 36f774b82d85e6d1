"""Small worlds for the drivers, built with the public API of the code under test."""
import numpy as np
from vlib import *

_randint = np.random.randint


def _small_randint(low, high=None, size=None, dtype=int):
    """The hash grid allocates a random table of 1000^3 entries (8 GB); give it a view of a small one."""
    if isinstance(size, tuple) and len(size) == 3 and np.prod(size, dtype=np.int64) > 10**7:
        st = (997, 31, 1)
        base = _randint(low, high, size=sum((n - 1) * s for n, s in zip(size, st)) + 1)
        return np.lib.stride_tricks.as_strided(base, shape=size, strides=tuple(s * base.itemsize for s in st), writeable=False)
    return _randint(low, high, size, dtype)


np.random.randint = _small_randint


def box_mesh(d=(2, 2, 2), c=(0, 0, 0)):
    V = np.array([[c[0] + (i & 1) * d[0] - d[0] / 2, c[1] + ((i >> 1) & 1) * d[1] - d[1] / 2, c[2] + ((i >> 2) & 1) * d[2] - d[2] / 2]
                  for i in range(8)], dtype=float)
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    T = np.array([t for q in quads for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))], dtype=int)
    return V, T


def tet_box(n=(1, 1, 1), d=(1.0, 1.0, 1.0), c=(0.0, 0.0, 0.0)):
    """A box of cells, each split in six positively oriented tetrahedra (Kuhn)."""
    import itertools
    idx = lambda i, j, k: (i * (n[1] + 1) + j) * (n[2] + 1) + k
    V = np.array([[c[0] + i * d[0], c[1] + j * d[1], c[2] + k * d[2]]
                  for i in range(n[0] + 1) for j in range(n[1] + 1) for k in range(n[2] + 1)], dtype=float)
    T = []
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                for p in itertools.permutations(range(3)):
                    a = [i, j, k]
                    t = [idx(*a)]
                    for ax in p:
                        a[ax] += 1
                        t.append(idx(*a))
                    x = V[t]
                    if np.dot(np.cross(x[1] - x[0], x[2] - x[0]), x[3] - x[0]) < 0:
                        t[2], t[3] = t[3], t[2]
                    T.append(t)
    return V, np.array(T, dtype=int)


def rigid_api():
    import rainbow.simulators.prox_rigid_bodies.api as A
    return A


def soft_api():
    import rainbow.simulators.prox_soft_bodies.api as A
    return A


def rigid_engine(res=4):
    E = rigid_api().create_engine()
    E.params.resolution = res
    return E


def soft_engine(res=4):
    E = soft_api().create_engine()
    E.params.resolution = res
    return E


def rigid_box(E, name, d=(2, 2, 2), r=(0, 0, 0), q=None, v=(0, 0, 0), w=(0, 0, 0), rho=1.0, fixed=False, shape=None):
    A = rigid_api()
    shape = shape or "box%s" % (tuple(d),)
    if shape not in E.shapes:
        V, T = box_mesh(d)
        A.create_shape(E, shape, A.create_mesh(V, T))
    A.create_rigid_body(E, name)
    A.connect_shape(E, name, shape)
    if q is not None:
        A.set_orientation(E, name, np.array(q, dtype=float), use_model_frame=False)
    A.set_position(E, name, np.array(r, dtype=float))
    A.set_velocity(E, name, np.array(v, dtype=float))
    A.set_spin(E, name, np.array(w, dtype=float))
    A.set_mass_properties(E, name, rho)
    if fixed:
        A.set_body_type(E, name, "fixed")
    return E.bodies[name]


def rigid_state(E, scale):
    out = []
    for b in E.bodies.values():
        q = np.asarray(b.q, dtype=float)
        s = -1.0 if q[np.argmax(np.abs(q))] < 0 else 1.0
        out += frv(b.r, scale) + frv(q * s, scale) + frv(b.v, scale) + frv(b.w, scale)
    return out


def rigid_copy_state(src, dst):
    """Transfer positions, orientations and velocities (what a saved world file holds)."""
    for n, b in src.bodies.items():
        c = dst.bodies[n]
        c.r, c.q, c.v, c.w = np.copy(b.r), np.copy(b.q), np.copy(b.v), np.copy(b.w)


def soft_body(E, name, n=(1, 1, 1), d=(1.0, 1.0, 1.0), c=(0.0, 0.0, 0.0), v=None, material=None, fixed=False, gravity=None):
    A = soft_api()
    V, T = tet_box(n, d, c)
    A.create_soft_body(E, name, V, T)
    A.set_material(E, name, material or "default")
    if v is not None:
        A.set_velocity(E, name, np.array(v, dtype=float))
    if gravity is not None:
        A.set_gravity(E, name, gravity)
    if fixed:
        A.set_type(E, name, "fixed")
    return E.bodies[name]


def soft_state(E, scale):
    out = []
    for b in E.bodies.values():
        out += frv(b.x, scale) + frv(b.u, scale)
    return out
