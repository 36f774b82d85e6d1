P = "rainbow/simulators/prox_soft_bodies/"
C = "rainbow/simulators/proximal_contact/"
G = "rainbow/geometry/"
M = "rainbow/math/"
U = "rainbow/util/"
K = "rainbow/simulators/inverse_kinematics/"
SOFT = '''
import numpy as np
np.random.seed(1)
import rainbow.simulators.prox_soft_bodies.api as API
import rainbow.simulators.prox_soft_bodies.solver as S
import rainbow.simulators.prox_soft_bodies.collision_detection as CD
import rainbow.geometry.volume_mesh as VM
def engine(): 
    E = API.create_engine()
    E.params.resolution = 8
    return E
'''
SEEDS = [
 dict(id="p01-rollback-alias", property="P01",
      needs="a sweep that diverges and is rejected (R-factors grown too far), followed by another sweep",
      breaks="after a rejected sweep the iterate and the best solution are one array: the next sweep measures no change and is reported as converged",
      edits=[(C + "solver_interface.py", "            np.copyto(self.x, self.sol)\n", "            self.x = self.sol\n")],
      demo='''
import numpy as np, scipy.sparse as sp, types
from rainbow.simulators.proximal_contact.gauss_seidel_solver import GaussSeidelSolver
from rainbow.simulators.proximal_contact.proximal_operators import prox_origin
rng = np.random.default_rng(3)
Kc = 3
J = sp.csr_matrix(rng.standard_normal((4 * Kc, 18)))
b = rng.standard_normal(4 * Kc) - 1.0
par = types.SimpleNamespace(nu_reduce=0.5, nu_increase=4.0, too_small_merit_change=1e9, max_iterations=2000, absolute_tolerance=1e-10, relative_tolerance=1e-14)
E = types.SimpleNamespace(contact_points=[None] * Kc, params=par, simulator_type="rigid_body")
x, stats = GaussSeidelSolver(J, sp.csr_matrix(J.T), b, np.zeros(Kc), prox_origin, E, {}, True, "gs_").solve()
w = (J @ (J.T @ x) + b)[::4]; xn = x[::4]
print("rejects", stats["gs_reject"].sum(), "exit", stats["gs_exitcode"], "slack", w, "force", xn)
if stats["gs_reject"].sum() == 0: sys.exit(3)
sys.exit(0 if stats["gs_exitcode"] != 1 or (w.min() > -1e-4 and np.abs(w * xn).max() < 1e-4) else 1)
'''),
 dict(id="p02-wrong-offset", property="P02",
      needs="soft contacts whose second body owns another range of nodes, in an order in which the offset of the first body hides the shared node",
      breaks="two contacts that touch the same node of a body get the same colour (or unrelated contacts an edge)",
      edits=[(C + "blocking.py", "cp2.bodyB.T[cp2.idx_tetB] + cp2.bodyB.offset", "cp2.bodyB.T[cp2.idx_tetB] + cp2.bodyA.offset")],
      demo='''
import numpy as np, types
import rainbow.simulators.proximal_contact.blocking as B
T = np.array([[0, 1, 2, 3]])
bd = [types.SimpleNamespace(T=T, offset=o, idx=i) for i, o in enumerate((0, 10, 20))]
cp = lambda a, b: types.SimpleNamespace(bodyA=bd[a], bodyB=bd[b], idx_tetA=0, idx_tetB=0)
Gr = B.build_contact_graph([cp(0, 1), cp(2, 1)], "soft_body")
print(list(Gr.edges)); sys.exit(0 if Gr.number_of_edges() == 1 else 1)
'''),
 dict(id="p03-scale-once", property="P03",
      needs="an anisotropic cone and a point or axis longer than one (so that the problem is scaled)",
      breaks="the multiplier is scaled back once instead of twice: the point returned is not on the ellipsoid",
      edits=[(C + "proximal_operators.py", "    tk /= scale * scale\n", "    tk /= scale\n")],
      demo='''
import types
from rainbow.simulators.proximal_contact.proximal_operators import prox_ellipsoid
E = types.SimpleNamespace(params=types.SimpleNamespace(ellipsoid_tolerance=1e-9, ellipsoid_expansion=1.5, ellipsoid_max_iterations=200))
x = prox_ellipsoid(E, 5.0, -3.0, 2.0, 0.5, 1.0, 2.0, 1.5)
f = (x[0] / 0.75) ** 2 + (x[1] / 1.5) ** 2 + (x[2] / 3.0) ** 2
print(x, f); sys.exit(0 if abs(f - 1) < 1e-4 else 1)
'''),
 dict(id="g01-root-grows", property="G01",
      needs="a hierarchy refitted to vertices that moved away, or with a smaller envelope",
      breaks="the root volume keeps what it covered before, so it is no longer the bound of the mesh",
      edits=[(G + "kdop_bvh.py", "    tree.root = KDOP.KDOP(K)\n", "    if tree.root is None or tree.root.K != K:\n        tree.root = KDOP.KDOP(K)\n")],
      demo='''
import numpy as np
import rainbow.geometry.kdop_bvh as BVH
V = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]], dtype=float); T = np.array([[0, 1, 2], [1, 3, 2]])
t = BVH.make_bvh(V, T, 3, 3)
BVH.refit_bvh(V + 10.0, T, t, 3)
print([(s.lower, s.upper) for s in t.root.slabs]); sys.exit(0 if t.root.slabs[0].lower > 5 else 1)
'''),
 dict(id="g03-one-sided-boundary", property="G03",
      needs="two boxes further apart than one boundary width but not than two, the second below the first",
      breaks="the overlap of two boxes depends on their order",
      edits=[(G + "aabb.py", "            aabb2_max_copy += boundary\n", "            aabb2_max_copy += 0.5 * boundary\n")],
      demo='''
from rainbow.geometry.aabb import AABB
a, b = AABB([0, 0, 0], [1, 1, 1]), AABB([1.9, 0, 0], [3, 1, 1])
r = AABB.is_overlap(a, b, 0.5), AABB.is_overlap(b, a, 0.5)
print(r); sys.exit(0 if r == (True, True) else 1)
'''),
 dict(id="g04-subdivision-key", property="G04",
      needs="two tetrahedra that list a shared edge in opposite directions",
      breaks="the shared edge gets two midpoint nodes and the subdivided mesh tears open",
      edits=[(G + "volume_mesh.py", "        key = (_i, _j) if _i < _j else (_j, _i)\n", "        key = (_i, _j)\n")],
      demo='''
import numpy as np
import rainbow.geometry.volume_mesh as VM
V, T = VM.create_beam(3, 2, 2, 2.0, 1.0, 1.0)
V2, T2 = VM.create_loop_subdivision(V, T)
n = len({tuple(np.round(v, 9)) for v in V2})
print(len(V2), n); sys.exit(0 if n == len(V2) else 1)
'''),
 dict(id="g06-gradient-spacing", property="G06",
      needs="a grid with different spacings along x and y, and a field that is not linear over a cell",
      breaks="the gradient is taken at another point of the cell than the one asked for",
      edits=[(G + "grid3.py", "    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]\n", "    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[0]\n")],
      demo='''
import numpy as np
import rainbow.geometry.grid3 as GRID
g = GRID.Grid(np.array([0.0, 0, 0]), np.array([4.0, 1.0, 1.0]), 3, 3, 3)
GRID.eval_on_grid(g, lambda p: p[0] * p[1])
d = GRID.get_gradient(g, np.array([1.0, 0.4, 0.2]))
print(d); sys.exit(0 if np.allclose(d, [0.4, 1.0, 0.0]) else 1)
'''),
 dict(id="s05-own-friction", property="S05",
      needs="a contact between bodies of different materials whose mutual friction differs from that of the first material with itself",
      breaks="the friction between two materials is ignored: contacts use the coefficient of the first body's material with itself",
      edits=[(P + "solver.py", "            cp.bodyA.material_description.name, cp.bodyB.material_description.name\n", "            cp.bodyA.material_description.name, cp.bodyA.material_description.name\n")],
      demo=SOFT + '''
import types
E = engine()
for n in ("wood", "ice"): API.create_material(E, n)
API.create_surfaces_interaction(E, "wood", "ice", 0.125)
b = lambda n: types.SimpleNamespace(material_description=E.material_descriptions[n] if hasattr(E, "material_descriptions") else types.SimpleNamespace(name=n))
b = lambda n: types.SimpleNamespace(material_description=types.SimpleNamespace(name=n))
E.contact_points = [types.SimpleNamespace(bodyA=b("wood"), bodyB=b("ice"))]
mu = S.get_friction_coefficient_vector(E)
print(mu); sys.exit(0 if abs(mu[0] - 0.125) < 1e-12 else 1)
'''),
 dict(id="s03-reduction-rounding", property="S03",
      needs="two contacts of the same pair of bodies less than a thousandth apart (small bodies)",
      breaks="distinct contacts are thrown away as duplicates",
      edits=[(P + "collision_detection.py", "        uid = (cp.bodyA, cp.bodyB, tuple(cp.p))\n", "        uid = (cp.bodyA, cp.bodyB, tuple(np.round(cp.p, 3)))\n")],
      demo=SOFT + '''
import types
E = engine(); a, b = "a", "b"
E.contact_points = [types.SimpleNamespace(bodyA=a, bodyB=b, p=np.array([x, 0.0, 0.0])) for x in (0.0, 1e-4, 2e-4, 0.0)]
CD._contact_reduction(E, {}, False)
print(len(E.contact_points)); sys.exit(0 if len(E.contact_points) == 3 else 1)
'''),
 dict(id="m01-half-turn", property="M01",
      needs="a rotation by exactly half a turn about the axis",
      breaks="the angle about the axis of a half turn is -pi instead of pi",
      edits=[(M + "quaternion.py", "    if theta > pi:\n        theta -= 2.0 * pi\n", "    if theta >= pi:\n        theta -= 2.0 * pi\n")],
      demo='''
import numpy as np
import rainbow.math.quaternion as Q
a = Q.to_angle(np.array([0.0, 0, 0, 1.0]), np.array([0.0, 0, 1.0]))
print(a); sys.exit(0 if a > 3 else 1)
'''),
 dict(id="k02-parent-by-index", property="K02",
      needs="a branching skeleton in which the parent of a bone is not the bone created just before it",
      breaks="the Jacobian turns the axes of such a bone by the pose of the wrong bone",
      edits=[(K + "api.py", """            if bone.has_parent():
                q_parent = skeleton.bones[bone.parent].q_wcs

            # In the 5 lines""", """            if bone.has_parent():
                q_parent = skeleton.bones[idx - 1].q_wcs

            # In the 5 lines""")],
      demo='''
import numpy as np
import rainbow.simulators.inverse_kinematics.api as IK
import rainbow.simulators.inverse_kinematics.types as TY
s = TY.Skeleton()
IK.create_root(s, 0.3, 0.2, 0.1, 0, 0, 0)
IK.add_bone(s, 0, 0.5, -0.4, 0.3, 1, 0, 0)
IK.add_bone(s, 0, -0.5, 0.7, 0.2, 0, 1, 0)
IK.update_skeleton(s)
ch = IK.make_chains(s)
for c in ch: c.tool = np.array([0.5, 0.25, 1.0])
J = IK.compute_jacobian(ch, s)
th = IK.get_joint_angles(s); D = np.zeros_like(J); h = 1e-6
for i in range(len(th)):
    for sg in (1, -1):
        t = th.copy(); t[i] += sg * h
        IK.set_joint_angles(s, t); IK.update_skeleton(s)
        D[:, i] += sg * np.concatenate([IK.get_end_effector(c, s) for c in ch]) / (2 * h)
print(abs(J - D).max()); sys.exit(0 if abs(J - D).max() < 1e-5 else 1)
'''),
 dict(id="u01-raised-value", property="U01",
      needs="an item whose value is raised while it waits",
      breaks="the item is popped at its old, smaller value, before items that are smaller now",
      edits=[(U + "heap.py", "            if value is not last_value:\n", "            if value > last_value:\n")],
      demo='''
from rainbow.util.heap import Heap
h = Heap(); h.push(1, 1.0); h.push(2, 2.0); h.update(1, 3.0)
r = [h.pop(), h.pop(), h.pop()]
print(r); sys.exit(0 if r == [2, 1, None] else 1)
'''),
 dict(id="u02-op-order", property="U02",
      needs="a recorded body with both a position and an orientation",
      breaks="the orientation is applied after the translation, so the body is seen at a turned position",
      edits=[(U + "USD.py", "        xformable.set_translation(translation, time)\n        xformable.set_orientation(orientation, time)\n", "        xformable.set_orientation(orientation, time)\n        xformable.set_translation(translation, time)\n")],
      demo='''
import numpy as np, tempfile, os
from rainbow.util.USD import USD
from pxr import Usd, UsdGeom
d = tempfile.mkdtemp(); f = os.path.join(d, "s.usda")
u = USD(f); u.add_rigid_body("b", np.eye(3), np.array([[0, 1, 2]]))
u.update_rigid_body("b", np.array([1.0, 2, 3]), np.array([np.sqrt(0.5), 0, 0, np.sqrt(0.5)]), 1.0); u.save()
st = Usd.Stage.Open(f)
for p in st.Traverse():
    if p.GetName() == "b":
        t = UsdGeom.Xformable(p).ComputeLocalToWorldTransform(1.0).ExtractTranslation()
import shutil; shutil.rmtree(d)
print(t); sys.exit(0 if np.allclose(t, [1, 2, 3]) else 1)
'''),
]
