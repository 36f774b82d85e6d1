R = "rainbow/simulators/prox_rigid_bodies/"
HELP = '''
import numpy as np
np.random.seed(1)
import rainbow.simulators.prox_rigid_bodies.api as API
def box(d=(2, 2, 2), c=(0, 0, 0)):
    V = np.array([[c[0] + (i & 1) * d[0] - d[0] / 2, c[1] + ((i >> 1) & 1) * d[1] - d[1] / 2, c[2] + ((i >> 2) & 1) * d[2] - d[2] / 2] for i in range(8)], dtype=float)
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    return V, np.array([t for q in quads for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))], dtype=int)
def engine(res=6):
    E = API.create_engine(); E.params.resolution = res
    return E
def body(E, name, d=(2, 2, 2), r=(0, 0, 0), v=(0, 0, 0), w=(0, 0, 0), q=None, rho=1.0, c=(0, 0, 0)):
    API.create_shape(E, name + "_shape", API.create_mesh(*box(d, c)))
    API.create_rigid_body(E, name)
    API.connect_shape(E, name, name + "_shape")
    if q is not None: API.set_orientation(E, name, np.array(q, dtype=float))
    API.set_position(E, name, np.array(r, dtype=float))
    API.set_velocity(E, name, np.array(v, dtype=float)); API.set_spin(E, name, np.array(w, dtype=float))
    API.set_mass_properties(E, name, rho)
    return E.bodies[name]
'''
S2 = "0.7071067811865476"
SEEDS = [
 dict(id="r01-duplicate-force", property="R01",
      needs="three connect_force calls on one body: force A, force B, then A again",
      breaks="a force type is connected twice to the same body (gravity acts doubled) instead of the call being rejected",
      edits=[(R + "api.py", "    if force in body.forces:\n", "    if body.forces and body.forces[-1] is force:\n")],
      demo=HELP + '''
E = engine(); body(E, "b")
API.create_gravity_force(E, "g", 9.81, np.array([0.0, 1, 0])); API.create_damping_force(E, "d", 1.0, 1.0)
API.connect_force(E, "b", "g"); API.connect_force(E, "b", "d")
try:
    API.connect_force(E, "b", "g")
except RuntimeError:
    sys.exit(0)
print("gravity connected twice:", len(E.bodies["b"].forces)); sys.exit(1)
'''),
 dict(id="r02-model-frame-position", property="R02",
      needs="placement by the model frame of a body whose orientation and principal frame are rotations that do not commute",
      breaks="the model frame does not end up at the requested position",
      edits=[(R + "api.py", "        q_mf2wcs = Q.prod(q_bf2wcs, Q.conjugate(q_bf2mf))\n        # R_mf2wcs", "        q_mf2wcs = Q.prod(Q.conjugate(q_bf2mf), q_bf2wcs)\n        # R_mf2wcs")],
      demo=HELP + '''
import rainbow.math.quaternion as Q
E = engine()
b = body(E, "b", d=(1, 2, 4), c=(3, 1, -2))
s = b.shape
s_q = Q.unit(np.array([1.0, 2.0, -1.0, 0.5]))
s.q = s_q
API.set_orientation(E, "b", Q.unit(np.array([1.0, -1.0, 0.3, 2.0])))
API.set_position(E, "b", np.array([5.0, 6.0, 7.0]), use_model_frame=True)
q_m = Q.prod(b.q, Q.conjugate(s.q))
origin = b.r - Q.rotate(q_m, s.r)
print(origin)
sys.exit(0 if np.allclose(origin, [5, 6, 7]) else 1)
'''),
 dict(id="r03-shared-log", property="R03",
      needs="two engines simulated with profiling in the same process",
      breaks="the steppers of all engines append to one log, so the log of an engine holds records of steps of another engine",
      edits=[(R + "steppers.py", "        self.log: list[dict[str, any]] = []", "        self.log: list[dict[str, any]] = self.shared_log")
             , (R + "steppers.py", "class SemiImplicitStepper:\n", "class SemiImplicitStepper:\n    shared_log: list[dict[str, any]] = []\n\n")],
      demo=HELP + '''
E = engine(); body(E, "a"); F = engine(); body(F, "b")
E.params.time_step = F.params.time_step = 0.25
API.simulate(E, 1.0, profiling_on=True); API.simulate(F, 0.5, profiling_on=True)
n, m = len(API.get_log(E)), len(API.get_log(F))
print(n, m)
sys.exit(0 if (n, m) == (4, 2) else 1)
'''),
 dict(id="r04-spin-in-body-frame", property="R04",
      needs="a spinning body whose orientation is not the identity and whose spin axis is not its rotation axis",
      breaks="the world space spin is applied in the body frame: bodies turn about the wrong axis",
      edits=[(R + "state_storage.py", "q += Q.prod(Q.from_vector3(w), q) * dt * 0.5", "q += Q.prod(q, Q.from_vector3(w)) * dt * 0.5")],
      demo=HELP + '''
import rainbow.math.quaternion as Q
E = engine(); E.params.time_step = 1 / 1024
b = body(E, "b", q=[''' + S2 + ''', ''' + S2 + ''', 0, 0], w=(0, 0, 1))
a0 = Q.rotate(b.q, np.array([0.0, 0, 1]))
API.simulate(E, 0.5)
a1 = Q.rotate(b.q, np.array([0.0, 0, 1]))
want = np.array([np.cos(0.5) * a0[0] - np.sin(0.5) * a0[1], np.sin(0.5) * a0[0] + np.cos(0.5) * a0[1], a0[2]])
print(a1, want)
sys.exit(0 if np.allclose(a1, want, atol=1e-2) else 1)
'''),
 dict(id="r05-reduction-across-pairs", property="R05",
      needs="a vertex of one body that touches two other bodies at the same point (three bodies)",
      breaks="the contact point of the second pair is dropped as a duplicate although it belongs to another pair of bodies",
      edits=[(R + "collision_detection.py", "            if {cp1.bodyA, cp1.bodyB} == {cp2.bodyA, cp2.bodyB} and (\n                cp1.p == cp2.p\n            ).all():", "            if cp1.bodyB is cp2.bodyB and (cp1.p == cp2.p).all():")],
      demo=HELP + '''
import rainbow.simulators.prox_rigid_bodies.collision_detection as CD
E = engine(8)
body(E, "left", d=(4, 2, 4), r=(-2, -1, 0)); body(E, "right", d=(4, 2, 4), r=(2, -1, 0)); body(E, "top", d=(2, 2, 2), r=(0.9, 0.95, 0))
CD.run_collision_detection(E, {}, False)
E2 = engine(8)
body(E2, "left", d=(4, 2, 4), r=(-2, -1, 0)); body(E2, "top", d=(2, 2, 2), r=(0.9, 0.95, 0))
CD.run_collision_detection(E2, {}, False)
pair = lambda G: sum({c.bodyA.name, c.bodyB.name} == {"left", "top"} for c in G.contact_points)
E3 = engine(8)
def three(z):
    G = engine(8)
    body(G, "a", d=(2, 2, 2), r=(0, 0, 0)); body(G, "b", d=(2, 2, 2), r=(0.05, 0, 0)); body(G, "top", d=(1, 1, 1), r=(0.2, 1.48, 0.1))
    CD.run_collision_detection(G, {}, False)
    return sum({c.bodyA.name, c.bodyB.name} == {"a", "top"} for c in G.contact_points), sum({c.bodyA.name, c.bodyB.name} == {"b", "top"} for c in G.contact_points)
def two(n, x):
    G = engine(8)
    body(G, n, d=(2, 2, 2), r=(x, 0, 0)); body(G, "top", d=(1, 1, 1), r=(0.2, 1.48, 0.1))
    CD.run_collision_detection(G, {}, False)
    return len(G.contact_points)
got, want = three(0) + (pair(E),), (two("a", 0), two("b", 0.05), pair(E2))
print(got, want)
sys.exit(0 if got == want else 1)
'''),
 dict(id="r06-stabilization-index", property="R06",
      needs="pre-stabilization and at least two contact points, one approaching and one separating",
      breaks="whether a contact approaches is looked up in the wrong entry of the contact velocity vector, so drift correction is left out (or added) at the wrong contacts",
      edits=[(R + "constraints/contacts.py", "            if cp.g < lower and v[4 * k] <= 0.0:", "            if cp.g < lower and v[k] <= 0.0:")],
      demo=HELP + '''
from rainbow.simulators.prox_rigid_bodies.constraints.contacts import Contacts
from rainbow.simulators.prox_rigid_bodies.types import ContactPoint
E = engine(); a = body(E, "a"); b = body(E, "b", r=(0, 1.9, 0))
E.params.use_pre_stabilization = True; E.params.gap_reduction = 0.5; E.params.max_gap_value = 10.0; E.params.min_gap_value = 0.01
n = np.array([0.0, 1, 0])
E.contact_points = [ContactPoint(a, b, np.array([x, 1.0, 0.0]), n, -0.5) for x in (-1.0, 1.0)]
v = np.array([-1.0, 2.0, 0, 0, -1.0, 0, 0, 0])
g = Contacts._compute_error_vector(0.5, v, E)
print(g)
sys.exit(0 if np.allclose(g, [-0.5, 0, 0, 0, -0.5, 0, 0, 0]) else 1)
'''),
 dict(id="r07-rollback-alias", property="R07",
      needs="a solve in which some sweep diverges after one was accepted",
      breaks="the last accepted solution is the live iterate, so a diverging sweep is never undone",
      edits=[(R + "constraints/problem.py", "np.copyto(self.sol, self.x)", "self.sol = self.x")],
      demo=HELP + '''
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as SOLVER
from rainbow.simulators.prox_rigid_bodies.constraints.problem import Problem
class P(Problem):
    def __init__(self, xs):
        super().__init__("p"); self.xs = list(xs)
        self.x, self.sol, self.error, self.r = np.zeros(1), np.zeros(1), np.zeros(1), np.ones(1)
    def initialize(self, dt, state, engine): pass
    def finalize_solution(self): return self.sol
    def sweep(self): starts.append(float(self.x[0])); self.x[:] = self.xs.pop(0)
starts = []
E = engine(); E.params.max_iterations = 4; E.params.absolute_tolerance = 0.0; E.params.relative_tolerance = 0.0
p = P([4.0, 7.0, 99.0, 8.0])
SOLVER.solve(E, [p], {}, False, "")
print(starts, p.sol)
sys.exit(0 if starts == [0, 4, 7, 7] else 1)
'''),
 dict(id="r08-child-arm-frame", property="R08",
      needs="a hinge whose two bodies have different orientations",
      breaks="the Jacobian rotates the child's arm with the parent's orientation: the anchor points drift apart",
      edits=[(R + "constraints/hinges.py", "            arm_c = Q.rotate(hinge.child.q, hinge.arm_c)\n", "            arm_c = Q.rotate(hinge.parent.q, hinge.arm_c)\n")],
      demo=HELP + '''
import rainbow.math.quaternion as Q
E = engine(); E.params.time_step = 1 / 64; E.params.max_iterations = 500
a = body(E, "a", d=(2, 1, 1)); b = body(E, "b", d=(2, 1, 1), r=(2, 1, 0), q=[''' + S2 + ''', 0, 0, ''' + S2 + '''], w=(0, 0, 3))
API.create_hinge(E, "h"); API.set_hinge(E, "h", "a", "b", np.array([1.0, 0, 0]), np.array([0.0, 0, 1]))
h = E.hinges["h"]
E.params.use_pre_stabilization = False
API.set_position(E, "b", np.array([9.0, 1, 0])); API.set_position(E, "b", np.array([2.0, 1, 0]))
API.simulate(E, 1 / 64)
ua = a.v + np.cross(a.w, Q.rotate(a.q, h.arm_p)); ub = b.v + np.cross(b.w, Q.rotate(b.q, h.arm_c))
print(ua - ub)
sys.exit(0 if np.linalg.norm(ua - ub) < 0.2 else 1)
'''),
]
