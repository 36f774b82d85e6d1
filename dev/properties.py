"""Source of /verif/properties.jsonl (python3 dev/properties.py writes it)."""
import json, os
P = []
M, U = "rainbow/math/", "rainbow/util/"
RB, SB, PC, G, IK = ("rainbow/simulators/prox_rigid_bodies/", "rainbow/simulators/prox_soft_bodies/", "rainbow/simulators/proximal_contact/",
                     "rainbow/geometry/", "rainbow/simulators/inverse_kinematics/")
NOTEST = "The unit tests contain no test of this part beyond importing it"


def prop(id, title, statement, over, text, why, files, mech, obs=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=None)))


prop("R01", "Rigid engine setup: unique names, all-or-nothing calls, faithful queries",
     "In a rigid-body engine every body, shape, force, hinge and (unordered) material pair is unique within its kind, bodies and hinges are numbered 0,1,2,... in creation order, and a shape or force may be shared by bodies but is connected at most once per body for forces. A setup call either is accepted and makes exactly the change it names, or is rejected with an error (duplicate or unknown name, illegal coefficient, unknown body type, unknown material or hinge mode, mass asked of a body without shape) and leaves the whole engine as it was. Queries return what was last stored (material pairs in either order, falling back to the default interaction), and a caller's later changes to arrays it passed for, or obtained from, body state never change the engine.",
     ["histories", "inputs"], "every sequence of setup and query calls, with valid and invalid arguments, on any number of named objects",
     NOTEST + "; a handful of calls could not cover call histories anyway.",
     [RB + "api.py", RB + "types.py"],
     [("name checks before mutation in every API function", RB + "api.py"), ("sorted material pair key", RB + "api.py create_surfaces_interaction / types.py SurfacesInteractionLibrary"),
      ("np.copy in setters and getters", RB + "api.py")],
     ["engine.bodies/shapes/forces/hinges/surfaces_interactions after every API call"],
     [("engine registries", "named objects in creation order", RB + "types.py Engine")])

prop("R02", "Bodies, shapes and hinges are placed where asked, in every frame",
     "Turning a mesh into a shape yields its mass, centre of mass and principal frame, and moves the mesh into that frame so that mapping it back gives the original mesh. Placing a body by its body frame, or by the model frame its mesh was given in, puts exactly that frame at the requested position or orientation and leaves the other part of that frame's pose unchanged. A hinge given in world, parent-body or parent-model space gets sockets on both bodies that coincide in the world at the requested origin and axis.",
     ["histories", "inputs"], "every sequence of placement calls on bodies with shapes of any centre of mass and principal axes, any orientation",
     NOTEST + "; frame errors vanish for the identity orientation or a centred mesh, which is what a hand-written test uses.",
     [RB + "api.py", RB + "mass.py", RB + "types.py", "rainbow/math/quaternion.py"],
     [("model-to-body frame algebra", RB + "api.py set_position/set_orientation/set_hinge"), ("shape.r, shape.q", RB + "api.py create_shape, mass.py xform_model_2_body_space")],
     ["body.r, body.q, hinge sockets, shape mesh after the calls"])

prop("R03", "simulate(T) partitions time, keeps no hidden state, and logs every step",
     "simulate(T) of the rigid and the soft simulator rejects a non-positive duration with an error and without changing the world; otherwise it advances by a sequence of steps that are each positive and not longer than the time-step parameter, all equal to it except possibly a shorter last one, and that sum up to T - also when T is an exact or nearly exact multiple of the time step in floating point. With profiling on exactly one log record per step is appended, holding the step's length; profiling never changes the motion. The future depends only on the current state: running T1 then T2 (multiples of the time step) equals running T1+T2, repeating a run reproduces it bit for bit, and a fresh engine given the same state continues identically. The two simulators share nothing, nor do two engines.",
     ["histories", "inputs"], "every duration and time step, every sequence of simulate calls, with and without profiling",
     NOTEST + "; round-off residues need particular T/time-step pairs.",
     [RB + "api.py", SB + "api.py", RB + "steppers.py", SB + "steppers.py"],
     [("time loop", RB + "api.py simulate; " + SB + "api.py simulate"), ("log append", RB + "steppers.py / " + SB + "steppers.py")],
     ["arguments of stepper.step, stepper.log, body state after simulate"])

prop("R04", "A rigid step obeys Newton-Euler mechanics and reports true energies",
     "One time step of the rigid simulator integrates each free body by the semi-implicit Euler scheme: without contacts or hinges its velocity changes by dt times the sum of its connected forces over its mass and its spin by dt times the inverse world inertia applied to torque minus gyroscopic term, its position moves by dt times its NEW velocity and its orientation turns by dt times its NEW world spin and stays a unit quaternion. Gravity pulls against its up direction with mass times acceleration, linear and angular damping act against velocity and spin. Fixed bodies never move whatever their velocity or forces. A free body without mass is rejected with an error before anything changed. With profiling on the logged kinetic and potential energies are those of the current free bodies (potential energy of gravity relative to the origin along the combined up direction).",
     ["inputs", "histories"], "every mass, inertia, orientation, velocity, spin, set of forces and time step, over any number of steps",
     NOTEST + "; frame and sign errors vanish for isotropic inertia, identity orientation or zero spin.",
     [RB + "steppers.py", RB + "state_storage.py", RB + "types.py", RB + "mass.py"],
     [("external forces, gyroscopic torque", RB + "state_storage.py"), ("position update", RB + "state_storage.py position_update"), ("force laws", RB + "types.py Gravity, Damping")],
     ["body r,q,v,w after simulate; log kinetic_energy, potential_energy"])

prop("R05", "Contact points between rigid bodies are sound, oriented and not missed",
     "Every contact point that collision detection reports names two different bodies A and B, lies on the surface of B, has a gap that is the signed distance (negative inside) from body A's surface to the point, not above the envelope, and a unit normal pointing out of A towards B; over a flat face of A the gap is the distance to the face plane and the normal is the face normal, up to the resolution of the distance field. The same point is reported once per pair of bodies. Two boxes of which a corner certainly lies in or within the envelope of the other (not deeper than the envelope) do get at least one contact point, whatever the grid resolution, order of bodies, mesh frame, kind of discrete bounding volume or BVH chunk size. With profiling on the logged number of contacts and largest penetration are those of the final contact set.",
     ["inputs"], "every relative pose of the bodies (checked on boxes of many shapes in axis-aligned orientations)",
     NOTEST + "; missed contacts need particular relative placements.",
     [RB + "collision_detection.py", G + "kdop_bvh.py", G + "kdop.py", G + "grid3.py"],
     [("bounding volume refit and traversal", RB + "collision_detection.py _update_bvh, _narrow_phase"), ("Frank-Wolfe search against the distance field", RB + "collision_detection.py _compute_contacts"),
      ("duplicate removal", RB + "collision_detection.py _contact_reduction")],
     ["engine.contact_points after run_collision_detection or simulate; log max_penetration, contact_points"])

prop("R06", "Contact impulses push, obey Coulomb and Newton, and stop penetration",
     "The impulses a rigid-body step applies at contact points act with equal and opposite effect on both bodies at the contact point (total linear and angular momentum of free bodies is unchanged, a fixed or untouched body receives nothing), never pull, and carry friction (sliding and spinning together) of at most mu times the normal impulse, where mu and the restitution coefficient are those of the unordered pair of the two bodies' materials, or the default interaction. When the solver converged: no contact keeps approaching after the step - its normal velocity is at least minus restitution times the old one (restitution only if bounce is on) plus the requested drift correction -, a contact that separates faster is not pushed, a contact inside its friction cone sticks, friction opposes slip, and without restitution and stabilization contacts add no kinetic energy. Pre-stabilization asks for gap_reduction times the penetration per step (at most max_gap_value) for approaching contacts deeper than min_gap_value; post-stabilization moves bodies, without changing velocities, until every contact deeper than min_gap_value is just resolved.",
     ["inputs", "histories"], "every set of contacts, masses, materials, velocities and stabilization settings",
     NOTEST + "; wrong signs, frames or body order cancel in symmetric one-contact examples.",
     [RB + "constraints/contacts.py", RB + "constraints/post_stabilization.py", RB + "prox_operators.py", RB + "types.py", RB + "steppers.py"],
     [("Jacobian, error vector, friction and restitution lookup", RB + "constraints/contacts.py"), ("projection", RB + "constraints/post_stabilization.py"), ("friction cone", RB + "prox_operators.py prox_sphere")],
     ["velocities before/after, problem.sol, contact points"])

prop("R07", "The rigid solver only keeps improving iterates and stops for the reason it reports",
     "The adaptive Gauss-Seidel solver sweeps every constraint problem once per iteration in order. A sweep whose merit exceeds that of the last accepted sweep of the same problem is undone exactly (iterate back to the last accepted solution) and shrinks that problem's R-factors by nu_reduce; any other sweep is accepted, and if it improved the merit by less than too_small_merit_change the R-factors grow by nu_increase. Problems do not influence each other's merit bookkeeping. The solver stops at the first iteration whose largest merit is below the absolute tolerance (exit code 1), or changed by less than the relative tolerance times the previous one (exit code 2), or after max_iterations (exit code 0); the solution left is the last accepted one. With profiling it reports that exit code, the iteration count, and the residual of every iteration (infinity for those not run) under the given key prefix, and nothing without profiling.",
     ["histories"], "every sequence of merits and iterates of any number of problems and every parameter setting",
     NOTEST + "; rollback and exit paths need particular sequences of merits.",
     [RB + "gauss_seidel_solver.py", RB + "constraints/problem.py"],
     [("accept or rollback", RB + "gauss_seidel_solver.py solve"), ("iterate bookkeeping", RB + "constraints/problem.py")],
     ["problem.x, problem.sol, problem.r between sweeps; performance data"])

prop("R08", "Hinge joints remove exactly five degrees of freedom and do not drift",
     "Hinge impulses are equal and opposite (they conserve linear momentum and, when the anchors coincide, angular momentum; fixed and unjointed bodies receive nothing), exert no torque about the hinge axis and, without drift correction, add no energy. After a converged step both bodies' anchor points move with the same velocity and their relative spin is along the hinge axis, except that with pre-stabilization the anchors approach, and the axes realign, by gap_reduction of the present error per step: a joint that is pulled apart or tilted at rest has (1 - gap_reduction) of its error left after one step, and simulated chains stay together.",
     ["inputs", "histories"], "every pair or tree of jointed bodies, hinge pose, mass, velocity and drift",
     NOTEST + "; sign errors of the correction do not show when there is no drift.",
     [RB + "constraints/hinges.py", RB + "types.py", RB + "steppers.py"],
     [("Jacobian", RB + "constraints/hinges.py _compute_jacobian_matrix"), ("drift correction", RB + "constraints/hinges.py _compute_error_vector")],
     ["velocities before/after, anchors and axes in the world"])

prop("P01", "The proximal contact solvers sweep as specified, keep only improving iterates and solve the contact problem",
     "PROX.solve runs the named scheme (gauss_seidel, parallel_gauss_seidel, parallel_jacobi, parallel_jacboi_hybrid; any other name is a NotImplementedError) from zero contact forces with R-factors 0.1 over the diagonal of J W J^T (0.1 where that is zero). One Gauss-Seidel sweep updates the contacts one after the other, each from the newest contact forces of all others; the parallel one does so in some order of the contacts (contacts of the same colour do not interact), whatever the contact graph, the number of threads or cores; a Jacobi sweep updates all from the previous iterate; the hybrid one scales the friction cone by the new normal force. An update projects x - r(Ax+b): the normal part to the non-negative numbers, the friction part to the friction cone, so forces push and (except plain Jacobi) obey Coulomb after every sweep. A sweep whose merit (largest change) exceeds the last accepted one is undone exactly and shrinks the R-factors by nu_reduce; other sweeps are accepted and R-factors grow by nu_increase when the merit hardly improved. The solver stops at the first sweep with merit below the absolute tolerance (exit code 1), at a relative merit change below the relative tolerance (2) or after max_iterations (0) and returns the last accepted iterate; a tightly converged solution satisfies the complementarity conditions (no approach left, no push on separating contacts, sticking inside the cone, friction against the slip). With debugging on it records residuals, rejections, iterates, iteration count and exit code under the given prefix, otherwise nothing.",
     ["inputs", "schedules", "histories"], "every contact problem, contact graph, thread count, sequence of merits and parameter setting",
     NOTEST + "; a lost update of a parallel sweep only shows for contact graphs whose colours interleave.",
     [PC + "solver_interface.py", PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", PC + "prox_solvers.py", PC + "blocking.py", PC + "proximal_operators.py"],
     [("sweeps", PC + "gauss_seidel_solver.py, jacobi_solver.py"), ("accept or rollback, exit", PC + "solver_interface.py solve"), ("colour groups", PC + "blocking.py greedy_graph_coloring")],
     ["solver.x before/after each sweep, solver.r, solver.sol, returned solution and statistics"])

prop("P02", "Colour groups partition the contacts and never hold two contacts that interact",
     "build_contact_graph has exactly one node per contact and an edge between two contacts exactly when they interact: for rigid bodies when they share a body (as A or B in either contact, fixed or not), for soft bodies when the tetrahedra they touch share a node (local node indices plus the body's offset); any other kind of body is a ValueError as soon as there is a contact. greedy_graph_coloring returns groups of row blocks (4k, 4k+4) that contain every contact exactly once, and random_graph_coloring groups of contacts, whatever the random choices and wherever its iterations are cut off; no group holds two interacting contacts.",
     ["inputs", "schedules"], "every list of contacts and every sequence of random choices",
     NOTEST + "; the random colouring has a different outcome each time.",
     [PC + "blocking.py"],
     [("edges", PC + "blocking.py build_contact_graph"), ("colourings", PC + "blocking.py greedy_graph_coloring, random_graph_coloring")],
     ["graph nodes and edges, colour groups"])

prop("P03", "Proximal operators return the closest point of the friction set",
     "For a positive normal force x_n, prox_sphere (of either simulator) returns the point of the ball of radius mu*x_n closest to z, and prox_ellipsoid the point of the ellipsoid with semi-axes mu_s*x_n, mu_t*x_n, mu_tau*x_n closest to z, where an axis with vanishing coefficient makes the ellipsoid flat: points of the set stay where they are, others land on its boundary (or in the flat disc) with the displacement along the outward normal, and projecting again changes nothing. Without normal force (x_n <= 0), and always for prox_origin, the result is zero.",
     ["inputs"], "every z, coefficients and normal force",
     NOTEST + "; degenerate axes and points close to the boundary are not sampled.",
     [PC + "proximal_operators.py", RB + "prox_operators.py"],
     [("prox_sphere, prox_origin, prox_ellipsoid", PC + "proximal_operators.py"), ("prox_sphere", RB + "prox_operators.py")],
     ["returned coordinates"])

prop("G01", "BVH traversal reports exactly the pairs of elements whose bounding volumes overlap",
     "For two meshes (triangles or tetrahedra, any size including empty) with hierarchies built by make_bvh - for any chunk size and envelope - and then refitted by refit_bvh any number of times to moved vertices, another envelope or another kind of k-DOP, traversal returns each pair of elements whose own k-DOPs, enlarged by the envelope of the last refit, overlap (touching counts) exactly once and no other pair. The root volume bounds exactly the elements of the mesh enlarged by the envelope. Building, refitting and traversing change neither vertices nor elements, and a tree does not depend on the vertex array after the call. Two hierarchies of different kinds of k-DOP are a RuntimeError.",
     ["inputs", "histories"], "every pair of meshes, chunk size, envelope and sequence of refits",
     NOTEST + "; chunk boundaries and lop-sided trees are not sampled.",
     [G + "kdop_bvh.py", G + "kdop.py"],
     [("tree construction", G + "kdop_bvh.py make_bvh, _make_sub_tree"), ("refit", G + "kdop_bvh.py refit_bvh"), ("tandem traversal", G + "kdop_bvh.py traversal")],
     ["list of index pairs, root volume"])

prop("G02", "The spatial hash returns what shares the cell at the current time and nothing older",
     "HashGird.insert returns every object inserted before in the same cell (i, j, k) with the same time stamp, together with the data it was inserted with; whatever else it returns (objects of other cells with the same hash value, the object itself) was inserted with the same time stamp - objects of older time stamps are gone. A HashCell that is added to holds exactly the objects of the newest time stamp in order of insertion. The hash value is an integer that depends on the cell only. The optimal cell size is 2.2 times the mean edge length.",
     ["histories", "inputs"], "every sequence of insertions over growing time stamps, every table size and hash function",
     NOTEST + "; stale objects need a cell that is reused in a later frame.",
     [G + "spatial_hashing.py"],
     [("lazy clear", G + "spatial_hashing.py HashCell.add"), ("insertion", G + "spatial_hashing.py HashGird.insert")],
     ["returned object lists, cell.object_list, size, time_stamp"])

prop("G03", "Bounding volumes are tight, conservative and symmetric",
     "KDOP.make bounds its points tightly along the 3 or 4 directions, enlarged by the envelope on both sides; union is the smallest volume containing both arguments and overlap is true exactly when the intervals of every direction meet (touching counts), for both orders of the arguments, neither changing them; arguments of different kinds are a RuntimeError. AABB.create_from_vertices is the tight axis-aligned box and AABB.is_overlap is true exactly when the boxes, both enlarged by the boundary, meet, in either order and without changing the boxes.",
     ["inputs"], "every point set, envelope and boundary",
     NOTEST + "; touching and just separated volumes are the cases that matter.",
     [G + "kdop.py", G + "aabb.py"],
     [("k-DOP", G + "kdop.py make, union, overlap"), ("box", G + "aabb.py create_from_vertices, is_overlap")],
     ["slabs, boxes, overlap answers"])

prop("G04", "Tetrahedral mesh topology, volumes, blocks and subdivision are consistent",
     "For every conforming tetrahedral mesh: compute_neighbors gives for each tetrahedron and node the tetrahedron sharing the opposite face, -1 exactly at the boundary; compute_surface lists every boundary face exactly once with its owner and opposite node, oriented outward for positive tetrahedra, so the surface is closed and encloses the sum of the signed volumes; VertexTetrahedronCirculator lists exactly the tetrahedra of a node; to_triangles and to_tetrahedrons give the four outward faces of each tetrahedron, the latter shrunk about the centroid. create_beam and from_grid3d fill the block of the given size with positive, conforming tetrahedra on the regular grid (values following their nodes). create_loop_subdivision keeps the nodes, adds one node at each edge's midpoint and replaces each tetrahedron by eight of its orientation that fill it, conforming with the neighbours' children. Inputs are not changed.",
     ["inputs"], "every conforming complex, node numbering, element order and block size",
     NOTEST + "; orientation and numbering errors show only on particular elements.",
     [G + "volume_mesh.py"],
     [("neighbours, surface", G + "volume_mesh.py compute_neighbors, compute_surface"), ("blocks", G + "volume_mesh.py create_tetrahedron_array_from_cube_mesh"), ("subdivision", G + "volume_mesh.py create_loop_subdivision")],
     ["N, S, O, V, T arrays, volumes"])

prop("S04", "Elastic material models are objective, isotropic, and their stress is the gradient of their energy",
     "For every deformation gradient F and Lame parameters, the Saint Venant-Kirchhoff, corotational and stable Neo-Hookean models return the energy density and first Piola-Kirchhoff stress of their published definition: the stress is the gradient of the energy, both depend on the deformation only (rotating the deformed body rotates the stress and keeps the energy, rotating the material turns it along), a rigid rotation is free of stress and, for SVK and COR, of energy, and P F^T is symmetric. Right Cauchy, Green strain and Cauchy stress follow from F by definition; the polar decomposition (single and array form) gives the proper rotation and the symmetric positive stretch of F and rejects a singular matrix; Lame parameters follow from Young's modulus and Poisson's ratio; the deformation gradient computed for an affinely deformed mesh is that map in every element and an inverted element is rejected; face vectors point outward with a third of the face's area. Inputs are not changed and material names are case-insensitive.",
     ["inputs"], "every deformation gradient, Lame parameters and tetrahedral mesh",
     NOTEST + "; a stress that is not the gradient of the energy shows only in particular deformations (and both numbers look plausible).",
     [SB + "mechanics.py", SB + "solver.py", "rainbow/math/matrix3.py"],
     [("material models", SB + "mechanics.py SVK, COR, SNH"), ("polar decomposition", "rainbow/math/matrix3.py polar_decomposition"), ("deformation gradient", SB + "solver.py Native.compute_deformation_gradient")],
     ["P, psi, R, S, F"])

prop("S01", "The soft-body engine's registry, mesh, materials and conditions are what the calls made of it",
     "Over every sequence of calls the soft-body engine is exactly the state those calls describe: names are unique, unknown names, ill-shaped arguments and illegal parameters are rejected and a rejected call changes nothing (in particular a body that can not be built is not left behind); a created body holds the given mesh up to renumbering (same nodes, elements, orientation, with the closed outward boundary surface, its owners and the element neighbours), starts undeformed and at rest, has the default material, default gravity and the next free range of global node numbers; conditions attach to exactly the nodes or boundary triangles inside the given region of material coordinates and keep their own copy of value and load; materials and type reach exactly the named body, and mass and damping of every body follow the current density and viscosity of its material; friction between two materials does not depend on their order and falls back to the default interaction. Arrays given by or returned to the caller are never changed or kept.",
     ["histories", "inputs"], "every sequence of API calls on a soft-body engine",
     NOTEST + "; the tests call each function once, aliasing, stale mass matrices and leftovers of failed calls need a sequence.",
     [SB + "api.py", SB + "types.py", "rainbow/geometry/volume_mesh.py", "rainbow/geometry/surface_mesh.py"],
     [("soft API", SB + "api.py"), ("interaction library", SB + "types.py SurfacesInteractionLibrary"), ("conditions", SB + "types.py DirichletCondition, TractionCondition")],
     ["bodies, materials, interactions, conditions, mass matrices"])

prop("S02", "A soft-body step applies exactly the forces of the world and obeys the conditions",
     "For every world of soft bodies out of contact and every state, one time step moves each node by the semi-implicit Euler rule: the velocity changes by time step times force over the node's share of the body's mass (or by the solution with the consistent mass matrix), the force being the elastic force - the negative gradient of the elastic energy of the body's material, balanced in sum and torque - plus the weight, the viscous damping and the load integrated over each loaded triangle, and the position then moves by the new velocity. A node with a Dirichlet condition is at its value with zero velocity before and after the step; a fixed body does not move; bodies do not influence each other; undeformed coordinates never change; an inverted element is rejected and leaves the bodies as they were; bodies, densities and materials added or changed between steps take effect in the next step. Kinetic, potential and elastic energies are those of the current state of the moving bodies. Assembled matrices put every body in its own range of global nodes: mass matrix entries are those of the elements, a contact's Jacobian row gives the normal relative velocity of B against A at the contact, its two tangential rows an orthonormal frame and the fourth row vanishes; friction coefficients are those of the two materials and the penetration measure is the deepest gap.",
     ["histories", "inputs"], "every world, state and sequence of steps and changes without contact",
     NOTEST + "; node shares, signs and offsets of forces can cancel for the single symmetric mesh of a test.",
     [SB + "solver.py", SB + "api.py", SB + "types.py"],
     [("stepper", SB + "solver.py SemiImplicitStepper.step"), ("forces", SB + "solver.py Native"), ("assembly", SB + "solver.py compute_mass_matrix, compute_jacobian_matrix")],
     ["positions, velocities, nodal forces, energies, matrices"])

prop("S03", "Soft-body contacts lie on the surfaces, within the envelope, with covariant normals",
     "For every set of soft bodies, deformed in any way that maps their material boxes affinely, every contact point reported by collision detection belongs to two different bodies, lies on the deformed surface of its body B, and carries the gap between it and body A's surface as measured in A's material space, never more than the collision envelope; where A's distance field is that of a single face the gap is exactly the distance to that face and the unit normal points from A to B, perpendicular to the deformed face. The barycentric coordinates it carries sum to one and reproduce its position in a boundary tetrahedron of A and in the boundary tetrahedron of B whose surface triangle it lies on. Undeformed or rotated bodies that are closer than the envelope (or overlap slightly) have a contact. Only repeated contacts of the same pair at the same point are removed, and none stays. Spatial hashing and the bounding volume hierarchy find the same contacts, and a body does not collide with itself unless its triangles cross. The logged number of contacts is the real one.",
     ["inputs", "histories"], "every configuration of affinely deformed bodies, for both broad phases",
     NOTEST + "; wrong frames, stale trees and one-sided searches show up only for deformed or turned bodies.",
     [SB + "collision_detection.py", SB + "types.py", G + "kdop_bvh.py", G + "spatial_hashing.py", G + "grid3.py"],
     [("broad phase", SB + "collision_detection.py _update_bvh, _narrow_phase, _spatial_hashing_narrow_phase"), ("contacts", SB + "collision_detection.py _compute_contacts, _xform_contact_to_world"), ("reduction", SB + "collision_detection.py _contact_reduction")],
     ["contact points: bodies, tetrahedra, barycentric coordinates, position, normal, gap"])

prop("S06", "A soft body collides with itself exactly where its surface crosses itself",
     "For every soft-body mesh and every deformed shape of it, spatial-hashing collision detection finds exactly the pairs of surface triangles of one body that pass through each other and have no vertex in common: no such pair is missed, wherever in space it lies and whichever of the two triangles' edges pierces the other, and no pair that is separated, or coplanar, or that merely shares a vertex or an edge is reported; the contact points a body has with itself lie on crossing triangles. Between different bodies exactly the triangles whose bounds, grown by the collision envelope, overlap are candidates. Triangles of an earlier state are never found.",
     ["inputs"], "every mesh and every deformed state",
     NOTEST + "; the repository has no test of self-collision at all, and crossings come in many relative positions.",
     [SB + "collision_detection.py", G + "spatial_hashing.py", G + "aabb.py"],
     [("predicate", SB + "collision_detection.py _is_self_collision, _triangle_intersection, _is_share_vertex"), ("hashing", SB + "collision_detection.py _spatial_hashing_narrow_phase")],
     ["logged number of overlapping triangle pairs, contact points of a body with itself"])

prop("S05", "Soft-body contact impulses obey non-penetration, friction and momentum laws",
     "For every set of contacts between soft bodies, one time step changes the velocities of exactly the nodes of the contacts' tetrahedra, each by the contact impulse in proportion to its barycentric weight and inverse mass; nodes of fixed bodies and nodes with a Dirichlet condition do not move and act as if infinitely heavy. Between free bodies total linear momentum is conserved (and angular momentum for contacts whose two points coincide). When the solver converges no contact approaches any more, a contact that pushes does not separate, impulses push and never pull, no energy is gained, the friction impulse is at most the friction coefficient of the two materials times the normal impulse, opposes slip, and sticks inside the cone. Positions move by the time step times the new velocity; post stabilization moves them only along the normals of contacts deeper than the minimum gap, just far enough to remove the penetration, and keeps the centre of mass.",
     ["inputs", "histories"], "every set of contacts, masses, materials and velocities",
     NOTEST + "; no test asserts anything of the velocities or positions after a contact.",
     [SB + "solver.py", PC + "prox_solvers.py", SB + "types.py", SB + "mechanics.py"],
     [("Jacobian", SB + "solver.py compute_jacobian_matrix, get_friction_coefficient_vector"), ("step", SB + "solver.py SemiImplicitStepper.step, apply_post_stabilization"), ("interactions", SB + "types.py, api.py create_surfaces_interaction")],
     ["node velocities and positions after a time step"])

prop("G05", "Generated surface meshes are closed, outward oriented and have the requested shape",
     "For every valid choice of sizes, slices and segments, the surface mesh generators (box, cuboid, cylinder, cone, conical, sphere, ellipsoid, capsule, torus, convex hull and profile sweep) produce a closed two-manifold without unused vertices or degenerate index triples, consistently oriented with normals pointing outwards, of the right Euler characteristic (2, torus 0) and vertex count, whose vertices lie on the requested surface: evenly spread rings on the given profile, the implicit surface of sphere, ellipsoid, capsule and torus, exactly the given corners of a box or cuboid, exactly the extreme points of the input for a hull that contains them all. Degenerate profiles or slice counts are refused. Translating, rotating and scaling move every vertex accordingly and leave the triangles alone, the bounding box is exact, scaling to unit size keeps the centre, and sorting along an axis renumbers vertices and triangles consistently so that the surface is unchanged. A mesh owns its arrays.",
     ["inputs"], "every parameter combination of the generators and every mesh",
     "unit tests check a handful of fixed meshes, mostly that a call returns; topology and orientation must hold for every slice and segment count.",
     [G + "surface_mesh.py"],
     [("generators", G + "surface_mesh.py profile_sweep and create_*"), ("operations", G + "surface_mesh.py translate, rotate, scale, aabb, scale_to_unit, axis_sort, Mesh")],
     ["returned vertex and triangle arrays"])

prop("G06", "Regular grids index, interpolate and differentiate the field of their nodes",
     "For every grid and every point, the node with indices (i,j,k) lies at the minimum corner plus that many spacings and owns the value at its linear index (i runs fastest), exactly the indices inside the grid are valid, and the enclosing cell is the one that contains the point, or the nearest one for a point outside. Interpolation is trilinear in that cell (so it reproduces the node values and every field that is linear along each axis, and extends the slope of the border cells outside) and the gradient is its exact spatial derivative, including unequal spacings. Evaluating a function stores its value at every node; the array of nodes lists them in linear order; being inside respects the boundary width on all six sides. The signed distance field of a closed mesh covers its bounds grown by the boundary and holds at every node the distance to the surface, negative inside. The mean curvature of a field is the central difference formula, clamped to what the grid can resolve, and lives on an equal grid. Fewer than two nodes on an axis, inverted corners and negative boundaries are refused.",
     ["inputs"], "every grid, field and point",
     NOTEST + "; the tests use unit spacing, so swapped axes and missing spacings cancel.",
     [G + "grid3.py", G + "mean_curvature.py"],
     [("indices", G + "grid3.py Grid"), ("interpolation", G + "grid3.py get_value, get_gradient"), ("distance fields", G + "grid3.py create_signed_distance, is_inside"), ("curvature", G + "mean_curvature.py create_from_sdf")],
     ["node coordinates, values, gradients, distance and curvature fields"])

prop("G07", "Barycentric coordinates, spheres and sample points of simplices are exact",
     "For every edge, triangle and tetrahedron that is not degenerate and every point, the barycentric coordinates sum to one and reproduce the point, or its orthogonal projection on the line of the edge or the plane of the triangle, in the order of the corners whatever the orientation of the tetrahedron; their derivatives are the gradients of these coordinates (an inverted tetrahedron is refused), and a point is inside exactly when all of them are between zero and one. The signed volume is a sixth of the determinant, negative exactly for left oriented tetrahedra. The circumscribed sphere passes through all four corners, the inscribed one touches all four faces from inside. The sample points with N layers are exactly the barycentric lattice points, each once, and the interior ones are exactly those with four positive coordinates.",
     ["inputs"], "every simplex and every point",
     NOTEST + "; most of the module has no test, and regular shapes hide swapped corners.",
     [G + "barycentric.py", G + "tetrahedron.py"],
     [("coordinates", G + "barycentric.py"), ("tetrahedra", G + "tetrahedron.py")],
     ["weights, derivatives, volumes, spheres, sample points"])

prop("M01", "All representations of a rotation describe the same rotation",
     "For every rotation, quaternions, rotation matrices, angle and axis, Euler angles (Rz Ry Rx, including those with a vertical x axis) and their textual forms describe the same rotation: conversions lose nothing but the sign of a quaternion, products, conjugates and frame concatenation, inversion and from-to frames correspond to composition, inverse and change of frame, array versions agree with the single ones, rotations about an axis turn by the right-hand rule by exactly the given angle, the angle of a quaternion about an axis lies in (-pi, pi]. Interpolation between two rotations is a unit quaternion, starts and ends at them, takes the short arc at constant speed, also between equal and opposite quaternions, and is clamped outside [0, 1]. Orthonormalisation keeps the first row's direction and the plane of the first two. Vectors and rotations are read from strings with any decimal numbers, malformed ones are refused; no function changes its arguments.",
     ["inputs"], "every rotation, point, frame and parameter",
     NOTEST + "; special positions (half turns, gimbal lock, opposite quaternions, rounding below one) are exactly those a sample misses.",
     [M + "quaternion.py", M + "matrix3.py", M + "euler.py", M + "coordsys.py", M + "vector3.py", M + "angle.py", "rainbow/util/parse_string.py"],
     [("quaternions", M + "quaternion.py"), ("matrices", M + "matrix3.py Rx, Ru, ortonormalize"), ("Euler angles", M + "euler.py"), ("frames", M + "coordsys.py"), ("strings", "rainbow/util/parse_string.py")],
     ["quaternions, matrices, angles, frames, parsed values"])

prop("M02", "The exponential map, its logarithm and its derivatives are consistent",
     "For every rotation vector the exponential map gives the quaternion and the matrix of the rotation by the vector's length about its direction; reparameterization gives the same rotation by a vector not longer than pi, without changing its argument; the logarithm of a unit quaternion (including the identity, its negative and quaternions that are the identity up to rounding) is a vector of that rotation. The partial derivatives of the quaternion and of the rotation matrix are those of the exponential map at the given vector, also for vectors longer than pi and for vanishing ones, and the rate of the rotation vector is the one for which the rotation turns with the given angular velocity.",
     ["inputs"], "every rotation vector and angular velocity",
     "the unit tests compare with finite differences at one vector; reparameterization beyond pi and the poles of the formulas need others.",
     [M + "expmap.py"],
     [("map", M + "expmap.py exp, log, reparameterization"), ("derivatives", M + "expmap.py dvdt, dQdv_i, dRdv_i")],
     ["quaternions, vectors, derivatives"])

prop("M03", "Polynomials, point statistics and vector helpers compute what they are named after",
     "A two dimensional polynomial has exactly the monomials up to its order; its value, its text (including signs, unit coefficients and missing terms) and its partial derivatives (again differentiable) are those of its terms; interpolation through as many points as there are monomials reproduces, for every column of values, the polynomial the values were taken from, and ignores further points; unusable orders, dimensions and too few points or values are refused. The principal axes of a point cloud are unit eigenvectors of its covariance with the corresponding variances, and no direction has more variance than the direction of most variance. The comparisons of vectors are one lexicographic order; the frame made from a vector is orthonormal and right handed with the third axis along the vector; sinc is sin(x)/x, also at zero.",
     ["inputs"], "every polynomial, point cloud and pair of vectors",
     "the unit tests use a few polynomials with small positive coefficients and do not check the direction of most variance at all.",
     [M + "polynomial.py", M + "functions.py", M + "vector3.py"],
     [("polynomials", M + "polynomial.py interpolate, evaluate, to_str, derivative"), ("statistics", M + "functions.py PCA, direction_of_most_variance, sinc"), ("vectors", M + "vector3.py less, greather, make_orthonormal_vectors, unit")],
     ["values, texts, terms, directions, order"])

prop("K01", "A skeleton is a tree whose bones are posed by its joint angles",
     "After any sequence of calls a skeleton has one root (added only to an empty skeleton) and every other bone has an existing parent which lists it as a child; bones keep the index, vector, Euler code and angles they were given, unknown codes and parents are refused without a change, and setting or reading one angle or all of them addresses the angle of that bone and axis. Updating the skeleton, and nothing else, sets the pose of every bone to that of its parent, moved by the bone vector in the parent's frame and turned by the three angles about the axes of its code in turn, whatever the order and shape of the tree. There is one chain per leaf, from the root to that leaf, and the end effector of a chain is its tool point carried by the pose of its last bone.",
     ["histories", "inputs"], "every history of building, turning, posing and chaining",
     "the unit tests use planar skeletons with the default Euler code and zero second and third angles.",
     [IK + "api.py", IK + "types.py"],
     [("tree", IK + "api.py create_root, add_bone"), ("poses", IK + "api.py update_skeleton"), ("chains", IK + "api.py make_chains, get_end_effector"), ("angles", IK + "api.py get_joint_angles, set_joint_angles, set_angle, get_angle")],
     ["bones, angles, poses, chains, end effectors"])
prop("K02", "Derivatives of the inverse kinematics objective are those of the forward kinematics",
     "For every skeleton with updated poses, set of chains, tools and goals: the Jacobian is the derivative of the end effector positions by all joint angles (zero for bones that do not carry the effector), the objective is half the sum of the squared distances of the effectors to their goals, and the gradient and the (symmetric) matrix of second derivatives are those of that objective, also across several chains that share bones. The finite difference versions approximate the same derivatives and leave angles as they were and poses up to date.",
     ["inputs"], "every skeleton, pose, chains, tools and goals",
     "the unit tests compare the second derivatives in the stretched pose with zero angles only, where a transposed matrix cannot be told apart.",
     [IK + "api.py"],
     [("first derivatives", IK + "api.py compute_jacobian, compute_gradient"), ("second derivatives", IK + "api.py compute_hessian"), ("finite differences", IK + "api.py compute_finite_difference_gradient, compute_finite_difference_hessian")],
     ["Jacobian, objective, gradient, second derivatives"])

prop("U01", "The priority queue with changeable values gives the smallest waiting item",
     "After any sequence of pushes, updates and pops, the queue holds exactly the items pushed and not popped since, each once and with the value it was given last, whether that raised or lowered it and whether the item had been popped before; pop returns and removes the item with the smallest value (the smaller item among equals), and nothing when no item waits; the queue is true exactly while items wait. A stopwatch reports as elapsed the time between the last start and the end that followed, as total the sum of all elapsed times, and refuses an end without a start.",
     ["histories"], "every history of pushes, updates and pops, and of starts and ends",
     "there is no unit test of either.",
     [U + "heap.py", U + "timer.py"],
     [("queue", U + "heap.py Heap.push, pop, update"), ("stopwatch", U + "timer.py Timer.start, end")],
     ["popped items, truth value, elapsed and total times"])
prop("U02", "A recorded scene is what was recorded",
     "The file written by the recorder contains every rigid body and mesh that was added, with its surface, and no other object; seen at any time, a rigid body has the position and orientation recorded for that time (interpolated between recorded times, held before the first and after the last) and a mesh the points recorded for it, or its initial points when none were; earlier saves do not influence later ones; the start, end and frame rate of the scene are those last set. A name taken by another body, an unknown name and an update of the wrong kind or size are refused and change nothing.",
     ["histories", "inputs"], "every history of adding, moving, deforming and saving",
     "the unit tests set one mesh once and never read a file, a pose or an orientation.",
     [U + "USD.py"],
     [("rigid bodies", U + "USD.py add_rigid_body, update_rigid_body"), ("meshes", U + "USD.py add_mesh, set_mesh_positions, get_mesh_positions"), ("file", U + "USD.py save, set_animation_time")],
     ["objects, points, poses and times of the saved file"])

prop("M04", "Mass, centre and inertia of a mesh are the exact integrals over the solid it encloses",
     "For every closed, outward oriented triangle mesh — convex or not, in one or several pieces, of any size, wherever it lies and however its vertices, triangles and corners are ordered — compute_mass_properties returns density times volume, the centre of mass and the moments of inertia about the origin of the model frame, and an inside-out or empty mesh is refused with an error. The body frame returned for it has its origin at the centre of mass and orthonormal axes along which the tensor about the centre is diagonal, with positive moments in descending order, also when moments are equal and when the body is small; creating a shape moves the mesh into that frame (or leaves it, as asked) and the stored transform takes it back where it was modelled. update_inertia_tensor(R, B) is R diag(B) R^T for every matrix R and vector B. No call changes its arguments.",
     ["inputs"], "over all closed meshes, densities and sizes",
     "The tests use one axis-aligned and three rotated boxes of three different edge lengths; symmetric bodies, small bodies, non-convex bodies and general positions are not reachable from them.",
     [RB + "mass.py", RB + "api.py"], [("compute_mass_properties", "surface integrals"), ("xform_model_2_body_space", "principal axes"), ("update_inertia_tensor", "R B R^T"), ("create_shape", "model and body frames")],
     ["mass, x, y, z, Ixx .. Iyz", "shape.r, shape.q, shape.mass, shape.inertia, mesh.V"])

prop("U03", "Vectors and rotations written as text are read as what they say, and nothing else is read",
     "The recognisers accept exactly the notation: numbers with an optional minus sign, no leading zeros, an optional fraction with at least one digit and an optional signed exponent; lists in brackets; rx:, ry:, rz: with a number of degrees, ru: with degrees and an axis, rand: with two bounds. from_string reads each of them, in any mixture of upper and lower case and with spaces around the parts, as the vector or the unit quaternion it describes (the first three or four numbers of a list, a random vector within the bounds, the named vectors and the identity), and refuses every other text and lists that are too short.",
     ["inputs"], "over all texts",
     "The tests try a few dozen texts; a grammar is decided by all short texts, and values by the combinations of sign, fraction, exponent, case and spaces.",
     ["rainbow/util/parse_string.py", M + "vector3.py", M + "quaternion.py"], [("parse_string_to_*_check", "the recognisers"), ("V3.from_string, Q.from_string", "the readers")],
     ["return values, exceptions"])

prop("W01", "A robot description is imported link by link and joint by joint, where it says",
     "Reading a URDF file whose links with a mesh (obj, ply, stl) have inertial data and form one tree of revolute joints gives one free body at rest per such link and one hinge per revolute joint, under their names, connecting the links it names; other links and joints are ignored. The root link's frame is the world frame and every other link's frame is placed in its parent's by the joint's origin (roll about x, then pitch about y, then yaw about z, fixed axes). Each body sits in the inertial frame of its link, carries its mass and moments of inertia, and its surface, seen in the world, is the mesh scaled and placed by the collision origin, with the same oriented triangles; each hinge passes through the origin of the joint's frame along its axis (x if none is given), seen from both bodies. The order of elements in the file does not matter, left-out parts are zero, reading into an engine leaves what it held untouched, and names that are taken are refused.",
     ["inputs"], "over all trees of links, frames and orders of elements",
     "No test reads a robot description; frames compose along chains, so errors show only with rotated frames at depth two and more, inertial frames apart from link frames, and orders in which children precede parents.",
     [RB + "scenes/read_urdf.py", RB + "api.py", M + "coordsys.py"], [("read_urdf", "bodies, surfaces, hinges and their placement"), ("URDF.parse_urdf_file", "elements, attributes and their defaults"), ("X.make_coordsys_from_to, X.concat", "frames")],
     ["bodies, shapes and hinges of the engine", "exceptions"])

prop("W02", "The exported scene file describes the scene completely, and its references resolve",
     "Writing a scene to XML succeeds for every scene whose bodies have shapes and whose hinges are set, also with characters in names that XML reserves, and gives a well-formed document with, in order of creation, every body (name, number, shape, position, orientation, velocity, spin, mass, inertia, type, material, applied forces), every force with its numbers, every shape with all vertices and triangles and their counts, every pair of materials with its friction and restitution, every hinge (parent, child, their numbers, and its origin and axis in the world as it lies now) and every parameter with its type and value. Numbers are those of the scene up to the digits written. Every name and number that an element cites belongs to an element of the document, so the scene can be rebuilt from it. Writing leaves the scene untouched and replaces an older file.",
     ["inputs", "histories"], "over all scenes that the interface can build",
     "No test writes a scene file; what is lost or mixed up shows only with several bodies, forces, materials, rotated hinges and changed parameters, and after reading the file back.",
     [RB + "scenes/write_xml.py", RB + "types.py"], [("write_xml", "all elements"), ("Hinge.arm_p, axis_p", "the hinge in the world"), ("SurfacesInteractionLibrary", "pairs of materials")],
     ["the written file"])

prop("W03", "Procedural scenes are the structures they are asked to be, wherever they are placed",
     "Every builder of a scene returns the names of exactly the bodies it created, gives each the asked material, mass equal to density times volume, no motion, and leaves other bodies untouched; structures are free, grounds and containers fixed. In the frame it is given: a pillar is a column from 0 to its height between two slabs of its width and depth, its shaft of the asked number of equal stones that fit rim to rim; an arch is two piers of equal stones, a fifth of the width wide, that carry a half ring of the asked number of stones sharing their joints, of the given width, height and depth; a dome is made of closed rings of stones between its two radii, of equal angle and sharing their joints with their neighbours; a tower consists of layers of equal height of the asked number of stones between the radii, as wide as their place times the safety factor, with joints that alternate; a stack is boxes on each other, each turned by 45 degrees more; a chain is cubes on edge, centred, the first fixed, neighbours linked by a hinge about z half-way; a lattice has one shape with the asked orientation in the middle of every cell; the ground ends at the origin. Colosseum and pantheon move with their frame.",
     ["inputs"], "over all sizes, counts, materials and frames",
     "No test builds a scene; a stone out of place shows only for some counts, sizes and frames, and in relations between stones.",
     [RB + "scenes/create_arch.py", RB + "scenes/create_dome.py", RB + "scenes/create_tower.py", RB + "scenes/create_pillar.py", RB + "scenes/create_lattice.py", RB + "scenes/create_cube_hinge_chain.py", G + "surface_mesh.py"],
     [("create_*", "the builders"), ("MESH.create_cuboid, create_conical, create_box", "the stones"), ("API.set_position, set_orientation", "placement in the frame")],
     ["bodies, shapes and hinges of the engine", "returned names"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
