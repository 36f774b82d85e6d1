"""Which specifications, generators, drivers and trace specifications decide each property."""
COMMON = "TLC explores the specification exhaustively within the constants of the .cfg; the code is bound to it by validating every recorded event of TLC-generated and seeded histories, so assurance about the code is for the histories run. Trusted: TLC, the projection of floats on a lattice in drivers/. "
PROPS = {
    "R01": dict(
        note=COMMON + "The whole engine is projected and compared after every call.",
        models=[dict(module="RigidEngineMC.tla", cfg="RigidRegistry.cfg", cfg_thorough="RigidRegistryT.cfg")],
        gen=[dict(module="RigidEngineMC", cfg="RigidGen.cfg", quick=(200, 40), thorough=(3000, 40))],
        drivers=[dict(script="rigid_engine.py", scripts="RigidEngineMC", trace="RigidEngineTrace", parts=6)],
    ),
    "R02": dict(
        note=COMMON + "Exact for the 24 rotations of the cube, integer positions and box meshes with any of them as principal frame.",
        models=[dict(module="RigidEngineMC.tla", cfg="RigidPlacement.cfg", cfg_thorough="RigidPlacementT.cfg")],
        gen=[dict(module="RigidEngineMC", cfg="RigidGenPlace.cfg", quick=(100, 40), thorough=(3000, 40))],
        drivers=[dict(script="rigid_engine.py", env={"FOCUS": "placement"}, scripts="RigidEngineMC", trace="RigidEngineTrace", parts=6)],
    ),
    "R03": dict(
        note=COMMON + "Durations and steps are integers of 1e-8 s (round-off traps) or dyadic.",
        models=[dict(module="SimTimeMC.tla", cfg="SimTimeMC.cfg")],
        drivers=[dict(script="sim_time.py", trace="SimTimeTrace", parts=2)],
    ),
    "R04": dict(
        note=COMMON + "Fixed-point arithmetic (1/1024; quaternions 1/16384) with tolerances of a few units.",
        models=[dict(module="RigidStepMC.tla", cfg="RigidStepMC.cfg")],
        drivers=[dict(script="rigid_step.py", trace="RigidStepTrace", parts=6)],
    ),
    "R05": dict(
        note=COMMON + "Box bodies in axis-aligned orientations; face clauses allow one grid cell of slack.",
        models=[dict(module="RigidContactMC.tla", cfg="RigidContactMC.cfg", cfg_thorough="RigidContactMCT.cfg")],
        drivers=[dict(script="rigid_contact.py", trace="RigidContactTrace", parts=6)],
    ),
    "R06": dict(
        note=COMMON + "Fixed point (1/1024); complementarity clauses only for solves that converged with R-factors that did not shrink to nothing.",
        models=[dict(module="ContactSolveMC.tla", cfg="ContactSolveMC.cfg", cfg_thorough="ContactSolveMCT.cfg"), dict(module="ContactSolveMC.tla", cfg="ContactSolveTab.cfg")],
        drivers=[dict(script="contact_solve.py", trace="ContactSolveTrace", parts=6)],
    ),
    "R07": dict(
        note=COMMON + "Merits and iterates are integers, R-factors powers of two: the comparison is exact.",
        models=[dict(module="GaussSeidelMC.tla", cfg="GaussSeidelMC.cfg", cfg_thorough="GaussSeidelMCT.cfg")],
        gen=[dict(module="GaussSeidelMC", cfg="GaussSeidelGen.cfg", quick=(300, 9), thorough=(5000, 9))],
        drivers=[dict(script="gauss_seidel.py", scripts="GaussSeidelMC", trace="GaussSeidelTrace", parts=2)],
    ),
    "R08": dict(
        note=COMMON + "Fixed point (1/1024); constraint clauses only for solves that converged.",
        models=[dict(module="HingeSolveMC.tla", cfg="HingeSolveMC.cfg")],
        drivers=[dict(script="hinge_solve.py", trace="HingeSolveTrace", parts=4)],
    ),
    "P01": dict(
        note=COMMON + "Scripted solves are exact; sweeps of real problems are compared in fixed point (1/1024), complementarity only when converged.",
        models=[dict(module="ProxSolverMC.tla", cfg="ProxSolverMC.cfg", cfg_thorough="ProxSolverMCT.cfg"), dict(module="ParallelSweep.tla", cfg="ParallelSweep.cfg", cfg_thorough="ParallelSweepT.cfg")],
        gen=[dict(module="ProxSolverMC", cfg="ProxSolverGen.cfg", quick=(300, 9), thorough=(5000, 9))],
        drivers=[dict(script="prox_solver.py", scripts="ProxSolverMC", trace="ProxSolverTrace", parts=2),
                 dict(script="prox_solver.py", trace="ProxSolverTrace", env={"NUMBA_NUM_THREADS": "1", "ONLY": "real"}, parts=1)],
    ),
    "P02": dict(
        note=COMMON + "Exact (sets and graphs).",
        models=[dict(module="BlockingMC.tla", cfg="BlockingMC.cfg", cfg_thorough="BlockingMCT.cfg")],
        drivers=[dict(script="blocking.py", trace="BlockingTrace", parts=1)],
    ),
    "P03": dict(
        note=COMMON + "Integer semi-axes up to 12, z in quarters, results compared in 1/1024 by the optimality conditions of the projection.",
        models=[dict(module="ProxOpMC.tla", cfg="ProxOpMC.cfg", cfg_thorough="ProxOpMCT.cfg")],
        drivers=[dict(script="prox_ops.py", trace="ProxOpTrace", parts=1)],
    ),
    "G01": dict(
        note=COMMON + "Exact (coordinates and envelopes are halves of integers).",
        models=[dict(module="BoundsMC.tla", cfg="BoundsMC.cfg", cfg_thorough="BoundsMCT.cfg")],
        drivers=[dict(script="bounds.py", trace="BoundsTrace", parts=2)],
    ),
    "G02": dict(
        note=COMMON + "Exact; the 8 GB offset table of the hash is replaced by a computed one (same interface), the property holds for every hash function.",
        models=[dict(module="SpatialHashMC.tla", cfg="SpatialHashMC.cfg", cfg_thorough="SpatialHashMCT.cfg")],
        drivers=[dict(script="spatial_hash.py", trace="SpatialHashTrace", parts=1)],
    ),
    "G03": dict(
        note=COMMON + "Exact (coordinates and envelopes are halves of integers).",
        models=[dict(module="BoundsMC.tla", cfg="BoundsMC.cfg")],
        drivers=[dict(script="bounds.py", trace="BoundsTrace", env={"MODE": "volumes"}, parts=1)],
    ),
    "G04": dict(
        note=COMMON + "Exact: integer coordinates; complexes are grown by the specification and fed to the code.",
        models=[dict(module="TetMeshMC.tla", cfg="TetMeshMC.cfg", cfg_thorough="TetMeshMCT.cfg")],
        gen=[dict(module="TetMeshMC", cfg="TetMeshGen.cfg", quick=(70, 9), thorough=(800, 9))],
        drivers=[dict(script="tet_mesh.py", scripts="TetMeshMC", trace="TetMeshTrace", parts=4)],
    ),
    "S04": dict(
        note=COMMON + "Exact rational arithmetic on deformation gradients with half-integer entries; the logarithm of the SNH energy is compared to 1/12800.",
        models=[dict(module="ElasticMC.tla", cfg="ElasticMC.cfg", cfg_thorough="ElasticMCT.cfg")],
        drivers=[dict(script="elastic.py", trace="ElasticTrace", parts=1)],
    ),
    "S01": dict(
        note=COMMON + "Exact (integer meshes and values; the engine's own renumbering of the mesh is followed).",
        models=[dict(module="SoftEngineMC.tla", cfg="SoftEngineMC.cfg"), dict(module="SoftEngineMC.tla", cfg="SoftEngineMCB.cfg")],
        gen=[dict(module="SoftEngineMC", cfg="SoftEngineGen.cfg", quick=(60, 41), thorough=(800, 41))],
        drivers=[dict(script="soft_engine.py", scripts="SoftEngineMC", trace="SoftEngineTrace", parts=4)],
    ),
    "S02": dict(
        note=COMMON + "Exact integers: Saint Venant-Kirchhoff material on lattice states, time step 1/16; a consistent mass matrix is checked to rounding of 1/16384. The other two material models enter through the same per-element stress (S04).",
        models=[dict(module="SoftStepMC.tla", cfg="SoftStep_tet.cfg", cfg_thorough="SoftStep_tetT.cfg"), dict(module="SoftStepMC.tla", cfg="SoftStep_two.cfg", cfg_thorough="SoftStep_cell.cfg")],
        drivers=[dict(script="soft_step.py", trace="SoftStepTrace", parts=4)],
    ),
    "S03": dict(
        note=COMMON + "Box bodies under integer unimodular maps (rotations and shears); the existence clause only for unsheared bodies that overlap little; face clauses allow one grid cell of slack.",
        models=[dict(module="SoftContactMC.tla", cfg="SoftContactMC.cfg", cfg_thorough="SoftContactMCT.cfg")],
        drivers=[dict(script="soft_contact.py", trace="SoftContactTrace", parts=6, timeout=600)],
    ),
    "S06": dict(
        note=COMMON + "Lattice coordinates (1/16): the crossing predicate is evaluated exactly; contacts of triangles that merely touch (share a point, no crossing) may or may not be reported.",
        models=[dict(module="SelfCollideMC.tla", cfg="SelfCollideMC.cfg", cfg_thorough="SelfCollideMCT.cfg")],
        drivers=[dict(script="self_collide.py", trace="SelfCollideTrace", parts=3, timeout=600)],
    ),
    "S05": dict(
        note=COMMON + "Contacts are prescribed (collision detection is S03's); single tetrahedra and pairs sharing a face, masses that divide 48, undeformed at the start of the step; the optimality clauses only where the solver reports convergence.",
        models=[dict(module="SoftContactSolveMC.tla", cfg="SoftContactSolveMC.cfg", cfg_thorough="SoftContactSolveMCT.cfg")],
        drivers=[dict(script="soft_contact_solve.py", trace="SoftContactSolveTrace", parts=3, timeout=600)],
    ),
    "G05": dict(
        note=COMMON + "Coordinates rounded to 1/32 (torus 1/16), so shapes are decided to that resolution; hulls and mesh operations on integer coordinates are exact.",
        models=[dict(module="SurfMeshMC.tla", cfg="SurfMeshMC.cfg", cfg_thorough="SurfMeshMCT.cfg")],
        drivers=[dict(script="surf_mesh.py", trace="SurfMeshTrace", parts=3, timeout=600)],
    ),
    "G06": dict(
        note=COMMON + "Grids with dyadic spacing (1/2, 1, 2), integer node values, points at quarters of a cell; curvature rounded to 1/64; distance fields of boxes only.",
        models=[dict(module="GridFieldMC.tla", cfg="GridFieldMC.cfg", cfg_thorough="GridFieldMCT.cfg")],
        drivers=[dict(script="grid_field.py", trace="GridFieldTrace", parts=3, timeout=600)],
    ),
    "G07": dict(
        note=COMMON + "Corners on small integer lattices, points on quarters; results rounded to 1/1024.",
        models=[dict(module="SimplexMC.tla", cfg="SimplexMC.cfg", cfg_thorough="SimplexMCT.cfg")],
        drivers=[dict(script="simplex.py", trace="SimplexTrace", parts=3, timeout=600)],
    ),
    "M01": dict(
        note=COMMON + "Rotations given by integer quaternions (rational matrices), measured to 1/4096; interpolation at quarters between quaternions of equal integer norm.",
        models=[dict(module="RotationMC.tla", cfg="RotationMC.cfg", cfg_thorough="RotationMCT.cfg")],
        drivers=[dict(script="rotation.py", trace="RotationTrace", parts=3, timeout=600)],
    ),
    "M02": dict(
        note=COMMON + "Rotation vectors of whole quarter turns (0 to 4 pi) about rational axes; derivatives to 1/256.",
        models=[dict(module="ExpMapMC.tla", cfg="ExpMapMC.cfg")],
        drivers=[dict(script="expmap.py", trace="ExpMapTrace", parts=3, timeout=600)],
    ),
    "M03": dict(
        note=COMMON + "Quarter integer coefficients, orders up to 4, integer points; point clouds of up to 6 integer points; vectors with components up to 5.",
        models=[dict(module="PolyMC.tla", cfg="PolyMC.cfg")],
        drivers=[dict(script="poly.py", trace="PolyTrace", parts=3, timeout=600)],
    ),
    "K01": dict(
        note=COMMON + "Joint angles of whole quarter turns, integer bone vectors, skeletons of up to 7 bones, all twelve Euler codes.",
        models=[dict(module="SkeletonMC.tla", cfg="SkeletonMC.cfg", cfg_thorough="SkeletonMCT.cfg")],
        drivers=[dict(script="skeleton.py", trace="SkeletonTrace", parts=3, timeout=600)],
    ),
    "K02": dict(
        note=COMMON + "Joint angles of whole quarter turns, where differences over quarter turns are the exact derivatives of the forward kinematics; skeletons of up to 4 bones.",
        models=[dict(module="SkeletonMC.tla", cfg="SkeletonMC.cfg", cfg_thorough="SkeletonMCT.cfg")],
        drivers=[dict(script="skeleton.py", env={"FOCUS": "derivatives"}, trace="SkeletonTrace", parts=3, timeout=600)],
    ),
    "U01": dict(
        note=COMMON + "Up to 8 items with values of up to 600 magnitudes, equal values with and without the same object; stopwatch bounds from the clock around each call.",
        models=[dict(module="UtilMC.tla", cfg="UtilMC.cfg")],
        drivers=[dict(script="util.py", trace="UtilTrace", parts=2, timeout=600)],
    ),
    "U02": dict(
        note=COMMON + "Orientations among the 24 rotations of the cube (both signs of the quaternion), times in quarters of a frame; files in all three encodings are read back with the USD library.",
        models=[dict(module="RecordingMC.tla", cfg="RecordingMC.cfg")],
        drivers=[dict(script="recording.py", trace="RecordingTrace", parts=2, timeout=600)],
    ),
    "M04": dict(
        note=COMMON + "Solids: tetrahedra, boxes, octahedra, voxel bodies (non convex, several pieces), sheared and turned by integer matrices, moved up to six units, six volumes up to 4000; sizes 1/1000 to 100; vertex, triangle and corner orders shuffled. Moments recorded in 1/240 of the unit.",
        models=[dict(module="MassMC", cfg="MassMC.cfg", cfg_thorough="MassMCT.cfg")],
        drivers=[dict(script="mass.py", trace="MassTrace", parts=3, timeout=600)],
    ),
    "U03": dict(
        note=COMMON + "All texts up to four (thorough: five) characters over the alphabets 0 1 - . e + and 1 , [ ] - space, in every notation, are offered to the recognisers; values are random texts of thousandths, angles multiples of 90 degrees. Spaces inside a number are not generated.",
        models=[dict(module="TextInputMC", cfg="TextInputMC.cfg", cfg_thorough="TextInputMCT.cfg")],
        drivers=[dict(script="text_input.py", trace="TextInputTrace", parts=3, timeout=600)],
    ),
    "W01": dict(
        note=COMMON + "Trees of one to six links with tetrahedral meshes (integer corners, integer scales) in random order, orientations in quarter turns, integer lengths. Products of inertia, several roots and joints that move a link without a mesh are not generated.",
        models=[dict(module="RobotMC", cfg="RobotMC.cfg", cfg_thorough="RobotMCT.cfg")],
        drivers=[dict(script="robot.py", trace="RobotTrace", parts=3, timeout=600)],
    ),
    "W02": dict(
        note=COMMON + "Scenes of up to fifteen boxes, written several times with changes in between; numbers are compared to 1/50000 over magnitudes 0.001 to 1000, parameters exactly. Bodies without a shape, hinges that are not set and materials with spaces in their names are not generated.",
        models=[dict(module="SceneFileMC", cfg="SceneFileMC.cfg", cfg_thorough="SceneFileMCT.cfg")],
        drivers=[dict(script="scene_file.py", trace="SceneFileTrace", parts=3, timeout=600)],
    ),
    "W03": dict(
        note=COMMON + "Sizes are random multiples of 0.1 up to about 6, counts up to 9; frames are quarter turns and integer translations. Composite scenes (colosseum, pantheon) are compared with themselves in another frame; scenes with meshes from ./data, gears, chain mail, rocks and sand are checked for names, masses, materials and types only. Interpenetration of stones is not decided.",
        models=[dict(module="MasonryMC", cfg="MasonryMC.cfg")],
        drivers=[dict(script="masonry.py", trace="MasonryTrace", parts=3, timeout=800)],
    ),
}
