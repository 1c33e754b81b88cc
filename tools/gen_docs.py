"""Writes properties.jsonl and MANIFEST.json from the table below and the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def p(pid, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["cafes/" + f for f in files],
         "mechanism": [{"name": n, "where": "cafes/" + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Velocity and pressure grids stay nested on every process grid",
  "For a Stokes mesh built from any point counts and periodicity in two or three dimensions and any number of processes, the velocity grid is exactly the once-refined pressure grid (2n-1 points, 2(n-1) in a periodic direction), each process owns the fine points that refine its own coarse points, and the reported bounds, local and global sizes and periodicity describe that partition. Every cell a process is responsible for has all its velocity and pressure nodes among the process's owned and ghost nodes.",
  ["configurations", "inputs"], "all grid sizes, periodicity patterns, 2D and 3D, process counts",
  "Tests use two or three fixed sizes on one or two processes in 2D; a broken split shows up only for particular sizes and process grids.",
  ["fem/mesh.hpp"], [("creation of the pressure and refined velocity grids", "fem/mesh.hpp: createDMDA, createMesh, createLaplacianMesh"), ("bounds and sizes", "fem/mesh.hpp: get_DM_bounds, get_global_bounds, get_DM_sizes, get_boundary_type")])
p("C02", "Cell iteration visits every cell exactly once, with the right nodes",
  "Over all processes, the cells iterated for a grid partition the cells of the mesh: each cell is visited by exactly one process exactly once, in a fixed order with x fastest. For a visited cell the node lists returned (pressure element, refined velocity element and its four or eight sub-elements) are the nodes of that geometric cell, and weights of a point inside it form a partition of unity that reproduces linear functions.",
  ["configurations", "inputs"], "all boxes, grid sizes, periodicities, process counts and points inside a cell",
  "Tests never look at the iteration itself; an omitted or doubled cell changes a result slightly and only for some partitions.",
  ["algorithm/iterate.hpp", "fem/quadrature.hpp", "fem/mesh.hpp", "petsc/vec.hpp"],
  [("iteration over a box", "algorithm/iterate.hpp: iterate"), ("element nodes and weights", "fem/quadrature.hpp: get_element, get_element_4Q1, get_indices*, P1_integration, P1_integration_grad")])
p("C03", "Box operations are the set operations on intervals",
  "For all boxes and points in two and three dimensions: two boxes intersect exactly when their closed intervals meet in every direction, the overlap is the intersection and the union the smallest enclosing box, the part of one box inside another is their overlap and is empty when they do not meet, a point is inside exactly when it lies in the half-open box, and the lengths are the differences of the corners. The tests for disjointness and containment used to assign particles to processes agree with these.",
  ["inputs"], "all pairs of boxes and points, including touching, nested, disjoint and empty ones",
  "One small test program looks at two boxes; touching, nested and disjoint cases in each direction are not enumerated.",
  ["particle/geometry/box.hpp"], [("box algebra", "particle/geometry/box.hpp: intersect, overlap_box, union_box, box_inside, check_box_inside, point_inside, get_box_points")])
p("C04", "Matrix-free operators are the exact finite element operators on any partition",
  "For every grid, mesh size, periodicity, boundary condition and number of processes, applying the Laplacian, strain-tensor, mass or full Stokes operator to a vector gives exactly the finite element operator (P1 on the refined grid for velocity, P1 on the coarse grid for pressure, with gradient and divergence coupling) applied to it. The result does not depend on the partition and the input is unchanged.",
  ["inputs", "configurations"], "all input fields, sizes, anisotropic steps, periodicities, 2D/3D, process counts",
  "Tests solve a few problems to a tolerance on square grids; a coefficient wrong only for anisotropic steps, periodic sides or 3D is not reached.",
  ["fem/matrixFree.hpp", "fem/operator.hpp", "fem/matElem.hpp", "problem/matMult.hpp"],
  [("element matrices", "fem/matElem.hpp"), ("element loop and scatter", "fem/operator.hpp: laplacian_mult, strain_tensor_mult, mass_mult, B_and_BT_mult"), ("block operators", "fem/matrixFree.hpp: stokes_matrix, diag_block_matrix, mass_matrix")])
p("C05", "Assembled and matrix-free operators agree",
  "Choosing the assembled form of a Stokes problem gives the same linear operator as the matrix-free form on every vector, for both the Laplacian and the strain-tensor formulation and any partition. The preconditioning matrix has the velocity operator and the pressure mass matrix as its diagonal blocks.",
  ["inputs", "configurations"], "all vectors, 2D grids, steps, periodicities, process counts, both formulations",
  "Tests that use both forms compare converged solutions of one problem; a non-symmetric or misplaced entry can leave those unchanged.",
  ["fem/assembling.hpp", "fem/matElem.hpp", "problem/stokes.hpp"],
  [("assembly", "fem/assembling.hpp: laplacian_assembling, strain_tensor_assembling, mass_assembling, B_BT_assembling, diagonal_assembling"), ("choice of the form", "problem/stokes.hpp: stokes constructor, setup_RHS")])
p("C06", "Imposed boundary values are imposed exactly where asked, and only there",
  "For every selection of sides and components, imposing boundary values on a vector or right-hand side sets exactly the selected components of the nodes of the selected non-periodic sides to the prescribed function's value (last side wins at corners) and touches nothing else; the homogeneous variant sets them to zero. In matrix-free and assembled operators the corresponding rows are identity rows.",
  ["inputs", "configurations"], "all subsets of (side, component), periodicities, vectors, sizes, 2D/3D, process counts",
  "Tests impose all components on all sides of a square and look at a solution; corners, partial selections and sides on process boundaries are not examined.",
  ["fem/bc.hpp"], [("values on vectors", "fem/bc.hpp: set_dirichlet_impl, SetDirichletOnVec, SetDirichletOnRHS, SetNullDirichletOnRHS"), ("rows of operators", "fem/bc.hpp: set_dirichlet_on_mat_impl, SetDirichletOnMat")])
p("C07", "The right-hand side integrates the given forces over the mesh",
  "For all force functions, the right-hand side of a component with a given force receives, at each velocity node, the exact mass-weighted sum of the nodal force values (added to what was there), and components without a force, and the pressure block, are unchanged. The problem's complete right-hand side is this sum with the boundary values imposed, for any partition.",
  ["inputs", "configurations"], "all integer force fields, subsets of components, steps, periodicities, 2D/3D, process counts",
  "The tests' forces are smooth functions on square grids, compared through a converging error, not per node.",
  ["fem/rhs.hpp", "problem/stokes.hpp"], [("quadrature of forces", "fem/rhs.hpp: set_rhs_impl, set_rhs"), ("problem right-hand side", "problem/stokes.hpp: setup_RHS")])
p("C08", "Operator diagonals are the diagonals of the operators",
  "The diagonal the library computes for the Laplacian and mass operators equals, entry by entry, the diagonal of the operator it applies, on both grids, for all sizes, steps, periodicities and partitions.",
  ["configurations", "inputs"], "all sizes, steps, periodicities, 2D/3D, process counts",
  "No test looks at the diagonals: a wrong one only slows convergence.",
  ["fem/operator.hpp", "fem/matrixFree.hpp"], [("diagonal", "fem/operator.hpp: diag_laplacian_mult, diag_mass_mult, diag_diag_block_mult"), ("diagonal of the block operators", "fem/matrixFree.hpp")])
p("C09", "Structural identities of the operators",
  "For all fields: the velocity and mass operators are symmetric and non-negative in energy; the Laplacian annihilates constants, the strain-tensor form annihilates all rigid motions away from imposed boundaries; the coupling blocks are opposite transposes, the gradient annihilates constant pressures and the mass operator applied to ones sums to the volume of the domain.",
  ["inputs", "configurations"], "all pairs of fields, sizes, steps, periodicities, 2D/3D, process counts",
  "Tests never apply operators to pairs of fields; a symmetry defect leaves one converged solution almost unchanged.",
  ["fem/matrixFree.hpp", "fem/operator.hpp", "fem/matElem.hpp"], [("element matrices", "fem/matElem.hpp"), ("coupling blocks", "fem/operator.hpp: B_and_BT_mult")])
p("C11", "Every multigrid level carries the operator of its own grid",
  "When the multigrid preconditioner is set up, each level's operator (and its diagonal) is the velocity operator on the grid of that level, with that level's mesh size and with the same boundary conditions, for any coarsenable grid, square or not, periodic or not, and any number of processes.",
  ["configurations", "inputs"], "all coarsenable sizes, steps, periodicities, process counts, vectors per level",
  "Tests solve on one square grid per program; levels with a wrong mesh size still converge there.",
  ["problem/stokes.hpp", "fem/matrixFree.hpp"], [("level set-up", "problem/stokes.hpp: createLevelMatrices, setPMMSolver")])
p("C12", "The Stokes solvers return the discrete solution",
  "For every supported choice of solver, operator form and formulation, any partition and any data, solving returns the velocity and the pressure (up to a constant) that satisfy the discrete equations with the imposed boundary values. In particular flows that the discretisation represents exactly are returned exactly, whatever solver is used.",
  ["inputs", "configurations"], "solver options x sizes x steps x periodicities x process counts x data",
  "Tests check an error norm of one analytic flow on a square, on one or two processes.",
  ["problem/stokes.hpp", "problem/options.hpp"], [("set-up and solve", "problem/stokes.hpp: setup_RHS, setup_KSP, solve, CreatePressureNullSpace")])
p("C13", "The control points of a particle are the grid nodes inside it",
  "Whatever the partition, the union over processes of the points collected for a particle is exactly the set of velocity nodes strictly inside the particle's shape and in the domain (the nodes of the upper non-periodic walls belong to no cell and are not collected), each once; the set does not depend on the partition, even for nodes on the boundary of the shape. Forces written to those points and read back come to the same point of the same particle, and the unknown vector has exactly one entry per point and component.",
  ["inputs", "configurations"], "all particle shapes, positions (inside, across process borders, cut by the domain), sizes, process counts",
  "The tests have one or two discs in fixed places; a node missed or doubled on a process border changes little.",
  ["particle/particle.hpp", "problem/particle_operator.hpp"], [("points inside", "particle/particle.hpp: find_fluid_points_insides"), ("counts and numbering", "particle/particle.hpp: set_materials; problem/particle_operator.hpp: set_rhs_problem")])
p("C14", "Each surface point of a particle is kept by exactly one process, in its cell",
  "Whatever the partition, each surface point of each particle that lies in the domain is kept by exactly one process, with the cell that contains it, its offset in that cell and its vector from the particle's centre; points outside the domain are kept by nobody; the number of points per particle is known to every process holding some. Computing the sets again for new positions starts from nothing.",
  ["inputs", "configurations", "histories"], "all shapes, positions, point counts, sizes, process counts, repeated set-ups",
  "The tests have one or two discs in fixed places, set up once.",
  ["particle/particle.hpp"], [("surface points", "particle/particle.hpp: find_surf_points_insides, find_radial_surf_points_insides, set_materials")])
p("C16", "Surface interpolation is bilinear and spreading is its transpose",
  "The value obtained at a surface point is the (bi/tri)linear interpolation of the four (eight) nodes of its cell, minus the rigid motion of its particle when asked, for every field and partition. The surface density is the interpolated mean jump scaled by the area, and spreading it on the grid is the transpose of the interpolation, so nothing is lost or counted twice between processes.",
  ["inputs", "configurations"], "all fields, point positions, velocities, angular velocities, process counts",
  "Tests only see converged solutions; transposed weights or a lost contribution at a process border do not stop convergence.",
  ["problem/particle_operator.hpp", "fem/quadrature.hpp"], [("interpolation", "problem/particle_operator.hpp: interp_fluid_to_surf, interp_rigid_motion_"), ("spreading", "problem/particle_operator.hpp: SL_to_Rhs")])
p("C17", "Surface and volume averages are those of the particle as a whole",
  "The mean of the values on the surface of a particle, and the mean cross product with the radius, are those over all its surface points, whichever process holds them, and every process obtains the same. The surface density subtracts from each point's value the mean and the mean rotation of its own particle; the projection of the control forces does the same over the points inside.",
  ["inputs", "configurations"], "all values, particle counts, positions relative to process borders, process counts",
  "On one process these reductions are trivial; the parallel tests have particles symmetric about the border.",
  ["problem/particle_operator.hpp"], [("surface means and density", "problem/particle_operator.hpp: simple_layer"), ("projection of the control", "problem/particle_operator.hpp: projection, compute_y")])
p("C18", "Forces and torques are the means of the control forces of each particle",
  "The force reported for a particle is the mean, over all its control points on all processes, of the control forces there, times the volume of the particle, and the torque the mean of their moments about its centre times the volume; every process obtains the same, and each particle's result only depends on its own points. In the right-hand side the control forces, and when asked the particle's imposed force times its density factor at each of its own points, enter integrated like any force density; nothing else changes.",
  ["inputs", "configurations"], "all control values, particles, positions, process counts",
  "Only one test compares a force to a reference, with one disc in the middle.",
  ["particle/forces_torques.hpp", "problem/particle_operator.hpp"], [("sums", "particle/forces_torques.hpp: forces_torques_with_control"), ("imposed forces in the right-hand side", "problem/particle_operator.hpp: set_rhs_problem")])
p("C19", "Refining a solution interpolates it at every fine node",
  "Transferring a velocity/pressure field to a grid refined by integer factors in each direction sets every fine velocity and pressure node to the linear interpolation of the coarse field there, reproduces the coarse values at shared nodes, and writes nothing else, for any partition.",
  ["inputs", "configurations"], "all fields, refinement factors per direction, sizes, steps, process counts",
  "The test refines a square by equal factors on one process and looks at a norm.",
  ["posttraitement/interpolation.hpp"], [("interpolation to the fine grid", "posttraitement/interpolation.hpp: linear_interpolation")])
p("C20", "Output files describe the solution that was saved",
  "The saved files contain, for every node, the velocity and pressure of the solution, in the layout and with the sizes, origin and spacing that the description file announces, whatever the number of processes. After any sequence of saves every name on disk describes the solution saved last under it, other names and files are untouched, and the saved solution is not modified.",
  ["inputs", "configurations", "histories"], "all fields, sizes, steps, process counts, sequences of saves",
  "No test opens the written files.",
  ["io/hdf5.hpp"], [("files", "io/hdf5.hpp: save_hdf5")])
p("C21", "Particle solves assemble each contribution exactly once, in order",
  "In every solve with rigid particles the final fluid problem contains each contribution (body forces, boundary values, control forces, surface density, imposed motions or forces) exactly once, with nothing left over from the iterations before or from an earlier call, and the reported velocities, forces and torques are those of that final problem. The outer iteration applies a linear operator of its argument only: applying it twice to the same vector gives the same result and the right-hand side is left as it was.",
  ["histories", "inputs", "configurations"], "all sequences of set-up, operator application and solve; all particles; process counts",
  "Tests run one fixed sequence and compare a final number or nothing; leftovers from one phase that are small there are not seen.",
  ["problem/dton.hpp", "problem/sem.hpp", "problem/particle_operator.hpp"], [("prescribed motion", "problem/dton.hpp: DtoN_matrix, setup_RHS, solve, solve_last_problem"), ("prescribed forces", "problem/sem.hpp: sem_matrix, setup_RHS, solve, get_new_velocities"), ("loading of the fluid problem", "problem/particle_operator.hpp: init_problem")],
  [("fluid right-hand side", "rebuilt for each inner solve"), ("inner solution", "consumed by the surface interpolation")])
p("C22", "Vectors, positions, velocities and forces obey vector algebra",
  "For all values, the arithmetic of positions, vectors, velocities and forces is component-wise (assignment forms agree with the binary forms, operands are not modified), and the cross products in two and three dimensions have their defining identities: antisymmetry, orthogonality, and the 2D ones as restrictions of the 3D one.",
  ["inputs"], "all operand values and operator combinations",
  "Tests print some results; signs and aliasing for each operator are not examined.",
  ["particle/geometry/vector.hpp", "particle/geometry/position.hpp", "particle/geometry/cross_product.hpp", "particle/physics/force.hpp", "particle/physics/velocity.hpp"],
  [("arithmetic", "particle/geometry/vector.hpp, position.hpp; particle/physics/force.hpp, velocity.hpp"), ("cross products", "particle/geometry/cross_product.hpp")])
p("C23", "Quaternions act as rotations",
  "Rotating points with the quaternion built from a unit axis and an angle is the rotation by that angle about that axis, in space and in the plane, whatever rotations came before; the conjugate undoes it. For an axis of any length, lengths and the component along the axis are preserved. The default quaternion does not rotate and says so.",
  ["inputs"], "all axes, angles, points and sequences of rotations",
  "One test prints a rotated point.",
  ["particle/geometry/quaternion.hpp"], [("quaternion algebra", "particle/geometry/quaternion.hpp: constructors, rotate, conj, normalize, is_rotate")])
p("C24", "Shapes: inside test, bounding box and surface sampling agree",
  "For every particle shape (disc, sphere, super-ellipse or super-ellipsoid, rotated or not) the bounding box contains every point inside the shape and every surface point, the integer box built from it contains every grid node inside. The inside test is the shape's equation in its rotated axes; the sampled surface points lie on its boundary, are symmetric and leave no gap larger than a small multiple of the spacing asked for, and so do the points of the parametrisation. Perimeter or area, volume and drag coefficients are those of the shape. The parameters linspace gives are equally spaced, from one end to the other or a step before it.",
  ["inputs"], "all centres, radii, exponents, rotations, grid steps",
  "Tests print sample points of one ellipse; bounding boxes are only checked by not losing visible points.",
  ["particle/geometry/circle.hpp", "particle/geometry/sphere.hpp", "particle/geometry/super_ellipsoid.hpp", "particle/geometry/uniform_sampling.hpp", "particle/geometry/linspace.hpp"],
  [("shapes", "particle/geometry/circle.hpp, sphere.hpp, super_ellipsoid.hpp: bounding_box, contains, surface"), ("sampling", "particle/geometry/uniform_sampling.hpp")])
p("C25", "Field access and ghost exchange behave like one global field",
  "Any sequence of fills, point reads and writes, local-to-global and global-to-local transfers on the velocity and pressure parts of a vector has the effect of the same sequence on a single global field with private ghost copies: adding sums every process's contribution at each node exactly once (periodic images included), inserting keeps the owner's value, and reading ghosts afterwards returns the owner's current value.",
  ["histories", "configurations", "inputs"], "all operation sequences, grids, periodicities, process counts",
  "Tests only use the fixed sequence of the operators; stale ghosts need other orders and more processes.",
  ["petsc/vec.hpp"], [("field access", "petsc/vec.hpp: at, at_g, fill, fill_global, local_to_global, global_to_local")])
p("C26", "Run-time options select what they say and default otherwise",
  "For every combination and history of command-line options, in 2D and 3D, processing gives each option that is present its given value and leaves every other one as it was (its documented default in a new set of options). The Stokes problem built from them has the grid sizes, periodicity, lengths (hence mesh sizes), formulation, matrix form and solver that the options say.",
  ["inputs", "configurations", "histories"], "all combinations of set and unset options, spellings of values, sequences of setting, withdrawing and processing",
  "Tests use two or three option sets.",
  ["problem/options.hpp", "problem/stokes.hpp"], [("options", "problem/options.hpp: process_options"), ("what follows from them", "problem/stokes.hpp: constructor, setup_KSP")])
p("C28", "The lubrication field between two close particles is one smooth field in the frame of the pair",
  "For two circles (2D) or spheres (3D) whose gap is shorter than 1, the class singularity gives a pressure, a velocity and a velocity gradient. The frame of the pair is orthonormal and direct, starts on the surface of the first particle and points to the second; the relative velocity (second minus first) is its axis times UN plus a direction of the plane times UT. The cut-off distance is four times the width of the film, but not more than the smaller radius nor less than the diagonal of a cell. At every point: the gradient is that of the velocity and has no trace; the velocity is tied to both surfaces (minus UN/2 along the axis on the first, no slip across) and driven by the film's pressure; all of it vanishes from the cut-off on; and what is returned in place (get_*_sing) is what is returned in the frame of the pair (get_*_sing_ref), turned by the frame. The cut-off function is 1 up to l-e, 0 from l+e on, and its four derivatives are its derivatives. Pairs that are not close have no field.",
  ["inputs"], "all radii, gaps, directions and velocities of two particles, grid sizes, and points",
  "Tests run one configuration and look at a norm.",
  ["particle/singularity/singularity.hpp", "particle/singularity/UandPNormal.hpp", "particle/singularity/truncation.hpp"],
  [("frame and cut-off", "particle/singularity/singularity.hpp"), ("field", "particle/singularity/UandPNormal.hpp"), ("cut-off function", "particle/singularity/truncation.hpp")])
p("C29", "Every close pair contributes its lubrication field once to the problem, at the points between its two particles",
  "add_singularity_in_fluid adds to the velocity part of the right-hand side, for every pair of close particles and every node, the integral of minus the stress-like tensor (gradient minus pressure) of the pair's field against the gradient of the node's basis function, as a mean over the 10 per direction sampling points of every cell that are in neither particle and between the two within the cut-off distance; in 2D add_singularity_to_last_sol adds the field itself against the basis functions in the same way. What was there stays, the pressure part is untouched, pairs that are not close add nothing, no pair is skipped or counted twice, and the result does not depend on the number of processes, wherever the particles are: across process borders, at or beyond the edges of the domain. A DtoN problem with use_sing has it in the first fluid problem of its right-hand side and in the last problem of a solve, not in any application of the operator it inverts, zero where the velocity is imposed, and adds the field to the last solution; without use_sing nothing of it appears, in any order of set-ups, changes, and solves.",
  ["inputs", "configurations", "histories"], "all numbers, places, sizes and velocities of particles, grids, process counts",
  "Tests run one pair on few processes and look at a norm.",
  ["particle/singularity/add_singularity.hpp"],
  [("where it is used", "problem/dton.hpp, problem/particle_operator.hpp: init_problem"), ("right-hand side", "particle/singularity/add_singularity.hpp: add_singularity_in_fluid, computesingularST"), ("last solution", "particle/singularity/add_singularity.hpp: add_singularity_to_last_sol, computesingularST_last_sol")])
p("C30", "The lubrication forces on the particles are the integrals of the field's stress over the surfaces",
  "compute_singular_forces gives every particle the sum, over the close pairs it is in, of minus the integral of the stress (twice the symmetric gradient minus the pressure) of the pair's field over the particle's surface within the cut-off, with the outer normal, expressed in place and not in the frame of the pair; nothing for particles that are close to no other, whatever was stored there before. forces_torques_with_control with singularities gives these on top of the forces it gives without. The number of sampling points changes the forces by less than half a percent.",
  ["inputs"], "all numbers, places, sizes and velocities of particles",
  "Tests do not look at these forces.",
  ["particle/singularity/add_singularity.hpp", "particle/forces_torques.hpp"],
  [("forces of a pair", "particle/singularity/add_singularity.hpp: compute_singular_forces_on_part1/2"), ("sum over pairs", "particle/singularity/add_singularity.hpp: compute_singular_forces"), ("with control", "particle/forces_torques.hpp: forces_torques_with_control")])
p("C31", "The answer of a particle problem depends on its scene only, and follows its symmetries",
  "Solving a problem with discs (prescribed motion with DtoN, prescribed force with SEM) in a Stokes flow with moving walls and a body force gives the same fluid velocity, pressure, velocities, forces and torques for any number of processes, assembled or matrix-free operators, and any inner solver (up to its tolerance), also when the same object solves again. Mirroring the scene in x or y, exchanging x and y, scaling all data, listing the discs in another order, shifting along a periodic direction by whole coarse cells, and adding a rigid motion to the walls and the prescribed motions, does the same to the answer; when everything moves as one rigid body the fluid does too and no disc feels a force or torque.",
  ["inputs", "configurations"], "all scenes of separate discs inside the domain, both formulations and kinds of problem, steps, periodicities, process counts, solvers, transformations",
  "Tests run two fixed scenes, symmetric themselves, and compare nothing between runs.",
  ["problem/sem.hpp", "problem/dton.hpp", "problem/particle_operator.hpp", "problem/stokes.hpp", "particle/particle.hpp", "particle/forces_torques.hpp"],
  [("the two particle problems", "problem/sem.hpp: sem_matrix, solve, get_new_velocities; problem/dton.hpp: DtoN_matrix, solve_last_problem"), ("exchange with the fluid", "problem/particle_operator.hpp: init_problem, interp_fluid_to_surf, simple_layer, SL_to_Rhs, projection, compute_y")])
p("C32", "The field of two particles that slide past each other is consistent, and in 2D the one of the thin film",
  "The functions of UandPTang.hpp give the lubrication field of two circles (2D) or spheres (3D) with curvatures H and M, a gap d apart, whose relative velocity U is across their axis, cut off with chiTrunc(r, l, eps). In 2D (first coordinate along the axis from the first surface, second across), with h the distance of the surfaces at r: the pressure is -2U (H-M)/(H+M) r/h^2 times the cut-off; the velocity across is the parabola along the axis whose second derivative is the derivative of that pressure and whose values on the surfaces are -U/2 and U/2 times the cut-off; the velocity along the axis is zero on the first surface and makes the divergence zero. In 2D and in 3D (third coordinate along the axis), at every point including the axis: each dAuB function is the derivative of uB with respect to A, the divergence is zero, the second derivatives along the axis of the velocities across are the derivatives of the pressure, and from the outer edge of the cut-off on everything is zero. In 3D the pressure is 6U/5 (H-M)/(H+M) x/h^2 times the cut-off, on the axis the velocity is -U/2 and U/2 on the surfaces, and the functions named after r and t are the components and derivatives of the same field in cylindrical coordinates.",
  ["inputs"], "all curvatures, gaps, speeds, cut-offs and points",
  "No test calls these functions.",
  ["particle/singularity/UandPTang.hpp", "particle/singularity/truncation.hpp"],
  [("2D", "particle/singularity/UandPTang.hpp: p_sing_withT_tangMvt2D, ux_sing_tangMvt2D, uz_sing_tangMvt2D and derivatives"), ("3D", "particle/singularity/UandPTang.hpp: p_sing_withT_tangMvt3D, U0_tang3D, V0_tang3D, W0_tang3D and what uses them")])

p("C33", "Files for ParaView show the solution and the particles that were saved",
  "save_VTK writes, for velocity and pressure, a description NAME_velocity.pvts / NAME_pressure.pvts and one piece NAME_velocity_RANK.vts / NAME_pressure_RANK.vts per process. Read through the description the pieces cover the whole grid; every piece announces the box of nodes it holds and holds, in order, every node's place (index times step, twice the step for the pressure, third coordinate zero in 2D) and the value of the saved solution there (periodic nodes wrapped, third velocity component zero in 2D), so neighbouring pieces agree where they overlap. saveParticles writes one file NAME_particles.vtp with the centre and radius of every particle in order and, when given, its force and torque. After any sequence of saves every name on disk shows what was saved under it last, other names and files are untouched, and the saved solution is not modified.",
  ["inputs", "configurations", "histories"], "all fields, sizes, periodicities, steps, process counts, particles, sequences of saves, in 2D and 3D",
  "No test opens the written files, and the tests that write them are not built here.",
  ["io/vtk.hpp"], [("fields", "io/vtk.hpp: save_VTK in 2D and 3D"), ("particles", "io/vtk.hpp: saveParticles")])

p("C34", "With the lubrication field, too, the answer depends on the scene only and follows its symmetries",
  "Solving a problem with discs of prescribed motion with DtoN and use_sing, where discs are closer to each other than 1, gives the same fluid velocity, pressure, forces and torques for any number of processes, assembled or matrix-free operators and any inner solver (up to its tolerance), also when the same object solves again. Exchanging x and y, scaling all data (also by negative numbers), shifting along a periodic direction by whole coarse cells, and adding a rigid motion, rotations included, to the walls and the discs, does the same to the answer. Where no close discs approach each other or part, the answer is the one without use_sing, and has all its symmetries, also when there are no discs at all; when everything moves as one rigid body the fluid does too and no disc feels a force or torque.",
  ["inputs", "configurations"], "all scenes of separate discs inside the domain, steps, periodicities, process counts, solvers, transformations",
  "No test that is built uses the lubrication field in a problem.",
  ["problem/dton.hpp", "problem/particle_operator.hpp", "particle/singularity/add_singularity.hpp", "particle/singularity/singularity.hpp", "particle/singularity/UandPNormal.hpp"],
  [("the field in a solve", "problem/dton.hpp: setup_RHS, DtoN_matrix, solve_last_problem; problem/particle_operator.hpp: init_problem"), ("the field", "particle/singularity/add_singularity.hpp: add_singularity_in_fluid, add_singularity_to_last_sol; particle/singularity/singularity.hpp")])


p("C35", "The triangulation of points is one",
  "geometry::triangulation of different points of the plane, not all in a line, gives triangles between them which cover their convex hull without overlapping and whose circumscribed circles have no point inside, nothing else, whatever the order and scale of the points and also when points share lines or circles; of points of space, not all in a plane, it gives triangles that form the closed surface of their convex hull. The points given are unchanged.",
  ["inputs"], "all finite sets of points",
  "No test calls it.",
  ["particle/geometry/triangulation.hpp"],
  [("triangles", "particle/geometry/triangulation.hpp: triangulation, triangulation_")])

p("C36", "Repeated operations leave nothing behind",
  "On a problem that lives long, operations can be repeated in any order any number of times: building right-hand sides, applying the operators, solving, making solvers (the caller destroys the old one), getting velocities and forces, reading and writing vectors of the mesh, refining solutions, making and destroying meshes, and writing files. After the first rounds, PETSc objects, PETSc memory and C++ memory held on all processes no longer grow: work vectors and matrices obtained are given back, temporary objects are destroyed. (Solvers of the Stokes problem with the preconditioner PMM keep the data of their levels.)",
  ["histories", "inputs"], "all cycles of the operations, grids, options, particles and process counts",
  "Tests run every operation a few times and end.",
  ["problem/stokes.hpp", "problem/sem.hpp", "problem/dton.hpp", "problem/particle_operator.hpp", "petsc/vec.hpp", "fem/matrixFree.hpp", "fem/mesh.hpp", "fem/rhs.hpp", "fem/bc.hpp", "posttraitement/interpolation.hpp", "io/hdf5.hpp", "io/vtk.hpp"],
  [("work vectors", "petsc/vec.hpp: petsc_vec and its destructor"), ("temporary objects", "problem/*.hpp, fem/mesh.hpp, posttraitement/interpolation.hpp, io/*.hpp")])


NA = {
}
TECH = "TLA+ specification checked with TLC; recorded executions of the code, generated from it, validated against it by TLC (exact integer arithmetic)"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        if i in props.PROPS:
            s = props.PROPS[i]
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                           "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                           "technique": s.get("technique") or TECH, "level": "model_checking",
                           "level_note": (s["rule"] + ". Trusted: " + "; ".join(s["assumptions"]))[:900]})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harness programs in /verif/harness include the library's headers from /repo and observe through its public interface and PETSc's."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks; not applicable:", [x["property"] for x in na])


main()
