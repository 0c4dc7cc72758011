#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=hook)))
m=lambda n,w: dict(name=n,where=w)

p("C01","A run ends cleanly and on the same cycle everywhere for every stop cause",
 "A run stops after the first completed cycle at which the time limit, the cycle limit, or a pending termination request (SIGTERM delivered to any process at any moment of the evolution, including while another request or the collective stop decision is being processed; one that arrives during the decision of a cycle may take effect one cycle later) holds, and not before or later. In a parallel run every process completes exactly the same cycles and stops after the same one, whichever processes were signalled. After stopping, every configured output is written once more, the processes exit with success, and a termination request is never silently lost.",
 ["schedules","fault_sequences","histories"],"every interleaving of signal delivery on any subset of ranks with the main loop, every time/cycle limit",
 "The regression tests only run serial jobs to their time limit; no test delivers a signal, runs with MPI, or races a signal against the collective stop decision.",
 ["src/main.c","src/ath_signal.c"],
 [m("main loop exit test and end-of-run outputs","src/main.c"),m("ath_sig_act: MPI_Allreduce of the caught signal; handlers latch it","src/ath_signal.c")],
 ["exit status","last completed cycle per rank","output files after the last cycle","log"],
 [dict(name="sig_caught",meaning="last signal latched by the handler of this process",where="src/ath_signal.c")])

p("C02","The time step is CFL-limited, global, bounded in growth and hits the end time",
 "After every cycle the next time step is the Courant number times the smallest zone crossing time of the fastest signal (|velocity| plus sound or fast magnetosonic speed, the field taken as |cell value| plus its distance from the left face value; over the directions that have more than one zone) on any zone of any grid, level and process, except that it never exceeds twice the previous step and never carries the time past the end time. All processes, levels and domains use the same step and time, the time advances by exactly the step, and the last step ends at the end time. The crossing time does not depend on the sign of the velocity or of the magnetic field.",
 ["inputs","configurations","histories"],"every sequence of flow states, grid placements of the limiting zone, process layouts, end times",
 "The tests run one smooth state per problem in serial, where the limiting zone, the growth limit, the other directions and the cross-process reduction hardly matter.",
 ["src/new_dt.c","src/main.c"],
 [m("new_dt: max over zones, MPI_Allreduce, 2x growth limit, limit to tlim, distribution to all Grids","src/new_dt.c")],
 ["time and dt of every Grid after every cycle"])

p("C03","Every output is written exactly on schedule with consecutive numbers",
 "Each configured output (history, dumps, slices, images, restart files; one per output block, up to the configured maximum) is written at the start of a new run, then at every completed cycle whose time has reached its next scheduled time (which then moves on by exactly one interval, so that times overtaken by a large step are made up for one per cycle), and once at the end of the run. The files of one output are numbered consecutively from its initial number with the time of the cycle they were written at, no number is skipped or reused, and outputs do not disturb each other's schedule. A restarted run continues the schedule and the numbering of the run it continues, without writing initial outputs again, and does not overwrite earlier files.",
 ["histories","configurations"],"every sequence of time steps, every set of output blocks (intervals, formats, order), every restart point",
 "No test inspects output files other than the error norms; schedules with several blocks, overtaken intervals and restarts are not exercised.",
 ["src/output.c","src/restart.c","src/main.c","src/ath_files.c"],
 [m("init_output/add_output: out blocks","src/output.c"),m("data_output: t >= out->t, out->t += dt, num++ and par update of next_time/num before restart dumps","src/output.c"),m("main: initial outputs only when not a restart, final outputs with flag=1","src/main.c")],
 ["names of files in the run directory","time in each file header"])

p("C04","A restarted run is indistinguishable from an uninterrupted one",
 "Continuing from any restart file of a run reproduces, bit for bit, every later state of the uninterrupted run: time, step, cycle count, all conserved variables, face magnetic fields, passive scalars, gravitational potential and particles of every level, domain and process, and hence the same files. This holds in one, two and three dimensions for hydrodynamics and MHD, adiabatic and isothermal gas, with passive scalars, mesh refinement, self-gravity, particles and parallel decomposition, from any cycle and repeatedly. Parameters given on the command line at restart override those stored in the file, and everything else is restored from the file.",
 ["crash_points","configurations","histories"],"every cycle at which a restart file can be written, every physics configuration, chains of restarts",
 "No test reads or writes a restart file.",
 ["src/restart.c","src/main.c","src/init_grid.c","src/init_mesh.c","src/output.c"],
 [m("dump_restart / restart_grids","src/restart.c"),m("parameter block embedded in the restart file","src/restart.c, src/par.c")],
 ["restart files","state after each later cycle","output files"])

p("C05","Parameter lookup follows the input file and command line exactly",
 "A parameter block/name has the value of its last assignment in the input file (whatever the block order, repeated blocks, white space, comments, blank lines and empty values), replaced by the last block/name=value given on the command line, which may only name existing parameters; string, integer and floating-point readers return that value, readers with defaults return and record the default only when the parameter is absent, and setters replace it. Dumping the database and reading the dump back gives the same blocks, names and values, and in a parallel run every process sees the same database. Asking for a missing required parameter, and a command-line override of an unknown one, end the run with an error rather than continue with a made-up value.",
 ["inputs","histories"],"every input file text, command line and sequence of get/default/set/dump operations",
 "The tests use well-formed files with one assignment per name and never dump or override repeatedly.",
 ["src/par.c","src/main.c"],
 [m("par_open/par_cmdline/par_get*/par_get*_def/par_set*/par_dump/par_dist_mpi","src/par.c")],
 ["values returned by the par_* API","dumped parameter file"])

p("C06","Decomposition covers each domain exactly once with consistent neighbours",
 "For every mesh, the grids of a domain tile it exactly: every zone belongs to exactly one grid, grid sizes along a direction differ by at most one zone, and the displacement, extent and zone-centre coordinates of each grid are those of its zones in the undecomposed domain. Each process owns at most one grid per domain, every grid is owned by exactly one process, and the left and right neighbour in each direction (periodic wrap included) is the grid holding the adjacent zones, mutually. This holds for explicit numbers of grids per direction and for automatic decomposition, which yields exactly as many grids as processes.",
 ["inputs","configurations"],"every zone count, number of grids per direction, process count, level displacement and boundary condition",
 "All tests run one grid on one process, so no decomposition ever occurs.",
 ["src/init_mesh.c","src/init_grid.c","src/bvals_mhd.c","src/cc_pos.c"],
 [m("init_mesh Steps 5-8: division of Domain into Grids, dom_decomp","src/init_mesh.c"),m("init_grid: Nx, Disp, MinX, neighbour ids","src/init_grid.c")],
 ["Grid descriptors on each process","zone coordinates"])

p("C07","Refined meshes are accepted exactly when legal and linked symmetrically",
 "A set of refined domains is accepted if and only if every domain has even refined edges aligned with its parent level, lies inside exactly one domain of the next coarser level with the required margin to the coarse edges that are not physical boundaries, and does not overlap or touch another domain of its level; otherwise the run ends with an error before evolving. For accepted meshes every pair of overlapping parent and child grids knows each other, agrees on the overlap region (the same physical zones seen from both sides) and on which faces need flux correction or prolongation, on one or several processes. Two domains of one level never share a zone.",
 ["inputs","configurations"],"every placement of domains on up to several levels in 1, 2 and 3 dimensions and every decomposition of them",
 "No test uses mesh refinement.",
 ["src/init_mesh.c","src/init_grid.c"],
 [m("init_mesh Steps 2-4 checks","src/init_mesh.c"),m("init_grid: CGrid/PGrid overlap lists","src/init_grid.c")],
 ["exit status and error","overlap tables of each grid"])

p("C08","Ghost zones hold exactly what the boundary condition prescribes",
 "After boundary values are set, every ghost zone (edges and corners included) of every grid holds, for all conserved variables, passive scalars and face-centred fields: the value of the zone it stands for when that zone exists elsewhere in the domain or periodically, the mirror zone with the normal momentum (and normal field: odd for reflecting, even for conducting walls, tangential field odd for conducting) sign-reversed at reflecting walls, or the last active zone at outflow boundaries. The result does not depend on how the domain is divided among processes, and active zones are not altered (except the normal face field on a reflecting wall, which is zero).",
 ["inputs","configurations","schedules"],"every combination of boundary conditions, dimensionality, grid shapes, decompositions, field contents and message arrival order",
 "Tests use periodic or outflow boxes in serial and look only at error norms of smooth waves or shocks; corners, reflecting/conducting MHD walls, scalars and message exchange are unchecked.",
 ["src/bvals_mhd.c"],
 [m("bvals_mhd: x1-x2-x3 sweep with pack/unpack or BC functions","src/bvals_mhd.c")],
 ["contents of U, B1i, B2i, B3i including ghost zones after bvals_mhd"])

p("C09","Results do not depend on the number of processes or the decomposition",
 "For any problem on a uniform or refined mesh, the evolved state (all conserved variables, scalars and face fields at every time) of a parallel run is identical, bit for bit, to that of the serial run, for every decomposition of every domain and every message arrival order (to rounding only where a single coarse zone separates two refined domains and so receives corrections from both); time steps and cycle counts are identical too. Volume-integrated history quantities agree to rounding.",
 ["schedules","configurations","inputs"],"every decomposition, process count, physics option and message timing",
 "No test runs with MPI.",
 ["src/bvals_mhd.c","src/new_dt.c","src/smr.c","src/init_grid.c","src/dump_history.c","src/bvals_shear.c"],
 [m("ghost-zone exchange","src/bvals_mhd.c"),m("global time step","src/new_dt.c"),m("SMR messages","src/smr.c")],
 ["per-cycle state of all zones","history file"])

p("C10","Refinement boundaries conserve and keep parent and child consistent",
 "After every step of a refined run each coarse zone covered by a finer domain holds exactly the average of the fine zones it covers (and each covered coarse face the average normal field of its fine faces), and fine ghost zones are filled from the coarse solution by an interpolation limited by the monotonised slopes that is exact for linear data and preserves the coarse zone averages (of the internal instead of the total energy in an adiabatic gas) and the field divergence. Without explicit diffusion, the volume totals of mass, momentum, energy and passive scalars over the composite mesh change only through the physical boundaries. All of this holds for every legal arrangement of levels and domains, serial and parallel.",
 ["configurations","histories","inputs"],"every legal nesting, dimension, decomposition and flow crossing the refinement boundaries",
 "No test uses mesh refinement.",
 ["src/smr.c","src/init_grid.c","src/main.c","src/integrators"],
 [m("RestrictCorrect: restriction, flux and EMF correction","src/smr.c"),m("Prolongate, ProCon, ProFld","src/smr.c")],
 ["composite-mesh totals","coarse zones under fine domains","fine ghost zones"])

p("C11","Closed boxes conserve mass, momentum, energy and scalars",
 "In a periodic box without external sources the volume totals of mass, each momentum component, total energy (adiabatic gas) and each passive scalar stay constant to rounding for every integrator, Riemann solver, reconstruction order, dimension and step sequence, with or without viscosity, resistivity and conduction; between reflecting walls mass, energy and scalars do. A passive scalar that initially equals the density everywhere stays equal to it, and a uniform state at rest or in uniform motion stays uniform. In a static gravitational potential mass, scalars and the total energy including that in the potential are kept, and in a uniform gravitational field in a periodic box the momentum grows by mass x acceleration x time; cooling changes the energy only.",
 ["inputs","configurations","histories"],"every initial state, configuration of the integrator and number of steps",
 "Tests compare error norms of specific smooth waves with loose tolerances for a subset of configurations; conservation itself is never checked, nor are diffusion, scalars or walls.",
 ["src/integrators","src/rsolvers","src/reconstruction","src/microphysics","src/bvals_mhd.c"],
 [m("flux-difference update with single-valued face fluxes","src/integrators")],
 ["per-cycle totals over the domain"])

p("C12","The magnetic field stays divergence-free",
 "Starting from a divergence-free field, the discrete divergence of the face-centred field in every active zone stays zero to rounding for every MHD integrator, Riemann solver, order, boundary condition, resistive term, decomposition and refined mesh (on every level, including zones next to refinement boundaries), and cell-centred fields equal the average of their two faces. In one dimension the longitudinal field never changes, and the net flux through a periodic box is constant.",
 ["inputs","configurations","histories"],"every initial divergence-free field, flow, configuration and number of steps",
 "Error norms of linear waves and field loops bound the field only loosely, in serial, unrefined, periodic boxes.",
 ["src/integrators","src/smr.c","src/bvals_mhd.c","src/microphysics/resistivity.c"],
 [m("constrained transport with edge EMFs","src/integrators"),m("EMF correction and field prolongation","src/smr.c")],
 ["face fields after every cycle"])

p("C13","Particles are never lost, duplicated or misplaced",
 "On one level, every particle that has not left through an outflow boundary exists exactly once over all processes after every step that moves it by less than a Grid, keeps its identity, type and origin, and is held by the process whose Grid contains its position. Periodic boundaries move it by exactly one period, reflecting walls mirror its position and normal velocity, and outflow boundaries remove it (at the latest when it is nghost-1 zones beyond the boundary). Particle mass and momentum binned to the grid, and the drag feedback handed to the gas (predictor, ghost zones included, and corrector), are in every zone the weighted sums over all particles (images over periodic and reflecting boundaries included), for every interpolation order and decomposition, so that their totals equal the sums over particles. The particle lists hold every particle once.",
 ["histories","inputs","configurations","schedules"],"every set of positions (faces, corners and positions one rounding error beside them included), displacements below a Grid, decompositions, boundary conditions and interpolation orders; no shearing box",
 "No test builds with particles.",
 ["src/particles/bvals_particle.c","src/particles/init_particle.c","src/particles/integrators_particle.c","src/particles/output_particle.c","src/particles/exchange.c","src/particles/utils_particle.c"],
 [m("bvals_particle: packing, shifting, unpacking","src/particles/bvals_particle.c"),m("particle_to_grid, feedback_predictor, feedback_corrector, exchange_gpcouple","src/particles/output_particle.c, src/particles/exchange.c")],
 ["particle arrays after every move","particle list files","binned density and momentum","feedback array"])

p("C14","Output files contain the right zones, variables and names",
 "Every dump and slice file describes exactly the active zones of its grid: each listed variable, in the declared layout and byte order, is the value of that zone (for primitive output, derived from it) together with the time and the sizes of the grid (and, where nothing is reduced, its origin and spacing); reduced outputs are the plain average over the selected zone range, in every format: a zone is selected if it holds a point of the range, its lower edge counted and its upper one not. A Grid with no zone in the selection writes nothing. History columns are the volume averages over the domain. Files of different output blocks (of different format or id), numbers, levels, domains and processes have different names, so no output overwrites another (at most one dump of all variables per format).",
 ["inputs","configurations"],"every output block (format, variable, slice/average selection, level/domain selection), grid shape, level and decomposition",
 "No test reads any dump, slice, image or history file.",
 ["src/dump_vtk.c","src/dump_binary.c","src/dump_tab.c","src/dump_history.c","src/output.c","src/output_vtk.c","src/output_tab.c","src/output_pgm.c","src/output_ppm.c","src/output_pdf.c","src/ath_files.c"],
 [m("dump_*/output_* writers","src/dump_*.c, src/output_*.c"),m("OutData1/2/3 reductions","src/output.c"),m("ath_fname","src/ath_files.c")],
 ["bytes of the files written"])

p("C15","Joining per-process files reproduces the undivided data set",
 "Joining the VTK files that the processes of a parallel run wrote for one output of one Domain gives the data set a single process would have written: every zone once, at its place, with every scalar and vector variable, the right dimensions, origin and spacing, for every decomposition and every order of the files. A file that is missing, is not a VTK file of this kind (not VTK, not binary, wrong number of cells), ends early, or holds other variables than the first is refused with a nonzero exit rather than silently joined. Joining (and sorting) per-process particle lists keeps every entry exactly once, unchanged, with the right count and the bounds of the whole domain.",
 ["inputs","configurations"],"every decomposition (1 to 3 directions, unequal sizes), set of variables, order of the input files",
 "No test runs the joining tools.",
 ["vis/vtk/join_vtk.c","vis/particle/join_lis.c"],
 [m("join_vtk","vis/vtk/join_vtk.c")],
 ["joined file"])

p("C16","Shearing-box boundaries and orbital advection conserve what they move",
 "In a shearing box (periodic in y, Grids of equal size along y), ghost zones across the radial boundaries are the periodic image displaced azimuthally by the accumulated shear, with the corresponding offset of azimuthal momentum and kinetic energy; the gravitational potential likewise. A displacement conserves the total of each azimuthal row to rounding, stays within the range of neighbouring zones, displaces straight stretches (third order: parabolic ones) correctly, is an exact shift for a whole number of zones whatever the time, and leaves active zones alone. Orbital advection (FARGO) displaces every row so, adds the work of the shear stress to the energy, winds up the azimuthal field as the radial and vertical field require and keeps the magnetic divergence; where zones are needed from beyond the neighbouring Grid it stops with an error. Over a whole three-dimensional run (CTU or VL, with or without FARGO or resistivity) total mass, vertical momentum and net radial and vertical magnetic flux are constant to rounding and the divergence stays zero; results are the same for every number of processes.",
 ["inputs","histories","configurations"],"every shear displacement, time, row content, decomposition and integrator configuration",
 "No test builds the shearing box.",
 ["src/bvals_shear.c","src/integrators"],
 [m("ShearingSheet_ix1/ox1, RemapFlx","src/bvals_shear.c"),m("Fargo","src/bvals_shear.c")],
 ["ghost zones","row totals"])

p("C17","No direction or orientation is preferred",
 "Permuting a problem's axes (x1, x2, x3 together with the vector components and boundary conditions) or mirroring it along any axis gives the correspondingly permuted or mirrored solution up to rounding, for every integrator, Riemann solver, order, boundary condition, passive scalar and diffusion option, relativistic or not. A one- or two-dimensional problem gives the same solution when embedded in more dimensions (with anisotropic conduction: from two dimensions on; except where the scheme itself is dimension dependent: the H-correction, and CTU MHD with outflow boundaries).",
 ["inputs","configurations"],"every initial state, permutation, reflection, embedding and integrator configuration",
 "Tests compare error norms of plane waves per direction with tolerances well above a sign or index slip in a rarely active term.",
 ["src/integrators","src/rsolvers","src/reconstruction","src/bvals_mhd.c","src/microphysics"],
 [m("dimensionally unsplit update treating the directions alike","src/integrators")],
 ["state after a number of cycles of the original and the transformed problem"])

p("C18","The gravitational potential solves the discrete Poisson equation",
 "With FFT self-gravity in a periodic box the potential after initialisation and after every cycle satisfies the discrete Poisson equation for the current density minus its mean to rounding, in one, two and three dimensions, for every grid shape, zone aspect and process count, and its ghost zones hold the periodic images (with the disk solver in 3D: the equation without the mean away from the open boundaries). A step accelerates the gas by minus density times the gradient of the potential and changes its energy by the work done; total mass and momentum of a self-gravitating periodic gas stay constant to rounding.",
 ["inputs","configurations"],"every density distribution, grid shape and decomposition",
 "No test builds self-gravity or the FFT.",
 ["src/gravity/selfg_fft.c","src/gravity/selfg.c","src/gravity/bvals_grav.c","src/fftsrc","src/integrators"],
 [m("selfg_fft_1d/2d/3d","src/gravity/selfg_fft.c"),m("bvals_grav","src/gravity/bvals_grav.c"),m("block FFT with data remaps","src/fftsrc")],
 ["Phi after the initial solve and after every cycle"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
