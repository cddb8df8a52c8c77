"""Writes properties.jsonl (the statements live here so that they stay valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
S = 'spectralDNS/solvers/'
NS, KMM = S+'NS.py', S+'KMM.py'
INT, H5, INIT, UT = 'spectralDNS/maths/integrators.py', 'spectralDNS/h5io/HDF5File.py', 'spectralDNS/__init__.py', 'spectralDNS/utilities/__init__.py'
ALLS = [S+x for x in ('NS.py', 'VV.py', 'MHD.py', 'NS2D.py', 'Bq2D.py', 'KMM.py', 'KMMr.py', 'KMMRK3.py', 'KMM_RB.py', 'KMMRK3_RB.py', 'Coupled.py', 'CoupledRK3.py')]

p('C01', 'The flow computed does not depend on ranks, decomposition or message timing',
  'For every solver, form of the convection term, integrator, dealiasing rule and mesh, the state after every time step is, up to round-off, the state that a single process computes, however many processes share the mesh, evenly or unevenly, as slabs or as pencils. It does not depend on the order in which processes run or on when their messages arrive.',
  ['schedules', 'configurations', 'inputs'], 'all process counts and decompositions the mesh allows, all interleavings of the processes, all solver configurations and initial fields',
  'The tests run on one process (or whatever mpirun gives), check one energy number at the end of one flow, and cannot choose how processes interleave.',
  ALLS + [INT], [('rank-local right-hand sides on distributed transforms', NS+' ComputeRHS'), ('mean mode treated on the first process only', KMM+' solve_linear'), ('global error norm', INT+' adaptiveRK')])
p('C02', 'Processes stay in lockstep: same collectives, same step, no deadlock',
  'During a run all processes take part in the same sequence of collective operations, and at every time step they hold the same time, step number, step size and decision whether to go on. No run hangs: with any interleaving of the processes, with output, checkpoints, profiling, a stop request or an early end, it ends on all processes after a bounded number of operations.',
  ['schedules', 'configurations', 'fault_sequences'], 'all interleavings, process counts, run options and instants of a stop request',
  'A mismatched collective or a decision taken from process-local data hangs only for particular process counts, options and interleavings, none of which the tests control.',
  [INIT, H5, INT, UT, 'spectralDNS/utilities/create_profile.py'], [('time loop', INIT+' solve'), ('stop request', H5+' check_if_kill'), ('timing report', UT+' Timer.final'), ('profile report', 'spectralDNS/utilities/create_profile.py create_profile')])
p('C03', 'A restart from a checkpoint continues the same trajectory',
  'The data, time and step number in a checkpoint suffice to continue the simulation, on any number of processes and either decomposition: every later state equals, up to round-off, that of the run which was never interrupted, for all solvers and all one-step (fixed step) and implicit integrators. A multi-step explicit integrator continues exactly as a new run from the saved fields would, with its own start-up step.',
  ['crash_points', 'histories', 'configurations', 'schedules'], 'all solvers and integrators, all steps at which the run can be interrupted, all pairs of process layouts, repeated restarts',
  'No test ever reads a checkpoint; the trajectory after a restart depends on every piece of state the integrators carry from step to step.',
  [H5, INT, INIT] + ALLS, [('which fields are saved', KMM+' get_context'), ('order of saving and rotating old solutions', INIT+' solve'), ('state carried between steps', INT+' getintegrator')])
p('C04', 'A crash at any point leaves the last checkpoint complete and consistent',
  'Once a checkpoint has been taken, then at every later instant, whatever process or disk operation the machine crashes in, the checkpoint file on disk is readable and holds the fields of one single checkpointed step together with that step\'s number and time, from the most recent finished checkpoint or from one in progress. Starting the program again in the same folder does not destroy the checkpoint before a newer one is complete.',
  ['crash_points', 'fault_sequences', 'schedules', 'histories'], 'all crash instants, including inside the writing of a checkpoint, with torn, lost and reordered writes to data not yet synchronised',
  'Tests never crash a run in the middle of a write and never look at what is left on disk.',
  [H5], [('checkpoint update', H5+' HDF5File.update'), ('file creation', H5+' HDF5File.update'), ('closing', H5+' HDF5File.close')])
p('C05', 'A stop request ends the run cleanly at the same step on all processes',
  'When a file named killspectraldns appears in the running folder, whichever processes see it first, all processes stop after the same time step with exit status 1, having written a checkpoint of exactly that step and removed the file. Without such a file no run stops early, and the stopped run can be continued from its checkpoint as if it had not been stopped.',
  ['schedules', 'histories', 'configurations'], 'all instants at which the file appears relative to every operation of every process, and views of the folder that differ between processes',
  'No test creates the file, let alone between the folder listings of two processes.',
  [H5, INIT], [('detection and agreement', H5+' check_if_kill'), ('forced checkpoint', H5+' HDF5File.update'), ('end of the run', H5+' HDF5File.update')])
p('C06', 'The results file holds exactly the scheduled steps and the true fields',
  'With results requested every n steps, the results file holds, for every step that is a multiple of n and for no other step, each result field in physical space, equal to the transform of the state at that step, at every mesh point exactly once, in the same global layout whatever the decomposition. Earlier steps are never altered by later ones.',
  ['configurations', 'schedules', 'histories'], 'all output intervals, solvers, process counts and interleavings, including stopped and continued runs',
  'Tests that write results never read them back, and run on one process layout only.',
  [H5] + ALLS, [('schedule of writing', H5+' HDF5File.update'), ('transform before writing', NS+' NSFile.update_components'), ('result fields', S+'MHD.py get_context')])
p('C07', 'Adaptive steps are decided from the global error and end exactly at T',
  'With the adaptive integrator every process takes the same step sizes, and these do not depend on the number of processes. A step is accepted only if its estimated global error is within the tolerance (never if the attempt overflows), a rejected attempt leaves no trace in the state, the step size changes by the embedded error formula within its limits, a callback given to the integrator is called at every attempt with the state it starts from and its right-hand side, and a run in which the first step fits ends exactly at the requested end time.',
  ['schedules', 'configurations', 'inputs', 'histories'], 'all tolerances, initial step sizes (including ones that must be rejected), process counts, reduction orders and initial fields',
  'One test runs one tolerance to one end time and looks at the final energy only; rejected steps and process counts are not exercised.',
  [INT, NS, INIT], [('error estimate and step control', INT+' adaptiveRK'), ('last step', NS+' end_of_tstep'), ('time loop', INIT+' solve')])
p('C08', 'Incompressibility, mean values, reality and walls are preserved at every step',
  'At every step of every run velocity (and magnetic) fields stay divergence-free, and, when the highest (Nyquist) modes are masked, the spectral state stays that of real fields and, without body force, the mean momentum, mean magnetic field and mean density of periodic flows stay constant. With dealiased products and a one-step integrator the kinetic energy of unforced, resolved flow never grows. Channel flows satisfy the wall conditions of velocity and temperature and carry no mean flow through the walls.',
  ['histories', 'configurations', 'schedules', 'inputs'], 'all solvers, configurations, process layouts and initial fields, at every time step, also after restarts',
  'Tests look at one global number after the last step; invariants must hold at each step for each layout and history.',
  ALLS, [('projection', NS+' add_pressure_diffusion'), ('mean mode', KMM+' solve_linear'), ('Nyquist handling', NS+' ComputeRHS')])
p('C09', 'Distributed periodic solvers refine a simple sequential model of their equations',
  'On any process layout each time step of the periodic solvers (Navier-Stokes in four convection forms, velocity-vorticity, magnetohydrodynamics, two-dimensional flow with and without buoyancy) gives, up to round-off, the state that the stated equations give with the stated dealiasing rule and time integrator, including body forces (where the solver takes them) and all physical parameters, on meshes of any size and aspect ratio and for rough fields.',
  ['inputs', 'configurations', 'schedules'], 'all initial fields, parameters, meshes, dealiasing rules, integrators and process layouts',
  'Tests use the smooth Taylor-Green vortex on equal meshes, for which many terms vanish or are not distinguishable, and check one energy value to seven digits.',
  [NS, S+'VV.py', S+'MHD.py', S+'NS2D.py', S+'Bq2D.py', INT, 'spectralDNS/maths/cross.py'], [('convection forms', NS+' getConvection'), ('Elsasser form', S+'MHD.py divergenceConvection'), ('buoyancy', S+'Bq2D.py add_pressure_diffusion'), ('integrators', INT)])
p('C10', 'Optimised kernels change speed, never the flow, on any process layout',
  'Choosing a compiled implementation (Cython, Numba or Pythran) gives, on every process layout and at either precision for which it exists, the same states as the plain NumPy implementation up to round-off at every step, for all solvers, convection forms and integrators.',
  ['configurations', 'schedules', 'inputs'], 'all backends, precisions, solvers, integrators, and all local array shapes that process layouts produce',
  'The tests compare final energies for a few combinations on one layout; kernels loop over local shapes that only other layouts produce.',
  ['spectralDNS/optimization/__init__.py', 'spectralDNS/optimization/cython_integrators.in', 'spectralDNS/optimization/cython_maths.in', 'spectralDNS/optimization/cython_solvers.in', 'spectralDNS/optimization/numba_module.py', 'spectralDNS/optimization/pythran_module.py', 'spectralDNS/optimization/pythran_maths.py'], [('selection of the implementation', 'spectralDNS/optimization/__init__.py optimizer'), ('compiled integrators', 'spectralDNS/optimization/cython_integrators.in')])
p('C11', 'Integrating in several calls gives the same flow as integrating in one',
  'A simulation advanced by consecutive calls that each extend the end time by whole steps passes through the same states, times and step numbers as one call to the final end time, for one-step (fixed step) and implicit integrators; each call leaves step size, state and output files ready for the next, and a call that has nothing to do changes nothing. A multi-step explicit integrator starts each call with its own start-up step.',
  ['histories', 'configurations', 'schedules'], 'all ways to split a run, including empty calls, with and without output, for all solvers and layouts',
  'Every test calls the time loop once per context.',
  [INIT, INT, H5], [('time loop', INIT+' solve'), ('integrator creation', INT+' getintegrator'), ('closing files', H5+' HDF5File.close')])
p('C12', 'Uninitialised or recycled memory never influences a result',
  'No state, result file, checkpoint or report depends on the previous contents of memory: runs in which every fresh allocation holds arbitrary garbage give exactly the same values. Looking at derived fields, the pressure of channel flows included, between steps does not change later states.',
  ['fault_sequences', 'histories', 'configurations'], 'all contents of fresh memory, all solvers and layouts, any sequence of calls that look at derived fields between steps',
  'Fresh memory is usually zero in a short test; only a simulator that owns allocation can make it hostile.',
  ALLS + [INT, UT], [('work arrays', NS+' compute_curl'), ('work arrays reused between terms', KMM+' ComputeRHS'), ('time integrator arrays', INT+' getintegrator')])
p('C13', 'Clocks never influence the flow, and reports combine all processes',
  'Clock skew between machines, jumps of the clock and slow processes change neither states nor files nor the course of a run. The report at the end of each call of the time loop gives the total time and the fastest and slowest step of that call as measured by each process on its own clock, combined over all processes as minimum and maximum; the profile and memory reports combine the figures of all processes likewise. Reports are printed once, by the first process only.',
  ['fault_sequences', 'schedules', 'histories'], 'all clock skews, drifts and jumps (also backwards), stalls of any process, numbers of steps and of calls of the time loop',
  'Tests cannot set clocks and never read the report.',
  [UT, INIT, 'spectralDNS/utilities/create_profile.py'], [('profile report', 'spectralDNS/utilities/create_profile.py create_profile'), ('memory report', UT+' MemoryUsage'), ('per-process sampling', UT+' Timer.__call__'), ('combination', UT+' Timer.final')])
p('C14', 'Derived fields and integrals are right on every process layout',
  'Velocity, vorticity, divergence, channel velocity gradients, pressure and density obtained between or after time steps are the transforms of the current state (the pressure of channel flows balances the wall-normal momentum equation, buoyancy included), with the same global values on every process layout; volume integrals for channel flows are exact for resolved fields and available on the first process on every layout.',
  ['configurations', 'schedules', 'inputs', 'histories'], 'all solvers, layouts, states and quadratures, called at any point between time steps',
  'Tests check an energy integral on one layout for one flow.',
  [NS, S+'VV.py', S+'NS2D.py', S+'Bq2D.py', KMM, UT], [('derived fields', NS+' get_curl'), ('integral over the channel', UT+' dx'), ('channel divergence', KMM+' get_divergence')])
p('C15', 'The stand-alone short solver computes the same flow on any number of processes',
  'The single-file Navier-Stokes program with its own message exchange gives, on every number of processes that divides the mesh and for every interleaving, the same velocity field as on one process, which is that of a sequential model of its equations with its own dealiasing filter and time integrator, for its own initial field and for any other.',
  ['schedules', 'configurations'], 'all process counts dividing the mesh and all interleavings',
  'It is not run by the tests.',
  ['spectralDNS3D_short.py'], [('transposes by all-to-all exchange', 'spectralDNS3D_short.py fftn_mpi'), ('time loop', 'spectralDNS3D_short.py')])
p('C16', 'Disk failures are never reported as success and never damage older data',
  'If reading, writing or opening a checkpoint or result file fails on any process, the run ends with an error instead of carrying on or reporting success, and the last finished checkpoint stays usable. A slow disk changes only the time a run takes.',
  ['fault_sequences', 'schedules', 'crash_points'], 'every single disk operation of every process, the copying of files included, failing with an I/O error or a full disk, and any delays',
  'Tests never inject a disk error.',
  [H5, INIT], [('writing', H5+' HDF5File.update'), ('time loop', INIT+' solve')])
p('C17', 'Every step is taken, counted, reported and timed exactly once',
  'A run with fixed step size takes consecutive steps up to the end time, never beyond it (none if not even the first fits): the step number grows by one and the time by the step size actually used; periodic solvers shorten the last step to end exactly at the end time, channel solvers stop at the last full step that fits. After each step the user is called once on every process, with time, step number and state of that step, before any output of that step, so that a change it makes to the solution is what is stored, and once at the very end.',
  ['histories', 'configurations', 'schedules'], 'all step sizes and end times, also when they do not divide, all start times, integrators, solvers and layouts',
  'Tests use end times that are multiples of the step and check only the final energy.',
  [INIT, NS, H5], [('time loop', INIT+' solve'), ('last step', NS+' end_of_tstep')])
p('C18', 'The C++ program computes the same flow on any number of processes',
  'The C++ program solves the same equations as the Python short solver: from its initial field (or any other solenoidal one put in its place) the velocity after every step is that of the same fourth order Runge-Kutta, dealiased pseudo-spectral scheme, on any number of processes, also when the mesh does not divide or processes get no data. It prints the mesh size and the kinetic energies of the right steps once, from the first process only, and the times it reports are the ones all processes measured.',
  ['schedules', 'configurations', 'fault_sequences'], 'all process counts, mesh sizes, fields, clock readings and interleavings',
  'No test runs the C++ program.',
  ['cpp/spectralDNS.cpp'], [('program', 'cpp/spectralDNS.cpp main')])
p('C19', 'Distributed channel solvers refine a sequential dense model of their equations',
  'For every channel solver, convection form, dealiasing rule, quadrature and process layout, each time step gives the state that the documented scheme (implicit Crank-Nicolson diffusion with Adams-Bashforth or three-stage Runge-Kutta convection, wall-normal velocity/vorticity or coupled formulation, temperature with its boundary values and buoyancy) gives when carried out sequentially with dense systems for every Fourier mode.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'all layouts, meshes, viscosities and diffusivities, step sizes, convection forms, dealiasing rules and quadratures',
  'Tests run KMM with one eigenfunction; RB, Coupled, other convection forms and dealiasing rules are not tested.',
  [KMM, S+'KMMRK3.py', S+'KMMr.py', S+'KMM_RB.py', S+'KMMRK3_RB.py', S+'Coupled.py', S+'CoupledRK3.py', 'spectralDNS/shen/Matrices.py', 'spectralDNS/shen/la.py'],
  [('step', KMM+' integrate'), ('convection', KMM+' getConvection'), ('temperature', S+'KMM_RB.py ComputeRHS')])
p('C20', 'A simulation does not depend on others run before or beside it in one program',
  'When a program makes several simulations one after another, initialises a context anew, or advances two contexts in turns, each simulation takes the same steps to the same states and leaves the same files as if it were alone: no state is left over in modules, caches, work arrays, integrators or files (only callbacks that the program itself installed on a solver stay installed).',
  ['histories', 'configurations', 'schedules'], 'all sequences and interleavings of simulations with any solvers, meshes and integrators',
  'Each test is one simulation after a reset; nothing compares it with a fresh process.',
  [INIT, 'spectralDNS/config.py', UT, H5, S+'spectralinit.py', 'spectralDNS/maths/integrators.py', 'spectralDNS/optimization/__init__.py'],
  [('time loop', INIT+' solve'), ('integrators', 'spectralDNS/maths/integrators.py getintegrator'), ('optimised kernels', 'spectralDNS/optimization/__init__.py')])
p('C21', 'The demonstration programs report and store the same on any process layout',
  'Each demonstration program, with any solver, decomposition, dealiasing, integrator and backend it accepts, prints the same report once (from the first process) and leaves the same files on any number of processes, and can be continued from its own checkpoint, on any layout, as if it had not been stopped. A program that stops itself because its solution diverges does so on all processes.',
  ['configurations', 'schedules', 'histories'], 'all layouts, interleavings, meshes and options of the programs',
  'Tests use their own copies of two flows, on at most four processes, and look at one energy.',
  ['demo/', 'spectralDNS/utilities/__init__.py', INIT], [('forced turbulence', 'demo/Isotropic.py update'), ('statistics', 'demo/MKM.py Stats'), ('continuing', 'demo/RayleighBenard.py init_from_file')])
p('N18', 'Command-line and dictionary parameters are parsed as documented',
  'Every documented parameter can be given in a dictionary or on the command line and reaches the solver with the documented type, default and precedence.',
  ['inputs'], 'all parameter settings', 'Tests set a few parameters only.',
  ['spectralDNS/config.py'], [('parsers', 'spectralDNS/config.py parser')])
p('N19', 'Wall-normal linear solvers solve their banded systems for every right-hand side',
  'The Helmholtz, biharmonic and derivative operators used in the wall-normal direction agree with their dense matrices for every size, coefficient and right-hand side.',
  ['inputs'], 'all sizes, coefficients and right-hand sides', 'Tests use a few sizes and random vectors.',
  ['spectralDNS/shen/LUsolve.pyx', 'spectralDNS/shen/Matrices.py'], [('matrix operators', 'spectralDNS/shen/Matrices.py HelmholtzCoeff')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
