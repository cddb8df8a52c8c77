"""Writes MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation with fault injection: '
NOTE = {
 'C01': ('seeded rank schedules on a simulated MPI, every state compared with one rank',
         'Searches solver configurations, rank counts 1-7, slab and pencil layouts and schedules; compares all spectral states after every step. Sampled, not exhaustive; small meshes.'),
 'C02': ('seeded rank schedules, collectives matched call by call, deadlock detection',
         'Every collective of every run is matched by name, order and arguments; profiling, early ends, stop requests and outputs mixed in. Bounded number of operations as liveness.'),
 'C03': ('simulated stop and restart on other layouts, trajectory compared with the uninterrupted run',
         'Interruptions at every step of short runs, chains of restarts on changing rank counts and decompositions.'),
 'C04': ('seeded crash points with torn, lost and reordered disk writes, repeated crashes and restarts',
         'Crash points concentrate on disk operations; HDF5 is simulated at the level of calls, not of bytes.'),
 'C05': ('stop file appearing between any two simulated events, with stale folder views per rank',
         'Instants sampled over all events of a run and concentrated on folder operations.'),
 'C06': ('simulated parallel output under seeded schedules and slow disks, files compared with transforms of recorded states',
         'Intervals, slices, continued runs; small meshes.'),
 'C07': ('adaptive step control replayed against a sequential controller model under seeded schedules and reduction orders',
         'Step sequences on several ranks compared with model and one rank; decisions too close to call are excluded explicitly.'),
 'C08': ('invariants evaluated at every step of seeded simulated histories, including restarts',
         'Divergence, means, reality, energy, wall conditions on all solvers.'),
 'C09': ('refinement of a sequential reference model at every step under seeded schedules',
         'Independent numpy model of all periodic solvers, integrators and dealiasing rules; rough random fields, uneven meshes.'),
 'C10': ('seeded schedules and layouts, compiled kernels against plain NumPy at every step',
         'Cython, Numba and Pythran modules as far as they can be built here, both precisions.'),
 'C11': ('seeded histories of consecutive solve calls compared with a single call',
         'Random splits, empty calls, output, layouts.'),
 'C12': ('hostile contents injected into fresh memory and into work arrays between steps, histories compared',
         'numpy.empty and malloc are owned by the simulator; work arrays scrambled between steps.'),
 'C13': ('clock skew, drift, jumps and stalls injected per rank; report compared with recorded clock readings',
         'All clocks are simulated; the report is parsed from what each rank prints.'),
 'C14': ('derived fields requested at seeded points of simulated histories, compared with transforms of gathered states',
         'Periodic fields against numpy.fft, channel fields and integrals against polynomials known exactly.'),
 'C15': ('the program itself executed on simulated ranks under seeded schedules, against a sequential model',
         'Real program text with small constants; all process counts up to 8 that divide the mesh.'),
 'C16': ('I/O errors, full disk and slow disk injected into seeded disk operations of any rank',
         'Every injected failure must surface; the checkpoint left is checked and continued from.'),
 'C17': ('seeded histories with end times on and off the step grid, calls on every rank compared with the demanded sequence',
         'Also start times and numbers that are not zero and a user who changes the solution.'),
 'C18': ('the C++ program itself on simulated ranks under seeded schedules and clock faults, against a sequential model',
         'Compiled against stand-ins for MPI and FFTW-MPI; uneven meshes, processes without data, rough fields.'),
 'C19': ('refinement: channel runs on simulated ranks under seeded schedules, every step against a sequential dense model',
         'The model shares nothing with the code but the equations and the basis; one dense system per Fourier mode.'),
 'C20': ('seeded sequences and interleavings of simulations in one program on simulated ranks, each against the simulation alone',
         'States after every step and files; contexts re-initialised, advanced in turns, different solvers, integrators and backends.'),
 'C21': ('whole demonstration programs on simulated ranks under seeded schedules, report and files against one process; continued from checkpoints',
         'Unchanged source and command line; only plotting and random numbers are replaced.'),
}
checks = []
for k in sorted(NOTE):
    if os.path.exists(os.path.join(H, 'props', k+'.py')):
        lev = 'fault_enumeration' if k in () else 'exploration'
        checks.append(dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k,
                           technique=T+NOTE[k][0], level=lev, level_note=NOTE[k][1]))
na = [
 dict(property='N18', reason='Parsing is a pure function of its input, executed once before any process communicates: no schedule, clock, disk or fault for a simulation to vary.'),
 dict(property='N19', reason='Wall-normal solves are local to a process and a pure function of matrix and right-hand side; no interleaving or fault enters. (Their effect on the flow is covered where it meets process layouts: C01, C08, C14.)'),
]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo: all seams are Python modules (mpi4py, h5py, time, os, numpy allocation) replaced inside the simulating process.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
