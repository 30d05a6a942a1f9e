"""writes MANIFEST.json from the property modules that exist"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'deterministic simulation with fault injection: seeded search over '
COMMON = ('Seeded exploration, no proof: bounded machine sizes; the compiler is off '
          '(NUMBA_DISABLE_JIT=1, the only mode that runs here), so the Python source of the kernels is executed. ')
N = {
'C01': ('draws at exact acceptance thresholds and whole sweeps, against an enumerated posterior',
        'Oracle: full conditional by enumeration of both values from the logical definition; detailed balance accepted for any Gibbs-type kernel.'),
'C02': ('layered machines with controlled draws, against an enumerated posterior',
        'Oracle: sum of prior, child likelihood and one term per parent layer from the definition. Upper layers use the eight canonical families with two factors.'),
'C03': ('histories of rate changes and runs with draws at exact thresholds',
        'Oracle: max-rate emission model in double precision; rate ratios are single precision (tolerance 1e-4).'),
'C04': ('chains whose every dispersion update is compared with the closed form',
        'Oracle: recount of correct predictions from the definition; greedy MAX-AND rates with all tie branches.'),
'C05': ('fixing patterns x draws x faults at every kind of point',
        'Invariant at every update, over the recorded samples and after each fault. Clean-up off, non-parametric model excluded.'),
'C06': ('crash points, failing allocations and terminal writes, and the runs after them',
        'Validity invariant at every update and after each fault; next run must complete.'),
'C07': ('runs with observed iterations versus recorded traces, after earlier and aborted runs',
        'History check: trace = states at ends of the observed iterations.'),
'C08': ('window lengths, tolerances, heap garbage and draw sequences; model of the burn-in loop',
        'Reference model replays the observed dispersions and predicts the iteration at which burn-in ends; runaway loops end in a step budget.'),
'C09': ('annealing schedules observed at every factor update',
        'History check of the dispersion at every iteration.'),
'C10': ('environments (hash seed, heap, clock, earlier work, terminal, process) for one program seed',
        'Processes with different simulated environments must produce one digest. Uses the real generator of numpy seeded by the program.'),
'C11': ('interleavings of row-parallel workers at single byte-codes, against sequential execution and the logical definition',
        'Parallel loops are re-created as worker threads under a baton scheduler from the function source; compiled code itself is not run.'),
'C12': ('histories of runs, changes and faults; differential against a fresh machine with the same draws',
        'Refinement: continued machine and fresh machine from a snapshot must agree exactly.'),
'C13': ('histories, techniques and model names; outputs against the definition, faults while computing',
        'Oracle: products and exact probabilities from the logical definition for all 36 names.'),
'C14': ('factor states with redundancy, clean-up under failing allocations, converged burn-ins',
        'Oracle: set of admissible survivors computed from the definition of redundancy.'),
'C15': ('thread interleavings at source lines of machines sharing data, against solo runs',
        'Per-thread draws are keyed, so that only interference between machines can change a result.'),
'C16': ('worker counts, chunkings, completion orders and worker failures of a simulated process pool',
        'Pool stub pickles tasks and results and forks the random state per worker; the search, splits and inference are real.'),
'C17': ('draws incl. extreme ones for splits and noise',
        'Oracle: set relations between input, output and mask; expected flips computed from the very draws.'),
'C18': ('a simulated external solver that fails, stalls or tears its output, and a full disk',
        'Stub for the external program; exchange files are real, in a scratch directory.'),
'C19': ('extreme dimension-creating draws, repeated and aborted runs of the non-parametric model',
        'Invariants at every update and over the recorded samples.'),
'C20': ('draws at exact acceptance thresholds, at the boundaries between quorum values, and whole sweeps',
        'Oracle: conditional by enumeration of the values of an entry or quorum from the definition; any Gibbs-type kernel for entries and any kernel that leaves the conditional invariant for quorum values is accepted.'),
'C24': ('many splits and predictions under seeded draws, incl. those of machines trained on the visible entries',
        'Oracle: pair counting over the hidden entries; predictions elsewhere are replaced and mapped monotonically.'),
'C23': ('many simulated data points from factors drawn by the library under seeded draws',
        'Oracle: relative frequency of ones (6 standard deviations of 30000 points) against the closed form; errors below that resolution are not seen.'),
'C22': ('many simulated runs started at exact draws from the enumerated joint posterior',
        'Oracle: enumerated joint posterior; the distribution of the last recorded sample is compared by chi-square tests at p<1e-10 with fixed seeds. Wrong laws below statistical resolution are left to C01-C03 and C20. Non-parametric model excluded.'),
'C21': ('scripted draws, one after another put at the boundaries of each decision of an update',
        'Oracle: executable reference of the process under the same draws; if draws are used in another order, frequencies of 2500 simulated updates are compared with the reference. Two new dimensions at once are drawn one after another, as in the code (not their joint conditional).'),
}
NA = {
'N01': 'Pure functions of their arguments: no schedule, time, I/O, randomness or history for a fault to act on. '
       'Deterministic simulation adds nothing over enumeration of inputs. The operators are exercised indirectly as part of C11 and C13.',
}
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif not os.path.exists(os.path.join(ROOT, 'sim', 'props', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='check under construction'))
    else:
        t, note = N[pid]
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid,
                           thorough_cmd='./check %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique=T + t, level='exploration', level_note=COMMON + note))
m = dict(version=1, setup_cmd='./check --setup',
         hooks=dict(guard='NUMBA_DISABLE_JIT',
                    enable='no hooks were added to /repo; seams are installed from /verif by patching numpy, numba and the process pool before lom is imported',
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes='See DESIGN.md. Every check runs the Python code of /repo (or $LOM_REPO) as it is in the working tree; nothing is built.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
