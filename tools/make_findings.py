"""Writes /verif/known_findings.json: known findings by hand below, fixed ones from the fix commits of /repo (run by hand)."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    {'property': 'C04', 'probe': 'known_fixed_file_first_day',
     'what': 'AnnualBatchDays with an undated file and a StepAnnual that starts after midnight (2000-01-01 12:00) gives the first day no file; in examples/placeholder.py, which counts as a test file and may not be changed here'},
]
# property of each fix commit, by a distinctive part of its subject
OF = [line.split(' ', 1) for line in """
C01 count microseconds
C02 take tag values known from the parent
C03 keep apart parent directories
C07 restrict a catalogue build
C05 read lists of numbers and times
C05 keep the position of missing
C05 keep members equal to zero
C05 save a date held
C05 save a table of strings
C05 save lists of objects
C04 do not assign files of the day before
C04 keep the last seconds of a year
C06 run operations whose run module
C06 count operations of batch
C06 run no operation when
C06 run the outer operation
C06 list operations that have NumPy
C06 run operations whose allowed missing
C06 load catalogues having an operation
C06 count of cycle points requested
C08 read the pointers of a location
C08 refuse raw binary observations
C08 refuse raw binary files that are cut short
C09 report the least uncertainty
C10 refuse coordinates just before
C10 put observations at the north pole
C10 keep zeros and refuse overflow
C09 combine diagnostics when a source
C10 load satellite files whose auxiliary
C13 do not store a measurement
C13 leave stored measurements as they are
C13 add the solution of a nonlinear system
C13 read and write the samples of delayed
C13 solve nonlinear and sampled delayed
C13 read and write samples through filename
C12 find a triangle for points on vertices
C14 refuse singular matrices with
C14 import what the traces
C14 compute partial inverses of matrices
C09 put observations within rounding error
C17 allow lattices whose dimensions
C17 number nodes of lattice
C17 wrap circular dimensions
C17 apply the operator once more
C17 evaluate basis functions once
C15 allow factor elements in
C15 interpolate covariates on grids
C16 give general hyperparameters
C18 keep apart the times of delayed
C18 store measurements of several times
C19 keep the order of latitudes
C19 compute spread of samples
C21 recognise the same measurement time
C21 refuse measurements of unknown
C22 keep main and ancillary
C22 merge sources which have
C22 write merged files beside
C23 report attributes of another
C24 run ice model on inputs
C25 read break points from files
C26 set window and calendar flags
C26 compute window means on
C26 describe every quality flag
C26 compute areal statistics
C26 find quality control flags
C27 apply quality control once
C27 give a mask per observation
C27 prepare stations with altitude
C27 read ship files which
C27 return empty observations
C27 keep lakes at different
C27 read lake files which
C29 observations from gridded files in which
C29 comment of land output calls
C29 land model cannot be run
C29 ocean model cannot be run
C24 ice model fails when run
C29 minimum above maximum is kept
C30 script submitted to solve components
C30 stages of optimisation submitted
C30 creation of raw binary files passes
C27 prepare lake observations
C32 inspect ocean satellite input
""".strip().splitlines()]
fixed = []
for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    commit, subject = line.split(' ', 1)
    if subject.startswith('fix:'):
        owner = [p for p, part in OF if part in subject]
        assert len(owner) == 1, (subject, owner)
        fixed.append('fixed: property=%s %s %s' % (owner[0], commit, subject[5:].strip()))
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as stream:
    json.dump({'known': KNOWN, 'fixed': fixed}, stream, indent=1)
    stream.write('\n')
print(len(fixed), 'fixed', len(KNOWN), 'known')
