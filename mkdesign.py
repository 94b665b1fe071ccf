"""Writes DESIGN.md from props.py, the checks themselves, known_findings.json, seeded/ and the texts below (run by hand)."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
os.environ.setdefault('MPLBACKEND', 'Agg')
from vlib import core
core.specula_init()
import props

HEAD = '''# DESIGN

SPECULA is a simulator: a user writes parameter files, runs them, and believes the numbers. The properties listed here are the
guarantees behind that belief, over all the parts of the package: the machinery that runs a simulation (C01-C06, C25, C26),
the arithmetic of its data objects and helper libraries (C07, C21, C22), every simulated device (C08-C20, C23), the calibrators (C24) and
the displays and monitors (C27). (This file is written by `mkdesign.py`: texts, tables and numbers come from the checks themselves.)

## Machinery

* **Technique**: property-based testing with Hypothesis everywhere: structured generators for systems, histories and inputs, shrinking to a minimal
  case, an explicit oracle for each family. No property is left to another technique (`not_applicable` is empty).
* **Where**: `checks/cNN.py` holds the families of one property; `vlib/core.py` runs them, `vlib/drive.py` drives components of the code under test through a
  real `LoopControl` (with sources that refresh, skip and change their outputs as the case says) and records every output and its
  generation time at every step; `run.sh CNN quick|thorough [--family NAME] [--replay FILE]` is the only entry point. `props.py` + `mkmeta.py` write `properties.jsonl` and
  `MANIFEST.json`. Nothing is built: the package is pure Python and is imported from `/repo` as it is (`VERIF_REPO` points elsewhere for
  experiments).
* **Oracles** are written from the definitions (documentation, papers, docstrings), in double precision, mostly as direct sums or dictionary interpreters
  which are far too slow for the product but cannot share its mistakes. They read only public attributes and outputs, so that refactorings stay quiet; what the tests use is taken as public.
* **Precision**: SPECULA works in single precision by default and in double on request: families marked with a `double` share run in both (in separate processes, since
  the precision is global). Tolerances follow from the precision and the size of the quantities, never from the difference seen.
* **Crashes** of the code under test on a valid input are violations. So are results the check cannot read (a file that was not written, an entry that is missing, a shape that
  does not fit): the unchanged tree gives none in any run. Missing modules and a full disk, memory or file table are harness errors, which exit with code 3 and never print
  a VIOLATION line. Inputs that must be refused are checked too (`raises`).
* **Evidence** (`evidence/CNN.json`): cases run, distinct non-trivial cases by the stated rule of each family, classes of cases, samples.
* **Replays** (`replays/CNN-family.json`): the shrunk case, re-run by `run.sh CNN --replay FILE`.
* **Known findings** (`known_findings.json`): a listed finding is a zero-generator family that replays exactly that case, expects it to fail, and prints `KNOWN-FINDING`; the
  generators of the other families avoid exactly that region, stated below. Fixed defects are listed as `fixed:` lines, which suppress nothing.
* **Runs**: Hypothesis runs from a seed (`VERIF_SEED`), deadline and database off; families run in parallel on the cores. `vlib/effort.json` (written by `mkeffort.py` from measured
  times) multiplies the quick number of cases of cheap families, up to five times, so that every family of a check gets a similar share of its time, and splits the long ones
  into shards with seeds of their own. Quick runs take 20 to 60 s each on 8 idle cores; thorough runs execute 10 to 30 times the cases of the table.
  Every check writes only to scratch folders that it makes and removes.

## What the family cannot reach here

GPU code (no device), MPI runs (no MPI), the browser side of the display server, drawing of windows (only the contents of figures). Not decided, by choice:
LIFT and SPRINT (iterative estimators which diverge for a fair share of valid inputs: no property of every input to state), the adaptive vibration canceller (a stub),
the obstruction of `FocalPlaneFilter` (undocumented unit). Exclusions inside a property are given with it.

'''

TAIL = '''
## Mutation campaign

Besides the seeded bugs, {mut}

## Seeded bugs

Each was written from the text of a property and the code, with a demonstration, and confirmed in a scratch copy (existing tests pass, demonstration fails with the change
and passes without it). "caught by" gives the families which reported it at quick tier.

| id | property | needs | caught by |
|---|---|---|---|
{rows}

Some candidates broke the repository's own tests and were dropped (start of the integration windows, digits of the clock, deformable mirror cache, dotted tags, resize of interleaved slopes): the
tests do cover those.

## Weak spots and decisions

* C05: with down-sampling in chunks, an extra folder written at finalize that repeats only the last step's samples is accepted.
* C15: layers exceed the pupil by an even number of pixels; magnification not smaller than one. C14: phases constant along the first and last columns while the unwrapping finding is listed.
* C21: the piston of modal base modes is not compared in the reduced basis. C22: extrapolation is judged on constants, planes, and the documented two-reference average.
* C23: laser kernels are compared only when the spot is in sight. C24: the detection of the central obstruction is only bounded.
* C26: twins are skipped for ExtSourcePyramid, and its change of a four-row input is excluded narrowly (finding; an existing test requires the four extra points).
* C02: windows are compared at 4e-4, since the inputs are in single precision and sums may be long.
* C27: SpotMonitor is judged on spots wider than 1.5 pixels over a positive sky: narrower ones have several local minima.

Seen and left alone (no observable guarantee is documented, or the repair is a design decision): FieldAnalyser `end_time` is unused; aliasing of ModulatedDoubleRoof rotations; `PolyChromWFS` tilt n/(n-1);
precision of PSF references; `EFInterpolator` no-op `update_parameters`; NaN fluxes of a dark SH; ImCalibrator `single_im`; `Intmat.generate_rec` ignoring `cut_modes`;
`RecCalibrator` ignoring `first_mode`; `modal_pushpull` `min_amplitude`; concatenations of BaseOperation in double precision; `PowerLoss` computed from diameters, not areas; displays which keep showing an
error once they have shown one; Modalrec from an interaction matrix without POLC; `Recmat.modes2recLayer`; GainOptimizer running mean; CCD `excess_delta` other than one; `ElectricField.sub_ef`; magnified layers with masks; non-square DM masks.
'''

exec(open(os.path.join(here, 'designdoc.py')).read())     # DOC: what each family decides; MUT; CAUGHT
kf = json.load(open(os.path.join(here, 'known_findings.json')))
out = [HEAD, '## Properties\n']
missing = []
for p in sorted(props.PROPS, key=lambda p: p['id']):
    m = importlib.import_module('checks.' + p['id'].lower())
    C = m.CHECK
    out.append(f"### {p['id']} {p['title']}\n")
    out.append('**Specified.** ' + ' '.join(p['statement'].split()) + '\n')
    out.append('**Decided by** ' + ' '.join(p['technique'].split()) + '.\n')
    out.append('| family | cases quick / thorough | oracle |\n|---|---|---|')
    dbl = {f.name[:-7]: f for f in C.families if f.name.endswith('_double')}
    for f in C.families:
        if f.name.endswith('_double') and f.name[:-7] in [g.name for g in C.families]:
            continue
        d = DOC.get((p['id'], f.name))
        if d is None:
            missing.append((p['id'], f.name))
            d = ' '.join((f.fn.__doc__ or '').split())
        n = 'replay of the finding' if not f.quick else f'{f.quick} / {f.thorough}' + (f' (+{dbl[f.name].quick} / {dbl[f.name].thorough} double)' if f.name in dbl else '')
        r = f.rule
        out.append(f"| {f.name} | {n} | {d}{' Counted as non-trivial: ' + r + '.' if r and f.quick else ''} |")
    out.append('\n**Bounds.** ' + ' '.join(p['note'].split()) + (' Assumed: ' + '; '.join(C.assumptions) + '.' if C.assumptions else '') + '\n')
    out.append('**Beyond the tests.** ' + ' '.join(p['why'].split()) + '\n')
    for f in kf['findings']:
        if f['property'] == p['id']:
            out.append(f"**Known finding** `{f['id']}`: {f['what']}\n")
    fx = [l.split(' ', 2)[2] for l in kf['fixed'] if f"property={p['id']} " in l]
    if fx:
        out.append(f'<details><summary>{len(fx)} defects found and repaired</summary>\n')
        out += ['* `' + l.split(' ', 1)[0] + '` ' + l.split(' ', 1)[1] for l in fx]
        out.append('\n</details>\n')
rows = []
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    j = json.load(open(os.path.join(d, 'meta.json')))
    rows.append(f"| {os.path.basename(d)} | {j['property']} | {' '.join(j['needs'].split())} | {CAUGHT.get(os.path.basename(d), '?')} |")
out.append(TAIL.format(rows='\n'.join(rows), mut=MUT))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
print('no text for', missing)
