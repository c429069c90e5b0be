import json,glob,os
head = '''# Runtime verification of pearu/gcs

Family: runtime monitoring. gcs is pure Python without native code or threads of its own, so compiler
sanitizers and race detectors have nothing to instrument here; the deciding step is always an
*oracle observing executions of the real code*, imported from /repo's working tree: reference-model
monitors (a dense model written without gcs), online history checkers (write histories against a cell
model with aliasing), structural invariant monitors on every object handed out, instrumented value and
index sequences behind the arrays (counting, failing, tracking), weak references as leak sanitizer,
fault and interrupt injection at executed lines, interleaving and thread schedulers with forced
switches, and comparison of transcripts of the same history between interpreter modes.

All 37 properties are decided by this family; none is listed as not applicable. Level claimed:
`exploration` throughout (evidence of absence of violations on what was driven; no proof).

## Machinery

* `check.py PROPERTY` runs one property; `VERIF_SEED`, `VERIF_TIER` select the run. `--replay FILE` runs
  the one case of a recorded violation again. `--selftest` (setup_cmd) checks the reference model
  against nested Python lists without touching gcs.
* `vf/core.py`: the runner. A *case* is (workload, number), its random generator is seeded by
  (property, seed, workload, number) only, so that cases do not depend on scheduling and replay alone.
  Cases run in 8 worker processes, each with a 3 GB address-space limit. A case that takes more than 60 s
  of wall time is run again under a budget of executed repository lines (`sys.monitoring`), so that slow
  machines never produce an alarm and non-termination does. Verdicts: held (0), violated (1), or
  inconclusive (2: a watchdog fired, or a deciding monitor saw no event at all - `REQUIRED_EVENTS`).
  The modules under test are loaded from /repo with bytecode caches disabled, and their
  location is checked.
* `vf/model.py`: dense arrays as shape + list of cells, with CPython's `range`/`slice` as the only source
  of index arithmetic; random shapes, indices, values (falsy, equal-but-not-identical,
  equal-of-other-type, tokens), placeholders, densities, storage formats and dimension mappings.
* Evidence (`evidence/Cnn.json`, rewritten by every run): cases, distinct non-trivial cases, monitor events by
  kind, distinct states, and the functions and lines of /repo that the workload reached.
* Judging what the code does: monitors use documented classes and functions and their results only.
  Non-public helpers (`init_diophantine`, `get_position`, ...) are looked at where a property is about
  them, under `hasattr` where they might be renamed.
* No hooks: nothing in /repo is instrumented.

## Per property: how it is decided

| id | events observed | oracle | workload / reach |
|----|-----------------|--------|------------------|
| C01 | results of `reduced`, `nitems` | `range(size)[slice]` of CPython | every slice of a small box (sizes to 14; thorough 26) + random sizes/bounds/steps to 10^40 |
| C02 | (shape, strides, offset) from normalise+apply, and single-step | positions enumerated against per-axis `range` selection, composed | random N-d shapes, arbitrary integer strides, chains of 1-4 indices; huge extents sampled |
| C03 | `diophantine`, `extgcd` answers | substitution (soundness); gcd of minors = 1 and differences in the lattice, by exact integer determinants (completeness) | all tuples to length 2-3 in a box; random to 12 coefficients; coefficients of 700 digits, Fibonacci pairs |
| C04 | `solve_index`, `get_position`, `get_slice_index`, ... | dict position -> index made by enumeration | contiguous / permuted / sliced layouts, every position in and around the range; solver data reused and interleaved between look-alike layouts; huge layouts sampled |
| C05 | `array.shape`, `array[i]` | dense model, identity of values | formats x shapes (to 7 dims) x densities x value kinds; sources that are arrays, or lists of arrays; explicit shape + index map; long rows |
| C06 | `elements()`, `size`, `is_full()` | dense model | constructed and sliced arrays, many rows |
| C07 | slices, slices of slices | dense model sliced by `range` objects | chains to depth 6, long axes, writes in between |
| C08 | index structures of every array handed out | invariants: in range, strictly increasing, counts, row pointers | histories of 1-10 operations on a population |
| C09 | converted arrays | dense model; direct construction | random walks of 1-6 formats, also from views; arrays assembled from index arrays with huge extents; flattening |
| C10 | read-back of the whole array after each assignment | dense model with list semantics | histories of 1-12 assignments; overlapping views as sources; enough stored elements for bisection |
| C11 | reads through every live view after every write | cell model (view = tuple of cells) | growing view families, interleaved writers and readers |
| C12 | elements of all members after every write | alias-free model | copies, conversions, nested sources; large arrays |
| C13 | `equal`, `==`, `!=` | dense model comparison | equal, one-difference, shape, placeholder, sliced, assembled (huge), holes written over |
| C14 | storage array contents, `reduce`/`promote` | documented formula, bijection count | permutations x partitionings x formats; exhaustive small shapes |
| C15 | DM slices | dense model | chains to depth 5 over all mappings; one axis at a time |
| C16 | reads through parent/slices after writes; reads counted by a spy sequence | cell model | DM view families |
| C17 | towers of DM | dense model | depth 2-4, all base formats |
| C18 | `reduction`/`promotion`/metadata | documented formula, bijection | exhaustive small shapes + random + huge |
| C19 | `compress`/`uncompress` | counting oracle | exhaustive short sequences; random sorted sequences |
| C20 | windows | list + offset model | window families, writes, refusals |
| C21 | placeholders | dense model with re-labelling | chains of build/convert/copy/slice with placeholders of all kinds |
| C22 | snapshots around reads, identities of lists behind arrays | snapshot equality, repeated answers | random reads over shared populations; tools |
| C23 | yields of interleaved iterators, thread results, forced switches counted | solo run | random schedules; 2-5 threads with forced switches at repository lines |
| C24 | `get_versions()` of run time and build time, `setup.py --version`, built and packed files | model of the history; reference renderer | generated git histories, archives, plain directories, asked from elsewhere, under settings of the user and in the environment of another repository |
| C25 | operations on empty arrays | dense model | zero extents, nothing stored, slices selecting nothing, chains |
| C26 | `len`, iteration, IndexError | dense model | in/out-of-range integers on each axis, after writes |
| C27 | look-ups/slices/enumeration at scale | dict model | index spaces to 10^60, to 3000 stored elements in clustered, skewed and border patterns; behind DM too |
| C28 | `repr`, `str` | `eval` + object equality; reference text of buffers and strided arrays | arrays of every format after slicing, copying, writing; nothing printed may fail |
| C29 | accesses of counting sequences, per operation | bounds stated in the property (log N per dimension for look-ups, linear in stored elements for slices...) with slack factors | large stored sets and extents |
| C30 | state of a population after failures | cell model: reads leave everything, failed writes change addressed cells to assigned values only; follow-up operations judged in full | errors at random accesses of value/index/source sequences, in value comparisons, at random executed repository lines (interrupts), refused indices, short sources, abandoned iterators |
| C31 | identity of values carried; forbidden methods of values | dense model by `is` | values that raise on any method but `==`; unusual standard objects |
| C32 | weak references to values, arrays, sequences after `gc.collect` | reachability model: what live arrays may hold | histories with drops, failures, abandoned iterators |
| C33 | error or not; state after | control request that must be met, and the flawed request that must be refused | six kinds of request |
| C34 | transcripts of histories in fresh processes | equality between modes | -O, -OO, hash seeds, -X dev, -W error, other directory, other order, alone, repeated |
| C35 | every element of copies and pickles, also in another process, after writes on either side | cell model with sharing | collections of arrays, views, copies, conversions, buffers; protocols 2-5 |
| C36 | values at reported positions; recorded traversals | dense model | built, sliced, written arrays; huge compressed index spaces |
| C37 | tracked files, modes, refs and versions around every build; modules, version and answers of what was built | byte comparison; version model of C24 | checkouts in any state in scratch directories; builds of every kind in random order from different directories; set-up with files missing |

Why this reaches what the tests cannot: the 346 tests compare about a dozen fixed small arrays; the
monitors above judge every element of tens of thousands of generated arrays per run, in histories (views,
writes, failures, interleavings) that no test builds. Quick runs take 4-60 s each, thorough ones
up to 25 minutes.

## Findings on pearu/gcs

Fifteen genuine defects were repaired ("fix:" commits; `known_findings.json` lists each with its
commit), three are recorded as open:

* C06 `dm-slice-size`: a slice of a DM array reports the size of the storage behind it. The repair would
  need a count of the stored elements inside the window: more than a small patch.
* C10 `unspecified-write-dropped`: compressed formats silently drop writes to elements they do not store.
  Supporting insertion (or refusing) is a design decision of the maintainer.
* C24 `archive-branch-name`: versioneer's heuristics for old git takes branch names for tags.

The checks recognise exactly these mechanisms (an unstored element of compressed storage keeps its
placeholder; the size of a DM slice equals that of its storage; a branch with a digit on an untagged
archived commit), report everything else, and print KNOWN-FINDING lines when they were observed.

## False alarms met, and what was corrected

Machinery or statement was wrong, and was changed; none is listed as a finding.

* C09: object equality of a converted array with the directly built one does not hold when the conversion hands a
  view through (Strided to Strided); the statement excludes it.
* C10: writing the placeholder to a hole of a compressed array changes nothing visible.
* C20: negative bounds are relative to the window and widen it; the model first clipped them.
* C21: tuples are sequences, so `()` cannot be a value; replaced by a `frozenset`. A `None` value in an array with
  another placeholder has no nested-sequence form.
* C25: arrays with different (empty) shapes are different; the model compared contents only.
* C08 (all): the largest generated cases executed some 4e7 repository lines, as many as the logical step budget
  allowed before a case counts as not terminating; the budget is 1.5e8 lines now and those cases are smaller.
* C24: the harness removed `.gitattributes` in a copy and then took the missing keywords for a defect.
* C06/C29: a DM array enumerates all elements, stored or not, so that enumeration looks at all of them.
* C28: zero extents have no sequence form; the offset of an empty slice is arbitrary.
* C32: a slice of a DM array over compressed storage, and a copy of it, hold the whole storage mapped.
* C33: a bare `bytes` index and writes to unstored elements (the C10 finding) are not refusals to be judged.
* C34: `-W error` turns the deprecation warning of two helpers into errors; those are not called there.
* C09, C13, C21, C26: statements were narrowed where they claimed more than the library documents.

## Left out on purpose

Class `C2SR` (a stub); steps of 0, which CPython refuses and gcs accepts; additional trailing `None` index
components; ragged sequences with later rows that are too long (truncated); negative sizes or offsets of
buffers; assertions and debugging prints; placeholders that are not equal to themselves (NaN);
`get_index`'s unused offset argument; writing to a window while enumerating it lazily; buffer indices before
the start of the values; a git checkout nested in a foreign one; the missing `requirements.txt` that
`setup.py` wants outside conda builds (the checks set `CONDA_BUILD`).

## Planted bugs

`seeded/`: each was written from the property text and the code, passes the 346 tests, and has a
demonstration. `tools/catch.py` runs checks against them in scratch copies; `tools/mutate.py` generates one-site
mutants, also *conditional* ones that are in effect only when a trigger fires (four or more dimensions, extents
beyond 32, certain operand values, the 300th call, ...), to look for blind spots. Misses that led to
stronger checks: aliasing writes to large arrays (C12, sizes), look-ups in long rows (C27, skewed patterns),
stored placeholders (C13 `holes`), huge indices in conversions (C09 `assembled`), index maps (C05 `mapped`).

| bug | property | what it breaks | caught by |
|-----|----------|----------------|-----------|
'''
catch={}
p='/tmp/x/catch.json'
if os.path.exists(p): catch=json.load(open(p))
rows=[]
for d in sorted(glob.glob('/verif/seeded/*'),key=lambda d:int(os.path.basename(d).split('-')[0][1:])):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    c=catch.get(n,[m['property']])
    c=sorted(set(c)|{m['property']})
    rows.append('| %s | %s | %s; needs: %s | %s |'%(n,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),' '.join(['**%s**'%m['property']]+[x for x in c if x!=m['property']])))
open('/verif/DESIGN.md','w').write(head+'\n'.join(rows)+'\n\nB33, B36 and B79 change only lines that the repairs added, and so do not count as planted bugs; they are kept as tests\nof the checks.\n')
