#!/usr/bin/env python3
"""Authoring helper: writes /verif/properties.jsonl from the table below."""
import json, os
P = []
ST, SG, GB, VE = 'gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py', 'gcs/_version.py'


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


p('C01', 'Slice reduction selects exactly what Python slicing selects',
  'For every slice object with a non-zero step and every axis size (zero included), the reduced slice selects the same items in the same order as the original slice does on a Python list of that size, and the item count reported for it is the length of that selection. '
  'The reduced slice is fully concrete (integer start, stop and step), and the k-th selected item is (start mod size) + k*step. '
  'Reducing an already reduced slice again selects the same items.',
  ['inputs'], 'all slices (start, stop, step each absent or any non-zero-step integer, however large) and all sizes >= 0',
  'test_reduced enumerates sizes 1..9 and bounds within 10 of the size; it never tries size 0, huge sizes/steps or large size/step combinations.',
  [ST], [('reduced', ST + ':reduced'), ('nitems', ST + ':nitems')],
  observe=['reduced(s, size)', 'nitems(s, size)'])

p('C02', 'Index normalisation and strided views address exactly the selected elements',
  'Normalising any index (integers, slices, omitted or None axes) against a shape and applying it to strided storage yields a new shape, strides and offset whose addressed positions are exactly the positions of the selected elements, in the order Python indexing would give them. '
  'Applying a second index to the resulting view addresses what indexing the first selection would select, to any depth, and the single-step and normalise-then-apply ways of computing a view agree.',
  ['inputs', 'histories'], 'all shapes, all integer strides and offsets, all chains of indices made of in-range integers, slices and None',
  'Tests index 1-D and 2-D axes of one contiguous array with a handful of slices and never compose views symbolically.',
  [ST], [('normalize_index', ST + ':normalize_index'), ('index_strided', ST + ':index_strided'),
         ('apply_slices', ST + ':apply_slices'), ('shape_strided', ST + ':shape_strided')],
  observe=['returned (shape, strides, offset)'])

p('C03', 'Linear Diophantine solver is sound and complete',
  'For any non-empty tuple of non-zero integer coefficients a and any integer c, the solver reports "no solution" exactly when gcd(a) does not divide c. '
  'Otherwise every member of the returned parametric family satisfies sum(a[i]*x[i]) = c, and every integer solution of the equation is a member of that family for some integer parameters.',
  ['inputs'], 'all coefficient tuples of length >= 1 without zeros (any signs, common factors, magnitude) and all right-hand sides',
  'test_diophantine checks only soundness, on nine tuples and parameters in [-3,3); completeness (the family spans the whole solution lattice) and unsolvable right-hand sides are never checked.',
  [ST], [('extgcd', ST + ':extgcd'), ('_init_diophantine', ST + ':_init_diophantine'), ('diophantine', ST + ':diophantine')],
  observe=['diophantine(a, c)', 'extgcd(a, b)'])

p('C04', 'Position-to-index solver inverts every one-to-one strided layout',
  'For every array shape and every nested (mixed-radix) strides tuple - contiguous arrays in any axis order and all their sliced views, with positive, negative or stepped strides - solving a memory position for the element index returns the unique in-range index whose position it is. '
  'For a position no element occupies it returns None. Solving with precomputed layout data gives the same answers as solving without, for every position and however solves for different layouts are interleaved.',
  ['inputs', 'histories'], 'all shapes (the 0-dimensional and size-1 axes included), all strides obtained from a contiguous layout by axis permutation and slicing, all positions in and out of the layout',
  'test_solve_index inverts only reachable positions of C-ordered arrays with at most two sliced axes out of five slices; unreachable positions, chained slices and other axis orders are never tried.',
  [ST], [('solve_index', ST + ':solve_index'), ('init_diophantine', ST + ':init_diophantine')],
  observe=['solve_index(pos, shape, strides[, data])'])

p('C05', 'Reading an element returns the source value in every storage format',
  'An array built from a nested sequence in any storage format (strided, COO, flattened COO, CSR, dimensions-mapped over any of them, buffer) has the shape of the sequence, and reading any index - negative components included - returns the very value the sequence holds there. '
  'Reading an index whose source value equals the placeholder returns the placeholder of the array. '
  'An array built with an explicit shape and index map holds at each index the source value at the mapped index.',
  ['inputs', 'configurations'], 'all shapes and dimensionalities, all placeholder densities and value types (falsy values included), all formats, all in-range indices',
  'Tests read a single 2x3 example per format with integers 1..6.',
  [SG], [('fromobject of each format', SG), ('Storage.__getitem__', SG + ':Storage.__getitem__'),
         ('get_coo_position / get_flatcoo_position / get_csr_position', SG), ('get_value / get_shape', SG)],
  observe=['array[index]', 'array.shape'])

p('C06', 'Element enumeration is complete, ordered and duplicate-free',
  'Enumerating an array of a non-compressed format (strided, dimensions-mapped) yields every index exactly once in row-major order with the value reading that index returns; enumerating a compressed format (COO, flattened COO, CSR) yields exactly the stored indices in that order. '
  'The reported size equals the number of stored elements of the array and the array is reported full exactly when every index is stored. '
  'This holds for constructed arrays and for arrays produced by slicing.',
  ['inputs', 'histories'], 'all formats, shapes, densities and slicing chains',
  'test_elements enumerates one full 2x3 array; size and is_full are asserted on unsliced 2x3 arrays only.',
  [SG], [('elements', SG + ':Storage.elements'), ('indices_and_data_position', SG), ('is_full', SG + ':Storage.is_full')],
  state=[('size', 'number of stored elements', SG)], observe=['elements()', 'size', 'is_full()'])

p('C07', 'Slicing any storage format equals slicing the dense array',
  'For strided, COO, flattened COO and CSR arrays, indexing with any combination of in-range integers, slices (any start, stop and non-zero step) and omitted or None axes returns the element or an array whose shape and elements are those that slicing the dense nested sequence would give. '
  'The result keeps the storage format (a one-dimensional slice of a CSR array is COO) and the placeholder, and can be sliced again with the same guarantee, to any depth.',
  ['inputs', 'histories'], 'all formats, shapes of any dimensionality, densities, and chains of indices',
  'test_slicing uses one fully specified 2x3 array, about ten slices, never chained, never with unspecified elements, never beyond two dimensions (except through DM).',
  [SG, ST], [('get_slice', SG), ('slice_indices_and_data_position', SG + ':Storage.slice_indices_and_data_position'), ('solve_index', ST)],
  observe=['array[index] and the returned array'])

p('C08', 'Compressed arrays stay well-formed through every operation',
  'Every COO, flattened-COO or CSR array the library hands out - constructed, sliced, converted, copied, assigned to, or serving as the storage of a dimensions-mapped array - has in-range, strictly increasing (row-major) stored indices, as many indices as values, and for CSR a non-decreasing row-pointer array of length rows+1 that starts at 0 and ends at the number of stored elements. '
  'No stored index is duplicated.',
  ['histories', 'inputs'], 'all sequences of construction, slicing, conversion, copy and assignment steps over all formats',
  'Tests compare final arrays for equality on tiny examples; no test looks at the index structure after slicing or a chain of operations.',
  [SG], [('get_slice / fromobject / copy', SG), ('compress_indices', SG + ':compress_indices')],
  state=[('indices', 'COO index matrix', SG + ':COO'), ('findices', 'flattened indices', SG + ':FlatCOO'),
         ('crow_indices, col_indices', 'CSR structure', SG + ':CSR')],
  observe=['indices, findices, crow_indices, col_indices, data of returned arrays'])

p('C09', 'Conversion between formats preserves the array',
  'Converting an array between storage formats, directly or through any chain of conversions, preserves shape, every element value, which elements are unspecified, and the placeholder. '
  'Unless the result is a view handed through unconverted, it is the same object value as building the target format straight from the dense sequence, whichever route was taken.',
  ['histories', 'inputs', 'configurations'], 'all formats as source and target, all conversion chains, all dimensions mappings, also starting from sliced arrays and views',
  'test_conversion runs one-step conversions of three 2x3 arrays; no chains, no sliced sources, no other dimensionality.',
  [SG], [('as_Buffer / as_Strided / as_COO / as_FlatCOO / as_CSR / as_DM', SG), ('fromobject fast paths COO<->FlatCOO->CSR', SG)],
  observe=['converted arrays'])

p('C10', 'Assignment changes exactly the addressed elements',
  'After assigning to an element or a slice of an array in any storage format, every addressed element reads back the assigned value and every other element of the array is unchanged, for any sequence of assignments. '
  'An assigned array, or array in an assigned sequence, is read as it was at the time of the assignment, even when it is another view of the same storage.',
  ['histories', 'inputs'], 'all formats, all sequences of element and slice assignments interleaved with reads, with nested-sequence or array right-hand sides',
  'Tests assign one element or one row per format on a full 2x3 array and, for element assignment, look only at the assigned element.',
  [SG, ST], [('Storage.__setitem__', SG + ':Storage.__setitem__'), ('slice_indices_and_data_position', SG), ('solve_index', ST)],
  observe=['array[index] = value followed by full read-back'])

p('C11', 'Strided slices are live windows on their parent',
  'A slice of a strided array shares the storage of its parent: a write through the parent, the slice, or any slice of a slice is immediately visible, at the corresponding index only, through every array that covers that element, and nowhere else. '
  'This holds for any family of overlapping views and any interleaving of writes among them.',
  ['histories', 'schedules'], 'all families of (chained, stepped, reversed) views of one strided array and all interleavings of element and slice writes among them',
  'No test writes through a slice of a multidimensional array.',
  [SG], [('Strided.get_slice', SG + ':Strided.get_slice'), ('Buffer slicing', SG + ':Buffer.__getitem__')],
  state=[('shared data', 'the list behind all views', SG + ':Buffer')], observe=['reads through every live view after each write'])

p('C12', 'Copies and cross-format conversions are independent of their source',
  'A copy of an array in any format equals its source when made, and from then on no write to either one changes any element of the other. '
  'The same holds for the result of converting an array to a different storage format, and for arrays built from nested sequences with respect to those sequences.',
  ['histories'], 'all formats, views and slices as sources; all interleavings of writes to source, copies, and copies of copies',
  'Tests check equality right after copying only; nothing is written after a copy.',
  [SG], [('copy', SG + ':Storage.copy, Buffer.copy, Strided.copy'), ('fromobject', SG)],
  observe=['elements of source and copy after writes to either'])

p('C13', 'Equality is exact',
  'Element-wise equality of two multidimensional arrays, in any pair of formats, or of an array and a nested sequence, is true exactly when they have the same shape and at every index hold equal values or are both unspecified; it is therefore reflexive and symmetric. '
  'Object equality implies element-wise equality, is true of a constructed (not sliced) array and its copy or an identically constructed array, is false after any element is changed, and inequality is its exact negation.',
  ['inputs', 'histories', 'configurations'], 'all pairs of arrays over all formats, equal or differing in one element, one placeholder, or shape',
  'Tests mostly assert that equal() is True; false positives (a wrong True) and arrays with unspecified elements are hardly tested.',
  [SG], [('equal', SG + ':Storage.equal'), ('__eq__ / __ne__', SG)], observe=['a.equal(b)', 'a == b', 'a != b'])

p('C14', 'Dimensions mapping is a one-to-one map laid out as documented',
  'For every shape, permutation of dimensions and partitioning, a dimensions-mapped array has a storage array whose k-th extent is the product of the extents mapped to it, and array elements correspond one-to-one to storage elements: the storage element at the documented mixed-radix reduced index holds the array element, in every storage format. '
  'Reducing an index and promoting it back is the identity in both directions, for the default choice of permutation and partitioning too.',
  ['inputs', 'configurations'], 'all shapes, permutations, partitionings (any number of parts) and storage formats',
  'test_NtoM_DM checks only that wrapper elements agree with a dense sample for selected parameters of one shape pattern; the storage layout itself and index promotion are not checked.',
  [SG], [('DM.fromobject', SG + ':DM.fromobject'), ('reduce_index / promote_index', SG), ('make_reduction', SG + ':make_reduction')],
  state=[('rdimensions, rstrides, roffset', 'mapping parameters', SG + ':DM')], observe=['dm.data elements and shape', 'dm[index]'])

p('C15', 'Slicing a dimensions-mapped array equals slicing the dense array',
  'For every permutation, partitioning and storage format, indexing a dimensions-mapped array with any combination of in-range integers, slices and omitted axes returns the element, or a dimensions-mapped array with the shape and elements that slicing the dense sequence gives. '
  'The result can be sliced again with the same guarantee, to any depth, in any order of axes.',
  ['inputs', 'histories', 'configurations'], 'all shapes, mappings, storage formats, and chains of indices',
  'test_DM_slicing slices a full array of one shape pattern once with at most two sliced axes; slices of slices are never tried, nor arrays with unspecified elements.',
  [SG], [('DM.__getitem__', SG + ':DM.__getitem__')], state=[('roffset, rstrides', 'view parameters', SG + ':DM')],
  observe=['dm[index] and the returned array'])

p('C16', 'Dimensions-mapped slices are no-copy windows',
  'Slicing a dimensions-mapped array shares storage with it - for strided or buffer storage always, for compressed storage whenever the slice does not fix all the dimensions mapped to one storage dimension - so writes to stored elements through either are visible at exactly the corresponding indices of the other. '
  'Slicing over strided or buffer storage reads no element values.',
  ['histories', 'configurations', 'schedules'], 'all mappings, storage formats, families of chained slices and interleavings of writes among them',
  'No test writes through a sliced dimensions-mapped array or observes accesses to the underlying data.',
  [SG, 'pytorch-crs-dm-proposal.md'], [('DM.__getitem__', SG + ':DM.__getitem__'), ('Storage.__setitem__', SG)],
  observe=['reads through parent and slices after each write', 'element reads counted on an instrumented value sequence'])

p('C17', 'Dimensions-mapped arrays nest',
  'A dimensions-mapped array can use another dimensions-mapped array as its storage, to any depth, and reading, slicing, enumerating, assigning, copying and converting the outer array behave as for the dense array it represents. '
  'Slices of a nested array over strided or buffer storage share it with the array. The same array built through different nestings is element-wise equal.',
  ['configurations', 'inputs', 'histories'], 'all towers of mappings (dimensionality non-increasing), any base storage format',
  'The hierarchical use is advertised in the proposal document but no test builds one.',
  [SG, 'pytorch-crs-dm-proposal.md'], [('DM', SG + ':DM')], observe=['outer[index]', 'outer.elements()', 'inner arrays after writes'])

p('C18', 'Reduction and promotion of the basic tools are inverse bijections',
  'For every shape, permutation and partitioning, reducing an index yields a reduced index inside the reduced shape, promoting that gives the index back, and every reduced index in the reduced shape is reached exactly once. '
  'The mapping and its metadata (reduced shape, per-part dimensions, shapes, strides) are those of the documented formulas and coincide with the layout of dimensions-mapped storage arrays.',
  ['inputs', 'configurations'], 'all shapes, permutations and partitionings into 1..N parts',
  'Tests check promotion(reduction(i)) == i for up to three parts on four shapes; coverage of the reduced space, the metadata, and agreement with the storage layer are not checked.',
  [GB, SG], [('create_reduction_metadata', GB), ('reduction', GB), ('promotion', GB)],
  observe=['metadata dict', 'reduction(metadata, index)', 'promotion(metadata, rindex)'])

p('C19', 'Row compression is the exact cumulative count and is invertible',
  'For every sorted sequence of row indices and any row count above the largest index, the compressed form has one more entry than there are rows, starts at 0, ends at the number of indices, and entry r+1 minus entry r is the number of indices equal to r. '
  'Uncompressing gives the original sequence back, and both public implementations of compression agree.',
  ['inputs'], 'all sorted row-index sequences (empty rows at the start, middle, end; empty sequence; long sequences) and all sizes',
  'test_compress_indices asserts ten literal examples of one of the two implementations; the reverse operation is untested.',
  [SG, GB], [('compress_indices', SG), ('uncompress_indices', SG), ('compress_indices', GB)],
  observe=['compress_indices(indices, size)', 'uncompress_indices(compressed)'])

p('C20', 'Buffers are shared windows on one value sequence',
  'A buffer window reads and writes its underlying values at window offset plus index; slicing a window gives another window on the same values whose bounds are taken relative to the window (so negative bounds and bounds past its end widen it), and a non-empty slice reaching outside the underlying values or with a step other than 1 is refused with an error. '
  'Writes through any window are visible through all overlapping windows and never outside the addressed element; iteration, length, enumeration and comparison cover exactly the window.',
  ['histories', 'inputs'], 'all chains of window slices (widening included) and interleavings of writes through all windows',
  'test_Buffer slices one 6-element buffer at about twenty literal windows, and writes once to an unsliced buffer.',
  [SG], [('Buffer.__getitem__', SG + ':Buffer.__getitem__'), ('Buffer.__setitem__', SG + ':Buffer.__setitem__')],
  state=[('offset, size', 'window position', SG + ':Buffer')], observe=['window[index]', 'window[slice]', 'list(window)'])

p('C21', 'The placeholder for unspecified elements is handled uniformly',
  'Building, converting or copying an array with a chosen placeholder gives an array that reports that placeholder and reads it exactly where the source was unspecified or already held that value, all other elements being unchanged; compressed arrays built or converted that way store no element equal to the placeholder. '
  'Without a chosen placeholder the source placeholder is kept, and slices keep the placeholder of their parent.',
  ['inputs', 'configurations', 'histories'], 'all formats, placeholder values (None, 0, empty string, ...), densities, and chains of re-labelling',
  'Tests try placeholders None and 0 on one 2x3 array per format.',
  [SG], [('fromobject(unspecified=...)', SG), ('copy(unspecified=...)', SG), ('as_*(unspecified=...)', SG)],
  observe=['array.unspecified', 'array[index]', 'array.elements()'])

p('C22', 'Reading operations have no side effects',
  'Indexing, slicing, enumerating, comparing, copying, converting, printing and measuring an array leave every observable aspect of it, of the sequences and arrays passed as arguments, and of every other array unchanged, so any read gives the same answer before and after any number of other reads.',
  ['histories'], 'all sequences of read operations over a population of arrays of all formats that share sources and storage',
  'No test re-examines an array after a read-only operation.',
  [SG], [('all Storage read methods', SG)], observe=['full structural and element snapshot before and after each operation'])

p('C23', 'Concurrent and interleaved reads do not interfere',
  'Any number of element enumerations, slice traversals, reads and conversions over the same or different arrays, interleaved step by step or running in several threads, produce the results they produce when run alone. '
  'Threads writing disjoint elements of shared storage lose no write.',
  ['schedules'], 'all interleavings of reader steps (and of writers to disjoint elements) over shared arrays',
  'Every test is single-threaded and exhausts each iterator before starting another.',
  [SG, ST], [('generator-based enumeration', SG), ('solver data reuse', ST), ('lazily computed strides', SG + ':Storage.strides')],
  observe=['values yielded by interleaved iterators', 'results collected in threads'])

p('C24', 'The reported version identifies the source state',
  'In a git checkout the package version is TAG[+DISTANCE.gHASH[.dirty]] (or 0+untagged.COUNT.gHASH[.dirty] without a release tag), where TAG is the nearest release tag, DISTANCE the commits since it, HASH abbreviates the checked-out commit and dirty tells whether tracked files are modified; the full revision, dirtiness and date reported agree. '
  'In an exported archive it is the release tag of the exported commit (or unknown if none), outside version control it is unknown rather than an error, and the build-time and run-time versions always agree, from whatever directory they are asked, whatever other repository the environment points to, however git is set up to show commits, and also in what setup.py reports, builds or packs.',
  ['histories', 'configurations', 'inputs'], 'all commit/tag/modify/merge histories, lightweight and annotated tags, archives and plain directories, all supported rendering styles, git settings and git environment variables',
  'The version code is only imported by tests; nothing is asserted about it.',
  [VE, 'versioneer.py', 'gcs/__init__.py'], [('get_versions', VE + ':get_versions'), ('git_pieces_from_vcs', VE), ('render_*', VE), ('git_versions_from_keywords', VE)],
  observe=['get_versions() in generated repositories', 'render(pieces, style)'])

p('C25', 'Empty extents and empty contents are ordinary cases',
  'Arrays with an axis of size zero, arrays with no stored element, and slices that select nothing can be built, sliced (again and again), enumerated, compared, copied and converted in every format without error, and behave like the corresponding empty selections of nested sequences: right shape, no elements, nothing readable.',
  ['inputs', 'histories', 'configurations'], 'all formats and mappings, shapes with any zero extents in them, all-unspecified contents, chains of slices that become empty at any depth',
  'No test contains an empty axis, an all-unspecified array, or a slice of an empty slice.',
  [SG, ST], [('index_strided', ST), ('init_diophantine', ST), ('Buffer.__getitem__', SG), ('CSR.fromobject', SG)],
  observe=['array[slice], elements(), conversions, copy, equal'])

p('C26', 'Arrays follow the sequence protocol on their first axis',
  'The length of an array is its first extent; iterating it, or indexing it with 0..len-1 or -len..-1, yields its len sub-arrays (or elements) in order and then stops, in every format; an item is in a one-dimensional array exactly when iterating yields it. '
  'An integer index outside [-extent, extent) on any axis of a multidimensional-array format (buffers, which are windows, aside), for reading or for writing, raises IndexError and changes nothing.',
  ['inputs', 'configurations'], 'all formats, shapes, and integer indices in and out of range on each axis',
  'Tests never iterate a multidimensional array and never index out of range.',
  [SG, ST], [('__len__ / __getitem__', SG), ('normalize_index', ST + ':normalize_index')],
  observe=['len(a)', 'iter(a)', 'a[i]', 'IndexError'])

p('C27', 'Compressed look-up and slicing are exact at scale',
  'For compressed arrays assembled from their index and value arrays - however large the index space and however many elements are stored - reading a stored index returns its value, reading any other index returns the placeholder, and slicing and enumeration return exactly the stored elements selected, at their new indices, in order.',
  ['inputs'], 'all well-formed COO, flattened COO and CSR arrays, including thousands of stored elements, extents of millions, clustered, boundary and adversarial index patterns',
  'Tests only look up in arrays of at most six stored elements (120 through DM), always built from dense sequences.',
  [SG, ST], [('get_coo_position', SG), ('get_flatcoo_position', SG), ('get_csr_position', SG), ('COO/FlatCOO/CSR constructors', SG), ('solve_index', ST)],
  observe=['array[index]', 'array[slices].elements()'])

p('C28', 'Printed arrays are constructor calls',
  'The printed representation of every array is its constructor call: where the buffers in it are whole (not windows on longer sequences), printed in full, and hold values and a placeholder that print as literals (for the placeholder: None or a number), evaluating it rebuilds an array that is equal to the original as an object, prints the same and has the same elements. '
  'A buffer that is a window is marked with one "." per value and one "*" per ten values lying before and after it, and a buffer longer than 100 printed characters is shortened to its first and last 40. '
  'The text (str) of a one- or two-dimensional strided array lists exactly its elements in order, one bracketed line per row, lines shortened in the same way.',
  ['inputs', 'histories'], 'arrays of all formats, constructed, sliced, copied, converted or written to; all buffer windows; values that print as literals',
  'No test looks at a printed form.',
  [SG], [('Storage.__repr__ / _get_object_data', SG), ('Buffer.__repr__', SG), ('Storage.__str__', SG)],
  observe=['repr(a)', 'str(a)', 'eval(repr(a))'])

p('C29', 'Operations look only at what they need',
  'Reading an element looks at one value at most, and in a compressed array of N stored elements at a number of stored indices that grows with log N only (per dimension), at no value when the element is not stored. '
  'Slicing and enumerating a compressed array, and converting it directly between compressed formats (COO to and from flattened COO or CSR), take a number of look-ups proportional to the stored elements (and rows of a CSR array), never to the extents, and enumeration looks at elements as they are asked for. '
  'Slicing a strided array, or a dimensions-mapped array over one, looks at no value at all; writing one element of it writes one value and reads none.',
  ['inputs', 'configurations'], 'all COO, flattened COO and CSR arrays assembled from index and value sequences, however large the extents, strided arrays of any shape, dimensions-mapped arrays over them, and any element index or slice',
  'Tests never count accesses: an implementation that scans or copies everything passes them all.',
  [SG], [('get_coo_position', SG), ('get_flatcoo_position', SG), ('get_csr_position', SG), ('slice_indices_and_data_position', SG), ('DM.__getitem__', SG)],
  observe=['accesses to the index and value sequences given to Buffer'])

p('C30', 'Failed and abandoned operations leave no trace',
  'An operation that does not complete - because a sequence behind an array, a source or assigned sequence, or a comparison of values raises an error, because it is interrupted at any point, because an index is refused or an assigned sequence is too short, or because an iteration is given up half-way - passes that error on to the caller and leaves nothing behind. '
  'Reads leave every array as it was; a failed assignment has changed at most elements it addresses, each to the value assigned to it; and whatever is done next, the same operation again included, gives the answer it would have given without the failure.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'], 'every point of failure in every operation on arrays of any format and on views sharing storage',
  'No test makes an operation fail half-way and goes on using the arrays.',
  [SG, ST], [('Storage.__setitem__', SG), ('Storage.strides (computed on demand)', SG), ('elements()', SG), ('fromobject / get_slice / copy', SG), ('normalize_index', ST)],
  observe=['the error raised', 'every element of every array afterwards', 'answers of later operations'])

p('C31', 'Element values are opaque',
  'Elements may be any Python objects (lists, tuples and arrays aside, except where assigned as a single element: then also lists and tuples). They are carried by reference: what is read, enumerated, sliced, copied, converted, assigned from or re-labelled is the very object that was put in, and the placeholder the very object chosen. '
  'No operation other than printing does anything with a value but compare it for equality: values are never hashed, ordered, tested for truth, measured, iterated, indexed, called, copied, pickled, computed with or converted.',
  ['inputs', 'histories'], 'all objects as values and placeholders, all formats and histories of operations',
  'Tests use small integers only, which survive hashing, ordering, truth tests, copying and arithmetic.',
  [SG], [('get_value / get_shape', SG), ('fromobject of each format', SG), ('copy', SG), ('get_slice', SG), ('equal', SG)],
  observe=['identity of elements read', 'methods called on values'])

p('C32', 'Nothing is retained beyond what live arrays hold',
  'When the last reference to an array or an iterator over it is gone it is released, with everything only it held. Sequences an array is built from, compared with or assigned from are not retained; a value that has been overwritten is released; slices of compressed arrays, copies and conversions hold the values they contain and not the rest of their source, whereas views share the storage they are views of, and slices of dimensions-mapped arrays, and copies of those, the whole storage that is mapped.',
  ['histories'], 'all histories of building, slicing, copying, converting, writing, reading, failing and dropping arrays',
  'No test looks at what stays alive.',
  [SG, ST], [('Buffer windows', SG), ('get_slice', SG), ('copy', SG), ('fromobject of each format', SG), ('__setitem__', SG)],
  observe=['weak references to arrays, values and source sequences after a collection'])

p('C33', 'Impossible requests are refused',
  'A request that nothing can answer is refused with an error (with assertions enabled), and the same request without the flaw is met. The requests are: partition points outside the dimensions, decreasing, or more parts than dimensions; dimensions that are no permutation; a storage format of another dimensionality than the mapping has parts; '
  'constructor calls whose indices, values, row pointers, strides or dimensions do not match in number, with plain sequences in place of arrays, or a compressed-row array that is not two-dimensional; source sequences with a row that is too short or an element where a row belongs; indices with more integers and slices than axes or with components that are not integers, slices or None; '
  'scalars or sequences that are too short assigned to a slice; buffers and buffer slices and indices reaching beyond their values, or buffers over arrays. What exists beforehand is left as it is, except that an assignment may have changed elements it addresses.',
  ['inputs', 'configurations'], 'all requests of the listed kinds on all formats, shapes and mappings',
  'Tests make valid requests only.',
  [SG, ST], [('DM.fromobject', SG), ('constructors', SG), ('Buffer.__init__ / __getitem__', SG), ('get_value', SG), ('normalize_index', ST)],
  observe=['whether an error is raised', 'elements afterwards'])

p('C34', 'Answers depend on the operands only',
  'The same history of operations gives the same answers - values, shapes, strides, orders, errors of refused indices, printed forms - in every process: with assertions on or off (-O, -OO), under any hash seed, in development mode or with warnings as errors, from any working directory, alone or after any other operations, once or repeatedly.',
  ['configurations', 'histories'], 'all histories of operations, interpreter modes, hash seeds and orders of execution',
  'The tests run in one mode, in one order, and compare no two runs.',
  [SG, ST, GB], [('assertions', SG), ('equal (iterates over sets)', SG), ('strides (remembered)', SG), ('solver data', ST)],
  observe=['transcripts of answers from separate processes'])

p('C35', 'Arrays can be pickled and copied like other Python objects',
  'A deep copy (copy.deepcopy) of an array, or what a pickle of it gives back (protocol 2 or later, in the same or another process), has the same type, shape, strides, placeholder and elements, is equal to the original and independent of it. Arrays, views and buffers that are copied or pickled together share among the copies exactly the storage the originals share, so that writes are visible through the same views. copy.copy gives another array on the same storage.',
  ['inputs', 'histories', 'configurations'], 'all collections of arrays, views and buffers over all formats, and all later writes',
  'No test copies or pickles an array.',
  [SG], [('array attributes (plain data)', SG), ('__eq__', SG)],
  observe=['copy.deepcopy(arrays)', 'pickle.loads(pickle.dumps(arrays))', 'the same in another process'])

p('C36', 'Traversals and positions locate every element',
  'The position reported for an index holds the element of that index in the array\'s storage (a.data), and is None exactly when the element is not stored. The traversal of an array yields every (stored) index once, in row-major order, with that position; the traversal of a slice, given by its shape, strides and offset, yields every selected (stored) element once at its index in the slice; when sorting is requested it yields every index of the slice in row-major order, with None for elements that are not stored.',
  ['inputs', 'histories'], 'all arrays of all formats, their slices, and all slices traversed; compressed arrays with any extents',
  'The sorted traversal and the positions are not tested at all; they must agree for every shape, index and pattern of stored elements.',
  [SG, ST], [('indices_and_data_position', SG), ('slice_indices_and_data_position', SG), ('get_data_position', SG), ('solve_index', ST)],
  observe=['a.indices_and_data_position()', 'a.get_data_position(index)', 'a.slice_indices_and_data_position(shape, strides, offset, sort)'])

p('C37', 'Building packs the whole package and leaves the checkout as it was',
  'What is built from a checkout in any state (build, build_py, wheel, install, source distribution, and builds from an unpacked source distribution; freezing with cx_Freeze or py2exe) contains every module of the package byte for byte, apart from the version file, which reports the version, revision, dirtiness and date of the checkout; it can be imported from anywhere and computes the same. Building, and asking setup.py for the version, from any directory and in any order, changes no tracked file (freezing only makes the version file anew), and so not the version either. Running "versioneer.py setup", also where files it manages are missing, gives a checkout whose versions are those of C24, exports included; running it again changes nothing.',
  ['histories', 'configurations'], 'all states of the checkout, all sequences of build commands',
  'No test builds anything.',
  ['versioneer.py', 'gcs/_version.py'], [('get_cmdclass', 'versioneer.py'), ('write_to_version_file', 'versioneer.py'), ('do_setup', 'versioneer.py'), ('do_vcs_install', 'versioneer.py')],
  observe=['python setup.py version / build / build_py / sdist / bdist_wheel / install', 'python versioneer.py setup', 'git status'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
