#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, re-run)."""
import json, os
B='kernelmethods/base.py'; A='kernelmethods/algorithms.py'; O='kernelmethods/operations.py'
U='kernelmethods/utils.py'; N='kernelmethods/numeric_kernels.py'; C='kernelmethods/categorical.py'
S='kernelmethods/sampling.py'; R='kernelmethods/ranking.py'; G='kernelmethods/config.py'; I='kernelmethods/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p('C01','Kernel-matrix entries are the kernel of the matching samples',
 'When a KernelMatrix is attached to one or two samples, every raw entry it exposes at row i, column j (full with normalization off, element, slice, index-set and linear-index access, diagonal, upper triangle of full_sparse) equals the kernel function evaluated on row i of the first sample and row j of the second sample, in that argument order when two samples are attached. '
 'Index sets select the distinct requested indices in ascending order, one output row/column per index. '
 'The full matrix is a dense double-precision array of the attached shape with no unfilled entry, and for a single sample it is symmetric.',
 ['inputs','configurations'],'all kernel functions, all one- and two-sample attachments of any size, all index expressions',
 'tests check shapes and five random entries of one two-sample attachment; lower triangle, rectangular shapes in both directions, index sets and linear indices are unchecked',
 [B],[('pairwise evaluation with canonical index order for one sample','base.py: KernelMatrix._eval_kernel'),('upper fill + mirroring / explicit lower fill','base.py: KernelMatrix._populate_fully'),('index resolution','base.py: KernelMatrix.__getitem__/_get_indices_in_sample')],
 observe=['KernelMatrix.full','KernelMatrix.full_sparse','KernelMatrix.__getitem__','KernelMatrix.diagonal'])

p('C02','Results never depend on earlier accesses, failed ones included',
 'For a fixed attachment, what full, normed_km, centered, frob_norm, diagonal() and indexing return (values and dense format) is the same whatever accesses were made before, in whatever order, including full_sparse and whole-matrix indexing. '
 'This also holds after an access that raised, for example because the kernel function failed part-way: a later access recomputes or raises again and never returns a partly filled or stale matrix.',
 ['histories','fault_sequences'],'all finite sequences of public accesses on an attached kernel matrix, with the kernel function failing at any evaluation',
 'tests call each accessor on a fresh object; no test mixes accessors or lets a kernel fail',
 [B],[('lazy population guarded by flags','base.py: KernelMatrix._populate_fully, full, full_sparse, center, normalize, frob_norm')],
 state=[dict(name='population/normalization/centering caches',meaning='lazily computed results and the flags that say they are valid',where='base.py: KernelMatrix')],
 observe=['KernelMatrix accessors'])

p('C03','Attaching a new sample discards everything from the old one',
 'After a KernelMatrix is attached to a new sample (or pair of samples), nothing it exposes - entries, normalized or centered matrix, Frobenius norm, diagonal, sizes, shape, user-defined attributes - derives from any previously attached sample. '
 'An attach that is rejected (for example because the two samples differ in dimensionality) leaves the previous attachment and all its results exactly as they were.',
 ['histories'],'all sequences of attach calls and accesses, of one- and two-sample kind in any order, including rejected attaches',
 'one test re-attaches before computing anything and looks only at internal flags; stale centered/normalized results and failed attaches are never exercised',
 [B],[('reset of caches, flags and attributes on attach','base.py: KernelMatrix.attach_to, KernelMatrix._reset')],
 observe=['KernelMatrix.attach_to'])

p('C04','Each sample pair is evaluated at most once, and only on demand',
 'Per attachment, a kernel matrix calls the kernel function at most once for each distinct pair of samples (unordered when a single sample is attached), no matter how often or through which accessor the entry is requested. '
 'Partial access by indices and diagonal() evaluate only the requested pairs, and attaching, sizing, printing or attribute access evaluates none; the self-similarities needed to normalize a two-sample matrix are the only pairs evaluated outside it.',
 ['histories','inputs'],'all access sequences and index expressions on any attachment',
 'one test counts evaluations for a single full access of a fresh single-sample matrix',
 [B],[('element cache keyed by index pair','base.py: KernelMatrix._eval_kernel')],
 state=[dict(name='element cache',meaning='kernel values already evaluated',where='base.py: KernelMatrix')],
 observe=['kernel function calls'])

p('C05','Normalization is exact cosine normalization of the raw matrix',
 'Requesting normalization (normalized=True, normalize(), normed_km) yields K(x,y)/sqrt(K(x,x)K(y,y)) for every pair, with the self-similarities taken from the raw kernel of the sample each index belongs to, for one-sample and two-sample matrices alike; full returns it exactly when the matrix was created with normalization on, and the raw matrix otherwise stays unchanged. '
 'When any required self-similarity is (close to) zero a KMNormError is raised, shape mismatches raise ValueError and an unknown method raises NotImplementedError when normalization is performed, instead of returning a matrix.',
 ['inputs','configurations'],'all kernels and samples, one- or two-sample, both settings of the flag, the stand-alone operations on all matrices',
 'tests check the unit diagonal on one sample and that calls do not crash; two-sample values are never compared',
 [O,B],[('cosine normalization','operations.py: normalize_km, normalize_km_2sample'),('normalization of a kernel matrix','base.py: KernelMatrix.normalize, full, normed_km')],
 observe=['normalize_km','normalize_km_2sample','KernelMatrix.full','KernelMatrix.normed_km'])

p('C06','Centering is the exact double centering of the raw square matrix',
 'Centering a kernel matrix K of n samples returns (I-11\'/n) K (I-11\'/n) of the raw (un-normalized) matrix; it is refused with an error for matrices attached to two samples, for non-square matrices and for inputs that are not arrays. '
 'The Frobenius product of two equal-shape matrices is the sum of all elementwise products, the norm is the root of the self product, and a kernel matrix reports the norm of its raw full matrix.',
 ['inputs','configurations'],'all square matrices and all attachments',
 'tests check only the shape of the centered matrix, one 2x2 Frobenius product and that the norm is real',
 [O,B],[('centering','operations.py: center_km; base.py: KernelMatrix.center/centered'),('Frobenius','operations.py: frobenius_product, frobenius_norm; base.py: frob_norm')],
 observe=['center_km','KernelMatrix.centered','frobenius_product','frobenius_norm','KernelMatrix.frob_norm'])

p('C07','Invalid indices are rejected, never wrapped or ignored',
 'Indexing a kernel matrix (or a constant kernel matrix) with anything but two integer/slice/integer-collection selectors - wrong number of selectors, strings, None, non-integer values, a negative or too large index in either dimension, or a selection matching no sample - raises the library\'s access error before any value is returned. '
 'Each selector is checked against the size of its own dimension, and every valid selection is accepted.',
 ['inputs'],'all index expressions on kernel matrices of every shape, square or rectangular',
 'tests try a handful of bad indices on one square matrix',
 [B],[('index validation','base.py: KernelMatrix.__getitem__, _get_indices_in_sample; ConstantKernelMatrix.__getitem__, _get_indices_in_sample')],
 observe=['KernelMatrix.__getitem__','ConstantKernelMatrix.__getitem__'])

p('C08','Every built-in kernel function is symmetric and pure',
 'For every built-in numeric and categorical kernel and every parameter setting, k(x, y) equals k(y, x) for all valid inputs, including whether the call is accepted or rejected. '
 'Calling a kernel leaves the kernel object unchanged, so the same inputs always give the same value.',
 ['inputs','configurations'],'all input vectors and constructor parameters of all built-in kernels',
 'tests compare k(x,y) with k(y,x) on one random vector pair per example with default or few parameters',
 [N,C],[('kernel formulas','numeric_kernels.py: *.__call__; categorical.py: MatchCountKernel.__call__')],
 observe=['kernel.__call__'])

p('C09','Kernels validate their inputs before computing',
 'Unless input checks were explicitly skipped, every built-in numeric kernel raises ValueError for inputs that are not one-dimensional after dropping trailing singleton dimensions, differ in length, or cannot be interpreted as numbers, and accepts any equal-length numeric vectors. '
 'The chi-squared kernel always rejects a negative value in either input with its dedicated exception, the categorical kernel always rejects non-string inputs with TypeError and mismatched lengths with ValueError, and a zero Hadamard exponent is refused at construction.',
 ['inputs','configurations'],'all kernels, both settings of the skip flag, all input shapes and types',
 'tests try two bad inputs with default kernels; lengths, shapes and the second argument are mostly unchecked',
 [N,C,U],[('validation helper called first in each kernel','numeric_kernels.py: *.__call__; utils.py: check_input_arrays, ensure_ndarray_1D, ensure_ndarray_size')],
 observe=['kernel.__call__'])

p('C10','Built-in kernels compute their documented formula',
 'Each built-in kernel returns its documented function of the inputs and its parameters: linear <x,y>; polynomial (b+gamma<x,y>)^degree; Gaussian exp(-||x-y||^2/(2 sigma^2)); Laplacian exp(-gamma sum|x-y|); chi2 exp(-gamma sum (x-y)^2/(x+y)) ignoring 0/0 terms; sigmoid tanh(gamma<x,y>+offset); Hadamard sum |x|^a|y|^a/(2(|x|^a+|y|^a)) over terms with a non-zero denominator; match count = number (or fraction) of equal positions. '
 'A kernel built from a callable returns exactly that callable\'s value on the same arguments and stored parameters. Non-positive bandwidths are clipped to machine epsilon instead of causing a division by zero.',
 ['inputs','configurations'],'all inputs and all constructor parameter values',
 'tests never compare a kernel value with its formula',
 [N,C,B],[('formulas','numeric_kernels.py: *.__init__/__call__; categorical.py; base.py: KernelFromCallable')],
 observe=['kernel.__call__'])

p('C11','All members of a kernel set agree in number of samples',
 'No sequence of operations on a KernelSet or KernelBucket (construction, append, extend, take) produces a set whose members report different numbers of samples or a number different from the set\'s own: an incompatible member or set is refused with KMSetAdditionError and the set keeps its previous members. '
 'The size is taken from the first member unless given at construction, and plain matrices are admitted only as validated precomputed kernel matrices.',
 ['histories','inputs'],'all sequences of set operations with members of arbitrary sizes',
 'tests try one mismatched append and one mismatched extend',
 [B,S],[('size check before insertion','base.py: KernelSet.append, extend, __init__')],
 observe=['KernelSet.append','KernelSet.extend','KernelSet.take','KernelSet.__init__'])

p('C12','Kernel-set operations address exactly the requested members',
 'Iteration, len, size and integer indexing expose the members in insertion order; take(indices) and get_kernel_funcs(indices) return exactly the members (or their kernels) at the requested positions, in the requested order; out-of-range or negative integer positions raise IndexError, and [] with a non-integer scalar or a slice raises ValueError. '
 'attach_to attaches every member to the given sample (refusing a sample of the wrong size before touching any member), and set_attr/get_attr write and read one value per member in member order.',
 ['inputs','histories'],'sets of any size and all index collections and attribute values',
 'tests use three members, check types and counts but not which member is returned',
 [B],[('member list','base.py: KernelSet.__getitem__, take, get_kernel_funcs, __iter__, attach_to, set_attr, get_attr')],
 observe=['KernelSet'])

p('C13','Composite kernels are the exact combination of their members',
 'For any kernel set, the sum kernel is the weighted (default unit-weight) sum, the product kernel the elementwise product, the average kernel the arithmetic mean and the weighted-average kernel and linear_combination the given-weight sum of the members\' full matrices, each member with its own weight; normalizing weights divides them by their sum. '
 'Repeated fitting gives the same result, reading an unfitted composite raises, members are not modified, and weight vectors of the wrong length or zero-sum weights to be normalized are refused.',
 ['inputs','histories'],'sets of any size, all weights, any number of fits',
 'tests check only that a result attribute exists, and the all-zero-weights case',
 [B,O],[('composites','base.py: CompositeKernel, SumKernel, ProductKernel, AverageKernel, WeightedAverageKernel'),('linear combination','operations.py: linear_combination')],
 observe=['*.fit, composite_KM, full','linear_combination'])

p('C14','Kernel machines train on K(train,train) and predict on K(test,train)',
 'KernelMachine and KernelMachineRegressor fit the selected precomputed-kernel SVM on the full kernel matrix of the validated training sample with the user\'s kernel and normalization setting, the given targets and sample weights, and predict from the matrix with test samples as rows and training samples as columns computed with the same kernel and setting. '
 'Predicting before fitting raises NotFittedError; predictions are repeatable, do not disturb the fitted model, and keep the target type (regression targets are real-valued even if given as integers).',
 ['inputs','histories','configurations'],'all kernels, training/test samples, and fit/predict call sequences',
 'tests check only the shape of the predictions',
 [A,R],[('fit/predict','algorithms.py: BaseKernelMachine.fit/predict'),('estimator factory','ranking.py: get_estimator')],
 observe=['KernelMachine.fit/predict','KernelMachineRegressor.fit/predict'])

p('C15','Optimal-kernel estimators train on the best kernel and reuse it to predict',
 'OptimalKernelSVC and OptimalKernelSVR choose the best-ranked kernel of the requested bucket on the training data with the user\'s ranking method, train an SVM with precomputed kernel and the user\'s hyper-parameters on its training matrix, and predict from the test-by-train matrix of that same kernel. '
 'The user\'s bucket object is never modified or re-attached by fitting, all documented ranking methods and bucket strategies work, invalid buckets raise ValueError and predicting before fitting raises NotFittedError.',
 ['inputs','histories','configurations'],'all buckets, strategies, ranking methods, training and test data',
 'tests use only the linear-only bucket with the default ranking method and check output shape',
 [A,R,S],[('fit/predict','algorithms.py: BaseOptimalKernelMachine.fit/predict, OptimalKernelSVC, OptimalKernelSVR')],
 observe=['OptimalKernelSVC','OptimalKernelSVR'])

p('C16','Kernel ranking scores each kernel on its own and picks the best',
 'Ranking returns one score per kernel in bucket order, computed from that kernel\'s full matrix and the given targets by the requested method (centered alignment with the target kernel, or cross-validated score of the named estimator rescaled to 0..100 preserving order), with user-supplied method parameters honoured. '
 'The optimal kernel is the one with the highest score after attaching the bucket to the given sample; a wrong bucket type raises TypeError, an unknown method or learner raises NotImplementedError, and every advertised method is implemented.',
 ['inputs','configurations'],'all buckets, samples, targets, methods and parameters',
 'the only test checks that alignment scores are one-dimensional',
 [R,U],[('ranking','ranking.py: find_optimal_kernel, rank_kernels, CV_ranking, alignment_ranking, get_estimator; utils.py: min_max_scale')],
 observe=['find_optimal_kernel','rank_kernels','CV_ranking','alignment_ranking'])

p('C17','Kernel buckets hold exactly the advertised kernels',
 'Every bucket contains a linear kernel plus one kernel per supplied parameter value of each family, in order, with that value set on the named parameter; the named strategies use the configured value lists and an unknown strategy is refused. '
 'The normalization flag applies to every matrix in the bucket and the skip-checks flag to every parametrized kernel, and a value that cannot be used is skipped with a warning without affecting the others.',
 ['inputs','configurations'],'all value lists, flags, strategies and later additions',
 'tests check that construction works and that invalid flags raise; contents and flag propagation are unchecked',
 [S,G],[('bucket construction','sampling.py: KernelBucket.__init__, add_parametrized_kernels, make_kernel_bucket')],
 observe=['KernelBucket','make_kernel_bucket'])

p('C18','Similarity measures between kernel matrices are exact and symmetric',
 'Centered alignment is <Kc1,Kc2>/(||Kc1|| ||Kc2||) of the centered matrices (of the given ones when declared centered), is symmetric in its arguments, refuses unequal shapes or non-arrays, and for a zero-norm matrix raises or returns the caller\'s substitute value. '
 'Pairwise similarity of a bucket is the symmetric matrix of the chosen metric over all ordered pairs with every entry filled, correlation is Pearson\'s r of the vectorized matrices, and the ideal kernel of targets y is yy\'.',
 ['inputs'],'all matrices, buckets, targets and options',
 'tests check shapes, value range of one correlation and error cases only',
 [O,S],[('alignment','operations.py: alignment_centered'),('pairwise','sampling.py: pairwise_similarity, correlation_km, ideal_kernel')],
 observe=['alignment_centered','pairwise_similarity','correlation_km','ideal_kernel'])

p('C19','PSD verdicts are never optimistic',
 'The positive-semidefiniteness test answers True only for a square, symmetric array all of whose eigenvalues are at least minus the given tolerance, and answers False when any eigenvalue is below it, the matrix is not square or not symmetric, or the eigenvalues cannot be computed for any reason; a non-array input raises TypeError. '
 'A kernel function\'s own PSD check evaluates exactly that verdict on a kernel matrix of the kernel itself.',
 ['inputs','fault_sequences'],'all matrices, tolerances and failures of the eigenvalue routine',
 'tests try four small matrices; failure paths are declared untestable in the code',
 [O,B],[('PSD test','operations.py: is_positive_semidefinite; base.py: BaseKernelFunction.is_psd')],
 observe=['is_positive_semidefinite','is_PSD','BaseKernelFunction.is_psd'])

p('C20','Precomputed and constant kernel matrices represent exactly what was given',
 'A precomputed kernel matrix is created only from a real, symmetric, two-dimensional square matrix (any other numeric array raises ValueError) and its full matrix, diagonal, size and items are those of the given matrix; invalid item access raises the library\'s access error. '
 'A constant kernel matrix of n samples exposes the constant at every entry of its n-by-n matrix, its diagonal and every valid selection, in the requested data type and with consistent size and shape.',
 ['inputs'],'all input matrices, sizes, constants and selections',
 'tests use one random symmetric matrix and a few bad inputs',
 [B,U],[('validation','base.py: KernelMatrixPrecomputed.__init__; utils.py: not_symmetric'),('constant','base.py: ConstantKernelMatrix')],
 observe=['KernelMatrixPrecomputed','ConstantKernelMatrix'])

p('C21','Estimators honour the scikit-learn parameter and type protocol',
 'For each of the four estimators, every constructor parameter is stored, reported by get_params under its own name with the stored value, and settable by set_params (which returns the estimator), so that an estimator rebuilt from its parameters is configured identically. '
 'scikit-learn recognizes the classifiers as classifiers and the regressors as regressors, fit returns the estimator itself, and a fitted kernel-machine classifier exposes its classes.',
 ['configurations','histories'],'all parameter settings and all set_params/get_params sequences',
 'tests call set_params once without checking the effect; no test clones or queries an estimator\'s type',
 [A],[('parameter protocol','algorithms.py: get_params, set_params, __init__ of the four estimators; class bases')],
 observe=['get_params','set_params','__init__','class hierarchy'])

p('C22','Caller-owned arrays and objects are never modified',
 'No public function, kernel, kernel matrix, kernel set, composite or estimator writes into an array, list or matrix supplied by the caller, nor into the full matrix of a kernel matrix that it merely reads. '
 'Operations on kernel matrices return new arrays.',
 ['inputs','histories'],'all arguments of all public operations',
 'no test compares an argument before and after a call',
 [B,O,S,R,U,A,N,C],[('value-returning array code','all modules')],
 observe=['all public functions and methods'])

p('C23','The library is hermetic, deterministic and light to import',
 'Apart from the random sample of a kernel\'s self-check and the version lookup, no library code draws unseeded random numbers, reads the clock, environment, files or network, or changes process-wide numpy or warning settings, so equal inputs give equal results, whatever was computed before with other objects. '
 'Importing the top-level package does not import scikit-learn, and every name it advertises, estimators included, can be obtained from it.',
 ['programs','configurations'],'all library code and all import orders',
 'tests import everything up front and cannot observe absent side effects',
 [I,B,O,S,R,U,A,N,C],[('lazy estimator export','__init__.py: __getattr__'),('function-level scikit-learn imports','ranking.py')],
 observe=['import kernelmethods','all modules'])

p('C24','Public objects never fail with internal errors, whatever their state',
 'Every public kernel, kernel matrix, set, bucket and composite can be printed, represented and formatted in every state, and any access to data that needs an attached sample or a fit raises the library\'s documented error when there is none. '
 'No reachable error path fails with an undefined name, missing internal attribute or wrong-arity internal call instead of the intended error.',
 ['histories','inputs'],'all objects in all reachable states and all error paths',
 'tests never format or use unattached objects and skip most error paths',
 [B,S,N,C,O,U,R,A],[('string methods and state initialization','base.py: all classes')],
 observe=['str/repr/format','unattached access'])

p('C25','Non-finite kernel results are always reported',
 'Whenever computing or normalizing a kernel matrix yields NaN or infinite entries, the kernel matrix issues a KernelMethodsWarning on the access that computes it, for dense and sparse formats alike, and normalizing a one-sample matrix on its own issues a warning; finite matrices cause none. '
 'The library\'s exceptions all derive from its common base exception.',
 ['inputs'],'all kernels and samples producing non-finite values',
 'the test for it is an empty placeholder',
 [B,O,U,G],[('finiteness check and warning','base.py: _populate_fully, normalize; operations.py: normalize_km; utils.py: contains_nan_inf'),('hierarchy','config.py')],
 observe=['warnings'])

p('C26','Array-validation helpers accept and convert exactly what they promise',
 'The one- and two-dimensional array helpers return the input\'s values as an array of the required dimensionality (dropping only singleton axes beyond it) and of a type compatible with the requested one, and raise ValueError otherwise, including for a wrong number of columns; min-max rescaling maps the smallest value to 0 and the largest to 1 monotonically, and constants to zeros (a spread within numerical tolerance of zero may count as constant). '
 'Callable checking refuses non-callables and callables with too few parameters with TypeError, and operation names are validated case-insensitively.',
 ['inputs'],'all inputs and requested types',
 'tests try four wrong shapes',
 [U,C],[('helpers','utils.py: ensure_ndarray_1D/2D/size, check_input_arrays, check_callable, min_max_scale, not_symmetric, contains_nan_inf')],
 observe=['utils functions'])

p('C27','Kernel matrices of the PSD kernels are positive semi-definite on all data',
 'For the linear, polynomial (b>=0, integer degree), Gaussian, Laplacian, chi-squared and match-count kernels, the kernel matrix on every finite sample is positive semi-definite up to round-off.',
 ['inputs'],'all samples of all sizes',
 'tests check a few random samples',
 [N,C],[('kernel formulas','numeric_kernels.py')],observe=['KernelMatrix.full'])

p('C28','Results are numerically accurate for badly scaled data',
 'Kernel values, normalized and centered matrices agree with exact arithmetic to a few units of relative round-off unless the exact value overflows.',
 ['inputs'],'all finite inputs of any magnitude',
 'tests use values in [0,1] and never compare with a reference',
 [N,O],[('floating-point formulas','numeric_kernels.py, operations.py')],observe=['kernel.__call__','normalize_km','center_km'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
