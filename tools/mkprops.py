import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe:a['observe_at']=observe
    if state:a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Chart conversions of projective points are exact inverses in every patch',
"Converting a projective point between homogeneous coordinates and any affine patch, between any two affine patches, and between homogeneous and affine coordinate indices never changes the point: every round trip and every chain of chart changes returns the same coordinates up to rounding. When no patch is requested, the selected patch is one whose homogeneous coordinate has maximal modulus, so all returned affine coordinates have modulus at most one. This holds for every dimension, every pair of patches (equal ones included), single points and batches, and every overall scale at which squares of the coordinates neither overflow nor underflow.",
['inputs','configurations','histories'],
'Projective dimension 1..4, every old/new patch, every sequence of up to three chart changes, every point of a finite complex coordinate alphabet containing zeros, ties, negative, imaginary, small and large values; python/array indices; batched and single.',
'The chart-change test aborts before asserting anything in this environment and the other tests use a handful of random points with fixed patches; ties, zeros and chains of chart changes are never reached.',
['cyjax/projective.py','cyjax/util.py'],
[('index shift around the patch index','cyjax/projective.py index_hom_to_affine, index_affine_to_hom'),('pop the scale coordinate, re-insert the old one','cyjax/projective.py change_chart'),('argmax of the modulus','cyjax/projective.py hom_to_affine'),('roll based pop/insert','cyjax/util.py pop, insert_1d')],
['cyjax.hom_to_affine','cyjax.affine_to_hom','cyjax.change_chart','cyjax.index_hom_to_affine','cyjax.index_affine_to_hom'])

p('C02','Fubini-Study metric is the complex Hessian of its potential in every chart',
"The Fubini-Study metric is Hermitian, positive definite and equal to the mixed complex Hessian of the Fubini-Study potential, which is the logarithm of the squared norm of the homogeneous coordinates; it transforms covariantly under chart changes and all potentials of one point differ only by log of the squared modulus of the rescaling. Values depend holomorphically on the coordinates and, separately, on the explicitly passed conjugate coordinates, and array inputs of any leading shape give the pointwise result. The generic mixed-Hessian transformation differentiates the two chosen arguments of any potential, leaving the argument order alone.",
['inputs','configurations'],
'Dimension 1..4, all points of a finite complex alphabet, conjugate argument absent / conjugate / independent values, all chart pairs, argument positions of the mixed Hessian, leading shapes up to rank 2.',
'Tests compare metric and Hessian of the potential at a few random points; independent conjugate arguments, chart covariance, other argument positions and leading shapes are never exercised.',
['cyjax/projective.py','cyjax/differential.py','cyjax/util.py'],
[('closed form metric and potential','cyjax/projective.py _fs_metric, _fs_potential, _fs_potential_hom'),('forward over reverse holomorphic derivative','cyjax/differential.py complex_hessian'),('flatten leading shape','cyjax/util.py flatten_coord, unflatten_coord')],
['cyjax.fs_metric','cyjax.fs_potential','cyjax.complex_hessian'])

p('C03','Index-level array helpers match their list semantics for every index',
"Removing an element, inserting scalar, vector or column data at a position, shuffling one axis, and flattening/unflattening coordinates behave exactly like the corresponding list operations for every length, rank and every legal index, counted from the front or from the back; nothing is lost, duplicated or reordered elsewhere. Shuffling permutes only along the chosen axis, independently for each leading index, and depends on the key only. Binomial coefficients and products equal their mathematical definition, and no helper modifies its inputs.",
['inputs','configurations'],
'All lengths up to 6, all legal positive and negative indices, inserted widths 0..3, all axes of arrays up to rank 3, python and traced indices.',
'Tests use one or two lengths and random values; negative indices with multi-element insertions, leading axes and aliasing of the inputs are not covered.',
['cyjax/util.py'],
[('roll, cut, roll back','cyjax/util.py pop, insert_1d, insert_col'),('per-row permutation keys','cyjax/util.py shuffle_axis'),('reshape helpers','cyjax/util.py flatten_coord, unflatten_coord'),('running product','cyjax/util.py prod, binomial')],
['cyjax.util.pop','cyjax.util.insert_1d','cyjax.util.insert_col','cyjax.util.shuffle_axis','cyjax.util.binomial','cyjax.util.prod'])

p('C04','A polynomial evaluates to its mathematical value in every call form',
"However a parametrized polynomial was built (text, symbolic expression, symbolic polynomial, or coefficient and power arrays) and however it is called (positionally, by keyword, compiled with any leading batch shape, numerically or symbolically), the value is the mathematical value of the written expression with each symbol bound to its own input entry. Complex and fractional coefficients, repeated parameters, powers of parameters, unused variables, missing indices, scalar and vector variables are all respected. Evaluating never changes the polynomial or its inputs.",
['inputs','configurations','programs'],
'A grammar of polynomial expressions over scalar and vector variables (contiguous, gapped, shifted indices) and parameters, all construction routes, all call forms, every value of a finite complex alphabet including zero.',
'Tests evaluate a few hand-written real polynomials at random points through one or two routes; complex coefficients, zero coordinates, gapped indices and mixed call forms are not reached.',
['cyjax/polynomial.py'],
[('recursive translation of the symbolic expression','cyjax/polynomial.py _eval_sympy_poly'),('argument binding','cyjax/polynomial.py _sort_var_args'),('monomial evaluation with and without logarithms','cyjax/polynomial.py compute_monomials'),('batched compiled evaluation','cyjax/polynomial.py Poly.transform_eval')],
['Poly.__call__','Poly.transform_eval','cyjax.polynomial.compute_monomials'])

p('C05','Polynomial arithmetic is a homomorphism and never mutates its operands',
"Every finite sequence of additions, subtractions, multiplications and derivatives of polynomials, with polynomials, symbols or numbers as operands, yields a polynomial whose value is that combination of the operands' values. The result's variables are the union of the operands' variables with merged ordered indices, its parameters the ordered union of their parameters, and symbols of existing variables stay variables while new symbols become parameters. All operands keep evaluating to the same values as before.",
['histories','programs'],
'All operation histories up to depth three over a pool of polynomials with overlapping, disjoint, gapped and interleaved variable indices and parameters, each result evaluated on a finite complex alphabet.',
'Tests apply single operations to one or two polynomials; index unions with interleaved or trailing indices and operand aliasing after several operations are never observed.',
['cyjax/polynomial.py'],
[('metadata union','cyjax/polynomial.py Poly._combine_metadata, _union_indices'),('symbolic arithmetic','cyjax/polynomial.py Poly.__add__, __sub__, __mul__, diff')],
['Poly + - * operators','Poly.diff','variable_names, variable_indices, parameters'])

p('C06','Parsing and coefficient/power conversion preserve polynomial and input order',
"Building a polynomial from an expression assigns every symbol to exactly one variable entry or parameter as specified by the caller (names, dimensions, indices or parameter lists), with both subscript spellings equivalent; when something is left unspecified, the detected variables, indices and parameters are the same in every interpreter run. Converting a polynomial to coefficients, parameter factors and powers and building it back gives an equal polynomial with the same inputs. Contradictory specifications are rejected rather than silently misread.",
['inputs','configurations','programs'],
'All combinations of given/omitted variable names, parameters, dimensions and indices over a family of expressions, string/expression/polynomial inputs, several interpreter hash seeds.',
'Tests run under one hash seed with a few expressions; automatically detected vector variables, parameter powers and complex coefficients in the conversion are never tried.',
['cyjax/polynomial.py'],
[('symbol classification','cyjax/polynomial.py Poly.from_sympy'),('subscript parsing','cyjax/polynomial.py split_subscript, merge_subscript'),('term extraction','cyjax/polynomial.py Poly.to_coeffs_and_powers, Poly.from_coeffs_and_powers')],
['Poly.from_sympy','Poly.to_coeffs_and_powers','Poly.from_coeffs_and_powers'])

p('C07','Univariate coefficient extraction reconstructs the polynomial in that variable',
"Singling out any variable entry of a polynomial yields coefficients, highest power first with nothing missing, such that the power sum of that entry with these coefficients equals the polynomial for all inputs. Each coefficient depends only on the remaining variables, in their original order, and on the unchanged parameter list.",
['inputs','programs'],
'Every variable entry (scalar or indexed) of a family of polynomials with missing powers, vanishing and constant leading coefficients and parameters; all values of a finite complex alphabet.',
'A single documented example and a few calls inside the sampler are exercised; missing middle powers, parameter-dependent and purely numeric coefficients in arbitrary positions are not.',
['cyjax/polynomial.py'],
[('collect by power of one generator','cyjax/polynomial.py univariate_coefficients')],
['cyjax.polynomial.univariate_coefficients'])

p('C08','Affine restrictions of homogeneous polynomials hold in any patch and call order',
"A homogeneous polynomial evaluated with affine coordinates in a patch equals its value at the homogeneous point having one inserted at that patch position, for single and for several vector variables, for any index labelling, and through compiled evaluation with patch-dependent batches. The result for a patch does not depend on which patches, coordinates or parameters were used before. The Dwork and Fermat families agree with the explicitly written polynomials of the same degree, symbolically and numerically.",
['histories','inputs','configurations'],
'All call histories up to length three over the patches of polynomials with one or two vector variables, contiguous and shifted index labels, plus every point of a finite complex alphabet per patch.',
'Tests evaluate a few patches of the default polynomials once with fresh objects; reuse of the per-object patch cache in different orders, shifted labels and multi-projective patch numbering are not covered.',
['cyjax/polynomial.py'],
[('cache of affine polynomials','cyjax/polynomial.py HomPoly.affine_poly'),('flat patch number','cyjax/polynomial.py HomPoly.unique_patch_index'),('switch over patches','cyjax/polynomial.py HomPoly.transform_eval'),('closed forms','cyjax/polynomial.py DworkPoly, FermatPoly')],
['HomPoly.__call__(patch=...)','HomPoly.transform_eval','VarietySingle.defining'],
[('_affine_poly','lazily filled cache per patch','cyjax/polynomial.py HomPoly')])

p('C09','Gradients, embedding Jacobians and induced metrics follow the defining equation',
"At every point the reported gradient is the exact holomorphic gradient of the defining polynomial, the embedding Jacobian has one row per local coordinate, is the identity there and annihilates the gradient, and the induced metric is the pullback of the ambient metric by it. When the dependent coordinate is left open, the one with the largest gradient entry is chosen and reported consistently by every function. Passing the conjugate coordinates or the conjugate gradient explicitly gives the same result as leaving them out.",
['inputs','configurations'],
'Varieties of dimension 1..3 with and without parameters, all patches, all dependent indices and the automatic choice, all points of a finite complex alphabet, all optional-argument combinations.',
'Tests check one random point per object; explicit conjugates, the automatic dependent choice in every entry point and varieties without parameters are not exercised.',
['cyjax/variety.py','cyjax/differential.py'],
[('automatic differentiation of the compiled polynomial','cyjax/variety.py VarietySingle.grad_defining'),('implicit function derivative','cyjax/differential.py jacobian_embed'),('pullback contraction','cyjax/differential.py induced_metric'),('dependent choice','cyjax/variety.py VarietySingle.best_dependent, jacobian_embed, induced_metric')],
['VarietySingle.grad_defining/jacobian_embed/induced_metric/induced_fs/best_dependent','cyjax.jacobian_embed','cyjax.induced_metric'])

p('C10','Solving the defining equation returns all completions and keeps the given values',
"Given all but one coordinate, solving the defining equation returns as many points as the polynomial has degree in the missing coordinate; every returned point satisfies the defining equation, carries the given values unchanged in their positions and together the missing values are exactly the roots with multiplicity. This holds for affine coordinates in any patch and for homogeneous coordinates, for every position of the missing coordinate, single or batched.",
['inputs','configurations'],
'Varieties with different degrees in different coordinates, every patch or none, every dependent position, all values of a finite complex alphabet for the given coordinates and parameters.',
'Tests call the solver for one dependent position and patch with random values and only check the defining equation on the result.',
['cyjax/variety.py','cyjax/polynomial.py'],
[('companion-matrix roots of extracted coefficients','cyjax/variety.py VarietySingle.solve_defining'),('re-insertion by rolling','cyjax/variety.py VarietySingle.solve_defining')],
['VarietySingle.solve_defining'])

p('C11','Sampling yields exactly the requested points, all lying on the variety',
"Sampling returns exactly the requested number of points, each satisfying the defining equation for the given moduli, as finite homogeneous coordinates or as affine coordinates in a patch of maximal modulus, and weights belong to the point at the same position. All output forms for the same key describe the same points, the result depends on key, moduli and count only, and distinct lines are used so no point is repeated.",
['inputs','configurations'],
'Varieties of different dimension and degree (degree below, equal to and above the number of coordinates), every count from 1 to beyond several line intersections, all output-form combinations, enumerated keys and moduli, compiled and uncompiled.',
'Tests sample from two Calabi-Yau families with counts that divide evenly and random keys; other degrees, remainders and agreement between output forms are not checked.',
['cyjax/variety.py','cyjax/random.py','cyjax/polynomial.py'],
[('intersection with random lines','cyjax/variety.py _solve_intersect, VarietySingle.sample_intersect'),('truncate to count','cyjax/variety.py VarietySingle.sample_intersect')],
['VarietySingle.sample_intersect'])

p('C12','Monte Carlo weights are the coordinate-free ratio of the two volume forms',
"The Monte Carlo weight of a point is the holomorphic volume density divided by the normalized Fubini-Study volume density of the variety at that point: positive, finite at smooth points, independent of the eliminated coordinate and, on Calabi-Yau hypersurfaces (degree equal to the number of homogeneous coordinates), of the affine patch. The separately returned densities have this weight as their ratio, and the normalization factor is the one that gives a linear subspace total Fubini-Study volume one.",
['inputs','configurations'],
'Varieties of dimension 1..3, every patch and every eliminated coordinate plus the automatic one, points computed exactly on the variety from a finite alphabet, separate/joint and normalized/unnormalized output.',
'Tests check shapes and one reference value; independence of patch and eliminated coordinate is not verified over all choices.',
['cyjax/variety.py'],
[('determinant of pulled back metric over gradient entry','cyjax/variety.py VarietySingle.sample_intersect_weights')],
['VarietySingle.sample_intersect_weights','VarietySingle.sample_intersect(weights=True)'])

p('C13','Monte Carlo integration is the weighted sample mean, independent of batching',
"The Monte Carlo integral of a function is the mean over all drawn samples of the function value times the weight, and the variance reported for a real integrand is the variance of that mean; scalar and array valued integrands are treated componentwise. Splitting into batches gives the mean over the union of all batches, every batch using its own fresh randomness. The volume of a variety is the integral of one with the sampling weights.",
['inputs','configurations','histories'],
'All small sample sets over a value/weight alphabet, scalar/vector/complex integrands, batch numbers 1..4 and batch sizes 1..4, with and without variance, recorded sampler calls.',
'Existing tests never call the integrator with a non-constant integrand or look at the variance.',
['cyjax/util.py','cyjax/variety.py'],
[('sample mean','cyjax/util.py mc_integrate'),('scan over batches','cyjax/util.py mc_integrate_batched'),('volume','cyjax/variety.py VarietySingle.compute_vol')],
['cyjax.util.mc_integrate','cyjax.util.mc_integrate_batched','VarietySingle.compute_vol'])

p('C14','Monomial bases are complete, duplicate free and independent on the variety',
"The full basis of degree k contains every monomial of that degree exactly once; the reduced basis is a subset of it whose members are linearly independent on the variety and which spans, together with the multiples of the defining polynomial, all monomials of that degree. Reported sizes equal the actual sizes, index and power descriptions agree, and degree zero gives the constant monomial.",
['inputs','configurations','programs'],
'Dimension 0..4, degree 0..6, defining polynomials of several degrees and sparsity patterns including ones whose leading monomials overlap; the quotient rank is computed exactly.',
'Tests check sizes for a few degrees; linear independence and spanning modulo the defining polynomial are never verified.',
['cyjax/donaldson.py'],
[('enumeration of index multisets','cyjax/donaldson.py monomial_basis_indices, monomial_basis'),('removal of one monomial per multiple','cyjax/donaldson.py reduced_monomial_basis, MonomialBasisReduced'),('closed size formula','cyjax/donaldson.py monomial_basis_size')],
['cyjax.donaldson.monomial_basis*','MonomialBasisFull','MonomialBasisReduced'])

p('C15','Line bundle sections evaluate to their monomials in every patch and mode',
"Evaluating a section basis at homogeneous coordinates gives each monomial's value in basis order, and evaluating it at affine coordinates in a patch gives the values at the homogeneous point with one inserted there, in both evaluation modes and for all batch layouts of coordinates and patches, zeros included. Section values of the same point in two patches differ by the common factor given by the transition function to the degree, and derivatives with respect to the coordinates are those of the monomials.",
['inputs','configurations'],
'Dimension 1..4, degree 0..4, full and reduced bases, both modes, every patch or none, every point of a finite complex alphabet including zero coordinates.',
'Tests evaluate one mode at random nonzero points; the alternative mode in patches, zero coordinates and transition factors are not covered.',
['cyjax/donaldson.py'],
[('table of powers','cyjax/donaldson.py _compute_monomials_index'),('logarithmic evaluation','cyjax/donaldson.py _compute_monomials_log')],
['LBSections.__call__'])

p('C16','Algebraic metric quantities are the derivatives of one Kaehler potential',
"For every positive Hermitian matrix the potential is the scaled logarithm of the section norm, and the local metric, its volume ratio to the holomorphic volume form, the Ricci tensor and the Ricci scalar are exactly the corresponding complex derivatives and contractions of that potential along the variety in the reported local coordinates. The metric is Hermitian positive definite and the Ricci tensor Hermitian, the scalar and the ratio real. Diagonal matrices given as vectors describe the same geometry as the full diagonal matrix.",
['inputs','configurations'],
'Varieties of dimension 1..3, degrees 1..3, full and reduced bases, several Hermitian matrices (identity, diagonal, complex off-diagonal), all patches and dependent indices, points solved from a finite alphabet including zero coordinates.',
'Tests compare a few of these quantities at random points for one family with near-identity matrices; complex off-diagonal matrices, vector matrices and all chart choices are not covered.',
['cyjax/donaldson.py'],
[('hand-derived contractions','cyjax/donaldson.py GeometricObjects psi_*, g_proj_*, g_loc_*, ricci_*'),('embedding Jacobian and derivative','cyjax/donaldson.py GeometricObjects.jac, jac_h')],
['AlgebraicMetric.kahler_potential/metric/eta/ricci/ricci_scalar','GeometricObjects'])

p('C17','Geometric scalars do not depend on chart, eliminated coordinate or rescaling',
"On a Calabi-Yau hypersurface (degree equal to the number of coordinates) the volume ratio and Monte Carlo weight of a point, and on every hypersurface its Ricci scalar, are the same in every affine patch, for every eliminated coordinate and for homogeneous input under any rescaling. All of them, on any hypersurface, are the same for every eliminated coordinate of one patch and when the gradient is supplied or left out. Between two descriptions of one point the potential changes exactly by the logarithm of the transition factor and the metric and Ricci tensor transform by the coordinate Jacobian. Scaling the Hermitian matrix by a positive number changes only the potential, by a constant.",
['inputs','configurations'],
'All pairs of (patch, dependent) descriptions of every enumerated point, rescalings of the homogeneous vector, optional arguments present or absent, matrix scalings.',
'Tests never evaluate one point in two descriptions for curvature quantities.',
['cyjax/donaldson.py','cyjax/variety.py','cyjax/projective.py'],
[('affine conversion of homogeneous input','cyjax/donaldson.py GeometricObjects.__init__'),('gradient-based volume factor','cyjax/donaldson.py GeometricObjects.eta')],
['AlgebraicMetric.eta/ricci_scalar/metric/ricci/kahler_potential','VarietySingle.sample_intersect_weights'])

p('C18','Lazily evaluated geometric objects are independent of access order',
"Every quantity read from the lazily evaluated geometry object has the same value no matter which quantities were read before, in which order, or how often, and equals the value computed from a fresh object. Supplying an optional precomputed quantity, or replacing the matrix, coordinates, patch or moduli afterwards, gives exactly what a fresh object built with those values gives.",
['histories','configurations'],
'All read/replace histories up to the stated depth over the public quantities, on several varieties and section degrees, compared with fresh objects.',
'Tests read each quantity once from a fresh object in a fixed order.',
['cyjax/donaldson.py'],
[('dependency graph with cached nodes','cyjax/donaldson.py GeometricObjects (ProgEval)')],
['GeometricObjects attribute reads and assignments'],
[('graph cache','values already computed','progeval.ProgEval')])

p('C19','Batched evaluation equals pointwise evaluation for every argument layout',
"Every public numerical function that accepts leading batch dimensions returns, for any combination of batched and unbatched arguments, the stack of the results for the individual elements with the batch dimensions in front, and optional arguments that are left out behave alike in batched and single calls. Compiled and uncompiled calls agree.",
['inputs','configurations'],
'For each function every assignment of leading shapes (none, one or two batch axes) to its arguments with bounded deviation from a common layout, each element compared with the single call.',
'Tests batch only coordinates, with one leading axis and mostly one argument at a time.',
['cyjax/variety.py','cyjax/donaldson.py','cyjax/differential.py','cyjax/projective.py','cyjax/polynomial.py'],
[('rank-based automatic mapping','auto_vmap decorations in cyjax/*.py')],
['all functions decorated for automatic batching'])

p('C20','Accuracy measure and training loss match their integral definitions',
"The sigma accuracy is the weighted mean over the drawn points of the absolute deviation of the volume-normalized ratio from one, divided by the volume, hence non-negative, invariant under positive rescaling of the matrix and identical for all batch layouts of moduli and matrices. The variance loss is the mean over the sample of weight times squared relative deviation of the ratio from its weighted mean, plus a penalty that is zero exactly when no ratio is negative and otherwise the mean of log(1 + ratio squared) over the negative ones; its gradient treats the weighted mean as a constant. Both depend on nothing but key, moduli, matrix and sample.",
['inputs','configurations'],
'Small sample sets from real sampler calls and from a finite point alphabet, several matrices including indefinite ones, moduli batches, rescalings, enumerated keys.',
'Tests check that the loss runs and one accuracy value; the definition is not recomputed independently.',
['cyjax/donaldson.py','cyjax/ml.py'],
[('weighted means','cyjax/donaldson.py AlgebraicMetric.sigma_accuracy'),('loss','cyjax/ml.py variance_eta_loss')],
['AlgebraicMetric.sigma_accuracy','cyjax.ml.variance_eta_loss'])

p('C21','A Donaldson step is the inverse transposed average over all drawn points',
"One step returns the inverse transpose of the section average, scaled by basis size over volume, taken over exactly the points drawn for all batches, each batch with fresh randomness and non-finite weights counting as zero. The result is Hermitian and positive definite, scales linearly with the matrix and the volume, and depends on the Hermitian part of the input matrix only. Splitting the same points into batches does not change the result.",
['inputs','configurations','histories'],
'Batch numbers 1..4, batch sizes, several matrices including non-Hermitian perturbations, volumes, varieties and degrees; recorded draws; environment answers containing singular points.',
'Tests iterate the algorithm once on one variety and look at the final accuracy only.',
['cyjax/donaldson.py'],
[('loop over batches','cyjax/donaldson.py AlgebraicMetric.donaldson_step')],
['AlgebraicMetric.donaldson_step'])

p('C22','The real matrix parametrization always yields the intended Hermitian matrix',
"Decoding real parameters gives the product of the upper triangular factor, with the real diagonal first and then real and imaginary parts of the upper entries in row-major order, with its conjugate transpose: Hermitian, positive semidefinite and positive definite when no diagonal entry vanishes. Every such matrix size is covered and initial parameters decode to the identity, or with a fluctuation to a diagonal matrix fluctuating around it.",
['inputs','configurations'],
'Sizes 1..6, every parameter position perturbed individually and in pairs over a finite alphabet, initialization with enumerated random draws.',
'Tests decode one random parameter vector and check positivity.',
['cyjax/ml.py'],
[('triangular fill','cyjax/ml.py cholesky_decode, cholesky_from_param'),('initialization','cyjax/ml.py hermitian_param_init')],
['cyjax.ml.cholesky_decode','cyjax.ml.cholesky_from_param','cyjax.ml.hermitian_param_init'])

p('C23','The moduli network maps each modulus independently to valid matrix parameters',
"For every configuration the network returns one real parameter vector of length basis size squared per moduli vector; a batch gives exactly the stack of the single results, in order, and the output for one modulus is unaffected by the others. At initialization the decoded matrix is, for all moduli, the same near-multiple of the identity, and with dropout disabled evaluation is deterministic; enabled, each unit a hidden layer puts out (after its activation) is either dropped or enlarged by the inverse of the keeping rate, as the random key decides. Its inputs are the angles of the moduli and the absolute values, real and imaginary parts of all nontrivial products of the chosen powers (zero included), each group only if switched on; features that are switched off have no influence.",
['inputs','configurations'],
'All combinations of feature switches, suppression, layer and dropout configurations, one to three moduli, power sets; all moduli of a finite alphabet; single and batched.',
'Tests initialize one configuration and check one output shape.',
['cyjax/ml.py'],
[('feature construction and dense layers','cyjax/ml.py HNetMLP')],
['cyjax.ml.HNetMLP'])

p('C24','The buffered sampler is one stream of fresh valid samples, whatever the buffer',
"The sequence of samples delivered by the buffered sampler is a function of the seed alone: it does not depend on the buffer size, on how iteration is interleaved or on when the buffer runs empty, and no sample is ever delivered twice; an explicit refill may skip samples but neither repeats nor reorders them. Each sample consists of moduli drawn by the given moduli sampler together with points, patches and weights for exactly those moduli, in matching order and with the configured sizes. A key sequence from an integer seed or from a key never repeats a key.",
['histories','configurations'],
'All histories of next/iterate/refill operations up to the stated depth for buffer sizes 1..4 and several seeds, moduli and point counts.',
'Tests draw a couple of samples from one sampler and check shapes.',
['cyjax/ml.py','cyjax/util.py'],
[('buffer and index','cyjax/ml.py BatchSampler'),('key splitting','cyjax/util.py PRNGSequence')],
['BatchSampler.__next__/__iter__/new_buffer','PRNGSequence.__next__'],
[('buffer,_index','pending samples and read position','cyjax/ml.py BatchSampler')])

p('C25','Random generators have the documented support and measure for every draw',
"For every possible outcome of the underlying random source, generated values satisfy the documented constraints: components inside the square, moduli between the radii, unit modulus or unit norm, requested shapes, valid patches, and overlap points bounded by the patch size in both charts. Over the whole space of outcomes the generated values are distributed as documented: area-uniform on disks and annuli, isotropic on spheres and projective space, and symmetric under exchange of the two charts for overlap points, whose region is covered completely. Shuffling an axis permutes each slice along that axis only, with every permutation possible.",
['inputs','configurations'],
'Every outcome of a discretized random source (all grid combinations per generated value), all shapes up to rank 2, dimension 1..4, all patch pairs, several radii.',
'The generator tests abort before asserting in this environment and otherwise look at support for one key; the measure is never checked.',
['cyjax/random.py','cyjax/util.py'],
[('radius transformation','cyjax/random.py uniform_angle, projective_overlap'),('normalized Gaussians','cyjax/random.py real_sphere, complex_sphere, uniform_projective')],
['cyjax.random.*'])

p('C26','No random key is ever consumed twice',
"In every library operation that takes a random key, each key, given or derived, is used for at most one draw or one derivation, across batches, vectorized calls, refills and loop iterations. All randomness derives from the given key or seed. Consequently different batches of an integral or balancing step, different samples of a sampler and the moduli within a sample use different randomness, and the same call with the same key is reproducible.",
['histories','configurations'],
'All randomized entry points with all small batch numbers and sizes, moduli counts and operation histories; every use of a key is monitored, compiled loops included.',
'Tests look at results of single calls and cannot see that two draws share a key.',
['cyjax/util.py','cyjax/random.py','cyjax/variety.py','cyjax/donaldson.py','cyjax/ml.py'],
[('explicit key splitting','PRNGSequence, mc_integrate_batched, donaldson_step, BatchSampler, shuffle_axis')],
['jax.random consumption observed at the API boundary'])

p('C27','Training runs leave consistent artefacts at every stopping point',
"Whenever a training run stops, by time limit or by an interruption between steps, the files on disk (validation_params.npy, losses.npy, validation.npy, final.params) describe exactly the state at the last logging point: one loss per step executed until then, one validation row per logging point, and the network parameters reached there. Losses are the mean loss over the moduli batch with the parameters before the step, validation pairs each validation modulus with its own matrix, and the final evaluation (sigma_final.npz) assigns every modulus of a regular grid over the parameter bounds the accuracy of its own matrix, for any evaluation batch size. Dropout acts during training only. No random key is used twice in a run, and a run with a fixed seed is reproducible.",
['histories','crash_points','configurations'],
'All stopping points up to the stated number of steps, all small logging intervals, time-limit and interruption stops, evaluation batch sizes with and without remainder, one and two moduli.',
'No test runs the training script.',
['scripts/train.py'],
[('training loop, logging and saving','scripts/train.py main'),('evaluation grid','scripts/train.py main')],
['losses.npy, validation.npy, validation_params.npy, final.params, sigma_final.npz'])

p('C28','Polynomials and varieties describe themselves faithfully',
"What a polynomial or variety says about itself is what it computes: the printed text and LaTeX form, the expression returned when it is called without arguments, the listed symbols, variable names, indices, positions of the entries and parameters, the call signature, the coefficient domain, the dimensions and numbers of parameters all describe the polynomial which is evaluated. This holds for polynomials built by every route and for their derivatives, sums, products and affine restrictions. Integer valued coefficients are shown as integers, symbols keep their names, and printing an object changes nothing about it.",
['inputs','configurations'],
'All expressions of the family x construction routes x derived objects.',
'Tests print a few fixed polynomials; names, positions, signatures and derived objects are never read back and evaluated.',
['cyjax/polynomial.py','cyjax/variety.py'],
[('printing and no-argument call','cyjax/polynomial.py Poly.__repr__/__call__'),('symbols','cyjax/polynomial.py all_symbols'),('variety','cyjax/variety.py VarietySingle')],
['repr, LaTeX, symbols, signature, domain'])

p('C29','Single and double precision agree and stay in their precision',
"Every public function gives, in the default single precision mode of jax, the result of double precision up to single precision rounding (relative to the size of the result, at well conditioned inputs), for single and batched arguments and when compiled. In single precision mode floating outputs are float32 or complex64, in double precision mode float64 or complex128: no function loses precision in the double mode or depends on the mode for the shape, structure or kind of its result. Points sampled in either mode satisfy the defining equation to the accuracy of that mode.",
['inputs','configurations'],
'All public functions x single/batched arguments x optional arguments given or not, sampling and solving per family, polynomials, networks, random generators in both modes.',
'Tests run most functions in one mode only and do not look at number types.',
['cyjax/projective.py','cyjax/differential.py','cyjax/variety.py','cyjax/donaldson.py','cyjax/polynomial.py','cyjax/ml.py','cyjax/random.py'],
[('geometry','cyjax/donaldson.py AlgebraicMetric'),('sampling','cyjax/variety.py sample_intersect'),('matrix','cyjax/ml.py cholesky_from_param')],
['return values and their dtypes'])

p('C30','Quantities are differentiated correctly',
"Automatic differentiation (forward and reverse mode) of the public functions with respect to each of their continuous arguments - coordinates, conjugate coordinates, moduli, gradients, metrics, matrices, trainable parameters - gives the derivative of the values they return, also at points where a coordinate vanishes and when optional arguments are left out. This covers polynomials and sections, coordinate changes, Fubini-Study and induced metrics, weights, Kaehler potential, metric, eta, curvature, the balancing step, accuracy, matrix decoding and network. The training loss is differentiated with the mean it normalises by held fixed.",
['inputs','configurations'],
'All functions x continuous arguments x every real direction x all points of the grid.',
'Tests compare values; derivatives are used by training and curvature but only spot checked.',
['cyjax/projective.py','cyjax/differential.py','cyjax/variety.py','cyjax/donaldson.py','cyjax/polynomial.py','cyjax/ml.py'],
[('loss','cyjax/ml.py variance_eta_loss'),('potential','cyjax/donaldson.py kahler_potential'),('polynomial','cyjax/polynomial.py Poly.__call__')],
['jax.jvp, jax.jacrev of the public functions'])

p('C31','Accuracy plots show the accuracies they are made from',
"The figure made from a grid of accuracies by the training script shows these numbers at the right places: the panel of each real component of the moduli has the mean of the accuracy over all other components as a curve, with the range from minimum to maximum, at the grid values of that component; the panel below the diagonal for each pair of components shows the chosen marginal (mean, minimum, maximum, ...) with every pixel centred on its grid values, the first component along x and the second along y, on the common colour scale. Outer axes name the component they show. Limits, marginal and figure passed in are respected, the input is not changed. The figures saved after training as final-min, final-max and final-mean show the respective marginal of the saved accuracies.",
['inputs','configurations'],
'Numbers of moduli x grid sizes of every axis x marginals x bounds x limits x figure given or not; figures of real training runs.',
'No test runs the script or looks at a figure.',
['scripts/train.py'],
[('plot','scripts/train.py plot_accuracies'),('evaluation','scripts/train.py main')],
['matplotlib figure objects returned and saved'])

p('C32','The kind of number does not change the result',
"Coordinates, moduli, matrices, weights and trainable parameters may be given in any kind of number which holds their values: jax or numpy arrays, nested lists where they are accepted, complex, real or integer, double or single precision. Indices (patch, eliminated coordinate, position) may be Python integers or numpy or jax integers of any width, signed or unsigned. Every public numerical function then gives the result it gives for complex jax arrays (real ones for weights, volumes and trainable parameters) and Python integers (up to the rounding of a single precision kind), for single and batched arguments, plain and compiled, or refuses the kind with an error; it never returns another value. Complex numpy and jax arrays of either precision (real ones for weights, volumes and trainable parameters), Python integers and 32 or 64 bit integers as indices are always accepted.",
['inputs'],
'All public functions x arguments x kinds of number, pairs of kinds for pairs of arguments, single and batched.',
'Tests pass complex jax arrays and Python integers nearly everywhere.',
['cyjax/util.py','cyjax/projective.py','cyjax/differential.py','cyjax/variety.py','cyjax/donaldson.py','cyjax/polynomial.py','cyjax/ml.py'],
[('indices','cyjax/util.py pop/insert_1d/insert_col'),('sections','cyjax/donaldson.py monomial bases'),('solutions','cyjax/variety.py solve_defining')],
['return values'])

with open(__import__('os').path.join(__import__('os').path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
