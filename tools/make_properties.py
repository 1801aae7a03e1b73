"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
B='src/tenkit/base.py'; U='src/tenkit/utils.py'; M='src/tenkit/metrics.py'; D='src/tenkit/decomposition/decompositions.py'
BD='src/tenkit/decomposition/base_decomposer.py'; CP='src/tenkit/decomposition/cp.py'; P2='src/tenkit/decomposition/parafac2.py'
CM='src/tenkit/decomposition/cmtf.py'; LG='src/tenkit/decomposition/logging/logger.py'; L='src/tenkit/log.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ['return values'],hook_needed=None)))

p('C01','Unfolding, folding and structured matrix products follow their definitions',
  "For every tensor order, mode, size, memory layout and number type, folding the unfolding of a tensor gives the tensor back, and the unfolding has one row per index of the chosen mode with the remaining modes in their original order along the columns. Kronecker products, Khatri-Rao products (optionally leaving one matrix out), matricised-tensor-times-Khatri-Rao products and tensors built from factor matrices equal their elementwise definitions. Flattening a list of factor matrices to a vector and unflattening it gives the list back.",
  ['inputs'],'all tensors of order 2 and up, all modes, all lists of matrices with equal column counts, any strides, integer and floating types',
  'The tests use one or two fixed shapes of third order for each function; the special cases per mode, per order and per memory layout are not sampled.',
  [B],[('unfold/fold',B),('khatri_rao/kron/ktensor',B),('matrix_khatri_rao_product with a special case for third order',B),('flatten_factors/unflatten_factors',B)])
p('C02','Least-squares solvers return a minimiser over the set they promise',
  "For every pair of compatible matrices, also badly scaled ones, the plain solver for X*A = B (also for rank deficient A) and the non-negative solver (for A of full rank apart from zero rows) return a feasible X whose residual no other feasible matrix beats; the orthogonal solvers return a matrix with orthonormal columns (for X*A = B) or rows (for A*X = B) that no other such matrix beats whenever the data determine it. Adding a ridge penalty to a solver makes it minimise the squared residual plus the penalty times the squared norm of X over the same set.",
  ['inputs'],'all real matrices A, B of compatible sizes, wide, tall, rank deficient, zero, one right hand side or many',
  'The tests compare a single random full-rank system per solver with a known solution; optimality is a statement about every competitor and every conditioning.',
  [B],[('rightsolve',B),('non_negative_rightsolve',B),('orthogonal_solve/orthogonal_rightsolve',B),('add_rightsolve_ridge',B)])
p('C03','A Kruskal tensor is the weighted sum of its rank-one components',
  "The array built from a Kruskal tensor equals the sum over components of weight times the outer product of that component's columns, for every order, shape, rank and weights, and it has the shape the tensor reports. Extracting every single component and adding the arrays up gives the whole array, component counts and weights that do not fit together are rejected, and reading the tensor never changes it.",
  ['inputs'],'all lists of two or more factor matrices with equal column counts and all weight vectors, including zero, negative and integer weights',
  'The tests construct a few random third order tensors with weights one.',
  [D,B],[('KruskalTensor.construct_tensor',D),('KruskalTensor.get_single_component_decomposition',D),('KruskalTensor.shape, __init__ validation',D)])
p('C04','Normalising, permuting and sign flipping keep the tensor they describe',
  "Normalising the components of a Kruskal tensor while updating the weights leaves the array it describes unchanged and gives unit columns; resetting the weights sets them to one; permuting the components of factors and weights together leaves the array unchanged. The helpers that normalise, sign-flip or prepare factor lists return factors which, multiplied by the returned norms and signs, are the given ones, and do not change the given ones.",
  ['inputs','histories'],'all Kruskal tensors without vanishingly small nonzero columns, and all sequences of these operations',
  'The tests normalise one random tensor; the relation between factors, weights, norms and signs must survive any sequence of operations on any tensor.',
  [D,U],[('normalize_components, reset_weights',D),('normalize_factor(s), flip_factors, prepare_for_comparison, permute_factors(_and_weights)',U)])
p('C05','Evolving and PARAFAC2 tensors: slices, padding and structure agree',
  "Slice k of an evolving tensor is A diag(c_k) B_k^T, also for slices of different widths, and the constructed array holds slice k in its first columns and zeros after them; for PARAFAC2 tensors B_k is the k-th projection matrix times the blueprint, so that B_k^T B_k is the same for all k when the projections are orthonormal. Reported shapes, sizes, element counts and stacked factors agree with the slices, single components add up to the whole, an irregular tensor refuses to be padded unless warnings are off, and a third order Kruskal tensor converted to an evolving tensor describes the same array.",
  ['inputs'],'all evolving and PARAFAC2 tensors with any number of slices of equal or different widths, any rank',
  'The tests use one regular and one irregular random tensor; indexing by slice, width and component is not sampled.',
  [D],[('EvolvingTensor.construct_slice(s)/construct_tensor/from_kruskaltensor',D),('ProjectedFactor',D),('Parafac2Tensor, get_single_component_decomposition',D)])
p('C06','Stored decompositions load back exactly, and only as their own type',
  "A Kruskal, evolving or PARAFAC2 tensor stored to a file or to a group of an HDF5 file loads back with bit-identical factors, weights, projections and flags, in the same order, whatever the number of modes or slices, and storing does not change it. Storing over an existing file leaves only the new tensor, several tensors in different groups of one file do not affect one another, and loading a group as another type of tensor is refused.",
  ['inputs','histories'],'all decomposed tensors incl. irregular ones and ones with more than ten slices or modes; all sequences of store and load operations',
  'The tests store one small tensor of each type once.',
  [D],[('store/from_file/store_in_hdf5_group/load_from_hdf5_group',D)],observe=['HDF5 files','loaded objects'])
p('C07','CP-ALS solves every least-squares update exactly and never raises the loss',
  "Fitting an unconstrained CP model (optionally with ridge penalties) with alternating least squares never increases the loss from one iteration to the next, for any data and any start. Each iteration equals updating the modes in order, each to the exact minimiser of the (regularised) loss given the current other modes, and a decomposition that already fits the data exactly stays exact.",
  ['inputs','configurations','histories'],'tensors of order 2 and up of any size, rank below or above the dimensions, random, SVD and given starts, every ridge vector, every iteration of the run',
  'The tests run three fixed-size random problems and look at the final fit; monotonicity and per-update optimality concern each step from each state.',
  [CP,B],[('CP_ALS._update_als_factor(s)',CP),('least squares on normal equations',B)],state=[dict(name='decomposition.factor_matrices',meaning='current factors',where=CP)],observe=['loggers called after each iteration'])
p('C08','Constrained CP keeps its constraints and minimises over the constrained set',
  "After every iteration of a CP fit, every mode declared non-negative has no negative entry and every mode declared orthonormal has orthonormal columns (for data that determine them), for every combination of constraints and ridge penalties over the modes. Each iteration updates the modes in order, each to the minimiser of the (regularised) loss over its constraint set given the current other modes, so the loss never increases after the first iteration; asking for both constraints in one mode is refused.",
  ['inputs','configurations','histories'],'all assignments of {free, non-negative, orthonormal} to modes (not all orthonormal), all ridge vectors, all data and starts',
  'The tests fit one non-negative problem; which mode is constrained, in combination with what, and optimality on the boundary of the constraint set are not sampled.',
  [CP,B],[('CP_ALS._get_rightsolve',CP),('CP_ALS.init_random, _init_fit',CP),('non_negative_rightsolve, orthogonal_rightsolve, add_rightsolve_ridge',B)],observe=['loggers called after each iteration'])
p('C09','PARAFAC2-ALS is monotone, keeps its structure and solves each update',
  "For data with slices of equal or different widths, and at least as many rows and columns as components, every PARAFAC2-ALS iteration leaves orthonormal projection matrices and hence a constant cross product, keeps the declared non-negativity and orthonormality constraints, and does not increase the (regularised) loss, as long as the data determine the projections and the orthonormal factors. Each iteration equals updating every projection to its optimum and then running the configured number of constrained CP updates on the projected data, for every start, and an exact start stays exact.",
  ['inputs','configurations','histories'],'lists of slices and third order arrays, all four kinds of start, all constraints on the modes, ridge vectors, numbers of inner updates, every iteration',
  'The tests fit a few regular problems and look at the final fit.',
  [P2,CP,B],[('Parafac2_ALS._update_parafac2_factors',P2),('BaseParafac2._update_projection_matrices, projected_X',P2),('inner CP_ALS sharing its factors',P2)],observe=['loggers called after each iteration'])
p('C10','Coupled matrix-tensor fits share the coupled factor and never lose fit',
  "Fitting a tensor together with matrices coupled to its modes (several to one mode, if wanted) never increases the joint loss, penalties included, within a fit, and each iteration updates each mode to the minimiser of the joint loss (over its constraint set) given the rest, and then each matrix's own factor likewise. The reconstruction of every coupled matrix is the product of the factor of its mode in the tensor decomposition and the matrix's own factor, the normalisation at the end of a fit does not change any reconstruction, and continuing a finished fit proceeds from the same reconstruction.",
  ['inputs','configurations','histories'],'all tensors of order 3 and up with zero or more matrices coupled to any modes in any order, with or without constraints and penalties, every iteration',
  'The tests fit one matrix coupled to one mode and look at the final fit.',
  [CM,CP],[('CMTF_ALS._get_als_lhs/_get_als_rhs/_update_uncoupled_matrix_factors',CM),('CMTF_ALS._normalize_components',CM),('set_coupled_matrices',CM)],observe=['loggers called after each iteration','fit_transform result'])
p('C11','Reported fit statistics describe the current decomposition and data',
  "At every iteration, after loading a checkpoint and after a fit, the reported squared error, mean squared error, root mean squared error, loss and (unless matrices are coupled to the tensor) explained variance equal the values computed directly from the data and the current decomposition: squared error summed over all data, divided by the number of data elements, its root, squared error plus ridge penalties, and one minus the ratio of squared error to squared norm of the data. The values collected by the loggers and the values printed are those of the iteration they are recorded for.",
  ['inputs','histories','configurations'],'CP, PARAFAC2 and coupled models; every iteration; regular and irregular data; every ridge vector',
  'The tests only look at the explained variance of a converged fit.',
  [BD,CP,P2,CM,LG],[('SSE/MSE/RMSE/explained_variance/loss properties',BD),('overrides',P2),('overrides',CM),('loggers',LG)],observe=['public statistics','logger contents','printed lines'])
p('C12','Checkpoints capture the state, and resuming equals an uninterrupted run',
  "With a checkpoint path set, a fit leaves a checkpoint of every iteration whose count is a multiple of the frequency and of the last iteration, each holding exactly the decomposition of that iteration, for any crash between iterations, and without a path nothing is written. Loading a checkpoint (the latest, or one chosen by its iteration) restores that decomposition and iteration count, and a fit resumed from it goes through the same decompositions as a fit that was never interrupted. Going through a file with iter_checkpoints gives every stored decomposition once, in order of iteration.",
  ['histories','crash_points','configurations'],'CP and PARAFAC2 fits, every frequency, every interruption point, every chosen checkpoint, both ways of naming the file',
  'No test interrupts and resumes a fit, and none compares stored checkpoints with the states of the run.',
  [BD,CP,P2,U],[('store_checkpoint/load_checkpoint/_after_fit_iteration',BD),("init 'from_checkpoint' and init by path",CP),("init 'from_checkpoint' and init by path",P2),('iter_checkpoints',U)],state=[dict(name='current_iteration',meaning='number of completed iterations',where=BD)],observe=['HDF5 file','decompositions after each iteration'])
p('C13','Logged values reach the file exactly once, in order',
  "After every checkpoint the file holds, for each logger, exactly the values and iteration numbers logged so far, once each and in order, however logging and storing are interleaved and whether or not the run crashed or was resumed with new loggers from the last checkpoint. Every logger has one value for every iteration of every fit, numbered as the model numbers its iterations.",
  ['histories','crash_points'],'all interleavings of log and store, all frequencies, all interruption points, any set of loggers of different types',
  'No test writes a log to a file.',
  [LG,BD],[('BaseLogger.write_to_hdf5_group, latest_log_metrics, prev_checkpoint_it',LG),('store_checkpoint',BD)],state=[dict(name='prev_checkpoint_it',meaning='how many values are on disk',where=LG)],observe=['HDF5 file','log_metrics, log_iterations'])
p('C14','Fits stop when promised, continue where they stopped, and refit from scratch',
  "A fit runs at most the maximum number of iterations in total, and stops earlier exactly when the relative change of the error in the last iteration fell below the convergence tolerance (or, for CP, the relative error below its tolerance). Continuing a fit that stopped at its iteration limit gives the same result as one longer fit, fitting a model again to data of the same order gives the same result as a new model, and printing, logging and checkpointing have no influence on the result. fit_transform does the same fit and returns its result.",
  ['histories','configurations'],'all sequences of fit and continued fit with any iteration limits and tolerances, for CP, PARAFAC2 and coupled models',
  'The tests call fit once per model object.',
  [BD,CP,P2,CM],[('fit/continue_fit/_init_fit',BD),('CP_ALS._fit, _update_convergence',CP),('Parafac2_ALS._fit',P2),('CMTF_ALS._fit',CM)],state=[dict(name='current_iteration',meaning='number of completed iterations',where=BD)],observe=['loggers','final decompositions','printed lines'])
p('C15','Every kind of start is what it says, and unusable starts are refused',
  "A random start has factors of the data's sizes and the model's rank (CP and coupled models: with unit columns, non-negative where the mode is constrained so; PARAFAC2: with orthonormal projections); an SVD start spans the leading left singular vectors of each unfolding (for PARAFAC2, of the slices side by side); a given start or checkpoint describes the same tensor as the decomposition the fit starts from (for coupled models, up to the scale of its components). Starts whose rank or sizes do not match the data, SVD starts for CP with rank above the smallest dimension, and unknown kinds of start are refused with a ValueError before any fitting, and kinds are recognised in any letter case.",
  ['inputs','configurations'],'all shapes, ranks, kinds of start and mismatches in any mode, slice or rank',
  'The tests use a matching start only.',
  [CP,P2,D],[('init_components/_check_valid_components/init_svd/init_random',CP),('init_components/_check_valid_components/init_svd/init_random',P2),('random_init',D)],observe=['decomposition after a fit of zero iterations','exceptions'])
p('C16','Factor match scores are the best achievable match, and blind to gauge',
  "The factor match score equals the maximum, over all matchings of the components, of the minimum (or mean) over components of the product of absolute cosines, times one minus the relative weight difference if weights are compared; the returned matching attains it, also when the estimate has more components than the reference. It lies between 0 and 1, is 1 for equal tensors, and does not change when components are reordered (apart from the matching), signs are flipped in any mode, or scale is moved between the modes of a component; the mode-wise version does this for each mode separately, for Kruskal, evolving and PARAFAC2 tensors, and the function for lists of PARAFAC2 factors for the two modes that do not evolve. Unknown reductions are refused.",
  ['inputs'],'all pairs of decompositions with nonzero components, equal or larger estimated rank, both reductions, with and without weights',
  'The tests score a tensor against itself or one permutation.',
  [M,D],[('factor_match_score, separate_mode_factor_match_score, _factor_match_score, weight_score',M),('factor_match_score methods',D)])
p('C17','Core consistency compares the least-squares Tucker core with the ideal one',
  "For factors of full column rank the core consistency is 100 times one minus the squared distance between the superdiagonal core of ones and the least-squares Tucker core of the data for the factors (scale spread evenly over the modes), divided by the rank or, if normalised, by the squared norm of that core. It is 100 for data that the factors reproduce exactly, does not change when components are reordered or scale is moved between modes, and the PARAFAC2 version equals it on the projected data; tensors not of third order are refused.",
  ['inputs'],'all third order data and full rank factors, any weights, memory layout, regular and irregular PARAFAC2 data',
  'The tests check exactly fitting random data only.',
  [M,D],[('core_consistency, core_consistency_parafac2',M),('KruskalTensor.core_consistency',D)])
p('C18','Leverage, degeneracy, explained share and completion score follow definitions',
  "Leverages are the diagonal of the projection onto the column space: between 0 and 1, adding up to the rank, and unchanged by any invertible recombination of the columns. Degeneracy scores are the products over modes of the cosines between components: symmetric, one on the diagonal, unchanged by scaling. The explained share is one minus the squared error relative to the squared norm of the true tensor, and the completion score is the relative error over the missing entries only.",
  ['inputs'],'all full rank matrices, all decompositions with nonzero components, all tensors and masks',
  'None of these has a test.',
  [M,D],[('leverage, percent_explained, tensor_completion_score, _tucker_congruence',M),('degeneracy',D)])
p('C19','Sign determination follows the data and never changes the tensor',
  "The sign found for a component in a mode with nonzero evidence is that of the component's signed squared least-squares loadings on the data (or of its column sum without data), and flipping the components of a Kruskal tensor by the signs found for it leaves the array it describes unchanged. If the signs of the modes of a component multiply to minus one, only the mode with the weakest evidence is overruled. Sign fixing of evolving tensors makes the columns of each slice's factor agree with the data in sign and keeps every slice.",
  ['inputs'],'all data and Kruskal tensors of any order with nonzero evidence in each mode',
  'None of these has a test.',
  [U,D],[('get_signs, fix_signs_evolving_tensor',U),('KruskalTensor.get_sign_scores/get_signs',D)])
p('C20','Experiment logs on disk hold every value once, in order, across restarts',
  "For every sequence of log, save and reopen-to-continue operations and every store frequency, the file holds for each target exactly the values saved so far in order (in single precision), is up to date after every multiple of the store frequency and every explicit save, and keeps values of other experiments. Running an experiment stores its attributes, parameters, outputs and final evaluation in its group, and a continued run replaces outputs in place.",
  ['histories'],'all sequences of operations, any number of targets, frequencies, experiments per file, restarts',
  'The module has no test.',
  [L],[('HDF5Logger.log/save_logs/__init__(continue_old)',L),('Experiment.run_experiment',L)],state=[dict(name='_it_num, _prev_write_it, _first_write_it',meaning='position in the log and on disk',where=L)],observe=['HDF5 file'])
p('C21','Functions leave their arguments unchanged',
  "No function of the library changes the arrays, lists, masks or decompositions it is given, except where that is its purpose (normalising or resetting a decomposition in place, fitting on from a given starting decomposition). In particular data tensors, slices, coupled matrices, coupling modes, constraint and penalty lists are the same after a fit as before it, and a result returned earlier does not change when the same model is fitted again from a new start.",
  ['inputs','histories','configurations'],'all public functions and fits, any memory layout',
  'No test compares arguments before and after.',
  [B,U,M,D,CP,P2,CM],[('copies of lists and factors',B),('deepcopy/copy in helpers',U),('set_target keeps a reference to the data',BD)],observe=['arguments after the call'])
p('C22','Synthetic data and random tensors have the advertised structure',
  "Synthetic data equal the tensor of the returned unit-norm factors plus the noise factor times a noise whose norm equals that of the noise-free tensor, with the requested sizes and rank, and with non-negative factors from the non-negative generator. Random Kruskal tensors have unit columns and unit weights (non-negative for the uniform method, other methods refused), and random PARAFAC2 tensors have orthonormal projections of the requested widths.",
  ['inputs','configurations'],'all sizes, ranks, noise factors, seeds',
  'The generators are only used as fixtures by tests.',
  [U,D],[('create_data, create_non_negative_data, create_random_factors, create_random_uniform_factors',U),('random_init',D)])
p('C23','Fits do not depend on layout or labels, and scale with the data',
  "A fit from a given start does not depend on the memory layout or container of the data (strided, reversed, integer typed, or a list of slices instead of an array). Reordering the indices of a mode in data and start reorders the result likewise, reordering the components of the start reorders the components of the result, and multiplying the data by a constant multiplies the fitted reconstruction by it. If the start is multiplied along, the fit also stops after as many iterations as before.",
  ['inputs','configurations'],'CP, PARAFAC2 and coupled fits, all constraints, any permutations, positive scale factors and layouts',
  'No test fits the same problem twice in different representations.',
  [CP,P2,CM,B],[('matricised products per mode',B),('set_target, projected_X',P2),('coupled updates',CM)],observe=['final decompositions'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
