import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=hook)))
I='internal/ceres/'
H='include/ceres/'
p('C01','A Problem always reports exactly the history of edits made to it',
 'After any sequence of successful Problem calls that add or remove parameter blocks and residual blocks or change constancy, manifolds and bounds, every Problem query (counts, sizes, tangent sizes, membership, constancy, manifold, bounds, the blocks of a residual, the residuals of a block, the cost and loss of a residual) returns exactly what that sequence implies, with or without enable_fast_removal. Removing a parameter block removes exactly the residual blocks that use it; removing a residual block leaves its parameter blocks; while nothing has been removed, residual blocks are reported in insertion order. A call that breaks a documented precondition (unknown pointer or residual, size mismatch with an existing block or with the cost function, overlapping memory, repeated block in one residual, bound index past the end, manifold of the wrong ambient size) aborts.',
 ['histories','inputs','configurations'],'every finite sequence of Problem API calls, every Problem::Options',
 'problem_test.cc (not even built here) replays a few dozen fixed histories; interactions such as remove-then-re-add, swap-with-last index maintenance and per-block reverse indices depend on the history.',
 [I+'problem_impl.cc',I+'problem_impl.h',I+'program.cc',I+'parameter_block.h',H+'problem.h'],
 [('swap-with-last removal + index_ maintenance','ProblemImpl::DeleteBlockInVector'),('per-block residual sets for fast removal','ParameterBlock::AddResidualBlock'),('safety CHECKs','ProblemImpl::InternalAddParameterBlock, AddResidualBlock')],
 ['all Problem::Get*/Num*/Is*/Has* queries'])
p('C02','Objects handed to a Problem are destroyed exactly once, never while in use',
 'A cost function, loss function or manifold given to a Problem with TAKE_OWNERSHIP is destroyed exactly once, no later than the destruction of the Problem, and never while any residual or parameter block of the Problem still uses it, however often it is shared, removed, replaced or re-added. With DO_NOT_TAKE_OWNERSHIP it is never destroyed by the Problem. Moving a Problem transfers these duties.',
 ['histories','configurations'],'every history of Problem calls with arbitrary sharing of the objects, all eight ownership combinations, fast removal on and off, move construction and assignment',
 'Only a handful of sharing patterns are sampled; a double delete or leak depends on reference counts reached by a particular history.',
 [I+'problem_impl.cc',I+'problem_impl.h',H+'problem.h'],
 [('reference counts','ProblemImpl::DeleteBlock, cost_function_ref_count_'),('deferred deletion of manifolds','ProblemImpl::~ProblemImpl, manifolds_to_delete_')],
 ['destructors of instrumented cost/loss/manifold objects'])
p('C03','Problem evaluation returns the exact cost, residuals, gradient and Jacobian',
 'Problem::Evaluate and EvaluateResidualBlock return, for the values currently in the user memory, the cost (the sum over the blocks of half of rho of the squared residual norm), the robustified residuals, and the tangent-space gradient and Jacobian, laid out in the order of the requested (or all) residual and parameter blocks, with zero entries for constant blocks. The outcome does not depend on num_threads, on which other outputs are requested, or on earlier evaluations, and evaluating changes neither parameter values nor any observable state of the Problem. If any cost function reports failure or a non-finite value, the call returns false.',
 ['inputs','histories','configurations'],'every problem graph, every subset and order of blocks, every choice of outputs, thread count, loss function and manifold',
 'problem_test.cc evaluates one fixed small problem; block layout, constant columns and robustification interact with the graph, the subset and the thread schedule.',
 [I+'problem_impl.cc',I+'program_evaluator.h',I+'residual_block.cc',I+'corrector.cc',I+'compressed_row_jacobian_writer.cc',I+'block_jacobian_writer.cc',I+'dense_jacobian_writer.h',I+'residual_block_utils.cc'],
 [('program evaluator','ProgramEvaluator::Evaluate'),('residual block evaluation with robustification','ResidualBlock::Evaluate, Corrector'),('Jacobian layout','CompressedRowJacobianWriter')],
 ['Problem::Evaluate outputs','Problem::EvaluateResidualBlock outputs'])
p('C04','Solve returns the best feasible point it reported, or leaves the input alone',
 'If a solve ends with a usable solution, the parameter blocks hold the point of lowest cost among the starting point and all accepted steps, Summary.final_cost is the cost of the Problem at exactly those values and is never above initial_cost, and initial_cost is the cost at the (bound-projected) starting point; if it ends with FAILURE or USER_FAILURE without update_state_every_iteration, every parameter block is bitwise unchanged. Parameter blocks that are constant or used by no residual, and coordinates held constant by a SubsetManifold, are never modified, and every bounded variable block the solver updates satisfies its bounds. After the solve the Problem answers every structural query as before it, and Problem::Evaluate at the result reproduces final_cost.',
 ['inputs','configurations','histories','fault_sequences'],'every problem, every option set (minimizer, strategies, linear solvers, orderings, inner iterations, bounds, threads), every pattern of failing evaluations',
 'system tests check final costs of a few well-behaved problems; what is handed back on rejected steps, aborts, projections and reordered programs depends on the run.',
 [I+'solver.cc',I+'trust_region_minimizer.cc',I+'line_search_minimizer.cc',I+'program.cc',I+'trust_region_preprocessor.cc',I+'solver_utils.h',I+'parameter_block.h'],
 [('copy best x to user state','TrustRegionMinimizer::FinalizeIterationAndCheckIfMinimizerCanContinue, PostSolveSummarize'),('projection on bounds','ParameterBlock::Plus'),('removal of fixed blocks','Program::RemoveFixedBlocks')],
 ['user parameter memory','Solver::Summary','Problem queries'])
p('C05','Every trust region iteration follows the documented algorithm',
 'In every trust region solve, each step tried from the current point minimises the damped linearised model (Levenberg-Marquardt) or lies on the dogleg path within the trust region; it is accepted exactly when its relative decrease exceeds min_relative_decrease (for non-monotonic runs, against the documented reference cost), and the radius then grows, shrinks or stays as the strategy prescribes, never above its maximum. IterationSummary reports cost, cost_change, norms, radius, relative_decrease and validity consistent with those events. The solve stops exactly when one of the documented criteria (gradient, parameter or function tolerance, iteration or radius limit, consecutive invalid steps, callback) holds, and reports the matching termination type.',
 ['inputs','configurations','fault_sequences'],'every cost function, starting point, linear solver and tolerance setting',
 'Tests look at end results; a wrong radius update, stale Jacobian scaling or a wrong accept test still converges on most problems.',
 [I+'trust_region_minimizer.cc',I+'levenberg_marquardt_strategy.cc',I+'dogleg_strategy.cc',I+'trust_region_step_evaluator.cc'],
 [('main loop','TrustRegionMinimizer::Minimize'),('radius update','LevenbergMarquardtStrategy::StepAccepted/StepRejected/StepIsInvalid')],
 ['cost function calls','IterationSummary stream','Solver::Summary'])
p('C06','Iteration callbacks and summaries form one coherent protocol',
 'For every solve, Summary.iterations is numbered 0,1,2,... and every user callback is invoked once per entry, in the order given, with exactly that entry, and no further step is taken after one returns something other than SOLVER_CONTINUE, in which case the termination type is USER_SUCCESS or USER_FAILURE accordingly. num_successful_steps and num_unsuccessful_steps count exactly the accepted and rejected entries, and no iteration number exceeds max_num_iterations; with update_state_every_iteration every callback sees in user memory the best point found so far; without it, user memory keeps the starting values until the solve ends.',
 ['histories','configurations','inputs'],'every number of callbacks, every sequence of their return values, all minimizers',
 'callbacks_test.cc checks two scripted sequences; order, early exit and the counters interact with rejected and invalid steps.',
 [I+'minimizer.cc',I+'callbacks.cc',I+'preprocessor.cc',I+'trust_region_minimizer.cc',I+'line_search_minimizer.cc',H+'iteration_callback.h'],
 [('callback loop','Minimizer::RunCallbacks'),('state updating callback','StateUpdatingCallback')],
 ['callback invocations','user memory inside callbacks','Summary.iterations'])
p('C07','EvaluationCallback is told the truth before every evaluation',
 'When a Problem has an EvaluationCallback, every call to a cost function during Solve, Problem::Evaluate, EvaluateResidualBlock or Covariance::Compute is preceded by a PrepareForEvaluation call for that evaluation, and between two such calls the user parameter memory holds, unchanged, exactly the point at which the cost functions are evaluated. Jacobians are requested only if evaluate_jacobians was true, and new_evaluation_point is false only if the point is the one of the immediately preceding evaluation.',
 ['histories','configurations','inputs'],'every solve and every sequence of evaluations, all minimizers, line searches and strategies',
 'evaluation_callback_test.cc follows one problem through a fixed pattern; a wrong new_evaluation_point flag is visible only when a step was rejected or a line search fell back.',
 [I+'program_evaluator.h',I+'program.cc',I+'problem_impl.cc',I+'trust_region_minimizer.cc',I+'line_search_minimizer.cc',H+'evaluation_callback.h'],
 [('PrepareForEvaluation call','ProgramEvaluator::Evaluate, ProblemImpl::EvaluateResidualBlock'),('evaluate_options.new_evaluation_point','TrustRegionMinimizer::HandleSuccessfulStep, LineSearchMinimizer::Minimize')],
 ['PrepareForEvaluation calls','cost function calls','user memory'])
p('C08','Failed or non-finite evaluations never corrupt a solve',
 'If a cost function fails, or returns a residual or Jacobian entry that is not finite, in the first evaluation of a solve, the solve returns FAILURE with all parameters unchanged; if that happens at a trial point, the step is treated as rejected and the solver goes on from the previous point; if it happens when derivatives are computed at an accepted point, the solve ends in FAILURE with parameters unchanged. No such failure, at whatever evaluation it happens, aborts the process, is reported as success with a point at which evaluation failed, or lets a non-finite number into the parameters or final_cost.',
 ['fault_sequences','inputs','configurations'],'a fault (return false, NaN, infinity, unwritten output) injected at any one or several evaluations of any solve, for any residual block, thread count and minimizer',
 'A few tests make the first evaluation fail; the k-th evaluation, for every k and in combination with line search, inner iterations and threads, is not explored.',
 [I+'residual_block.cc',I+'residual_block_utils.cc',I+'program_evaluator.h',I+'trust_region_minimizer.cc',I+'line_search.cc',I+'line_search_minimizer.cc'],
 [('invalid value detection','ResidualBlock::Evaluate, IsEvaluationValid'),('infinite cost for failing steps','TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost')],
 ['Solver::Summary','user parameter memory'])
p('C09','The line search accepts only steps that satisfy its conditions',
 'A successful Armijo search returns a point it evaluated whose cost satisfies sufficient decrease, every new trial step lying between max_line_search_step_contraction and min_line_search_step_contraction times the previous one; a Wolfe search that reports a full success satisfies the strong Wolfe conditions, keeps trial steps inside its bracket or expansion limit, and otherwise falls back only to the lowest evaluated point of the bracket. Searches never exceed max_num_line_search_step_size_iterations and treat failing evaluations as too long a step. The line search minimizer searches along the direction its method defines (steepest descent, the chosen conjugate gradient formula, BFGS or limited memory BFGS of the configured rank), which is always finite and one of descent, moves only to points so found, so its cost never increases, restarts its direction at most max_num_line_search_direction_restarts times, and reports the termination type of the criterion that holds.',
 ['inputs','configurations','fault_sequences'],'every univariate function the search can meet, including failing samples, all interpolation types, and every line search solve',
 'line_search tests run the minimizer to convergence on two functions; the bracketing and zoom case analysis is driven by the function values.',
 [I+'line_search.cc',I+'line_search_minimizer.cc',I+'line_search_direction.cc'],
 [('Armijo loop','ArmijoLineSearch::DoSearch'),('bracket and zoom','WolfeLineSearch::BracketingPhase, ZoomPhase'),('restart logic','LineSearchMinimizer::Minimize')],
 ['function evaluations','LineSearch::Summary','IterationSummary'])
p('C10','A parallel loop runs every index exactly once and returns when all are done',
 'ParallelFor over [start, end), with or without a partition, invokes the function exactly once for every index, passes thread ids in [0, num_threads) that are never used by two running invocations at once, and returns only after every invocation has completed and its effects are visible; partitions are contiguous, cover the range and make the largest cumulative cost of a part as small as possible. This holds for every thread count, range, number of threads already in the pool, nesting depth and for several callers sharing one Context at once, without deadlock.',
 ['schedules','inputs','configurations'],'every interleaving of callers and workers, every range, partition and thread count',
 'parallel_for_test.cc runs a few sizes under whatever schedule the machine produces; hand-off between the starting task, late workers and nested loops is schedule dependent.',
 [I+'parallel_for.h',I+'parallel_invoke.h',I+'parallel_invoke.cc',I+'thread_pool.cc',I+'context_impl.cc',I+'partition_range_for_parallel_for.h',I+'parallel_for.cc'],
 [('self-scheduling shared state','ParallelInvoke, ParallelInvokeState'),('block until finished','BlockUntilFinished'),('partitioning','PartitionRangeForParallelFor')],
 ['function invocations (index, thread id)','return of ParallelFor'])
p('C11','Queues, tokens and pools of the threading layer never lose or repeat work',
 'ConcurrentQueue delivers every pushed element exactly once in FIFO order, Wait returns false only when the queue was stopped and is empty, and EnableWaiters re-arms it; ThreadTokenProvider hands out tokens in [0, n) with no token held twice; ThreadPool runs every task added exactly once, never shrinks, and finishes all queued tasks before its destructor returns.',
 ['schedules','histories'],'every interleaving of any number of producers and consumers, any history of Push, Pop, Wait, StopWaiters, EnableWaiters, Resize and destruction',
 'The existing tests force three or four hand-written interleavings.',
 [I+'concurrent_queue.h',I+'thread_token_provider.cc',I+'thread_pool.cc',I+'thread_pool.h'],
 [('mutex + condition variable','ConcurrentQueue'),('stop on destruction','ThreadPool::Stop')],
 ['call/return histories of the public methods'])
p('C12','Linear solver, ordering and thread choices never change what is solved',
 'For a given problem and strategy, every available linear solver type, preconditioner, elimination ordering, inner storage choice and thread count produces the same trust region step up to its documented accuracy, so solves that differ only in these options visit the same points up to rounding. Whatever valid ordering the user gives (empty, partial independent sets, constant or removed blocks, groups in any order), it is honoured or replaced by a documented fallback, never an abort, a wrong permutation of columns, or a changed problem.',
 ['configurations','inputs'],'every combination of linear solver, preconditioner, ordering, dynamic sparsity, Jacobi scaling, mixed precision and thread count on every problem graph',
 'system tests run three or four problems through each solver with a loose tolerance on the final cost only, and none of them is built here.',
 [I+'trust_region_preprocessor.cc',I+'reorder_program.cc',I+'parameter_block_ordering.cc',I+'linear_solver.cc',I+'schur_complement_solver.cc',I+'schur_eliminator_impl.h',I+'dynamic_sparse_normal_cholesky_solver.cc',I+'cgnr_solver.cc',I+'iterative_schur_complement_solver.cc',I+'sparse_normal_cholesky_solver.cc'],
 [('ordering set-up','SetupLinearSolverOrdering, ReorderProgramForSchurTypeLinearSolver'),('Schur elimination','SchurEliminator::Eliminate/BackSubstitute')],
 ['cost function calls (points visited)','Solver::Summary'])
p('C13','Sparse matrix containers behave as the matrices they represent',
 'Every operation of the triplet, compressed row, block sparse, dense, dynamic and block-random-access matrix classes (construction from each other and from blocks, products from left and right, accumulation, column and row scaling, norms, transposition, appending and deleting rows, conversion to dense and to CRS, symbolic structure, parallel variants) yields exactly the matrix or vector that linear algebra defines, for every block structure including empty rows, columns and cells out of order. Views of the E and F parts of a Jacobian multiply exactly as the corresponding column blocks.',
 ['inputs','histories','configurations'],'every block structure, every sequence of operations, every thread count; exact on integer matrices',
 'The unit tests multiply one or two fixed 2-block matrices; index arithmetic depends on the structure.',
 [I+'triplet_sparse_matrix.cc',I+'compressed_row_sparse_matrix.cc',I+'block_sparse_matrix.cc',I+'dense_sparse_matrix.cc',I+'partitioned_matrix_view_impl.h',I+'block_random_access_sparse_matrix.cc',I+'inner_product_computer.cc',I+'small_blas.h'],
 [('index arithmetic over block structures','CompressedRowBlockStructure users')],
 ['matrix contents via ToDenseMatrix and products'])
p('C15','Covariance is computed exactly for the requested blocks, or refused',
 'Covariance::Compute returns true only if the Jacobian at the current point could be evaluated and has the required rank, and then every requested block, in ambient or tangent space, in either order of the pair, is the corresponding block of the inverse (or pseudo-inverse) of J\'J, zero for constant blocks; a pair of varying blocks that was not requested is refused with false, and a call before a successful Compute by a check failure. The matrix form agrees with the block form for any list of blocks, and neither changes the Problem.',
 ['inputs','histories','configurations','fault_sequences'],'every problem graph, set and order of requested pairs, algorithm type, thread count, constancy and manifold, and failing cost functions',
 'covariance_test.cc uses one fixed 3-block problem.',
 [I+'covariance_impl.cc',I+'covariance.cc',H+'covariance.h'],
 [('sparsity of requested blocks','CovarianceImpl::ComputeCovarianceSparsity'),('values','ComputeCovarianceValuesUsing*'),('lookup','GetCovarianceBlockInTangentOrAmbientSpace')],
 ['return values and output arrays of Covariance'])
p('C16','Option validation accepts exactly what the solver can run',
 'Solver::Options::IsValid accepts an option set exactly when every field satisfies its documented constraint and the linear solver, preconditioner and library combination is available, and then Solve runs without aborting; an option set it rejects makes Solve return FAILURE with a non-empty message before any cost function is evaluated and without touching parameters or Problem. The same holds for GradientProblemSolver::Options.',
 ['configurations'],'every combination of option values, including boundary values and non-finite numbers',
 'solver_test.cc flips one field at a time for a few fields.',
 [I+'solver.cc',I+'gradient_problem_solver.cc',H+'solver.h'],
 [('validation tables','TrustRegionOptionsAreValid, LineSearchOptionsAreValid, OptionsAreValidForLinearSolver'),('early return','Solver::Solve')],
 ['IsValid result','Solver::Summary','evaluation count'])
p('C17','Orderings are ordered partitions and independent sets stay independent',
 'After any sequence of operations, an OrderedGroups container is the partition those operations define: each element is in one group, empty groups vanish, Reverse reverses the group order, and every query agrees. Graph-based orderings computed from a problem are permutations of its free parameter blocks whose first elimination group is an independent set (maximal where promised), connected components and forests keep their defining properties, stable variants break ties by the given order, single linkage and canonical views clusterings are what their definitions say and always complete, and reordering a program (by an ordering, for the Schur complement, lexicographically by residual) permutes it without losing or duplicating a block.',
 ['histories','inputs'],'every operation history and every small graph, enumerated exhaustively up to isomorphism bounds',
 'Tests use one or two graphs and short histories.',
 [H+'ordered_groups.h',I+'graph.h',I+'graph_algorithms.h',I+'parameter_block_ordering.cc',I+'canonical_views_clustering.cc',I+'single_linkage_clustering.cc'],
 [('dual maps kept in step','OrderedGroups'),('greedy independent set','IndependentSetOrdering')],
 ['public queries of OrderedGroups','results of the graph functions'])
p('C18','TinySolver makes only descent steps and reports what it did',
 'For every function whose evaluations succeed, TinySolver ends at the starting point or an accepted point with cost not above the initial cost, final_cost and gradient_max_norm are the values at that point, Residuals and Jacobian are those at that point, each step solves the damped normal equations for the current radius, which is adapted as documented, and the status names a criterion that holds. The iteration limit is respected and a solver object can be reused for further solves with the same outcome as a fresh one.',
 ['inputs','histories','configurations'],'every function, size (static or dynamic), option set and reuse history',
 'tiny_solver_test.cc checks convergence of two smooth functions from one start.',
 [H+'tiny_solver.h',H+'tiny_solver_autodiff_function.h',H+'tiny_solver_cost_function_adapter.h'],
 [('LM loop','TinySolver::Solve'),('state at x','TinySolver::Update')],
 ['functor calls','TinySolver::Summary','Residuals(), Jacobian()'])
p('C19','Derivative wrappers reproduce the functor and its exact derivative',
 'For every functor built from ring operations and the elementary functions of jet.h, and every shape of parameter blocks, AutoDiffCostFunction, DynamicAutoDiffCostFunction (any stride), AutoDiffFirstOrderFunction, AutoDiffManifold, TinySolverAutoDiffFunction and the functor adaptors return the functor value and its partial derivatives (exactly for ring operations on integers, to rounding otherwise; at the corner cases of pow, fmax, fmin and fdim what jet.h documents), write only the Jacobians that were asked for, never write outside them, and propagate a false return. Conditioned, normal-prior and converted cost functions compose exactly.',
 ['inputs','configurations'],'every polynomial functor, block shape, stride and subset of requested Jacobians; exact on integers',
 'Unit tests differentiate a few fixed functors with all Jacobians requested.',
 [H+'jet.h',H+'internal/autodiff.h',H+'autodiff_cost_function.h',H+'dynamic_autodiff_cost_function.h',H+'cost_function_to_functor.h',H+'dynamic_cost_function_to_functor.h',H+'conditioned_cost_function.h',H+'normal_prior.h',H+'autodiff_first_order_function.h',H+'autodiff_manifold.h'],
 [('dual numbers','Jet operators'),('passes of Stride derivatives','DynamicAutoDiffCostFunction::Evaluate')],
 ['Evaluate outputs and guard bytes'])
p('C20','Manifolds satisfy the Plus/Minus laws and compose',
 'For Euclidean, Subset, Quaternion, EigenQuaternion, Sphere, Line and Product manifolds, the last of any nesting and with factors held by value or pointer, Plus(x, 0) = x, Plus(x, Minus(y, x)) = y, Minus(Plus(x, d), x) = d, PlusJacobian and MinusJacobian are the derivatives of Plus and Minus at zero and their product is the identity, and RightMultiplyByPlusJacobian multiplies by PlusJacobian: exactly for Euclidean and Subset manifolds and their products, to rounding for the others. Constant coordinates never move, AmbientSize and TangentSize add up over the factors, every factor acts on its own slice only, a product fails when one of its factors fails, and nothing is written outside the outputs.',
 ['inputs','configurations'],'every composition, size, set of constant coordinates and point (for spheres and lines, of norm well above 1e-8)',
 'manifold_test.cc checks random points of a few fixed manifolds with tolerances.',
 [H+'manifold.h',H+'product_manifold.h',H+'sphere_manifold.h',H+'line_manifold.h',I+'manifold.cc'],
 [('block-diagonal composition','ProductManifold'),('masked plus','SubsetManifold'),('Householder frame','sphere_manifold_functions.h')],
 ['outputs of the Manifold interface'])
p('C21','Independent solves do not interfere, and solving is repeatable',
 'Solving the same problem again from the same values with the same Options object gives the same summary and parameters, however many solves, evaluations or edits came between, since Solve changes neither the Options object nor the structure of the Problem. Solves of distinct problems running concurrently, with separate Contexts or sharing one, give the same results as run alone.',
 ['histories','schedules'],'every history of solves and edits on one Problem, Context and Options; every interleaving of concurrent solves',
 'No test reuses Options across edits or runs solves concurrently.',
 [I+'solver.cc',I+'trust_region_preprocessor.cc',I+'context_impl.cc',I+'program.cc',I+'parameter_block.h'],
 [('state restored after solve','PostSolveSummarize, SetParameterBlockStatePtrsToUserStatePtrs'),('copied options','PreprocessedProblem::options')],
 ['Summary','parameter memory','Options contents'])
p('C22','GradientProblemSolver honours its outcome and callback contract',
 'For every first order function that can be evaluated at the starting point, GradientProblemSolver returns in the parameters a point it evaluated with final_cost its exact cost, not above initial_cost, leaves the parameters bitwise unchanged on FAILURE or USER_FAILURE (without update_state_every_iteration), steps on the manifold only, invokes every callback in order once per reported iteration, except for one that ends the solve by convergence, counts evaluations truly, and survives failing evaluations at any point.',
 ['inputs','configurations','fault_sequences'],'every function, option set, callback script and failing evaluation',
 'gradient_problem_solver_test.cc solves Rosenbrock once.',
 [I+'gradient_problem_solver.cc',I+'gradient_problem.cc',I+'gradient_problem_evaluator.h',I+'line_search_minimizer.cc'],
 [('solution copied only if usable','GradientProblemSolver::Solve')],
 ['function calls','Summary','parameter memory'])
p('C23','Non-monotonic step quality follows the reference-cost automaton',
 'For every sequence of accepted steps, the trust region step evaluator reports as step quality the larger of the relative decrease against the current cost and, when non-monotonic steps are allowed, against the accumulated reference, updating minimum, candidate and reference cost exactly as in Conn, Gould and Toint algorithm 10.1.2. With a window of zero it is the plain relative decrease, a step of unbounded cost is never of good quality, and at no time is the reference cost below the minimum cost.',
 ['histories','inputs'],'every sequence of step costs and model changes, every window size',
 'No test exercises the evaluator itself.',
 [I+'trust_region_step_evaluator.cc',I+'trust_region_step_evaluator.h'],
 [('StepAccepted automaton','TrustRegionStepEvaluator::StepAccepted')],
 ['StepQuality return values'])
p('C24','Inner iterations only improve the step they start from',
 'With use_inner_iterations, after each trust region trial step the free blocks are re-optimised group by group in the given or computed order, each group being an independent set, so that blocks not in the ordering, constant blocks and bounds are left untouched and the cost after inner iterations is never used to accept a point worse than the current one. An invalid ordering (dependent blocks in one group) makes the solve fail with a message rather than run.',
 ['inputs','configurations','schedules'],'every problem graph, valid or invalid ordering, and thread count',
 'One test compares a solve with and without inner iterations.',
 [I+'coordinate_descent_minimizer.cc',I+'trust_region_preprocessor.cc',I+'trust_region_minimizer.cc'],
 [('per-group parallel solves','CoordinateDescentMinimizer::Minimize')],
 ['cost function calls','user memory','Solver::Summary'])
p('C30','Rotation conversions agree with the rotation group to rounding error',
 'Conversions between angle-axis, quaternion, rotation matrix and Euler angles represent the same rotation to within rounding error, for every rotation including those near zero and near pi.',
 ['inputs'],'every rotation','Tests sample rotations.',[H+'rotation.h'],[('closed forms with series near zero','rotation.h')],['outputs'])
p('C31','Numeric differentiation error is within its documented order',
 'NumericDiffCostFunction with forward, central or Ridders differences approximates the derivative within the error implied by its step size and method for every smooth functor.',
 ['inputs'],'every smooth functor and point','Tests sample functions.',[H+'internal/numeric_diff.h'],[('finite differences','NumericDiff')],['Jacobians'])
import sys
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
