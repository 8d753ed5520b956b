prop('C04', 'd-separation answers agree with the definition',
     'In a directed acyclic graph, asking whether two nodes are d-separated by a set of other nodes answers yes exactly when '
     'every path between them is blocked by that set (a non-collider in the set, or a collider with no descendant in it). '
     'The answer is symmetric in the two nodes and independent of node names, node order and the kind of collection the set is given as, '
     'and the nodes reported reachable from a node are exactly those d-connected to it.',
     ['inputs'], 'every DAG, pair of nodes and conditioning set (bounded: 4 nodes arbitrary, 5 nodes respecting fixed orders)',
     'The number of DAGs and conditioning sets is super-exponential; tests check a handful of triples on one graph.',
     [G + 'digraph.py', G + 'graph.py'],
     [('_adj', 'mark of each edge at each end', G + 'graph.py'), ('ancestor and direction queues', 'phases of the reachability algorithm', G + 'digraph.py')],
     [('DiGraph.get_reachable_nodes', G + 'digraph.py'), ('DiGraph.is_d_separate', G + 'digraph.py')],
     ['DiGraph.is_d_separate', 'DiGraph.get_reachable_nodes'], MERGE,
     'bounded: all DAGs on 4 nodes; on 5 nodes all DAGs respecting given node orders; all conditioning subsets')
prop('C05', 'Topological order, acyclicity and neighbourhoods are exact',
     'For every directed graph, the acyclicity test is true exactly when there is no directed cycle, and for an acyclic graph the '
     'topological sort lists every node exactly once with parents before children. Parents, children, neighbours and degrees are exactly those of the edges added.',
     ['inputs'], 'every directed graph with at most one edge per pair (bounded: 5 nodes)',
     'Needs every cycle structure and every node order; tests sample a few graphs.',
     [G + 'digraph.py', G + 'graph.py'], [('_adj', 'mark of each edge at each end', G + 'graph.py')],
     [('DiGraph.topo_sort, is_acyclic, get_parents, get_children, in_degree, out_degree', G + 'digraph.py'), ('Graph.get_neighbours', G + 'graph.py')],
     ['topo_sort', 'is_acyclic', 'get_parents', 'get_children', 'in_degree', 'out_degree'], MERGE,
     'bounded: all directed graphs on 5 nodes, cyclic ones included')
prop('C07', 'Collider orientation orients exactly the unshielded colliders',
     'Given the skeleton of a DAG and, for every non-adjacent pair, any set that d-separates it, the collider rule turns exactly the edges of '
     'unshielded colliders into arrows and leaves every other edge undirected. For any skeleton and any separating sets it never changes the skeleton, never creates '
     'an arrowhead that no unshielded triple asks for, and orients every such arrowhead that no other triple contests.',
     ['inputs'], 'every skeleton and every assignment of separating sets (bounded: 6 nodes for DAGs, 4 for arbitrary sets)',
     'The result depends on the combination of skeleton and every separating set; tests use none directly.',
     [G + 'pdag.py'], [('sep_set', 'separating set of each non-adjacent pair', G + 'pdag.py')], [('PDAG.rule0', G + 'pdag.py')],
     ['PDAG marks after rule0'], MERGE, 'bounded: 4 nodes arbitrary, all DAGs on 5 and 6 nodes; every separating set')
prop('C08', 'Meek orientation is sound, complete and skeleton preserving',
     'Starting from the skeleton and unshielded colliders of a DAG, plus any further orientations known to hold in it, the orientation rules only orient edges that '
     'have this direction in every DAG with the same skeleton, colliders and known orientations, and orient all of those. '
     'They never change the skeleton nor turn an edge that was already directed, and they terminate.',
     ['inputs', 'configurations'], 'every DAG and every set of known orientations taken from it (bounded: 4 nodes; 5 and 6 nodes for one order)',
     'Soundness and maximality quantify over whole equivalence classes of DAGs; no test exercises rules 3 or 4 directly.',
     [G + 'pdag.py'], [('_adj', 'mark of each edge at each end', G + 'graph.py')],
     [('PDAG.orient_by_meek_rules, rule1, rule2, rule3, rule4', G + 'pdag.py')], ['PDAG marks after orient_by_meek_rules'], MERGE,
     'bounded: 4 nodes against all DAGs of the class; 5 and 6 nodes (one order) against a reference closure that is itself checked on 4 nodes')
prop('C09', 'CPDAG of a DAG is its essential graph',
     'Converting a DAG gives the graph with the same nodes in the same order and the same skeleton, in which an edge is directed exactly when it has that direction in every Markov '
     'equivalent DAG. The input DAG is not changed.',
     ['inputs'], 'every DAG (bounded: 4 nodes with the real separation test; 5 and 6 nodes for one order with separation answers taken from the definition)',
     'Quantifies over every DAG and its whole equivalence class.',
     [G + 'dag2cpdag.py', G + 'pdag.py', G + 'digraph.py'], [('sep_set', 'union of the separating sets found', G + 'dag2cpdag.py')],
     [('dag2cpdag', G + 'dag2cpdag.py')], ['dag2cpdag result'], MERGE,
     'bounded: all DAGs on 4 nodes; on 5 and 6 nodes DAGs respecting one order with is_d_separate replaced by its definition (C04)')
prop('C10', 'PDAG to DAG gives a consistent extension or reports there is none',
     'Converting a PDAG that has a consistent extension returns a DAG with the same nodes and skeleton, every directed edge kept, and exactly the same unshielded colliders. '
     'When no such DAG exists the conversion raises an error instead of looping or returning another graph, and the input PDAG is not changed.',
     ['inputs'], 'every PDAG (bounded: 4 nodes; 5 nodes for patterns of DAGs; 6 for one order, thorough)',
     'The elimination order and the neighbourhood conditions interact over the whole graph; tests do not cover the conversion.',
     [G + 'pdag2dag.py'], [('inde', 'nodes already removed', G + 'pdag2dag.py')], [('pdag2dag, check2', G + 'pdag2dag.py')],
     ['pdag2dag result'], MERGE, 'bounded: every PDAG on 4 nodes; on 5 nodes every pattern with background knowledge (6 for one order, thorough)')
I = 'cdmir/utils/independence/'
L = 'cdmir/utils/local_score/'
CO = 'cdmir/discovery/constraint/'
prop('C01', 'Graph queries always reflect the history of edits',
     'After any sequence of adding, overwriting and removing nodes and edges, every query (nodes in insertion order, edges and their count, neighbours, connectedness, '
     'the edge between two nodes seen from either side, and the mark at each end) answers as the abstract graph that the accepted operations describe. '
     'Operations on missing nodes, and adding an edge between connected nodes without overwrite, are rejected with an error; nothing else is.',
     ['histories', 'inputs'], 'any history of operations (bounded: any state on up to 3 nodes followed by one or two operations; four operations from the empty graph)',
     'The container is defined by histories; tests run a few short scripts.',
     [G + 'graph.py', G + 'edge.py', G + 'mark.py'], [('_adj', 'mark of each edge at each end', G + 'graph.py'), ('_node_map', 'nodes in insertion order', G + 'graph.py')],
     [('Graph.add_edge, add_edges, remove_edge, remove_node, get_edge, edges', G + 'graph.py')], ['Graph queries'], MERGE,
     'bounded: nodes from a universe of 3; states arbitrary, then at most two operations; histories of four operations from empty')
prop('C02', 'Matrix, data frame, text and edge-list views all show the same graph',
     'For every graph, the exported matrix has in each cell the mark at the row node of the edge between row and column node (transposed on request), the data frame is that matrix labelled by the nodes, and '
     'the text form names every edge once with its marks. Adding the edges of a graph to a new graph on the same nodes gives the same graph again.',
     ['inputs'], 'every graph and every pair of marks on each edge (bounded: 4 nodes; 3 for text and data frame)',
     'Every combination of marks and insertion directions matters; tests export one graph.',
     [G + 'graph.py', G + 'edge.py'], [('_adj', 'mark of each edge at each end', G + 'graph.py')],
     [('Graph.to_numpy, to_dataframe, edges, __str__', G + 'graph.py')], ['to_numpy', 'to_dataframe', 'str', 'edges'], MERGE,
     'bounded: 4 nodes (matrix, rebuild), 3 nodes (data frame, text form); every mark pair')
prop('C03', 'Typed graphs never hold an edge their type forbids',
     'A directed graph holds only directed edges and a partially directed graph only tail and arrow marks: an edge with other marks is rejected with an error and leaves the graph as it was, '
     'whether added alone or in a list, with or without overwrite, and valid edges are accepted and change nothing else. The complete undirected graph connects every two nodes by an undirected edge.',
     ['histories', 'inputs'], 'every graph of the type, then any edge with any marks (bounded: 3 nodes; complete graphs up to 6 nodes)',
     'Every mark combination in every state; tests try single cases.',
     [G + 'digraph.py', G + 'pdag.py', G + 'graph.py'], [('_adj', 'mark of each edge at each end', G + 'graph.py')],
     [('DiGraph.add_edge, add_edges', G + 'digraph.py'), ('PDAG.add_edge, add_edges, create_complete_undirected_graph', G + 'pdag.py')],
     ['add_edge', 'add_edges'], MERGE, 'bounded: every graph on 3 nodes and every edge; complete graph on 0 to 6 nodes')
prop('C11', 'PC with a perfect independence oracle learns the true CPDAG',
     'When the conditional independence test answers exactly as d-separation in some DAG, PC returns the CPDAG of that DAG (same node names in the same order) and its reported skeleton is '
     "that DAG's undirected skeleton. This holds for both adjacency searches and for the library's own d-separation test.",
     ['inputs', 'configurations'], 'every DAG (bounded: 4 nodes; 5 nodes for one node order, 6 thorough)',
     'Correctness is a claim about all DAGs; tests use a single graph.',
     [CO + 'pc.py', CO + 'adjacency_search.py', G + 'pdag.py', I + 'dsep.py'],
     [('sep_set', 'separating sets found', CO + 'adjacency_search.py'), ('skeleton, causal_graph', 'results', CO + 'pc.py')],
     [('PC.fit', CO + 'pc.py'), ('adjacency_search, fast_adjacency_search', CO + 'adjacency_search.py')], ['PC.causal_graph', 'PC.skeleton'], MERGE,
     'bounded: all DAGs on 3 and 4 nodes against the enumeration of their equivalence class; 5 nodes (6 thorough) for one order against a reference closure')
prop('C12', 'Adjacency search keeps exactly the edges the test answers justify',
     'Whatever the test answers, consistent or not, adjacency search is order independent: level by level, an edge is removed exactly when some conditioning set of that size among the '
     'neighbours of an end (as they were when the level began) has a p-value of at least alpha, and the separating set of the pair is made of those sets, the same for both directions. '
     'In both search variants kept edges are undirected, no removed edge lacks an accepting test, and no kept edge has an accepting test among its remaining neighbours.',
     ['inputs', 'histories'], 'every table of test answers (bounded: 4 and 5 variables; 4 or 3 for the fast variant)',
     'There are exponentially many answer tables; tests have one data set.',
     [CO + 'adjacency_search.py'], [('sep_set, adjacency', 'state of the search', CO + 'adjacency_search.py')],
     [('adjacency_search, fast_adjacency_search', CO + 'adjacency_search.py')], ['returned graph and separating sets'], MERGE,
     'bounded: p-values below, at and above alpha for 4 variables; 5 variables without ties; the fast variant on 3 (4 thorough)')
prop('C13', 'A cached test answer is the answer to the question asked',
     'A conditional independence test object answers every question as if it were the first: after any history of questions by name or by column number, the value returned for a pair '
     'and conditioning set is the one computed for exactly these variables, whatever their order, the kind of collection, or the number of digits of the column numbers.',
     ['histories'], 'every history of two or three questions (bounded: 3 to 4 columns, some with two-digit numbers)',
     'Cache key collisions appear only for particular pairs of questions; tests ask each question once.',
     [I + '_base.py', I + 'basic_independence.py'], [('cache_dict', 'answers by question', I + 'basic_independence.py')],
     [('ConditionalIndependentTest.test, itest', I + 'basic_independence.py')], ['test', 'itest'], MERGE + ', ' + FORK,
     'bounded: two questions over columns 0, 1, 2, 11, 12 with up to two conditioning columns in any order; three by name')
prop('C14', 'Variables keep their names and columns in every form of input',
     'An array, an array with names, a data frame and a data frame with new names all give the test the same columns under the expected names (numbers, given names, or frame columns), '
     'a question by name is computed from exactly the named columns for any kind of collection of conditioning variables, including none, and extra positional or keyword arguments reach the test. '
     'PC started from any of these forms learns the graph whose nodes are those names.',
     ['inputs', 'configurations'], 'every naming, order, form of data and collection (bounded: 3 columns, symbolic values)',
     'Mixing up columns needs particular combinations of form, order and collection.',
     ['cdmir/utils/adapters.py', I + 'basic_independence.py', I + 'dsep.py', CO + 'pc.py'], [('var_names, _data', 'names and columns of the test', I + 'basic_independence.py')],
     [('ConditionalIndependentTest.__init__, test, itest', I + 'basic_independence.py'), ('data adapter', 'cdmir/utils/adapters.py')],
     ['var_names', 'test', 'PC.causal_graph'], FORK, 'bounded: 3 columns, symbolic cell values, every permutation of names')
prop('C15', 'Fisher z test reports the partial correlation and its p-value',
     'The statistic of the Fisher z test is the partial correlation of the two variables given the conditioning variables (with its sign, in either order of the variables and for any kind of collection), and the p-value is the '
     "two-sided normal tail of its Fisher transform times the square root of n - |Z| - 3. From data it uses the correlations of the named columns and the number of records.",
     ['inputs'], 'every positive definite correlation matrix (bounded: 0, 1 or 2 conditioning variables; real arithmetic)',
     'An identity over real matrices; tests compare a few numbers.',
     [I + 'functional/fisherz.py', I + 'fisherz.py'], [('corr', 'correlation matrix', I + 'fisherz.py')],
     [('fisherz_from_corr', I + 'functional/fisherz.py'), ('FisherZ.cal_stats', I + 'fisherz.py')], ['test', 'fisherz_from_corr'], FORK,
     'bounded: up to two conditioning variables (with two, up to three of the six correlations symbolic; four thorough), 50 records; exact real arithmetic, log and normal cdf uninterpreted')
prop('C16', 'BIC score is the Gaussian BIC and score equivalent',
     'The BIC score of a variable given parents is minus (n times the log of the residual variance of the standardised variable, plus lambda times the number of parents times log n), whatever the order or kind of collection of the parents. '
     'Hence Markov equivalent structures have equal scores, and the score depends on the data only through its correlations and sample size.',
     ['inputs'], 'every positive definite correlation matrix and penalty (bounded: up to 2 parents, 3 thorough)',
     'An identity over all matrices; tests compare single values.',
     [L + 'bic_score.py'], [('cov', 'correlation matrix', L + 'bic_score.py')], [('BICScore._score_function', L + 'bic_score.py')], ['BICScore(i, parents)'], FORK,
     'bounded: 3 variables, any correlations and penalty (4 variables thorough), 40 records; exact real arithmetic, log uninterpreted')
prop('C17', 'BDeu score is the BDeu marginal likelihood and score equivalent',
     'For every table of categories the BDeu score of a variable given parents is the log Dirichlet-multinomial marginal likelihood of its counts with equivalent sample size spread evenly over the observed categories and parent configurations, plus a prior that depends only on the number of parents and records. '
     'Reversing a covered edge does not change the total score.',
     ['inputs'], 'every table of categories and every equivalent sample size (bounded: 4 records, 3 variables, up to 3 categories)',
     'Counting errors show only for particular tables (unobserved configurations, order of categories); tests use one table.',
     [L + 'bdeu_score.py'], [('data', 'the table of categories', L + 'bdeu_score.py')], [('BDeuScore._score_function', L + 'bdeu_score.py')], ['BDeuScore(i, parents)'], FORK,
     'bounded: 4 records of 2 binary variables, 3 records of 3 variables; symbolic sample prior; lgamma and log uninterpreted')
prop('C18', 'A cached score or test is that of the family asked about',
     'A score object answers each question as if it were the only one: after any history, the score returned for a variable and a collection of parents is the one computed for exactly that variable and set, '
     'whatever the order and kind of the collection (list, tuple, set, array, iterator). The same holds for the tests between groups of variables given as numbers, names, lists or arrays.',
     ['histories'], 'every history of two questions (bounded: 3 variables; three questions thorough)',
     'Wrong cache answers need particular pairs of questions.',
     [L + '_base.py', I + '_base.py'], [('cache', 'scores by family', L + '_base.py'), ('cache', 'answers by question', I + '_base.py')],
     [('BaseLocalScoreFunction.__call__', L + '_base.py'), ('BaseConditionalIndependenceTest._compute_p_value', I + '_base.py')], ['score(i, parents)', 'test(x, y, z)'], FORK,
     'bounded: two questions over 3 variables and seven kinds of collection (three questions thorough)')
GE = 'cdmir/discovery/score_based/greedy_equivalence_search.py'
prop('C19', 'GES operators are valid exactly when an equivalent DAG allows the step',
     'For every CPDAG, the validity test of an insertion (or deletion) accepts exactly when some DAG of the equivalence class allows adding (removing) that edge with that conditioning set without a cycle, and leaves the graph alone. '
     'For an accepted step the reported score change is the difference of the total scores of the two structures for any score-equivalent decomposable score, whatever is in the record of earlier scores, '
     'and applying the operator and completing gives the CPDAG of the new structure.',
     ['inputs', 'configurations'], 'every CPDAG, node pair and subset of neighbours, any score (bounded: 4 nodes)',
     'The validity conditions are theorems about whole equivalence classes; tests run the search on a few data sets only.',
     [GE, G + 'pdag2dag.py', G + 'dag2cpdag.py'], [('record_local_score', 'local scores by node and parents', GE)],
     [('Insert_validity_test*, Insert_changed_score, Insert', GE), ('Delete_validity_test, Delete_changed_score, Delete', GE)], ['operator results'], FORK,
     'bounded: every CPDAG on 3 and 4 nodes; scores are symbolic reals; classes come from an enumeration of all DAGs')
prop('C20', 'GES ends in a local optimum and finds the true class when the score can',
     'For any score-equivalent decomposable score the search terminates with a CPDAG over the variables in order whose reported score is that of the structure, is not worse than the empty graph, cannot be improved by deleting an edge, '
     'and is where greedy search over equivalence classes ends (for some way of breaking ties). '
     'When the score is locally consistent with a DAG the result is the CPDAG of that DAG.',
     ['inputs', 'histories'], 'every score (bounded: 3 variables with any score; 4 variables with consistent scores for six DAGs, or with three free values)',
     'Correctness is a claim about all scores; tests look at a few data sets.',
     [GE], [('state graph', 'current equivalence class', GE)], [('GES.fit, forward and backward phase', GE)], ['get_causal_graph', 'get_score'], FORK,
     'bounded: 2 and 3 variables with any score-equivalent decomposable score (symbolic reals); 4 variables for selected DAGs and score families')
ME = 'cdmir/utils/metrics/graph_evaluation.py'
prop('C21', 'Graph metrics count exactly the differences between the two graphs',
     'The structural Hamming distance is the number of node pairs whose edge differs, symmetric, and zero exactly for equal graphs. '
     'Precision, recall and F1 of the skeleton, the arrow heads, the directed edges, and of matrices above a threshold are those of the corresponding sets. '
     'Graphs of other types or nodes are rejected, and the inputs are not changed.',
     ['inputs'], 'every pair of graphs or matrices (bounded: 4 nodes for distance, skeleton; 3 for the rest, 4 thorough)',
     'Swapped arguments, missed edge ends or wrong denominators show only for particular pairs of graphs.',
     [ME], [('_adj', 'mark of each edge at each end', G + 'graph.py')],
     [('shd, graph_equal, skeleton_evaluation, arrow_evaluation, directed_edge_evaluation, get_performance', ME)], ['metric values'], MERGE + ', ' + FORK,
     'bounded: pairs of graphs on 3 and 4 nodes; 3 by 3 matrices with four symbolic entries at a time; the scikit-learn scores are replaced by their definitions in symbolic runs')
UT = 'cdmir/datasets/utils.py'
SI = 'cdmir/datasets/simlulators.py'
prop('C22', 'Random graph and transition generators honour their contract',
     'Whatever the random draws, the random directed graph is acyclic, has the edges of the graph drawn with the requested edge probability, up to relabelling, and weights whose sizes lie in the requested range. '
     'Transition matrices have unit columns and a condition number below the threshold; the seed is set before the first draw and only when given. '
     'The leaky rectifier is the identity for positive and scales other values, integers included.',
     ['inputs', 'schedules'], 'every outcome of the random draws (bounded: 3 or 4 nodes)',
     'A rare draw that breaks acyclicity or the range is not seen by sampling tests.',
     [UT], [('random state', 'draws of numpy.random', UT)],
     [('erdos_renyi', UT), ('generate_lag_transitions', UT), ('leaky_relu', UT)], ['returned matrices'], FORK,
     'bounded: graphs on 3 (weighted or not) and 4 nodes, transitions for 2 nodes and 2 lags; random draws are symbolic values of their support')
prop('C23', 'Linear simulation satisfies the structural equations of its graph',
     'Whatever the random draws, each simulated variable is the weighted sum of its parents in the same record plus its own noise times its own scale; for logistic and Poisson variables the rate is that of its parents. '
     'Without a sample size the data has exactly the covariance of the model. '
     'Cyclic graphs, unknown noise types and scales of another length are rejected, the weights are not changed, and the seed is set before the first draw and only when given.',
     ['inputs', 'schedules'], 'every directed graph, weights and outcome of the draws (bounded: 3 nodes, 2 records)',
     'Wrong scales, parents or orders show only for particular graphs; tests look at shapes.',
     [SI, UT], [('random state', 'draws of numpy.random', SI)],
     [('IIDSimulator.simulate_linear_anm', SI)], ['simulated data'], FORK,
     'bounded: every directed graph on 3 nodes and 2 records; population covariance of 4 nodes; random draws are symbolic values of their support; exp and sigmoid uninterpreted')
prop('C24', 'Nonlinear and time series simulation satisfy their equations',
     'Whatever the random draws, each variable of a nonlinear model is the chosen function (network or index model, or the two post-nonlinear layers) of exactly its parents with its own scaled noise, record by record. '
     'Each time point of a linear, logistic, nonlinear or post-nonlinear series is the lagged equation of the preceding points in order (with the network or index functions drawn for that point) plus scaled noise, after starting points that are scaled noise.',
     ['inputs', 'schedules'], 'every DAG or lag matrix, weights and outcome of the draws (bounded: 3 variables, 2 records; 2 lags and steps)',
     'Mixing up lags, parents or records needs particular structures; tests look at shapes.',
     [SI, UT], [('random state', 'draws of numpy.random', SI)],
     [('IIDSimulator.simulate_nonlinear_anm, simulate_pnl', SI), ('TimeLagSimulator.simulate_linear_anm, simulate_nonlinear_anm, simulate_pnl', SI)], ['simulated data'], FORK,
     'bounded: DAGs of one order on 3 variables with 2 records; 2 variables with up to 2 lags and 3 steps; random draws are symbolic; tanh, cos, sin, sigmoid uninterpreted')
KE = 'cdmir/utils/kernel/'
prop('C25', 'Kernel objects return the kernel matrix of the data they are asked about',
     'A linear, polynomial or Gaussian kernel object returns for any two data arrays the matrix of its formula with its current parameters, whatever it was asked before and even if an array or a parameter changed in between, and leaves the data alone. '
     'The Gaussian width strategies choose the width of their definition from the number of records and columns or the median distance. '
     'Centring a symmetric matrix gives HKH, and centring by regression gives RKR with R the residual maker of ridge regression.',
     ['inputs', 'histories'], 'every pair of arrays and every history of two questions (bounded: 2 records; one free cell per array in histories)',
     'A stale answer needs a particular pair of questions; tests ask once.',
     [KE + '_base.py', KE + 'gaussian.py', KE + 'linear.py', KE + 'polynomial.py'], [('cache_dict', 'kernel matrices by data and parameters', KE + '_base.py'), ('width', 'current width', KE + 'gaussian.py')],
     [('BaseKernel.__kernel, center_kernel_matrix, center_kernel_matrix_regression', KE + '_base.py'), ('GaussianKernel.__kernel and width strategies', KE + 'gaussian.py'),
      ('LinearKernel', KE + 'linear.py'), ('PolynomialKernel', KE + 'polynomial.py')],
     ['kernel(xs, ys)', 'width', 'center_kernel_matrix', 'center_kernel_matrix_regression'], FORK,
     'bounded: two questions about arrays of 2 and 1 records; one question about 2 x 2 records; symmetric 3 and 4 square matrices; widths at sizes around each threshold; real arithmetic, exp uninterpreted')
KB = I + 'kernel_based.py'
prop('C26', 'Kernel independence tests report their statistic and its null p-value',
     'The kernel test of two groups of variables evaluates its kernels on exactly the standardised columns asked for, reports the sum of products of the centred kernel matrices (with a condition, of the matrices centred by regression on it), '
     'and the p-value of the gamma distribution with the matched mean and variance, or the fraction of simulated null values above the statistic. '
     'With equal kernels it is symmetric, with linear kernels the statistic is the squared correlation times (n - 1) squared, and the functional form agrees with Gaussian kernels of width one.',
     ['inputs'], 'every kernel matrix, spectrum and draw (bounded: 3 records; 2 with condition and in the simulated null)',
     'An identity over real matrices; tests compare single p-values of one sample.',
     [KB, I + 'functional/kci.py', I + '_base.py', KE + '_base.py'], [('kernel_x, kernel_y, kernel_z', 'kernels of the groups', KB)],
     [('KCI, unconditional and conditional p-value', KB), ('functional KCI.test', I + 'functional/kci.py')], ['KCI(xs, ys, zs)', 'functional KCI.test'], FORK,
     'bounded: every symmetric kernel matrix of 3 records (2 with a condition), every spectrum of 2 eigenvalues; 3 or 4 columns with one symbolic; eigen decompositions are replaced by arbitrary ones, exp and the gamma '
     'cdf uninterpreted; the condition modelled by a Gaussian process (no kernel given) is outside')
VI = 'cdmir/visual/'
prop('C27', 'A drawing shows exactly the nodes, edges and marks of the graph',
     'The drawing has one circle with its name for every node at the place the layout gives, white exactly for latent nodes, and for every edge one line between the rims of its two nodes with an arrow head exactly at the ends marked as arrow and a circle at the ends marked as circle. '
     'The circular layout puts the nodes evenly on a circle of the requested size in their order (or sorted), starting at the top. The graph is not changed.',
     ['inputs'], 'every edge, place, distance and direction; every graph on 3 nodes (bounded)',
     'Tests only call the function; no test looks at what is drawn.',
     [VI + 'plot_graph.py', VI + 'graph_layout.py'], [('pos', 'places of the nodes', VI + 'plot_graph.py')],
     [('plot_graph, plt_edge, plt_node', VI + 'plot_graph.py'), ('circular_layout', VI + 'graph_layout.py')], ['shapes added to the axes', 'circular_layout'], FORK,
     'bounded: one edge anywhere (symbolic place, distance and direction); graphs on 3 nodes of mixed types; layouts of up to 4 nodes (5 thorough); matplotlib is replaced by a recorder')
PP = 'cdmir/discovery/point_process/SHP.py'
prop('C28', 'SHP scores structures by their likelihood and climbs to a local optimum',
     'The learner of point processes counts the events of each type per sequence and time bin (from the start of the sequence, floored to the time interval if one is given), and the decayed influence of each type on each bin is that of the bins of the same sequence up to it. '
     'The score of an acyclic structure is the likelihood reached by the exact expectation-maximisation updates of base rates and the coefficients of the parents, less the penalty, whatever was scored before; a cyclic structure scores minus infinity. '
     'Hill climbing returns the score, coefficients and rates of one structure, no worse than the given one, which no change of one edge improves.',
     ['inputs', 'histories'], 'every event table, structure, starting coefficients and score (bounded: 3 events; 2 and 3 types)',
     'Wrong bins, sequences or parents, stale cached scores and missed improvements show only for particular tables and structures.',
     [PP], [('hist_likelihood', 'likelihood by type and parents', PP), ('X, sum_t_X_kappa', 'counts and influence by bin', PP)],
     [('SHP.__init__, get_event_table, calculate_influence_of_each_event', PP), ('SHP.EM, EM_not_HC', PP), ('SHP.Hill_Climb, one_step_change', PP)],
     ['SHP.X_df', 'sum_t_X_kappa', 'EM', 'Hill_Climb'], FORK,
     'bounded: every table of three events; any counts in 6 bins; structures on 2 types scored in any succession; one symbolic quantity at a time in the updates, at most 2 rounds (60 when concrete); log uninterpreted; '
     'climbing with any scores on 2 types and up to four (seven thorough) free family scores on 3')
IL = 'cdmir/discovery/funtional_based/lingam_based/ica_lingam.py'
prop('C29', 'ICA-LiNGAM turns the unmixing matrix into the right acyclic regression',
     'Whatever unmixing matrix independent component analysis reports, in any row order and scale, the rows are assigned to variables so that the sum of inverse diagonal entries is least, and the variables are ordered so that the squared effects against the order are least. '
     'The result has an effect exactly where the cause is earlier in this order and the Wald p-value is at most the level given, its coefficients are the regressions on exactly these causes, and the graph shows exactly the effects. '
     'Arrays and data frames give the same result and are not changed; results before fitting are refused.',
     ['inputs'], 'every unmixing matrix without exact zeros and every table of p-values (bounded: 2 and 3 variables, 4 for selected orders)',
     'Row and column mix-ups show only for particular orders of the variables and components.',
     [IL], [('coef, causal_graph', 'results', IL)], [('ICA_LINGAM.fit, find_W_wave, find_B_wave, wald_prune', IL)], ['get_coef', 'get_causal_graph'], FORK,
     'bounded: two symbolic entries of 2 x 2 unmixing matrices; 3 variables in every order and row order with one or two symbolic effects; any p-values; FastICA and the Wald p-values replaced by any result, ties left out')
prop('C30', 'Event simulation realises its random structure and lists every event',
     'Whatever the random draws, the simulated point process has the requested number of edges, all from earlier to later types, effects exactly on the edges and base rates in their ranges, and the process that is run has exactly these rates, effects and decay, '
     'with the given seed and a fresh start for every sequence. The table lists every event of every sequence once (time stamps floored to the time interval if one is given), and the lists of events agree with it. '
     'Count data lists for each record the events of the cause and those of the effect, which are the thinned causes plus noise.',
     ['inputs', 'schedules'], 'every outcome of the random draws (bounded: 3 and 4 types, up to 3 sequences; 2 records of counts)',
     'Tests look at shapes only; a swapped effect or a lost event is not seen.',
     [SI], [('edge_mat, alpha, mu', 'random structure', SI)], [('HawkesSimulator.get_artificial_data, generate_data, INSEM_data', SI)], ['event_table', 'edge_mat', 'alpha', 'mu', 'events'], FORK,
     'bounded: every choice of edges on 3 types (selected ones on 4), any rates and effects, time stamps from fixed lists; counts up to 2; the simulator of tick is replaced by one that returns any listed time stamps')
AN = 'cdmir/discovery/funtional_based/anm/ANM.py'
HS = 'cdmir/utils/independence/functional/HSIC.py'
prop('C31', 'HSIC statistics and additive noise scores follow their definition',
     'The dependence statistic of two variables is the sum of the products of their centred Gaussian kernels over the number of records, with the median distance as kernel width unless widths are given; the normalised statistic is that of the standardised records. '
     'The additive noise model scores each direction by the normalised statistic of cause and residual, the residual being the effect less its Gaussian process prediction from the cause (both standardised), record by record. '
     'The gamma test compares the statistic with the quantile of the gamma distribution of the same mean and variance at the given level, and calls the variables independent exactly if the statistic is below it; the data is not changed.',
     ['inputs'], 'every sample of distinct records and every fitted prediction (bounded: 3 to 6 records)',
     'Tests compare few data sets with recorded results or only look at the sign of a difference.',
     [AN, HS], [('Kc, Lc', 'centred kernels', AN), ('bone, thresh', 'threshold', HS)], [('ANM.cause_or_effect, anm_score, FastHsicTestGamma, rbf_dot', AN), ('hsic_gam, test', HS)], ['cause_or_effect', 'hsic_gam', 'test'], FORK,
     'bounded: 3 to 6 records, one or two of the values symbolic (anywhere, or in an interval), exp and gamma quantile uninterpreted, Gaussian process replaced by any predictions, no equal records')

EU = 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py'
EL = 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear.py'
prop('C32', 'Entropy-package simulators follow their graph and parameters',
     'Whatever the random draws, the simulated graph is acyclic with edges of the kind asked for, the weights lie on its edges and in one of the given ranges, and both are as drawn. '
     'Each variable is drawn once, after its causes, as the function asked for (linear, logistic, Poisson, multilayer, index model, additive or Gaussian process) of exactly its causes plus noise of the type and scale asked for, or the population form for unlimited samples. '
     'Cyclic graphs, wrong dimensions and unknown kinds are refused, and the arguments are not changed.',
     ['inputs', 'schedules'], 'every outcome of the random draws and every weight (bounded: graphs of 3 and 4 nodes, 1 to 2 records)',
     'Tests look at shapes only; a transposed weight or a wrong noise scale is not seen.',
     [EU], [('B, W, X', 'graph, weights and data', EU)], [('simulate_dag, simulate_parameter, simulate_linear_sem, simulate_nonlinear_sem', EU)], ['simulate_dag', 'simulate_parameter', 'simulate_linear_sem', 'simulate_nonlinear_sem'], FORK,
     'bounded: graphs of 3 (4) nodes, 1 or 2 records; numpy.random and the graph generators replaced by any outcome; tanh, sigmoid, exp and the like uninterpreted')
prop('C33', 'Accuracy figures of an estimated graph follow their definition',
     'For a true DAG and an estimated DAG or CPDAG, the numbers of predicted, reversed, missing and extra edges give the false discovery, true positive and false positive rates and the structural Hamming distance by their definition, undirected estimates counting as correct for an edge in either direction. '
     'Estimates with other values, cyclic directed estimates and pairs undirected twice are refused.',
     ['inputs'], 'every true DAG and every estimate (bounded: 3 nodes, 4 in selected orders)',
     'The figures mix several edge sets; an error shows only for particular pairs of graphs.',
     [EU], [('pred, cond, reverse, extra', 'edge sets', EU)], [('count_accuracy, is_dag', EU)], ['count_accuracy'], FORK,
     'bounded: 2, 3 and 4 nodes; the true graph follows one order of the nodes')
prop('C34', 'The linear continuous learner solves its augmented Lagrangian as stated',
     'The objective handed to the optimiser is the chosen loss of the (for least squares, centred) data plus the penalty of cycles and weights, and the gradient handed over is its derivative; weights are split in positive and negative parts, none of a variable on itself. '
     'Every solve starts from the last solution, the penalty grows tenfold until the cycle measure is at most a quarter of the last, the multiplier grows by penalty times measure, and this ends when the measure is small enough, the penalty too large or the rounds are used up. '
     'The result is the last solution without the weights below the threshold, and the data is not changed.',
     ['inputs', 'histories'], 'every data set, weights and solutions of the optimiser (bounded: 2 and 3 variables, 2 records, 2 rounds)',
     'A wrong gradient or update still converges to something on the test data.',
     [EL], [('w_est, rho, alpha, h', 'optimiser state', EL)], [('notears_linear', EL)], ['notears_linear'], FORK,
     'bounded: 2 or 3 variables, 2 records, some of the weights symbolic, 2 rounds; the optimiser replaced by one that reports any solutions; exponential, sigmoid and softplus uninterpreted')

ED = 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/'
prop('C35', 'Continuous models predict and measure cycles as their weights say',
     'Each model predicts a variable by the stated function of the variables (a linear one, a network per variable, or sums of sines) with the difference of positive and negative weights, which are bounded to be non-negative, and zero from a variable to itself. '
     'The reported adjacency has at [i, j] the strength of the weights from i to j (for networks and bases the root of their sum of squares), and the cycle measure is the trace of (I + A/d)^d less d for the squares A of these strengths. '
     'The regularisers, the layers of local networks and the losses (squared error and the entropy approximations) have the values of their formulas.',
     ['inputs'], 'every value of weights and data (bounded: 2 and 3 variables, up to 3 records)',
     'A transposed or misaligned weight still trains; tests do not look at these numbers.',
     [ED + 'linear_ent.py', ED + 'nonlinear_ent.py', ED + 'nonlinear.py', ED + 'locally_connected.py', EU], [('fc1_pos, fc1_neg, linear_pos, linear_neg', 'weights', ED + 'nonlinear_ent.py')],
     [('linear_nonGauss, NotearsMLP, NotearsSobolev', ED + 'nonlinear_ent.py'), ('LocallyConnected', ED + 'locally_connected.py'), ('entropy_loss_*', EU)], ['h_func', 'fc1_to_adj', 'forward', 'entropy_loss_mentappr'], FORK,
     'bounded: 2 and 3 variables, up to 4 records, a few weights and cells symbolic at a time; sigmoid, sine, exp, log, cosh uninterpreted; torch dispatch on symbolic tensors stands for torch arithmetic')
prop('C36', 'Continuous learners solve their augmented Lagrangian and report its end',
     'The objective that the entropy-based and nonlinear learners hand to the optimiser is the stated loss of data and prediction plus the penalty of the cycle measure and the regularisers with their weights. '
     'The penalty grows tenfold until the cycle measure is at most a quarter of the last, the multiplier grows by penalty times measure, and this ends when the measure is small enough, the penalty too large or the rounds are used up; the result is the last solution without weights below the threshold. '
     'The optimiser wrapper hands values, bounds and derivatives of all parameters over in one order, evaluates the objective at each trial point, and leaves the solution in the parameters.',
     ['inputs', 'histories'], 'every value of the model, data and solutions of the optimiser (bounded: 2 rounds and 2 penalties)',
     'A wrong update or misaligned bound still converges to something.',
     [ED + 'linear_ent.py', ED + 'nonlinear_ent.py', ED + 'nonlinear.py', ED + 'lbfgsb_scipy.py'], [('rho, alpha, h', 'optimiser state', ED + 'nonlinear_ent.py'), ('_params', 'parameters', ED + 'lbfgsb_scipy.py')],
     [('train_LBFGSB, LBFGSB', ED + 'linear_ent.py'), ('notears_nonlinear, dual_ascent_step', ED + 'nonlinear_ent.py'), ('LBFGSBScipy.step', ED + 'lbfgsb_scipy.py')], ['train_LBFGSB', 'notears_nonlinear', 'LBFGSBScipy'], FORK,
     'bounded: 2 variables and records, 2 rounds and penalties; the model, its regularisers and the solutions are any values; scipy minimize replaced; derivatives are those of torch')
CVB = 'cdmir/utils/local_score/cross_validated_base.py'
MGB = 'cdmir/utils/local_score/marginal_base.py'
SCU = 'cdmir/utils/local_score/score_utils.py'
prop('C37', 'Cross-validated scores are the held-out likelihood of kernel regression',
     'The cross-validated score of a variable given parents is minus the mean over the folds (consecutive records, the last fold with the rest) of the held-out Gaussian log-likelihood term of the kernel regression on the other records, with the given ridge and number of folds. '
     'The kernels are centred products of Gaussian kernels with the median distance as width (doubled, or tripled and by dimension for groups of columns), one per parent; without parents the regression has no predictor. '
     'Groups of columns belong to the variable their label says, named frames and arrays give the same, and the data is not changed.',
     ['inputs'], 'every regularisation, kernel entry and cell (bounded: 4 records, up to 2 parents, 2 to 4 folds)',
     'The test asks for one number and only looks at its type; a wrong block of a fold or factor of a term is not seen.',
     [CVB, SCU], [('Kx, Kpa', 'kernel matrices', CVB), ('cache_dict', 'recorded scores', 'cdmir/utils/local_score/_base.py')], [('GeneralCVScore, MultiCVScore', CVB), ('kernel, dist2, pdinv', SCU)], ['GeneralCVScore', 'MultiCVScore'], FORK,
     'bounded: 4 records, up to 2 parents, 2 to 4 folds; one of the regularisation, a kernel entry (values of exp are fixed or free numbers) or a cell symbolic at a time')
prop('C38', 'Marginal likelihood scores are the Gaussian process likelihood of the features',
     'The marginal likelihood score of a variable is the log marginal likelihood of a Gaussian process from its parents to its kernel features, at the parameters the optimiser returns: squared exponential covariance with a length scale per parent column, plus noise. '
     'The features are the leading eigenvectors (largest quarter, above the threshold) of the centred Gaussian kernel of the variable, scaled by the roots of relative eigenvalues and twice the root of the number of records. '
     'The optimiser starts from the widths by median distance, unit signal and small noise and is handed this likelihood and its derivative in the noise; a variable without parents has one constant predictor.',
     ['inputs'], 'every cell, hyperparameter and listed spectrum (bounded: 4 and 8 records, up to 2 parents)',
     'The tests look at the type of one number; no stable test runs these scores.',
     [MGB, SCU], [('logtheta', 'hyperparameters', MGB), ('K', 'covariance', SCU)], [('GeneralMarginalScore, MultiMarginalScore', MGB), ('gpr_multi_new, covSum, covSEard, covNoise, eigdec', SCU)], ['GeneralMarginalScore', 'MultiMarginalScore'], FORK,
     'bounded: 4 records (8 for several features), up to 2 parents; eigendecomposition and optimiser replaced by ones that return given values; one hyperparameter or cell symbolic at a time, values of exp at numbers fixed, else any')
