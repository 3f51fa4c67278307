#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth is this table)."""
import json
import os

SC = "pytspl/simplicial_complex/simplicial_complex.py"
SB = "pytspl/simplicial_complex/scbuilder.py"
EIG = "pytspl/decomposition/eigendecomposition.py"
HD = "pytspl/decomposition/hodge_decomposition.py"
BF = "pytspl/filters/base_filter.py"
LS = "pytspl/filters/ls_filter_design.py"
GB = "pytspl/filters/grid_based_filter_design.py"
EF = "pytspl/filters/edge_flow_denoising.py"
CH = "pytspl/filters/chebyshev_filter_design.py"
ST = "pytspl/filters/simplicial_trend_filter.py"
NR = "pytspl/io/network_reader.py"
GEN = "pytspl/io/sc_generator.py"
DL = "pytspl/io/dataset_loader.py"
TL = "pytspl/io/data_loaders/transportation_loader.py"
LOADERS = ["pytspl/io/data_loaders/" + n + "_loader.py" for n in ("forex", "lastfm", "paper", "transportation", "wsn")]
GP = "pytspl/hogde_gp/hodge_gp_trainer.py"
EX = "pytspl/hogde_gp/exact_gp.py"
KS = "pytspl/hogde_gp/kernel_serializer.py"
KN = "pytspl/hogde_gp/kernels.py"
FX = ["pytspl/hogde_gp/forex/" + n + ".py" for n in ("matern", "diffusion", "laplacian", "matern_non_hc", "diffusion_non_hc")]
PL = "pytspl/plot/plot.py"

P = []


def p(pid, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over if isinstance(over, list) else [over], "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files if isinstance(files, list) else [files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})


p("C01", "Incidence matrices are boundary operators, whatever way edges are stored",
  "The node-edge incidence matrix has, for every edge, exactly -1 at its first and +1 at its second endpoint and zeros elsewhere. "
  "The edge-triangle incidence matrix has, for every triangle, entries of size one exactly at its three edges, with signs such that the product of the two incidence matrices is zero, whichever way each edge is stored and however the triangle's nodes are listed. "
  "Asking for an incidence matrix of a rank that does not exist fails with a ValueError.",
  "inputs", "every list of nodes, edges (in any stored direction) and triangles (in any node order)",
  "the tests compare two fixed complexes whose edges all run from the smaller to the larger node; only one of the eight orientation classes of a triangle is reached",
  SC, [("edge columns", SC + " SimplicialComplex.edges_to_B1"), ("triangle columns", SC + " SimplicialComplex.triangles_to_B2"),
       ("rank dispatch", SC + " SimplicialComplex.incidence_matrix")])

p("C02", "Laplacian and adjacency queries match their definitions at every rank",
  "Graph, lower, upper and Hodge Laplacians of every rank equal the products and sums of the two incidence matrices that define them (lower: B'B, upper: BB', Hodge: their sum), including for omitted rank arguments (rank 1). "
  "The adjacency matrix is the symmetric 0/1 matrix with ones exactly at the endpoint pairs of the edges. All of them are given as sparse matrices. "
  "A rank outside the documented range fails with a ValueError.",
  "inputs", "every complex and every rank argument",
  "the tests compare a few ranks on one small complex where several wrong formulas have the same entries",
  SC, [("laplacians", SC + " SimplicialComplex.laplacian_matrix/lower_laplacian_matrix/upper_laplacian_matrix/hodge_laplacian_matrix"),
       ("adjacency", SC + " SimplicialComplex.adjacency_matrix")])

p("C03", "Shifting operators apply the k-th power of the Laplacian",
  "Lower, upper and combined shifting of a flow by any number of steps k equal L_lower^k f, L_upper^k f and their sum; zero steps give the flow itself (doubled for the combined operator), and the documented default number of steps is used when it is omitted. "
  "The flow passed in and the complex are not changed.",
  "inputs", "every complex, every flow, every step count",
  "tests sample one or two step counts on one complex, where the steps argument being ignored or a power taken elementwise can go unseen",
  SC, [("shifting", SC + " SimplicialComplex.apply_lower_shifting/apply_upper_shifting/apply_k_step_shifting")])

p("C04", "Divergence, curl, total variance and embeddings match their definitions",
  "Divergence is B1 f and curl is B2' f for every flow; total variance is the diagonal of U'LU for the graph Laplacian and its eigenvectors. "
  "The three simplicial embeddings are, in the order harmonic, curl, gradient, the flow's coordinates in the eigenvectors that the eigenpair query returns for that component.",
  "inputs", "every complex and every flow",
  "the tests check shapes and a few fixed values; a swapped order or a different threshold for one component only shows on complexes with suitable spectra",
  [SC, EIG], [("flow operators", SC + " SimplicialComplex.get_divergence/get_curl/get_total_variance"),
              ("embeddings", SC + " SimplicialComplex.get_simplicial_embeddings"), ("definitions", EIG)])

p("C05", "Eigenpairs are split into components by one shared zero threshold",
  "Gradient pairs are the pairs of the lower Laplacian, and curl pairs those of the upper Laplacian, with eigenvalue above the tolerance; harmonic pairs are those of the Hodge Laplacian with eigenvalue at most the tolerance. "
  "Vectors and values stay matched and in ascending spectral order, the caller's tolerance is used for all three, and an omitted tolerance (1e-3) or component (harmonic) has its documented meaning.",
  "inputs", "every complex, every tolerance, every component",
  "the tests use one tolerance and one spectrum with no eigenvalue near the threshold",
  [EIG, SC], [("split", EIG + " get_gradient_eigenpair/get_curl_eigenpair/get_harmonic_eigenpair"),
              ("dispatch", SC + " SimplicialComplex.get_component_eigenpair")])

p("C06", "Hodge decomposition gives the three orthogonal projections, summing to the flow",
  "The gradient and curl parts of a flow are its least-squares projections onto the image of B1' and of B2, the harmonic part is the rest, so the three unrounded parts add up to the flow for every complex, including disconnected ones and ones without triangles. "
  "Rounding is applied only when asked (it is by default, to two digits), only to the final part, and to the requested number of digits.",
  "inputs", "every complex, every flow, every rounding choice",
  "the tests compare rounded values on one complex; an error below the rounding or in the rank-deficient case is invisible",
  [HD, SC], [("projections", HD + " get_gradient_flow/get_curl_flow/get_harmonic_flow"),
             ("dispatch", SC + " SimplicialComplex.get_component_flow")])

p("C07", "Unknown names are rejected with ValueError before anything is recorded",
  "Every choice by name (flow component, eigenpair component, matrix choice, regularised component, triangle condition, dataset, kernel type, kernel data set) accepts exactly its documented names and answers any other string with a ValueError. "
  "A rejected call leaves the complex and the inputs unchanged and does not record filter results.",
  "inputs", "every string passed as a name, on every entry point that takes one",
  "tests try one wrong name on a few of the entry points; a fall-through branch accepts every other wrong name silently",
  [SC, SB, BF, LS, GB, EF, CH, ST, DL, KS],
  [("component dispatch", SC), ("matrix choice", BF + " BaseFilter.get_p_matrix"), ("filters", LS), ("trend filter", ST),
   ("builder condition", SB), ("datasets", DL), ("kernels", KS)])

p("C08", "Queries of a complex are pure, repeatable and hand out fresh results",
  "No query of a complex (operators, spectra, decomposition, shape, summary, names) changes the complex or its arguments, and asking again, in any order with other queries, gives the same answer as asking first. "
  "A matrix, spectrum or flow returned by a query can be modified by the caller without changing any later answer.",
  "histories", "every sequence of queries on one complex, with the caller writing into returned arrays in between",
  "each test asks one query on a fresh complex; order-dependence and aliasing need a history",
  SC, [("queries", SC + " SimplicialComplex (all public methods and properties)")])

p("C09", "A complex shares no mutable data with its inputs, its builder or others",
  "Changing the node, edge or triangle lists or the feature dictionaries (at any depth) after a complex was built from them does not change the complex; two complexes never share containers, also when built by the same builder, and neither complexes nor builders share containers through omitted arguments. "
  "The complex stays consistent with the incidence matrices computed when it was built.",
  "histories", "every later mutation of an input or of another complex or builder",
  "tests never mutate an input after construction or build two complexes with default arguments",
  [SC, SB], [("copies", SC + " SimplicialComplex.__init__"), ("defaults", SB + " SCBuilder.__init__")])

p("C10", "Triangle selection: all 3-cliques, those within the distance, or those given",
  "With the condition 'all' the complex has each 3-clique of the edge graph exactly once with sorted nodes; with 'distance' it has exactly those whose three edges all have a feature value strictly below the threshold, whichever way the edge is stored, including zero and missing values (a missing value disqualifies); given triangles are used as they are, also an empty list. "
  "Nodes, edges and features of the builder reach the complex unchanged.",
  "inputs", "every graph, every feature column, every threshold, every condition",
  "tests use one graph with edges stored small-to-large, no zero and no missing distance",
  SB, [("cliques", SB + " SCBuilder.triangles"), ("distance", SB + " SCBuilder.triangles_dist_based"),
       ("selection", SB + " SCBuilder.to_simplicial_complex")])

p("C11", "Shape, dimension, simplices, names and faces describe the stored simplices",
  "Shape counts nodes, edges and triangles; simplices lists the nodes as 1-tuples, then the edges, then the triangles, in stored order; the dimension is the size of the largest simplex minus one. "
  "The faces of a simplex with k nodes are its sub-simplices with k-1 nodes, each once, sorted; the feature names are those of the stored edge features and asking for one feature gives each edge's value of it, with a KeyError when it does not exist. The printed summary gives these numbers under their names.",
  "inputs", "every complex, every simplex, every feature name",
  "tests cover one complex and simplices listed in ascending order",
  SC, [("enumeration", SC + " SimplicialComplex.shape/max_dim/simplices/get_faces/print_summary"),
       ("features", SC + " SimplicialComplex.edge_feature_names/get_edge_features")])

p("C12", "Learned polynomial filters fit and apply the stated polynomial",
  "For every filter size, the least-squares and grid-based filters fit coefficients of the monomials of the (sampled or exact) eigenvalues to the desired response, and the recorded filter is the same polynomial in the matrix, the recorded signal is that filter applied to the input, and the recorded responses are diag(U'HU). "
  "The error at each size is the normalised error against the true component (or given true signal), and the desired response is one exactly on the chosen component, or the documented low-pass or logistic curve with the given parameters.",
  "inputs", "every complex, flow, component, matrix choice and filter size",
  "tests compare end results for two or three sizes on one complex within loose tolerances",
  [LS, GB, BF], [("least squares", LS + " LSFilterDesign._apply_filter and its callers"),
                 ("grid", GB + " GridBasedFilterDesign._apply_filter and its callers"),
                 ("mask", BF + " BaseFilter.get_component_coefficients")])

p("C13", "Low-pass denoising applies (I + mu P)^-1 for each parameter",
  "For every regularisation parameter in the list the error and the frequency response are those of the filter (I + mu P)^-1 of the chosen matrix applied to the noisy flow, in the order of the list; the recorded filter and signal are those of the last parameter. "
  "The default list is the single value 0.5.",
  "inputs", "every complex, flow, matrix choice and list of parameters",
  "tests use one or two parameters and compare rounded errors",
  [EF, BF], [("denoise", EF + " EdgeFlowDenoising.denoise"), ("error", BF + " BaseFilter.calculate_error_NRMSE")])

p("C14", "General filter returns harmonic, curl, gradient parts summing to the flow",
  "The general filter of both designs extracts the gradient part with the lower and the curl part with the upper Laplacian using the size given for each, skips a part whose size is zero, and returns harmonic, curl and gradient estimates in this order that add up to the input flow. "
  "The record of each extraction is kept under its own name and is not overwritten by the other.",
  "inputs", "every flow and every pair of sizes, including zero sizes",
  "tests check one pair of sizes and single values",
  [LS, GB], [("general filter", LS + " LSFilterDesign.general_filter"), ("general filter", GB + " GridBasedFilterDesign.general_filter")])

p("C15", "Filter history describes the last successful run only",
  "After a run, every recorded result (filter, signal, responses, errors) comes from that run, as float arrays, whatever was run before on the same or on another filter object; a run neither reads nor keeps results of an earlier run, and two filter objects never share a record. "
  "A new filter has no results, and asking for a plot of results before any run fails with a ValueError.",
  "histories", "every sequence of runs, failing runs and plots on one or several filter objects",
  "tests run each filter once on a fresh object",
  [BF, LS, GB, EF, CH, ST], [("record", BF + " BaseFilter.set_history/_reset_history"), ("record", ST + " SimplicialTrendFilter.set_history")])

p("C16", "Trend-filter regularisers are the stated operators of the given order",
  "The regulariser of order zero is B1 (divergence) or B2' (curl), of odd order k the Laplacian power L^((k+1)/2) and of even order B1 L_lower^(k/2) or B2' L_upper^(k/2), with the lower Laplacian for divergence and the upper for curl; a negative order fails with a ValueError. "
  "Quadratic denoising uses the filter (I + mu L)^-1 with the same choice of Laplacian.",
  "inputs", "every complex, every order, both components",
  "tests compare a few orders on one complex and only shapes of the quadratic filter",
  ST, [("operators", ST + " SimplicialTrendFilter.get_shift_operator"), ("quadratic", ST + " SimplicialTrendFilter.denoising_l2_regularizer")])

p("C17", "Trend-filter experiments record means over realisations, per noise level",
  "Denoising and interpolation solve, for every noise level or ratio and every realisation, the stated problem for that realisation's data and record its solution in its own slot; errors, component norms and correlations are the means over the realisations of that level, measured against the input flow. "
  "Interpolation samples floor(ratio x edges) distinct edges, uses only the flow on them, and constrains the solution to equal the flow there; noise power is |f| / snr / edges with snr = 10^(dB/10).",
  "inputs", "every flow, noise level list, ratio list, realisation count, order and parameter",
  "the results are random, so the tests only check shapes and keys",
  ST, [("denoising", ST + " SimplicialTrendFilter.denoising_l1_regularizer/denoising_l2_regularizer"),
       ("interpolation", ST + " SimplicialTrendFilter.interpolation_l1_regularizer"), ("noise", ST + " SimplicialTrendFilter.get_power_noise")])

p("C18", "The Chebyshev filter follows the shifted three-term recurrence",
  "For every order the matrix polynomial is the sum of the coefficients times the Chebyshev polynomials of (P - aI)/a, built by T0 = I, T1 = (P - aI)/a, Tk = 2 (P - aI)/a T(k-1) - T(k-2). "
  "The scale a is half the largest eigenvalue estimated by normalised power iteration on the chosen matrix, and the ideal response is U diag(c) U' in the eigenvectors of the Hodge Laplacian.",
  "inputs", "every matrix, coefficient vector, scale and order",
  "the tests reach at most a few orders, and the series itself needs a package that is not installed",
  [CH, BF], [("recurrence", CH + " ChebyshevFilterDesign._chebyshev_filter_approximate"), ("scale", CH + " ChebyshevFilterDesign.get_alpha"),
             ("power iteration", BF + " BaseFilter.power_iteration")])

p("C19", "Edge features read from a file belong to the edge they are stored under",
  "Every edge of a network read from a file carries the feature values of the first row that describes that edge in its stored direction, whatever the order of rows, duplicate or reversed rows in the file and whatever the index base. "
  "Only the requested columns (for tab-separated networks all columns but the two endpoints) become features, and no requested columns means no features.",
  "inputs", "every file: row order, duplicates, reversed rows, columns, index base",
  "the test files list each edge once and in sorted order",
  NR, [("features", NR + " read_csv"), ("features", NR + " read_tntp"), ("row lookup", NR + " _find_edge_rows")])

p("C20", "A network is read with each edge once, sorted, on zero-based contiguous nodes",
  "The edges read are the distinct undirected pairs of the file in the direction seen first, sorted, shifted to zero-based ids when the file counts from one; the nodes are all ids from zero to the largest endpoint. "
  "Coordinates are read as node id to (x, y) with the same shift, and reading coordinates from a missing file gives None.",
  "inputs", "every file, both index bases, every column naming",
  "the test files have contiguous ids and no reversed duplicates",
  NR, [("structure", NR + " _extract_nodes_edges"), ("coordinates", NR + " read_coordinates")])

p("C21", "Incidence files give the edges and triangles they encode",
  "From a node-edge incidence file each column becomes the edge from its -1 row to its +1 row, and from the triangle file each row becomes the sorted node triple spanned by the edges at its nonzero positions, in the column order of the node-edge file, even when the edges of the resulting network are then sorted differently.",
  "inputs", "every pair of incidence files, in any column order",
  "the test files list the edges in sorted order, where a misaligned lookup gives the same triangles",
  [NR, "pytspl/io/data_loaders/wsn_loader.py"], [("edges", NR + " read_B1_B2"), ("triangles", NR + " read_B2")])

p("C22", "Every listed dataset can be loaded; every other name is refused",
  "The names offered by the dataset listing are exactly the names the loader accepts; each has the files its loader reads, and loading gives a complex, coordinates for every node and its flow. "
  "A name that is not listed fails with a ValueError that names the available ones.",
  "configurations", "every advertised dataset name and every other string",
  "tests load a few of the datasets",
  [DL] + LOADERS, [("registry", DL + " DATASETS, list_datasets, load_dataset"), ("transport", TL)])

p("C23", "Dataset flows are aligned with the stored edges and their direction",
  "For every dataset with a flow file, the flow of each stored edge is the value given for that edge: values listed by position follow the edge order of the complex, and for transportation networks the net flow is the volume from the first to the second endpoint minus the volume in the opposite direction (zero if absent).",
  "inputs", "every flow file and every set of edges",
  "tests compare a few values of one dataset; a wrong sign or a swapped lookup on the others goes unseen",
  LOADERS, [("net flow", TL + " load_flow_transportation"), ("positional flow", "pytspl/io/data_loaders/paper_loader.py load_paper_data")])

p("C24", "A random complex is a function of its parameters and seed",
  "Generating a random complex with the same size, probability, threshold and seed gives the same nodes, edges, edge distances, triangles and coordinates, whatever random numbers were drawn before, and generating does not disturb the global random state. "
  "Every edge has one distance between zero and one, and the triangles are those within the threshold.",
  "histories", "every seed and every prior use of the global random generators",
  "tests compare counts for one seed",
  GEN, [("generator", GEN + " generate_random_simplicial_complex")])

p("C25", "Arrays, lists and dictionaries passed in are never modified",
  "No public function or method (decomposition, filters, readers, loaders, Gaussian processes, plotting) changes an array, list, dictionary or complex that was passed to it. "
  "The same call with the same arguments therefore starts from the same data again.",
  "inputs", "every public entry point and every argument",
  "tests do not compare arguments before and after",
  [EIG, HD, BF, LS, GB, EF, CH, ST, NR, GP, PL], [("entry points", "all public functions and methods of pytspl")])

p("C26", "Using the library leaves no lasting side effects in the process or on disk",
  "No call writes, deletes or renames files, changes the working directory, environment, warning filters, numeric error state, plotting defaults, default data types or global random seeds, or stores results in module- or class-level containers. "
  "Importing the package does not do so either.",
  "histories", "every call of every function, in any order",
  "a leaked global setting only shows in what runs later in the process",
  ["pytspl"], [("effects", "all functions and module bodies of pytspl")])

p("C27", "Gaussian-process inputs follow one order of Laplacians and eigenpairs",
  "The trainer hands out Laplacians in the order Hodge, lower, upper, incidence matrices in the order B1, B2 and eigenpairs in the order harmonic, gradient, curl vectors then values, each from its own component with the given tolerance; every kernel stores each of the six under the role with which it is used.",
  "inputs", "every complex and tolerance",
  "tests check list lengths; a swapped pair has the right shape on the test complex",
  [GP] + FX, [("order", GP + " HodgeGPTrainer.get_eigenpairs/get_laplacians/get_incidence_matrices"), ("unpacking", "pytspl/hogde_gp/forex/*.py __init__")])

p("C28", "Kernel hyper-parameters are positive and each setter sets its own parameter",
  "Every hyper-parameter of every kernel is registered with a positivity constraint, reading it gives the constrained value of its own raw parameter, and writing it changes that raw parameter only, such that reading returns the value written.",
  "inputs", "every kernel, every hyper-parameter, every positive value",
  "tests set a few hyper-parameters of some kernels",
  FX, [("properties", "pytspl/hogde_gp/forex/*.py")])

p("C29", "Kernels compose the three components from matching vectors, weights and spectra",
  "For every kernel and every pair of index sets the covariance is the sum over harmonic, gradient and curl of the component's weight times U[x1] k U[x2]', with the vectors and the spectral function of the same component; asking for the diagonal gives the diagonal of the same matrix, and one input means both arguments are equal. "
  "The spectral functions are those of the kernel's family (diffusion, Matern, Laplacian) with the hyper-parameters of the component.",
  "inputs", "every kernel, every index set, every hyper-parameter value",
  "tests evaluate the spectral weights at the default hyper-parameters, where all of them are equal",
  FX, [("forward", "pytspl/hogde_gp/forex/*.py forward/_eval_covar_matrix")])

p("C30", "Every kernel name maps to its own kernel",
  "For the supported data set each implemented kernel name gives a kernel of that family built on the given eigenpairs; a name that is not implemented and any other name or data set fail with a ValueError.",
  "inputs", "every kernel name and data set name",
  "tests look up some of the names",
  [KN, KS], [("registry", KN + " Kernels.get_forex_kernels"), ("lookup", KS + " KernelSerializer._get_serializer")])

p("C31", "Train/test split partitions the edges and normalises with training statistics",
  "The split pairs every edge index with its own target value, puts each edge into exactly one of the two parts according to ratio and seed, and returns inputs and targets in the documented order together with the full data. "
  "Normalisation, when asked for, uses mean and standard deviation of the training targets for all three target vectors, and nothing else changes the values.",
  "inputs", "every flow, ratio, seed and normalisation flag",
  "tests check lengths and one ratio",
  GP, [("split", GP + " HodgeGPTrainer.train_test_split"), ("normalisation", GP + " HodgeGPTrainer.normalize_data")])

p("C32", "Training optimises in training mode, prediction evaluates without side effects",
  "Every training step clears the gradients, evaluates the negative marginal likelihood of the training data with model and likelihood in training mode, back-propagates and then steps the optimiser over the model's parameters with the given rate, for the given number of iterations, and the trained model is kept. "
  "Prediction switches model and likelihood to evaluation mode and computes without gradients; parameters and kernels of a trainer without a trained model are refused with a ValueError.",
  "histories", "every sequence of training, prediction and parameter queries",
  "tests train once and predict once; the mode left behind by a prediction needs a second round",
  [GP, EX], [("train", GP + " HodgeGPTrainer.train"), ("predict", GP + " HodgeGPTrainer.predict"), ("model", EX)])

p("C33", "Reported parameters and the rebuilt Matern covariance match the trained kernel",
  "The reported parameters are the constrained values of the trained kernel under their own names, and the rebuilt covariance is scale times the sum over components of weight times U k U' with the gradient and curl spectral functions of the trained Matern kernel and mu as the harmonic spectrum; the variance is its diagonal (zero when it is constant).",
  "inputs", "every trained model and complex",
  "tests check that the result is finite or has the right shape",
  [GP, FX[0]], [("rebuild", GP + " HodgeGPTrainer.build_matern_kernel"), ("parameters", GP + " HodgeGPTrainer.get_model_parameters")])

p("C34", "Everything is drawn on the axes given",
  "When axes are passed, every node, label, edge, triangle, colour bar and axis limit of a drawing call goes to these axes or their figure and never to whatever axes are current; without axes the current ones are used. "
  "Decomposition and eigenvector drawings make a new figure and put each component or vector on its own subplot.",
  "histories", "every drawing call, whatever figures and axes exist and are current",
  "in the tests the axes passed are also the current ones",
  PL, [("drawing", PL + " SCPlot.draw_sc_nodes/draw_sc_edges/draw_edge_labels/draw_network"),
       ("figures", PL + " SCPlot.draw_hodge_decomposition/draw_eigenvectors")])

p("C35", "Drawing does not change the complex, the flow, the coordinates or the options",
  "No drawing call modifies the complex, the flow, the coordinates given or the option dictionaries (including default ones); at most the plotter remembers the layout it generated. "
  "Drawing the same thing twice therefore draws the same thing.",
  "histories", "every sequence of drawing calls on one plotter",
  "tests draw once per plotter and do not compare the data afterwards",
  PL, [("plotter", PL + " SCPlot")])

p("C36", "Colours, labels and markers stay attached to their own node or edge",
  "Node markers and labels are at the position of their own node, an edge's colour is the flow of that edge whatever the order of the flow dictionary, flow arrays are matched to the stored edges by position, and edge labels carry the value of their own edge and stand at its middle, moved only by the given offset. "
  "The colour bar, its limits and the drawn colours use the same colour map and limits, by default from the smallest value minus half its size to the largest; an explicit limit, including zero, is respected.",
  "inputs", "every complex, flow, colour list, colour map and limit",
  "tests draw without looking at what was drawn",
  PL, [("nodes", PL + " SCPlot.draw_sc_nodes"), ("edges", PL + " SCPlot.draw_sc_edges"), ("labels", PL + " SCPlot.draw_edge_labels")])

p("C37", "Network drawing validates options and routes each to every layer that takes it",
  "Every option of the node, edge and edge-label layers is accepted by the network drawing and reaches each layer that has it unchanged; any other option fails with a ValueError that names it before anything is drawn. "
  "Without options the documented defaults (node size 400, edge width 5, arrow size 30, font size 12) are used.",
  "inputs", "every option name and value",
  "tests pass one or two options",
  PL, [("routing", PL + " SCPlot.draw_network")])

p("C38", "Layouts and generated coordinates cover every node and are shared by all layers",
  "Whenever coordinates are generated, every node of the complex gets one, including nodes without edges; given coordinates are used as they are. "
  "All layers of one plotter use the same layout, and the axis limits contain every coordinate.",
  "inputs", "every complex, with and without given coordinates",
  "the test complexes have no isolated nodes",
  [PL, SC], [("layout", PL + " SCPlot._init_axes"), ("coordinates", SC + " SimplicialComplex.generate_coordinates")])

p("C39", "The Chebyshev approximation is close to the desired response",
  "For every matrix and steepness the approximation error of the Chebyshev filter on the spectrum is bounded by the truncation error of the series.",
  "inputs", "every spectrum, cut-off and order", "tests sample a few orders", CH, [("series", CH)])
p("C40", "Power iteration converges to the dominant eigenvector",
  "After the default number of iterations the estimate of the largest eigenvalue is accurate for every Laplacian.",
  "inputs", "every Laplacian spectrum", "tests use one spectrum with a large gap", BF, [("power iteration", BF + " BaseFilter.power_iteration")])
p("C41", "Gaussian-process predictions are accurate and calibrated",
  "Predictions of a trained model are close to the held-out flow and their variance is calibrated.",
  "inputs", "every dataset and split", "tests use one seed", GP, [("predict", GP)])
p("C42", "The convex solver reaches the optimum of the stated problem",
  "The recorded solution of the l1 problems is optimal up to the solver's tolerance for every input.",
  "inputs", "every flow and noise draw", "tests check shapes only", ST, [("solver", ST)])
p("C43", "Computed eigenvectors are orthonormal and accurate",
  "The eigenvectors returned for every Laplacian are orthonormal and satisfy the eigenvalue equation up to rounding, also for repeated eigenvalues and size-one matrices.",
  "inputs", "every Laplacian", "tests use small well-separated spectra", EIG, [("eigensolver", EIG + " get_eigendecomposition")])

p("C44", "The regression model has the requested mean and a positively scaled kernel",
  "A model conditions on the training inputs and targets it is given, under the given likelihood; its prior at any inputs is normal with the zero mean exactly when it is asked for (a constant learned mean otherwise) and with the given kernel times one learned positive scale.",
  "inputs", "every kernel, likelihood, training set and input",
  "tests check that a prediction comes out and has the right length",
  ["pytspl/hogde_gp/exact_gp.py"], [("prior", "pytspl/hogde_gp/exact_gp.py ExactGPModel.__init__/forward")])

p("C45", "Filter plots show the responses of the applied filter at the right eigenvalues",
  "Before a filter is applied its response plots fail with a ValueError. Afterwards the denoising plot shows the last recorded response against the eigenvalues of the chosen matrix; the Chebyshev response plot shows the true component in the frequency domain and the last recorded response against the eigenvalues of the Hodge Laplacian; "
  "the series plot shows the logistic response with the given cut-off and steepness and its Chebyshev series on [0, largest eigenvalue], both at the eigenvalues of the chosen matrix. Each plot is a new figure, each of several curves has its own name in the legend, and drawing leaves the recorded results, the flow and the complex as they were.",
  "inputs", "every complex, flow, component, matrix, cut-off and steepness",
  "the tests never draw the responses of a filter",
  [CH, "pytspl/filters/edge_flow_denoising.py"], [("response", "pytspl/filters/edge_flow_denoising.py EdgeFlowDenoising.plot_desired_frequency_response"),
   ("approximation", CH + " ChebyshevFilterDesign.plot_frequency_response_approx"), ("series", CH + " ChebyshevFilterDesign.plot_chebyshev_series_approx")])

p("C46", "Everything the trainer hands out lives on its output device",
  "Every tensor that a trainer hands out (Laplacians, incidence matrices, eigenvectors and eigenvalues, and the training, test and full inputs and targets of the split, normalised or not) is held by the output device the trainer was made with, the processor's memory when none was given.",
  "inputs", "every complex, target vector, device, ratio, seed and tolerance",
  "the tests only ever use the processor's own memory, where a tensor that was not moved looks the same",
  ["pytspl/hogde_gp/hodge_gp_trainer.py"], [("matrices", "pytspl/hogde_gp/hodge_gp_trainer.py HodgeGPTrainer.get_laplacians/get_incidence_matrices/get_eigenpairs"),
   ("split", "pytspl/hogde_gp/hodge_gp_trainer.py HodgeGPTrainer.train_test_split")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for x in P:
            fh.write(json.dumps(x) + "\n")
