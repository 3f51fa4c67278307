from . import register as r

r("C01", "complexes", "boundary", "abstract evaluation of the incidence matrix construction over the eight orientation classes of a triangle")
r("C02", "complexes", "laplacians", "value numbering of every Laplacian query against its definition")
r("C03", "complexes", "shifting", "loop summaries of the shifting operators against L^k f")
r("C04", "complexes", "flow_operators", "value numbering of the flow operators against their definitions")
r("C05", "complexes", "spectral_split", "value numbering of the component eigenpairs against one shared threshold rule")
r("C06", "complexes", "hodge", "value numbering of the Hodge decomposition against the least-squares projections")
r("C07", "names", "rejected", "exception analysis: every entry point with a name parameter, over all names different from the documented ones")
r("C08", "purity", "complex_queries", "effect and alias analysis of every query of a complex, and value numbering of each query after each writing one")
r("C09", "purity", "ownership", "points-to analysis: what a built complex and a second one can reach")
r("C10", "builder", "triangles", "value numbering of the triangle selection against the 3-clique and distance definitions")
r("C11", "builder", "enumeration", "value numbering of the enumeration queries over simplices of every small size")
r("C12", "filters", "learned", "value numbering of the least-squares design matrix and reconstruction against their definitions")
r("C13", "filters", "denoise", "value numbering of the denoising operators against the closed-form regularised solution")
r("C14", "filters", "general", "value numbering of the spectral filters against their definitions")
r("C15", "filters", "history", "container dataflow: the entries each public run records, and what survives a reset")
r("C16", "filters", "trend_operators", "value numbering of the trend-filter regulariser against its definition")
r("C17", "filters", "trend_runs", "value numbering of the stated convex problem and the recorded results")
r("C18", "filters", "chebyshev", "value numbering of the Chebyshev operator construction against its recurrence")
r("C19", "readers", "features", "value numbering of the tables the readers build the edge features from, against the row-by-row definition")
r("C20", "readers", "networks", "value numbering of the nodes, edges, coordinates and flows read from a file against their definitions")
r("C21", "readers", "incidence", "value numbering of the complex rebuilt from incidence files against its definition")
r("C22", "datasets", "loading", "value numbering of every loader against its data set's definition, with the paths resolved in the repository tree")
r("C23", "datasets", "flows", "value numbering of every data set's flow against its definition over the stored edges")

r("C24", "generator", "generated", "random-source analysis and value numbering of the generated complex")
r("C25", "entries", "inputs", "effect analysis of every public entry point, alone and after every other one: what changes objects of the caller")
r("C26", "entries", "process", "effect analysis of every public entry point and module body: what is left behind in the process or on disk")
r("C27", "gp", "inputs", "value numbering of the tensors handed out, element by element, and of the attributes of every constructed kernel")
r("C28", "gp", "parameters", "abstract execution of construction, reading and writing of every hyper-parameter of every kernel")
r("C29", "gp", "covariance", "symbolic normal forms of every kernel's covariance against the composition of its three components")
r("C30", "gp", "names", "constant propagation and exception analysis of kernel names and data sets")
r("C31", "gp", "split", "value numbering of the six results of the split and the normalisation against their definition")
r("C32", "gp", "training", "typestate analysis of model, likelihood and optimiser along the event sequence of training and prediction")
r("C33", "gp", "rebuilt", "value numbering of the reported parameters and the rebuilt covariance against their definitions")
r("C34", "drawing", "axes", "event analysis by abstract interpretation: the object every drawing call belongs to, with and without axes, and the subplots of figures")
r("C35", "drawing", "unchanged", "effect analysis of every drawing call, and equality of the events of repeated drawings")
r("C36", "drawing", "attached", "symbolic normal forms of positions, colours, limits and labels given to the drawing library against reference definitions")
r("C37", "drawing", "options", "constant propagation of option names through the routing, and relational comparison of the network with its layers")
r("C38", "drawing", "placed", "symbolic normal forms of layouts and axis limits; coverage of nodes by the graph a layout is made for")
r("C44", "gp", "model", "abstract execution of the model's construction and forward pass against the definition of the prior")
r("C45", "filters", "plots", "event analysis of every curve drawn, its coordinates compared in normal form with the recorded responses and the spectrum")
r("C46", "gp", "devices", "value flow analysis of every tensor the trainer returns: the last device it is moved to, against the trainer's")

from . import NOT_APPLICABLE as NA  # noqa: E402

NA["C39"] = "a bound on floating-point approximation error over all spectra: quantifies over runtime numbers no static argument in reach bounds, and the series comes from a package that is not installed"
NA["C40"] = "convergence rate depends on the spectral gap of the runtime matrix; only the iteration itself (C18) is decidable from the source"
NA["C41"] = "statistical quality of a trained model is an empirical question about data, not a property of the source"
NA["C42"] = "optimality is delivered by the external convex solver at run time; statically only the stated problem (C17) can be decided"
NA["C43"] = "accuracy and orthonormality are numerical guarantees of the external eigensolver on runtime matrices"
