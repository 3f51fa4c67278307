"""Concrete failing inputs behind the entries of KNOWN_FINDINGS.txt.

Documentation only: no check runs this file.  Run by hand as
    MPLBACKEND=Agg /opt/venv/bin/python /verif/findings/repro.py [name ...]
Each function returns True when the real code behaves as the property asks.
"""
import os, sys, tempfile, warnings, random
import contextlib, io as _io
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
from pytspl.simplicial_complex import SimplicialComplex
from pytspl.simplicial_complex.scbuilder import SCBuilder

def _sc():
    e = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 4)]
    return SimplicialComplex(list(range(5)), e, [[0, 1, 2]])

def b2_orientation():
    sc = SimplicialComplex([0, 1, 2], [(1, 0), (0, 2), (1, 2)], [[0, 1, 2]])
    return np.allclose(sc.B1 @ sc.B2, 0)
def shifting_steps():
    sc = _sc(); f = np.arange(6.0); L = sc.lower_laplacian_matrix(1).toarray()
    return (np.allclose(sc.apply_lower_shifting(f, 3), np.linalg.matrix_power(L, 3) @ f)
            and np.allclose(sc.apply_lower_shifting(f, 0), f))
def hodge_rank2():
    sc = _sc(); return np.allclose(sc.hodge_laplacian_matrix(2).toarray(), sc.B2.T @ sc.B2)
def total_variance():
    return _sc().get_total_variance().shape == (5,)
def shared_defaults():
    a = SimplicialComplex(); a.nodes.append(7); a.edge_features["x"] = 1
    b = SimplicialComplex(); r = (b.nodes == [] and b.edge_features == {})
    a.nodes.remove(7); a.edge_features.pop("x")
    bl = SCBuilder([0, 1], [(0, 1)], {}, {(0, 1): {"d": 1}})
    s1, s2 = bl.to_simplicial_complex(), bl.to_simplicial_complex()
    s1.edge_features[(0, 1)]["d"] = 9; s1.edges.append((1, 0))
    return r and s2.edge_features[(0, 1)]["d"] == 1 and len(s2.edges) == 1
def curl_tolerance():
    from pytspl.decomposition.eigendecomposition import get_curl_eigenpair
    return len(get_curl_eigenpair(np.diag([0.0, 1.0, 2.0]), 1.0)[1]) == 1
def dist_reversed_edge():
    b = SCBuilder([0, 1, 2], [(1, 0), (0, 2), (1, 2)], {}, {(1, 0): {"distance": 1}, (0, 2): {"distance": 0}, (1, 2): {"distance": 1}})
    return b.triangles_dist_based("distance", 2) == [[0, 1, 2]]
def unknown_condition():
    b = SCBuilder([0, 1], [(0, 1)])
    try: b.to_simplicial_complex(condition="al")
    except ValueError: return True
    return False
def csv_alignment():
    from pytspl.io import read_csv
    with tempfile.TemporaryDirectory() as d:
        p = d + "/e.csv"; open(p, "w").write("s,t,w\n2,3,23\n1,0,10\n0,1,99\n0,2,2\n")
        ef = read_csv(p, ",", "s", "t", ["w"]).edge_features
    return {k: v["w"] for k, v in ef.items()} == {(2, 3): 23, (1, 0): 10, (0, 2): 2}
def csv_no_features():
    from pytspl.io import read_csv
    with tempfile.TemporaryDirectory() as d:
        p = d + "/e.csv"; open(p, "w").write("s,t\n0,1\n")
        return read_csv(p, ",", "s", "t").edge_features == {}
def b1_b2_order():
    from pytspl.io import read_B1_B2
    with tempfile.TemporaryDirectory() as d:
        # columns: (2,3),(0,1),(0,2),(1,2); triangle (0,1,2)
        B1 = np.zeros((4, 4))
        for j, (a, b) in enumerate([(2, 3), (0, 1), (0, 2), (1, 2)]): B1[a, j], B1[b, j] = -1, 1
        np.savetxt(d + "/b1", B1, delimiter=",", fmt="%d"); np.savetxt(d + "/b2", [[0, 1, -1, 1]], delimiter=",", fmt="%d")
        _, t = read_B1_B2(d + "/b1", d + "/b2")
    return [tuple(x) for x in t] == [(0, 1, 2)]
def seed():
    from pytspl.io import generate_random_simplicial_complex as g
    a, ca = g(12, .5, .8, 3); b, cb = g(12, .5, .8, 3)
    return a.edge_features == b.edge_features and all(np.allclose(ca[k], cb[k]) for k in ca)
def reset_slot():
    from pytspl.filters.base_filter import BaseFilter
    f = BaseFilter(_sc()); k = set(f.history); f._reset_history(); return set(f.history) == k
def grid_history():
    from pytspl.filters import GridBasedFilterDesign
    g = GridBasedFilterDesign(_sc()); g.general_filter(np.arange(6.0), 2, 2)
    return g.history["L1"] is not g.history["L2"]
def ls_full_rank():
    from pytspl.filters import LSFilterDesign
    sc = SimplicialComplex([0, 1, 2], [(0, 1), (0, 2)], [])   # tree: L1L has full rank
    f = np.array([1.0, 2.0]); l = LSFilterDesign(sc); l.subcomponent_extraction_type_two(f, "gradient", 2)
    return np.allclose(l.history["f_estimated"], f)
def stf_l2_curl():
    from pytspl.filters import SimplicialTrendFilter
    sc = _sc(); s = SimplicialTrendFilter(sc)
    s.denoising_l2_regularizer(np.arange(1, 7.0), "curl", 1, np.array([10.0]), 0.5)
    return np.allclose(s.history["filter"], np.linalg.inv(np.eye(6) + .5 * sc.B2 @ sc.B2.T))
def stf_unknown():
    from pytspl.filters import SimplicialTrendFilter
    try: SimplicialTrendFilter(_sc()).get_shift_operator("divergance", 1)
    except ValueError: return True
    return False
def gp_untrained():
    from pytspl.hogde_gp import HodgeGPTrainer
    for m in ("get_model_parameters", "build_matern_kernel"):
        try: getattr(HodgeGPTrainer(_sc(), np.arange(6.0)), m)(); return False
        except ValueError: pass
    return True
def _gp():
    import torch, gpytorch
    from pytspl.hogde_gp import HodgeGPTrainer, ExactGPModel
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    tr = HodgeGPTrainer(_sc(), np.arange(6.0)); x, y, xt, yt, _, _ = tr.train_test_split(.67)
    k = KernelSerializer().serialize(tr.get_eigenpairs(), "diffusion", "forex")
    lik = gpytorch.likelihoods.GaussianLikelihood(); return tr, x, y, xt, yt, k, lik, ExactGPModel(x, y, lik, k)
def gp_retrain():
    tr, x, y, xt, yt, k, lik, m = _gp(); m.eval(); lik.eval()
    tr.train(m, lik, x, y, 1); return m.training and lik.training
def kernel_missing():
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer
    try: KernelSerializer().serialize([0] * 6, "laplacian_non_hc", "forex")
    except ValueError: return True
    return False
def kernel_one_arg():
    tr, x, *_ , k, lik, m = _gp(); return k.forward(x[:, None]).shape == (len(x), len(x))
def _fig():
    import matplotlib.pyplot as plt
    plt.close("all"); return plt, *plt.subplots(1, 2)
def labels_axes():
    from pytspl.plot import SCPlot
    plt, fig, (a, b) = _fig(); plt.sca(b)
    SCPlot(_sc(), {i: (i, i * i) for i in range(5)}).draw_sc_nodes(with_labels=True, ax=a)
    return len(a.texts) == 5 and len(b.texts) == 0
def nodes_cmap():
    from pytspl.plot import SCPlot
    plt, fig, (a, b) = _fig()
    SCPlot(_sc(), {i: (i, i * i) for i in range(5)}).draw_sc_nodes(node_color=[1, 2, 3, 4, 5.0], ax=a)
    return a.collections[0].get_cmap().name == "Blues"
def isolated_node():
    from pytspl.plot import SCPlot
    plt, fig, (a, b) = _fig()
    SCPlot(SimplicialComplex([0, 1, 2], [(0, 1)], [])).draw_sc_nodes(ax=a); return True
def lastfm():
    from pytspl.io import load_dataset
    load_dataset("lastfm-1k-artist"); return True

if __name__ == "__main__":
    names = sys.argv[1:] or [n for n, f in list(globals().items()) if callable(f) and not n.startswith("_") and getattr(f, "__module__", "") == "__main__"]
    for n in names:
        out = _io.StringIO()
        with contextlib.redirect_stdout(out):
            try: r = "ok" if globals()[n]() else "FAILS"
            except Exception as e: r = f"FAILS ({type(e).__name__}: {str(e)[:80]})"
        print(f"{n:20s} {r}")
