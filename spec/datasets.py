"""What every data set is made of: the files, their format and the index base.

Only the arguments are given here; the readers are those of the library, which
have checks of their own."""
import pickle

import numpy as np
import pandas as pd
import pkg_resources
import networkx as nx

from pytspl.io.network_reader import read_B1_B2, read_coordinates, read_csv, read_tntp

DATA = pkg_resources.resource_filename("pytspl", "data")


def folder(name):
    return pkg_resources.resource_filename("pytspl", "data/" + name)


def by_position(edges, values):
    return {edge: values[i] for i, edge in enumerate(edges)}


def by_position_2(edges, values):
    return {(edge[0], edge[1]): values[i] for i, edge in enumerate(edges)}


def paper():
    d = folder("paper_data")
    sc = read_csv(filename=d + "/edges.csv", delimiter=" ", src_col="Source", dest_col="Target", feature_cols=["Distance"]).to_simplicial_complex()
    coordinates = read_coordinates(filename=d + "/coordinates.csv", node_id_col="Id", x_col="X", y_col="Y", delimiter=" ")
    return sc, coordinates, by_position(sc.edges, pd.read_csv(d + "/flow.csv", header=None).values[:, 0])


def forex():
    d = folder("foreign_exchange")
    builder, triangles = read_B1_B2(B1_filename=d + "/B1.csv", B2_filename=d + "/B2t.csv")
    sc = builder.to_simplicial_complex(triangles=triangles)
    return sc, sc.generate_coordinates(), by_position(sc.edges, pd.read_csv(d + "/flow_FX_1538755200.csv", header=None).values[:, 0])


def lastfm_1k_artist():
    d = folder("lastfm-dataset-1K")
    builder, triangles = read_B1_B2(d + "/B1-artist.csv", d + "/B2t-artist.csv")
    sc = builder.to_simplicial_complex(triangles=triangles)
    return sc, sc.generate_coordinates(), by_position(sc.edges, pd.read_csv(d + "/flow-artist.csv", delimiter=",", header=None).to_numpy().flatten())


def chicago_sketch():
    d = folder("transportation_networks/chicago-sketch")
    builder, triangles = read_B1_B2(d + "/B1_chicago_sketch.csv", d + "/B2t_chicago_sketch.csv")
    sc = builder.to_simplicial_complex(triangles=triangles)
    coordinates = read_coordinates(filename=d + "/coordinates_chicago_sketch.csv", node_id_col="Id", x_col="X", y_col="Y", delimiter=",", start_index_zero=True)
    return sc, coordinates, by_position(sc.edges, pd.read_csv(d + "/flow_chicago_sketch.csv", delimiter=",", header=None).to_numpy().flatten())


def wsn():
    with open(folder("wsn") + "/water_network.pkl", "rb") as f:
        B1, flow_rate, _, head, hr = pickle.load(f)
    edges = [(np.where(B1[:, j] == -1)[0][0], np.where(B1[:, j] == 1)[0][0]) for j in range(B1.shape[1])]
    ends = set()
    for u, v in edges:
        ends.add(u)
        ends.add(v)
    from pytspl.simplicial_complex.scbuilder import SCBuilder
    sc = SCBuilder(nodes=list(range(max(ends) + 1)), edges=edges).to_simplicial_complex()
    q = np.asarray(flow_rate)
    return sc, sc.generate_coordinates(), np.concatenate((np.asarray(head), -hr.squeeze() * np.sign(q) * np.abs(q) ** 1.852))


def transportation(name):
    d = folder("transportation_networks") + "/" + name + "/" + name
    sc = read_tntp(filename=d + "_net.tntp", src_col="init_node", dest_col="term_node", skip_rows=8, delimiter="\t", start_index_zero=False).to_simplicial_complex()
    coordinates = read_coordinates(filename=d + "_node.tntp", node_id_col="node", x_col="X", y_col="Y", delimiter="\t", start_index_zero=False)
    if coordinates is None:
        coordinates = sc.generate_coordinates()
    return sc, coordinates


def volumes(name):
    return pd.read_csv(folder("transportation_networks") + "/" + name + "/" + name + "_flow.tntp", sep="\t", header="infer")


def volume(table, u, v):
    return table[(table["From "] == u) & (table["To "] == v)]["Volume "].values


def missing(name):
    import os
    return not os.path.exists(folder("transportation_networks") + "/" + name + "/" + name + "_flow.tntp")


def net_flow(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    if table.empty:
        return {}
    out = {}
    for u, v in edges:
        there = volume(table, u + 1, v + 1)
        back = volume(table, v + 1, u + 1)
        out[(u, v)] = there[0] - (0 if len(back) == 0 else back[0])
    return out


def net_flow_2(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    if table.empty:
        return {}
    out = {}
    for u, v in edges:
        there = volume(table, u + 1, v + 1)
        back = volume(table, v + 1, u + 1)
        out[(u, v)] = (0 if len(there) == 0 else there[0]) - (0 if len(back) == 0 else back[0])
    return out


def net_flow_3(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    out = {}
    for u, v in edges:
        there = volume(table, u + 1, v + 1)
        back = volume(table, v + 1, u + 1)
        out[(u, v)] = there[0] - (0 if len(back) == 0 else back[0])
    return out


def one_way(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    if table.empty:
        return {}
    return {(u, v): volume(table, u + 1, v + 1)[0] for u, v in edges}


def reversed_flow(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    if table.empty:
        return {}
    out = {}
    for u, v in edges:
        there = volume(table, u + 1, v + 1)
        back = volume(table, v + 1, u + 1)
        out[(u, v)] = (0 if len(back) == 0 else back[0]) - there[0]
    return out


def total_flow(name, edges):
    if missing(name):
        return {}
    table = volumes(name)
    if table.empty:
        return {}
    out = {}
    for u, v in edges:
        there = volume(table, u + 1, v + 1)
        back = volume(table, v + 1, u + 1)
        out[(u, v)] = there[0] + (0 if len(back) == 0 else back[0])
    return out


def all_triangles(edges):
    from pytspl.simplicial_complex.scbuilder import SCBuilder
    return SCBuilder(nodes=[], edges=edges).to_simplicial_complex().triangles
