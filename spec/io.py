"""Reference definitions for the readers."""
import os

import networkx as nx
import numpy as np
import pandas as pd


# ------------------------------------------------------------- networks
def tntp(filename, delimiter, skip_rows):
    df = pd.read_csv(filename, skiprows=skip_rows, sep=delimiter)
    df.columns = [s.strip() for s in df.columns]
    return df.drop(columns=["~", ";"])


def csv(filename, delimiter):
    return pd.read_csv(filename, sep=delimiter)


def pairs(df, src, dst, offset):
    return [(int(a) - offset, int(b) - offset) for a, b in zip(df[src], df[dst])]


def edges(df, src, dst, offset):
    out = []
    for a, b in zip(df[src], df[dst]):
        u = int(a) - offset
        v = int(b) - offset
        if (u, v) in out or (v, u) in out:
            continue
        out.append((u, v))
    return sorted(out)


def nodes(df, src, dst, offset):
    ends = set()
    for a, b in zip(df[src], df[dst]):
        ends.add(int(a) - offset)
        ends.add(int(b) - offset)
    return list(range(0, max(ends) + 1))


def only_ends(df, src, dst, offset):
    ends = set()
    for a, b in zip(df[src], df[dst]):
        ends.add(int(a) - offset)
        ends.add(int(b) - offset)
    return sorted(ends)


def number_of_ends(df, src, dst, offset):
    return list(range(len(set(only_ends(df, src, dst, offset)))))


def unsorted_edges(df, src, dst, offset):
    out = []
    for a, b in zip(df[src], df[dst]):
        u = int(a) - offset
        v = int(b) - offset
        if (u, v) in out or (v, u) in out:
            continue
        out.append((u, v))
    return out


def edges_by_source(df, src, dst, offset):
    return sorted(unsorted_edges(df, src, dst, offset), key=lambda e: e[0])


def smaller_first(df, src, dst, offset):
    out = set()
    for a, b in zip(df[src], df[dst]):
        out.add(tuple(sorted((int(a) - offset, int(b) - offset))))
    return sorted(out)


def smaller_first_2(df, src, dst, offset):
    out = set()
    for a, b in zip(df[src], df[dst]):
        u = int(a) - offset
        v = int(b) - offset
        out.add((min(u, v), max(u, v)))
    return sorted(out)


def both_directions(df, src, dst, offset):
    return sorted(set(pairs(df, src, dst, offset)))


def features(df, src, dst, offset, columns):
    if len(columns) == 0:
        return {}
    where = {}
    for i, (a, b) in enumerate(zip(df[src], df[dst])):
        where.setdefault((int(a) - offset, int(b) - offset), i)
    return {edge: {c: df.iloc[where[edge]][c] for c in columns} for edge in edges(df, src, dst, offset)}


def features_by_position(df, src, dst, offset, columns):
    if len(columns) == 0:
        return {}
    return {edge: {c: df.iloc[i][c] for c in columns} for i, edge in enumerate(edges(df, src, dst, offset))}


def features_of_last_row(df, src, dst, offset, columns):
    if len(columns) == 0:
        return {}
    where = {}
    for i, (a, b) in enumerate(zip(df[src], df[dst])):
        where[(int(a) - offset, int(b) - offset)] = i
    return {edge: {c: df.iloc[where[edge]][c] for c in columns} for edge in edges(df, src, dst, offset)}


def features_of_last_row_2(df, src, dst, offset, columns):
    if len(columns) == 0:
        return {}
    rows = {}
    for i, (a, b) in enumerate(zip(df[src], df[dst])):
        rows[(int(a) - offset, int(b) - offset)] = {c: df.iloc[i][c] for c in columns}
    return {edge: rows[edge] for edge in edges(df, src, dst, offset)}


def other_columns(df, src, dst):
    return [c for c in df.columns if c not in [src, dst]]


# ------------------------------------------------------------ incidence
def incidence(filename):
    return pd.read_csv(filename, header=None).to_numpy()


def columns_to_edges(filename):
    B1 = incidence(filename)
    return [(np.where(B1[:, j] == -1)[0][0], np.where(B1[:, j] == 1)[0][0]) for j in range(B1.shape[1])]


def incidence_edges(filename):
    return sorted(columns_to_edges(filename))


def incidence_nodes(filename):
    ends = set()
    for u, v in columns_to_edges(filename):
        ends.add(u)
        ends.add(v)
    return list(range(max(ends) + 1))


def incidence_triangles(filename, B2_filename):
    edges = np.asarray(columns_to_edges(filename))
    B2 = incidence(B2_filename).T
    return [tuple(sorted(tuple(set(edges[np.where(B2[:, j] != 0)[0]].flatten())))) for j in range(B2.shape[1])]


def triangles_of_sorted_edges(filename, B2_filename):
    edges = np.asarray(incidence_edges(filename))
    B2 = incidence(B2_filename).T
    return [tuple(sorted(tuple(set(edges[np.where(B2[:, j] != 0)[0]].flatten())))) for j in range(B2.shape[1])]


# ---------------------------------------------------------- coordinates
def coordinates(filename, node, x, y, delimiter, offset):
    if not os.path.exists(filename):
        return None
    df = pd.read_csv(filename, sep=delimiter)
    df.columns = [s.strip() for s in df.columns]
    return {n - offset: (a, b) for n, a, b in zip(df[node], df[x], df[y])}


def flow(filename, sep, header):
    if os.path.exists(filename):
        return pd.read_csv(filename, sep=sep, header=header)
    return pd.DataFrame()
