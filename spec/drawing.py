"""What is drawn where."""
import networkx as nx


def marker_x(nodes, pos):
    return [pos[n][0] for n in nodes]


def marker_y(nodes, pos):
    return [pos[n][1] for n in nodes]


def node_labels(nodes, pos):
    return [(pos[n][0], pos[n][1], n) for n in nodes]


def swapped_labels(nodes, pos):
    return [(pos[n][1], pos[n][0], n) for n in nodes]


def lowest(values):
    return min(values) - abs(min(values)) * 0.5


def lower_without_size(values):
    return min(values) - min(values) * 0.5


def lowest_plain(values):
    return min(values)


def highest(values):
    return max(values)


def pairs(edges, flow):
    return {e: f for e, f in zip(edges, flow)}


def colours(drawn, edge_flow):
    return [edge_flow[e] for e in drawn]


def colours_by_position(drawn, edges, colours):
    return [colours[edges.index(e)] for e in drawn]


def as_listed(edge_flow):
    return list(edge_flow.values())


def keys(d):
    return list(d.keys())


def values(d):
    return list(d.values())


def corners(triangles, pos):
    return [[[pos[t[0]][0], pos[t[0]][1]], [pos[t[1]][0], pos[t[1]][1]], [pos[t[2]][0], pos[t[2]][1]]] for t in triangles]


def corner_tuples(triangles, pos):
    return [[pos[t[0]], pos[t[1]], pos[t[2]]] for t in triangles]


def label_values(edge_labels):
    return [edge_labels[e] for e in edge_labels.keys()]


def column(U, i):
    return U[:, i]


def rounded(v):
    import numpy as np
    return np.round(v, 2)


def labelled(edges, flow):
    d = dict(zip(edges, flow))
    return [d[e] for e in d]


def least_x(pos):
    return min([p[0] for p in pos.values()])


def most_x(pos):
    return max([p[0] for p in pos.values()])


def least_y(pos):
    return min([p[1] for p in pos.values()])


def most_y(pos):
    return max([p[1] for p in pos.values()])


def highest_more(values):
    return max(values) + abs(max(values)) * 0.5


def row(U, i):
    return U[i, :]


def middles(edges, pos, i):
    """Coordinate i of the middle of every edge."""
    return [(pos[e[0]][i] + pos[e[1]][i]) / 2 for e in edges]
