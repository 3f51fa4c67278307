"""Reference definitions for the builder and the enumeration queries."""
import networkx as nx


def cliques(edges):
    g = nx.Graph()
    g.add_edges_from(edges)
    return [sorted(c) for c in nx.enumerate_all_cliques(g) if len(c) == 3]


def value(features, u, v, name):
    if (u, v) in features:
        return features[(u, v)][name]
    return features[(v, u)][name]


def near(edges, features, name, limit):
    out = []
    for a, b, c in cliques(edges):
        ab, ac, bc = value(features, a, b, name), value(features, a, c, name), value(features, b, c, name)
        if ab is not None and ac is not None and bc is not None:
            if ab < limit and ac < limit and bc < limit:
                out.append([a, b, c])
    return out


def near_tuples(edges, features, name, limit):
    return [(a, b, c) for a, b, c in near(edges, features, name, limit)]


def count(things):
    return len(things)


def shape(nodes, edges, triangles):
    return (len(nodes), len(edges), len(triangles))


def simplices(nodes, edges, triangles):
    return [(n,) for n in nodes] + edges + triangles


def max_dim(nodes, edges, triangles):
    return max(len(s) for s in simplices(nodes, edges, triangles)) - 1


def feature_names(features):
    if len(features) == 0:
        return []
    return list(list(features.values())[0].keys())


def feature(features, name):
    return {edge: values[name] for edge, values in features.items()}


def has_feature(features, name):
    return all(name in values for values in features.values())
