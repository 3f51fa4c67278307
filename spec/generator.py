"""Reference definitions for the random complexes."""
def edges(g):
    return list(g.edges())


def nodes(g):
    return list(g.nodes())


def linked(g):
    return sorted({x for e in g.edges() for x in e})


def linked_2(g):
    return list({x for e in g.edges() for x in e})


def distances(edges, values):
    return {(u, v): {"distance": d} for (u, v), d in zip(edges, values)}


def weights(edges, values):
    return {(u, v): {"weight": d} for (u, v), d in zip(edges, values)}


def reversed_edges(edges, values):
    return {(v, u): {"distance": d} for (u, v), d in zip(edges, values)}
