"""Per property: level, what decides it, what stays bounded or assumed (printed into the evidence)."""
COMMON = dict(
    trusted=["z3 5.3.2, cvc5, and sympy's polynomial arithmetic (back ends of the proofs)",
             "pyvc: the translation of the Python functions of /repo/foronoi into verification conditions (its own symbolic executor; every run re-reads the sources)",
             "the Python, decimal, queue, numpy and matplotlib semantics built into pyvc (pyvc/builtin.py)"],
    assumptions=["machine arithmetic is treated as exact: Decimal and float operations are real-number operations (rounding is property C20, not claimed)",
                 "field types of the classes as given in contracts/base.py SCHEMA"])
M = "contracts of the functions behind the property are proved by deduction from /repo's source on every run; clauses listed as bounded are executed on generated inputs against an independent oracle and are not counted as proved"


def p(level, bounded=(), assumptions=(), trusted=(), explanation=M):
    return dict(level=level, bounded=list(bounded), assumptions=list(assumptions), trusted=list(trusted), explanation=explanation)


SWEEP = ("Polygon.finish_edges, Polygon.finish_polygon and Algorithm.clean_up_zero_length_edges enter the proof of create_diagram as assumed frames (which fields they may change); their results are covered by the bounded clauses",
         "Observer.update (foreign code) is assumed not to change the diagram; Node.get_key is assumed to be a function of node and sweep position",
         "partial correctness: the loops are not proved to end")

META = {
    "C01": p("other", ["the composition of the proved steps into 'the cells are the Voronoi cells': whole constructions are executed and compared with an exact rational half-plane oracle"], SWEEP),
    "C02": p("other", ["global structure (twins, next/prev, closed border walks) of a finished diagram"], SWEEP),
    "C03": p("other", ["every vertex of a finished diagram is equidistant from its sites and has no nearer site (the vertex made by handle_circle_event is proved to be the centre of the event's circle)"], SWEEP),
    "C04": p("other", ["every edge and vertex of a finished diagram: inside, on the boundary where clipped, nothing lost (Polygon.finish_edges, _finish_edge and finish_polygon are executed, not proved)"]),
    "C05": p("other", ["trees built by random operations and the status tree after each event, as a second look at what is proved: links, heights and balance are invariants of create_diagram's loop; left-to-right order of breakpoints by position is bounded only"], SWEEP),
    "C06": p("other", ["the arc reached is geometrically the one above the site; get_leaves"]),
    "C07": p("other", ["order and names over whole constructions, as a second look; that equal events cannot be told apart in PriorityQueue.get is assumed"], SWEEP),
    "C08": p("other", ["queue contents over whole constructions: 'exactly when' over the history of a construction (creation, sharing and the false alarms of the split arc and of a removed arc's neighbours are proved step by step)"], SWEEP),
    "C09": p("other", ["messages of BoundingCircle and user-defined subjects; sequence of whole constructions as a second look"], SWEEP),
    "C10": p("other", ["repeated, reused and observed constructions; observer settings"], SWEEP),
    "C11": p("proof", [], ["float(), str() and Decimal() are uninterpreted functions: the proof shows which of them is applied to which value, not that they convert correctly"]),
    "C12": p("other", ["independence of the area from start and direction over random rings (the shoelace sum itself is proved)"]),
    "C13": p("other", ["clean_up_zero_length_edges over whole constructions with clusters of co-circular sites"]),
    "C14": p("other", ["inside against membership of convex polygons; clockwise order around the mean over random corner lists"]),
    "C15": p("other", ["BoundingCircle.finish_edges, trim_edge and cut_line over whole constructions in a circle (inside, get_line, on_line and cut_circle, the points where a line meets the circle, are proved)"]),
    "C16": p("proof", [], []),
    "C17": p("other", ["what edges, borders, arcs, circle events, outgoing edges and the polygon look like: matplotlib artists of random diagrams"],
             ["plot_edges, plot_border_to_site, plot_outgoing_edges, plot_event, plot_arcs and plot_polygon enter the proof of plot_all as drawing methods that change nothing else (assumed); calls of matplotlib's axes are recorded, their effect is assumed to be outside the diagram"]),
    "C18": p("other", ["random histories of inserts, deletes and look-ups as a second look at the proved operations"]),
}
NOT_APPLICABLE = {
    "C19": "an asymptotic bound on running time: the contracts speak about values and have no cost model (steps of Decimal, queue and set operations would have to be assumed), so no contract within reach can express it",
    "C20": "the claim is about accumulated rounding of 28-digit decimals and doubles on nearly degenerate inputs; the verifier treats machine arithmetic as exact and no back end here bounds these mixed decimal/double computations",
}
TECH = "contract-based deductive verification of the real Python functions (weakest-precondition style symbolic execution, z3/cvc5/sympy)"
