import inspect, math, random
from decimal import Decimal
from lib import Bad, need
import cases as C
from cases import case, Voronoi, Polygon, T, diagram_input, Message, Recorder, CircleEvent, Vertex


def snapshot(v):
    H = [h for e in v.edges for h in (e, e.twin)]
    return ([id(e) for e in v.edges], [(id(h.origin), id(h.next), id(h.prev), id(h.twin), id(h.incident_point)) for h in H],
            sorted(id(x) for x in v._vertices), [(x.xd, x.yd, tuple(map(id, x.connected_edges))) for x in sorted(v._vertices, key=id)],
            [(s.xd, s.yd, s.name, id(s.first_edge)) for s in v.sites], sorted(id(a) for a in v._arcs), str(v.sweep_line), id(v.event), id(v.status_tree),
            [(p.xd, p.yd) for p in getattr(v.bounding_poly, 'points', [])], v.event_queue.qsize())


FLAGS = dict(sweep_line='plot_sweep_line', polygon='plot_polygon', edges='plot_edges', border_to_site='plot_border_to_site', vertices='plot_vertices',
             sites='plot_sites', outgoing_edges='plot_outgoing_edges', events='plot_event', beach_line='plot_arcs')
OPTS = dict(edge_labels=('plot_edges', 'show_labels'), site_labels=('plot_sites', 'show_labels'), scale=('plot_outgoing_edges', 'scale'),
            triangles=('plot_event', 'triangles'), arcs=('plot_arcs', 'plot_arcs'), arc_labels=('plot_arcs', 'show_labels'))


def gen_flags(rng, tier):
    fl = {k: rng.random() < .5 for k in FLAGS if rng.random() < .8}
    op = {k: (rng.random() < .5) for k in OPTS if k != 'scale' and rng.random() < .7}
    if rng.random() < .5:
        op['scale'] = rng.choice([0.25, 2, 3.5])
    return dict(flags=fl, opts=op)


_shared = {}


def shared():
    if 'v' not in _shared:
        v = Voronoi(Polygon([(0, 10), (10, 10), (10, 0), (0, 0)]))
        v.create_diagram([(2, 3), (7, 4), (5, 8)])
        _shared['v'] = v
    return _shared['v']


@case('C17', 'dispatch', gen_flags, 400, 4000, 'random flags and options of plot_all: the layer methods called and the options they get', functions=('Visualizer.plot_all',), seconds=60)
def c17_dispatch(data):
    from foronoi.visualization import Visualizer
    import matplotlib.pyplot as plt
    vis = Visualizer(shared(), 1)
    calls = []

    def mk(name):
        f = getattr(Visualizer, name)
        sig = inspect.signature(f)

        def rec(*a, **kw):
            b = sig.bind(vis, *a, **kw)
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop('self')
            calls.append((name, d))
            return vis
        return rec
    for m in set(FLAGS.values()):
        setattr(vis, m, mk(m))
    r = vis.plot_all(**data['flags'], **data['opts'])
    plt.close('all')
    need(r is vis, "plot_all does not return the visualizer")
    defaults = dict(polygon=False, edges=True, vertices=True, sites=True, outgoing_edges=False, border_to_site=False, sweep_line=False, events=False, beach_line=False)
    odef = dict(edge_labels=False, site_labels=False, scale=1, triangles=False, arcs=False, arc_labels=False)
    fl = dict(defaults, **data['flags'])
    op = dict(odef, **data['opts'])
    want = sorted(FLAGS[k] for k in fl if fl[k])
    need(sorted(c[0] for c in calls) == want, f"layers drawn: {sorted(c[0] for c in calls)}, asked for: {want}")
    for name, d in calls:
        for o, (m, p) in OPTS.items():
            if m == name:
                need(d[p] == op[o], f"{name} gets {p}={d[p]}, asked for {o}={op[o]}")
        for k, x in d.items():
            if (name, k) not in OPTS.values() and k in ('vertices', 'points', 'edges', 'arcs', 'sweep_line', 'event'):
                need(x is None, f"plot_all passes {k}={x} to {name}")


def gen_layers(rng, tier):
    d = diagram_input(rng, tier, 6)
    d.update(stop=rng.random(), seed=rng.randint(0, 9999), scale=rng.choice([0.5, 2]))
    return d


class Stop(Exception):
    pass


def canon(pts):
    return sorted((round(float(x), 6), round(float(y), 6)) for x, y in pts)


@case('C17', 'layers', gen_layers, 80, 1200, 'every layer drawn on finished diagrams and on diagrams under construction; the artists against the diagram; the diagram unchanged',
      functions=('Visualizer.plot_vertices', 'Visualizer.plot_sites', 'Visualizer.plot_edges', 'Visualizer.plot_polygon', 'Visualizer.plot_sweep_line', 'Visualizer.plot_event', 'Visualizer.plot_border_to_site', 'Visualizer.plot_outgoing_edges', 'Visualizer.plot_arcs'), seconds=120)
def c17_layers(data):
    from foronoi.visualization import Visualizer
    import matplotlib.pyplot as plt
    n = [0]
    v = Voronoi(Polygon(T(data['poly'])))
    limit = int(data['stop'] * 3 * len(data['pts']))
    done = [False]
    partial = []

    def step(s, m, **kw):
        if m == Message.STEP_FINISHED:
            n[0] += 1
            if n[0] == limit + 1 and data['stop'] < .8:
                partial.append(1)
                draw_all(s, data)
    v.attach_observer(Recorder(step))
    v.create_diagram(T(data['pts']))
    draw_all(v, data)
    plt.close('all')


def fresh(v):
    from foronoi.visualization import Visualizer
    return Visualizer(v, 1)


def lines(vis):
    return [list(zip([float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()])) for l in vis.canvas.lines]


def offsets(vis):
    out = []
    for c in vis.canvas.collections:
        out += [tuple(map(float, o)) for o in c.get_offsets()]
    return out


def same_pts(a, b, what):
    need(len(a) == len(b), f"{what}: {len(a)} items drawn, expected {len(b)}")
    ca, cb = canon(a), canon(b)
    need(all(abs(p[0] - q[0]) < 2e-6 * max(1, abs(q[0])) and abs(p[1] - q[1]) < 2e-6 * max(1, abs(q[1])) for p, q in zip(ca, cb)), f"{what}: drawn at {ca[:4]}, expected {cb[:4]}")


def same_lines(a, b, what):
    need(len(a) == len(b), f"{what}: {len(a)} lines drawn, expected {len(b)}")
    f = lambda L: sorted(tuple(round(float(c), 5) for p in l for c in p) for l in L)
    for p, q in zip(f(a), f(b)):
        need(all(abs(x - y) <= 3e-5 * max(1, abs(y)) for x, y in zip(p, q)), f"{what}: line {p}, expected {q}")


def ends(v, h, sl, top):
    a = h.get_origin(sl, top)
    b = h.twin.get_origin(sl, top)
    if a is None or b is None:
        return None
    return (float(a.xd), float(a.yd)), (float(b.xd), float(b.yd))


def draw_all(v, data):
    import matplotlib.pyplot as plt
    from matplotlib import patches
    rng = random.Random(data['seed'])
    before = snapshot(v)
    bp = v.bounding_poly
    off = 1
    # limits
    vis = fresh(v)
    need((vis.min_x, vis.max_x, vis.min_y, vis.max_y) == (bp.min_x - off, bp.max_x + off, bp.min_y - off, bp.max_y + off), "the canvas is not the polygon's extents plus the offset")
    fig = vis.get_canvas()
    need(tuple(map(float, vis.canvas.get_xlim())) == (float(vis.min_x), float(vis.max_x)) and tuple(map(float, vis.canvas.get_ylim())) == (float(vis.min_y), float(vis.max_y)), "canvas limits are wrong")
    # vertices
    vis = fresh(v)
    vis.plot_vertices()
    same_pts(offsets(vis), [x.xy for x in v.vertices], 'vertices')
    pick = rng.sample(v.vertices, min(2, len(v.vertices)))
    vis = fresh(v)
    vis.plot_vertices(pick)
    same_pts(offsets(vis), [x.xy for x in pick], 'given vertices')
    # sites
    vis = fresh(v)
    vis.plot_sites()
    same_pts(offsets(vis), [s.xy for s in v.sites], 'sites')
    need(sorted(t.get_text() for t in vis.canvas.texts) == sorted(f"P{s.name if s.name is not None else ''}" for s in v.sites), "site labels are wrong")
    for t in vis.canvas.texts:
        s = [s for s in v.sites if t.get_text() == f"P{s.name}"]
        if len(s) == 1:
            need(math.dist(tuple(map(float, t.get_position())), s[0].xy) < 1e-9, "a site label is not at its site")
    vis = fresh(v)
    pick = rng.sample(v.sites, min(2, len(v.sites)))
    vis.plot_sites(pick, show_labels=False)
    same_pts(offsets(vis), [s.xy for s in pick], 'given sites')
    need(not vis.canvas.texts, "site labels although not asked for")
    # edges
    for sl, given in ((None, None), (Decimal(str(float(bp.min_y) - 3)), None), (None, 2)):
        ed = v.edges if given is None else v.edges[:given]
        pos = sl if sl is not None else v.sweep_line
        want = []
        for e in ed:
            for h in (e, e.twin):
                w = ends(v, h, pos, vis.max_y)
                if w is not None and all(math.isfinite(c) for p in w for c in p):
                    want.append(list(w))
        vis = fresh(v)
        vis.plot_edges(edges=None if given is None else ed, sweep_line=sl, show_labels=False)
        got = [l for l in lines(vis) if all(math.isfinite(c) for p in l for c in p)]
        same_lines(got, want, 'edges')
        need(not vis.canvas.texts, "edge labels although not asked for")
        # border to site
        vis = fresh(v)
        vis.plot_border_to_site(edges=None if given is None else ed, sweep_line=sl)
        want = []
        for e in ed:
            for h in (e, e.twin):
                w = ends(v, h, pos, vis.max_y)
                if w is not None and h.incident_point is not None and all(math.isfinite(c) for p in w for c in p):
                    want.append([((w[0][0] + w[1][0]) / 2, (w[0][1] + w[1][1]) / 2), h.incident_point.xy])
        got = [l for l in lines(vis) if all(math.isfinite(c) for p in l for c in p)]
        same_lines(got, want, 'border to site')
    # labels
    vis = fresh(v)
    vis.plot_edges()
    want = sorted(str(e) for e in v.edges if ends(v, e, v.sweep_line, vis.max_y) is not None)
    need(sorted(t.get_text() for t in vis.canvas.texts) == want, "edge labels are not one per edge")
    # polygon
    vis = fresh(v)
    vis.plot_polygon()
    ps = vis.canvas.patches
    need(len(ps) == 1, "the polygon layer is not one patch")
    xy = [tuple(map(float, p)) for p in ps[0].get_xy()]
    if xy[0] == xy[-1]:
        xy = xy[:-1]
    need(xy == [p.xy for p in bp.points], "the polygon layer is not the bounding polygon")
    # sweep line
    for sl in (None, Decimal(0), Decimal('2.5')):
        vis = fresh(v)
        vis.plot_sweep_line(sl)
        y = float(sl if sl is not None else v.sweep_line)
        if math.isfinite(y):
            same_lines(lines(vis), [[(float(vis.min_x), y), (float(vis.max_x), y)]], 'sweep line')
    # event
    ev = v.event
    for e, tri in ((None, False), (None, True), (ev, True)):
        vis = fresh(v)
        vis.plot_event(e, triangles=tri) if e is not None else vis.plot_event(triangles=tri)
        circles = [a for a in vis.canvas.patches + list(vis.canvas.artists) if isinstance(a, patches.Circle)]
        tris = [a for a in vis.canvas.patches + list(vis.canvas.artists) if isinstance(a, patches.Polygon)]
        if isinstance(ev, CircleEvent):
            need(len(circles) == 1 and math.dist(tuple(map(float, circles[0].center)), ev.center.xy) < 1e-6 * max(1, abs(ev.center.x), abs(ev.center.y)) and abs(float(circles[0].width) / 2 - float(ev.radius)) < 1e-6 * max(1, float(ev.radius)), "the event's circle is not drawn")
            need(len(tris) == (1 if tri else 0), "the triangle is drawn although not asked for, or missing")
            if tri:
                t = [tuple(map(float, p)) for p in tris[0].get_xy()][:3]
                need(canon(t) == canon([p.xy for p in ev.point_triple]), "the triangle's corners are not the event's sites")
            same_pts(offsets(vis), [p.xy for p in ev.point_triple], "event's sites")
        else:
            need(not circles and not tris, "a site event is drawn as a circle")
    # outgoing edges
    k = data['scale']
    vis = fresh(v)
    vis.plot_outgoing_edges(scale=k)
    want = []
    for x in v.vertices:
        for e in x.connected_edges:
            a, b = e.get_origin(None, vis.max_y), e.twin.get_origin(None, vis.max_y)
            if a is None or b is None:
                continue
            L = math.dist(a.xy, b.xy)
            if L > 0:
                want.append([a.xy, (a.x + (b.x - a.x) / L * k, a.y + (b.y - a.y) / L * k)])
    got = [[tuple(map(float, t.xyann)), tuple(map(float, t.xy))] for t in vis.canvas.texts]
    same_lines(got, want, 'outgoing edges')
    # arcs
    sl = v.sweep_line
    if math.isfinite(float(sl)) and v._arcs:
        import numpy as np
        vis = fresh(v)
        vis.plot_arcs(plot_arcs=True)
        xs = np.linspace(float(vis.min_x), float(vis.max_x), 1000)
        hs = [(a, a.get_plot(xs, sl)) for a in v.arcs]
        drawn = [l for l in vis.canvas.lines if len(l.get_xdata()) == 1000]
        ys = [h for a, h in hs if h is not None]
        need(len(drawn) == len(ys) + (1 if ys else 0), "arcs: not one line per arc and one beach line")
        if ys:
            bottom = np.min(ys, axis=0)
            need(any(np.allclose(l.get_ydata(), bottom) for l in drawn), "the beach line is not the bottom of the arcs")
            for h in ys:
                need(any(np.allclose(l.get_ydata(), h) for l in drawn), "an arc is not drawn")
            for t in vis.canvas.texts:
                x, y = map(float, t.get_position())
                if not (math.isfinite(x) and math.isfinite(y)):
                    continue
                k = [a for a, h in hs if h is not None and str(a.origin.name) == t.get_text()]
                need(k and any(abs(float(a.get_plot(x, sl)) - y) <= 1e-6 * max(1, abs(y)) for a in k), "an arc label is not on its arc")
        vis = fresh(v)
        vis.plot_arcs(plot_arcs=False, show_labels=False)
        need(len([l for l in vis.canvas.lines if len(l.get_xdata()) == 1000]) == (1 if ys else 0) and not vis.canvas.texts, "arcs or labels although not asked for")
    vis = fresh(v)
    vis.plot_all(polygon=True, outgoing_edges=True, border_to_site=True, edge_labels=True, site_labels=True, sweep_line=math.isfinite(float(sl)), events=True, triangles=True)
    plt.close('all')
    need(snapshot(v) == before, "drawing changed the diagram")


@case('C17', 'circle outline', lambda r, t: dict(c=(r.randint(-9, 9), r.randint(-9, 9), r.randint(1, 5))), 24, 200, 'the polygon layer of a bounding circle', functions=('Visualizer.plot_polygon',))
def c17_circle(data):
    from foronoi.visualization import Visualizer
    from foronoi.contrib import BoundingCircle
    from matplotlib import patches
    import matplotlib.pyplot as plt
    x, y, r = data['c']
    v = Voronoi(BoundingCircle(x, y, r))
    vis = Visualizer(v, 1)
    vis.plot_polygon()
    ps = vis.canvas.patches
    need(len(ps) == 1 and isinstance(ps[0], patches.Circle), "a bounding circle is not drawn as a circle")
    need(tuple(map(float, ps[0].center)) == (x, y) and float(ps[0].width) / 2 == r, f"the circle is drawn at {ps[0].center}")
    plt.close('all')


@case('C17', 'observer', C.gen_vis, 16, 200, 'VoronoiObserver with random settings: one drawing per requested message with preset and own settings', functions=('VoronoiObserver.update',), seconds=120)
def c17_observer(data):
    C.vis_observer(data)
