"""What a Python user of up4 does, one call at a time.  Every call answers
(raised, parts): the name of the exception or None, and named arrays as bytes."""
import json
import sys
import types


class _Anything(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return cls


class _Stub(types.ModuleType):
    """Stand-in for a plotting module: every name is a class that does nothing."""

    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Anything(name, (object,), {"__init__": lambda self, *a, **k: None})


class _Layout:
    """what a figure's layout says; anything else is unset"""

    def __init__(self, said):
        self.__dict__.update(said)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return None


class Figure:
    """Stand-in for a figure of plotly: its traces and its layout."""

    def __init__(self, data=(), layout=None):
        self.data = list(data)
        self.layout = _Layout(layout or {})
        self.written = []

    def plotly_update(self, restyle_data=None, relayout_data=None, trace_indexes=None, **more):
        for t in self.data:
            t.update(restyle_data or {})
        self.layout.__dict__.update(relayout_data or {})

    def update_traces(self, patch=None, **more):
        for t in self.data:
            t.update(patch or {}, **more)
        return self

    def update_layout(self, dict1=None, **more):
        self.layout.__dict__.update(dict1 or {}, **more)
        return self

    def write_image(self, file, format=None, scale=None, width=None, height=None, **more):
        self.written.append((file, scale, width))


def from_json(value, output_type="Figure", skip_invalid=False, engine=None):
    said = json.loads(value)
    return Figure(said["data"], said.get("layout"))


def start(where, site):
    sys.dont_write_bytecode = True
    sys.path.insert(0, where)
    sys.path.append(site)
    import upppp_rust

    # no plotting in the simulation
    for name in ["plotly", "plotly.io", "plotly.graph_objects", "plotly.graph_objs", "plotly.express"]:
        sys.modules[name] = _Stub(name)
    sys.modules["plotly.io"].from_json = from_json
    sys.modules["plotly"].io = sys.modules["plotly.io"]
    for name in ["plotly.graph_objects", "plotly.graph_objs"]:
        sys.modules[name].Figure = Figure
    sys.modules["plotly"].graph_objects = sys.modules["plotly.graph_objects"]
    if not hasattr(upppp_rust, "RustPlotter2D"):
        upppp_rust.RustPlotter2D = type("RustPlotter2D", (object,), {})
    global np, up4
    import numpy as np
    import up4


def flat(x):
    """anything numeric as an array of float64"""
    if isinstance(x, (list, tuple)):
        x = [flat(v) for v in x]
        return np.concatenate(x) if x else np.zeros(0)
    return np.asarray(x, dtype=np.float64).ravel()


def named(**parts):
    return [(k, flat(v)) for k, v in parts.items()]


def text(s):
    return np.frombuffer(s.encode(), dtype=np.uint8).astype(np.float64)


def answer(f):
    try:
        parts = f()
    except BaseException as e:  # a panic of the Rust side is no Exception
        name = type(e).__name__
        del e
        return (name, [])
    return (None, [(k, np.ascontiguousarray(v, dtype=np.float64).tobytes()) for k, v in parts])


def rust_grid(cyl, cells, lim):
    if cyl:
        return up4.Grid.cylindrical3d(cells, lim)
    return up4.Grid.cartesian3d(cells, lim)


def describe(g):
    """a field: its cells, how they are weighed and where they are"""
    data, weights = g.to_numpy(), g.weights_to_numpy()
    same = [
        all(np.array_equal(a, b) for a, b in zip(g.cell_positions(), [g.xpositions(), g.ypositions(), g.zpositions()])),
        list(data.shape) == list(weights.shape) == list(g.shape()),
    ]
    if not all(same):
        raise AssertionError("the grid contradicts itself")
    return named(cells=data, weights=weights) + [("axes", flat([*g.cell_positions(), g.shape()]))]


def look(g, how):
    """layers, averages and places of a field"""
    v = {"collapsed": [], "collapsed twice": [], "layer by index": [], "layer by position": [], "places": []}
    cells = g.shape()
    pick = (lambda x: x[how["component"]]) if isinstance(g.collapse(0), tuple) else (lambda x: x)
    for a in range(3):
        v["collapsed"].append(pick(g.collapse(a)))
        if hasattr(g, "collapse_two"):
            for b in range(3):
                if b != a:
                    v["collapsed twice"].append(g.collapse_two(a, b))
        for i in range(cells[a]):
            v["layer by index"].append(pick(g.slice(a, i)))
        for x in how["layers"][a]:
            v["layer by position"].append(pick(g.slice_pos(a, x)))
    if hasattr(g, "is_inside"):
        for p in how["places"]:
            inside = g.is_inside(p)
            v["places"].append([inside] + (list(g.cell_id(*p)) if inside else [-1, -1, -1]))
    return [(k, flat(x)) for k, x in v.items()]


def colour(c):
    """#rrggbb as a number; another name as -1"""
    return int(c[1:], 16) if isinstance(c, str) and len(c) == 7 and c[0] == "#" else -1


def numbers(v):
    """what JSON says of numbers, null as NaN"""
    return [numbers(x) if isinstance(x, list) else np.nan if x is None else float(x) for x in v]


def scale(stops):
    return [[float(a), colour(c)] for a, c in stops]


def figure(fig):
    """a figure, trace by trace"""
    parts = [("kinds", text(",".join("%s %s" % (t["type"], t.get("mode", "-")) for t in fig.data)))]
    for i, t in enumerate(fig.data):
        z = t.get("z", [])
        parts += [("x %d" % i, flat(numbers(t["x"]))), ("y %d" % i, flat(numbers(t["y"]))), ("z %d" % i, flat(numbers(z)))]
        parts += [("lines %d" % i, flat([len(z)]) if z and isinstance(z[0], list) else flat([]))]
        if "colorscale" in t:
            parts += [("scale %d" % i, flat(scale(t["colorscale"])))]
        if "contours" in t:
            c = t["contours"]
            parts += [("contours %d" % i, flat(numbers([c["start"], c["end"], c["size"]])))]
        m = t.get("marker", {})
        if "colorscale" in m:
            parts += [("scale %d" % i, flat(scale(m["colorscale"])))]
        if "cmin" in m:
            parts += [("range %d" % i, flat(numbers([m["cmin"], m["cmax"]])))]
    parts += [("fill", flat([colour(t.get("fillcolor")) for t in fig.data]))]
    parts += [("opacity", flat([t.get("opacity", 1.0) for t in fig.data]))]
    said = [fig.layout.width, fig.layout.height]
    parts += [("layout", flat([-1.0 if v is None else v for v in said]))]
    return parts


def seen(g, axis, what):
    """a field and what is left of it when an axis is averaged away"""
    vector = isinstance(g.collapse(0), tuple)
    parts = []
    for name, v in [(what, g.to_numpy()), (what + " averaged", g.collapse(axis) if axis in [0, 1, 2] else None)]:
        if v is not None:
            parts += [("%s %d" % (name, i), flat(v[i] if vector else v)) for i in range(3 if vector else 1)]
    return parts + [(what + " axes", flat([*g.cell_positions(), g.shape()]))]


def opened(file, how):
    return [up4.Data, up4.Data.from_tdata, up4.Data.from_pdata][how](file)


def sample(g):
    return [x.tobytes() for _, x in describe(g)]


class Session:
    def __init__(self):
        self.data = None
        self.rest = None
        # fields by name, with their plotter and how they were
        self.fields = {}

    def swap(self, kw):
        self.data, self.rest = self.rest, self.data
        return (None, [])

    def open(self, kw):
        self.data = None

        def f():
            self.data = opened(kw["file"], kw["how"])
            return []

        return answer(f)

    def time(self, kw):
        def f():
            self.data.set_time(kw["lo"], kw["hi"])
            return []

        return answer(f)

    def facts(self, kw):
        def f():
            d = self.data
            dim = d.dimensions()
            if str(d) != repr(d):
                raise AssertionError("two descriptions")
            d.stats()
            return named(
                dims=[dim[a + b] for b in ["min", "max"] for a in "xyz"],
                low=d.min_position(),
                high=d.max_position(),
                npart=d.nparticles(),
                length=len(d),
                times=d.time(),
            ) + [("text", text(str(d)))]

        return answer(f)

    def an(self, kw):
        def f():
            d = self.data
            args = list(kw["args"])
            if kw["grid"] is not None:
                g = rust_grid(*kw["grid"])
                if kw["prefill"]:
                    # a field as it came out of another analysis
                    g = d.numberfield(g)
                args.insert(0, g)
                before = sample(g)
            r = getattr(d, kw["method"])(*args, **kw["kwargs"])
            if kw["shape"] == "field":
                parts = describe(r)
            elif kw["shape"] == "field+":
                parts = describe(r[0]) + named(extra=r[1])
                r = r[0]
            elif kw["shape"] == "vector":
                c = r.to_numpy()
                parts = [("component %d" % i, flat(c[i])) for i in range(3)]
                parts += [("axes", flat([*r.cell_positions(), r.shape()]))]
            elif kw["shape"] == "two":
                parts = named(first=r[0], second=r[1])
            elif kw["shape"] == "array":
                parts = named(shape=list(r.shape), rows=r)
            else:
                parts = named(value=r)
            if kw["shape"] in ["field", "field+", "vector"]:
                told = r[0] if isinstance(r, tuple) else r
                if str(told) != repr(told):
                    raise AssertionError("two descriptions")
                parts += [("text", text(str(told)))]
            if kw["views"] is not None:
                parts += look(r, kw["views"])
            if kw["clean"] is not None:
                r.remove_outliers(*kw["clean"])
                parts += [("cleaned", flat(r.to_numpy())), ("cleaned weights", flat(r.weights_to_numpy()))]
            if kw["grid"] is not None and sample(g) != before:
                raise AssertionError("the grid of the call is not as it was")
            return parts

        return answer(f)

    def item(self, kw):
        def f():
            d = self.data
            form = kw["form"]
            if form == "walk":
                v = []
                for i, step in enumerate(d):
                    v.append(step)
                    if i > len(d):
                        break
                return named(count=len(v)) + [("rows %d" % i, flat(x)) for i, x in enumerate(v)]
            i = kw["index"]
            if form == "slice":
                i = slice(*i)
            elif form == "array":
                i = np.asarray(i, dtype=np.int64)
            elif form == "np":
                i = np.int64(i)
            elif form == "tuple":
                i = tuple(i)
            r = d[i]
            return named(shape=list(r.shape), rows=r)

        return answer(f)

    def grid(self, kw):
        def f():
            args = {}
            for k, v in kw["args"].items():
                if isinstance(v, list) and kw["arrays"]:
                    v = np.asarray(v)
                args[k] = v
            if kw["data"]:
                args["data"] = self.data
            g = up4.Grid(**args)
            parts = describe(g)
            if kw["count"]:
                n = self.data.numberfield(g)
                parts += [("counted", flat(n.to_numpy()))]
            return parts

        return answer(f)

    def field(self, kw):
        """make a field and a plotter for it, and keep both"""

        def f():
            if kw["key"] not in self.fields:
                g = rust_grid(*kw["grid"])
                r = getattr(self.data, kw["method"])(g, *kw["args"], **kw["kwargs"])
                if isinstance(r, tuple):
                    r = r[0]
                self.fields[kw["key"]] = r, up4.Plotter2D(r), self.as_is(r)
            return []

        return answer(f)

    def as_is(self, r):
        return [x.tobytes() for _, x in seen(r, 3, "")]

    def plot(self, kw):
        def f():
            r, plotter, before = self.fields[kw["key"]]
            args, kwargs = list(kw["args"]), kw["kwargs"]
            other = None
            if kw["other"] is not None:
                other, _, _ = self.fields[kw["other"]]
                args.insert(0, other)
            axis = kwargs["axis"] if "axis" in kwargs else kw["args"][0]
            if kw["method"] == "plot":
                r.plot(*args, **kwargs)
                parts = []
            elif kw["fresh"]:
                fig = getattr(up4.Plotter2D(r), kw["method"])(*args, **kwargs)
                parts = figure(fig)
            else:
                fig = getattr(plotter, kw["method"])(*args, **kwargs)
                parts = figure(fig)
            if kw["save"] is not None and kw["method"] != "plot":
                up4.save_fig(fig, "figure.png", **kw["save"])
                ((name, scale, width),) = fig.written
                if name != "figure.png":
                    raise AssertionError("another file")
                parts += [("saved", flat([scale, width or fig.layout.width or 700]))]
            parts += seen(r, axis, "field")
            if other is not None:
                parts += seen(other, axis, "other")
            if self.as_is(r) != before:
                raise AssertionError("the field is not as it was")
            return parts

        return answer(f)

    def shown(self, kw):
        return answer(lambda: figure(from_json(kw["json"])))


def convert(kw):
    def f():
        getattr(up4.Converter, kw["method"])(*kw["args"], **kw["kwargs"])
        return []

    return answer(f)
