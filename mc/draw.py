"""Reads back what a renderer put into its scene: labels, line segments, faces, arrow heads."""
import importlib

import numpy as np

from . import ops


class Drawing:
    """labels [(text, position)], segs [(end, end)], faces [(points, values or None)], blobs [points of one connected surface]"""
    def __init__(self):
        self.labels, self.segs, self.faces, self.blobs = [], [], [], []

    def key(self, digits=5):
        """everything drawn, whatever the order"""
        def r(p):
            return tuple((np.round(np.asarray(p, float), digits) + 0.0).tolist())
        return (sorted((t, r(p)) for t, p in self.labels), sorted(tuple(sorted((r(a), r(b)))) for a, b in self.segs),
                sorted((tuple(r(p) for p in f), () if v is None else tuple(float('%.5g' % x) + 0.0 for x in v)) for f, v in self.faces))

    def minus(self, other, digits=5):
        """what is here and not in another drawing (as multisets)"""
        out = Drawing()

        def rest(mine, theirs, key):
            count = {}
            for x in theirs:
                count[key(x)] = count.get(key(x), 0) + 1
            keep = []
            for x in mine:
                k = key(x)
                if count.get(k):
                    count[k] -= 1
                else:
                    keep.append(x)
            return keep

        def r(p):
            return tuple((np.round(np.asarray(p, float), digits) + 0.0).tolist())
        out.labels = rest(self.labels, other.labels, lambda x: (x[0], r(x[1])))
        out.segs = rest(self.segs, other.segs, lambda x: tuple(sorted((r(x[0]), r(x[1])))))
        out.faces = rest(self.faces, other.faces, lambda x: tuple(sorted(r(p) for p in x[0])))
        out.blobs = rest(self.blobs, other.blobs, lambda x: tuple(sorted(r(p) for p in x)))
        return out


def polydata(d, pd):
    n = pd.GetNumberOfPoints()
    P = np.array([pd.GetPoint(i) for i in range(n)]) if n else np.zeros((0, 3))
    sc = pd.GetPointData().GetScalars()
    if sc is None and pd.GetPointData().GetArray('Contours') is not None:
        sc = pd.GetPointData().GetArray('Contours')
    if sc is not None and (sc.GetNumberOfComponents() != 1 or sc.GetNumberOfTuples() != n):
        sc = None
    parent = list(range(n))

    def root(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    used = set()
    for k in range(pd.GetNumberOfCells()):
        c = pd.GetCell(k)
        ids = [c.GetPointId(i) for i in range(c.GetNumberOfPoints())]
        dim = c.GetCellDimension()
        if dim == 1:
            d.segs += [(P[a], P[b]) for a, b in zip(ids, ids[1:])]
        elif dim == 2:
            d.faces.append(([P[i] for i in ids], None if sc is None else [sc.GetTuple1(i) for i in ids]))
            used.update(ids)
            for i in ids[1:]:
                parent[root(i)] = root(ids[0])
    groups = {}
    for i in used:
        groups.setdefault(root(i), []).append(i)
    for g in groups.values():
        d.blobs.append(unique(P[g]))


def unique(pts):
    P = np.asarray(pts, float)
    out = np.empty((0, 3))
    while len(P):
        p = P[0]
        out = np.vstack([out, p])
        P = P[np.any(np.abs(P - p) > 1e-7 + 1e-6*np.abs(p), axis=1)]
    return list(out)


def cone(pts, tol=2e-3):
    """(apex, unit direction, height, radius) of a cone given by its corners, else None"""
    if len(pts) < 4:
        return None
    size = max(np.linalg.norm(p - pts[0]) for p in pts)
    if size < 1e-9:
        return None
    for i, a in enumerate(pts):
        rest = np.array([p for j, p in enumerate(pts) if j != i])
        c = rest.mean(axis=0)
        h = np.linalg.norm(a - c)
        if h < 1e-3*size:
            continue
        u = (a - c)/h
        rad = np.linalg.norm(rest - c, axis=1)
        if np.ptp(rad) < tol*size and np.max(np.abs((rest - c) @ u)) < tol*size:
            # three corners are no cone: a tetrahedron has four candidates
            return a, u, h, float(rad.mean())
    return None


def box(pts, tol=2e-3):
    """centre of a box given by its eight corners, else None"""
    if len(pts) != 8:
        return None
    P = np.array(pts)
    lo, hi = P.min(axis=0), P.max(axis=0)
    size = np.max(hi - lo)
    if all(np.all((np.abs(p - lo) < tol*size) | (np.abs(p - hi) < tol*size)) for p in P):
        return (lo + hi)/2
    return None


def hush():
    import vtk
    vtk.vtkObject.GlobalWarningDisplayOff()
    vtk.vtkLogger.SetStderrVerbosity(vtk.vtkLogger.VERBOSITY_OFF)


class PyVista:
    name = 'Rendering'

    def __init__(self, m):
        hush()
        self.mod = importlib.import_module('PyNite.Rendering')
        with ops.quiet():
            self.r = self.mod.Renderer(m)

    def set(self, **kw):
        for k, v in kw.items():
            setattr(self.r, {'labels': 'show_labels'}.get(k, k), v)

    def get(self, k):
        return getattr(self.r, {'labels': 'show_labels'}.get(k, k))

    def draw(self):
        with ops.quiet():
            self.r.update()
        d = Drawing()
        for a in list(self.r.plotter.renderer.actors.values()):
            m = a.GetMapper()
            if m is None:
                continue
            if m.GetClassName() in ('vtkLabelPlacementMapper', 'vtkLabeledDataMapper'):
                x = m.GetInputAlgorithm()
                while x.GetNumberOfInputPorts() and x.GetNumberOfInputConnections(0):
                    x = x.GetInputAlgorithm()         # labels in front of the camera are picked on the way
                x.Update()
                src = x.GetOutputDataObject(0)
                arr = src.GetPointData().GetAbstractArray('labels')
                for i in range(src.GetNumberOfPoints()):
                    d.labels.append((str(arr.GetValue(i)) if arr is not None else '', np.array(src.GetPoint(i))))
            else:
                m.Update()
                pd = m.GetInput()
                if pd is not None and pd.IsA('vtkPolyData') and not (pd.GetNumberOfCells() == pd.GetNumberOfVerts()):
                    polydata(d, pd)
        return d

    def close(self):
        with ops.quiet():
            self.r.plotter.close()


class Vtk:
    name = 'Visualization'

    def __init__(self, m):
        hush()
        self.mod = importlib.import_module('PyNite.Visualization')
        with ops.quiet():
            self.r = self.mod.Renderer(m)

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self.r, 'set_' + {'labels': 'show_labels'}.get(k, k))(v)

    def get(self, k):
        return getattr(self.r, k)

    def draw(self):
        with ops.quiet():
            self.r.update()
        d = Drawing()
        self.read(d, self.r.renderer)
        return d

    @staticmethod
    def read(d, renderer):
        acts = renderer.GetActors()
        acts.InitTraversal()
        for _ in range(acts.GetNumberOfItems()):
            a = acts.GetNextActor()
            m = a.GetMapper()
            if m is None:
                continue
            m.Update()
            x = m.GetInputAlgorithm()
            if x is not None and x.GetClassName() == 'vtkVectorText':
                d.labels.append((x.GetText(), np.array(a.GetPosition())))
            elif m.GetInput() is not None:
                polydata(d, m.GetInput())

    def close(self):
        self.r.window.Finalize()


class VtkFunction:
    """the function render_model of the older module (and its former name), with stand-ins for window and mouse"""
    name = 'Visualization.render_model'
    old = False

    def __init__(self, m):
        hush()
        self.mod = importlib.import_module('PyNite.Visualization')
        self.m = m
        self.o = dict(annotation_size=5, deformed_shape=False, deformed_scale=30, render_loads=True, color_map=None, combo_name='Combo 1', case=None, labels=True)

    def set(self, **kw):
        self.o.update(kw)

    def get(self, k):
        return self.o[k]

    def draw(self):
        import vtk
        real, seen = self.mod.vtk, []

        class Window:
            def AddRenderer(self, r):
                seen.append(r)

            def __getattr__(self, n):
                return lambda *a: None

        class Proxy:
            vtkRenderWindow = Window
            vtkRenderWindowInteractor = Window

            def __getattr__(self, n):
                return getattr(real, n)
        self.mod.vtk = Proxy()
        o = dict(self.o)
        try:
            with ops.quiet():
                if self.old:
                    self.mod.RenderModel(self.m, **o)
                else:
                    self.mod.render_model(self.m, scalar_bar=o.pop('scalar_bar', False), **o)
        finally:
            self.mod.vtk = real
        d = Drawing()
        for r in seen[:1]:
            Vtk.read(d, r)
        return d

    def close(self):
        pass


class VtkFormer(VtkFunction):
    name = 'Visualization.RenderModel'
    old = True
