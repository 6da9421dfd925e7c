"""A stand-in for the Kratos python modules that QuESo's adapter uses. It computes nothing: it keeps what it is given, and
refuses what Kratos refuses (numbers used twice, unknown nodes, points outside the volume, unknown names)."""
import json, sys, types

LOG = []  # problems seen by the stand-in itself


class Var:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Vector(list):
    pass


class Data:
    def __init__(self):
        self.values, self.flags = {}, {}

    def SetValue(self, var, value):
        assert isinstance(var, Var), var
        self.values[var.name] = value

    def GetValue(self, var):
        return self.values[var.name]

    def Has(self, var):
        return var.name in self.values

    def Set(self, flag, value=True):
        self.flags[flag.name] = value

    def Is(self, flag):
        return self.flags.get(flag.name, False)


class Properties(Data):
    def __init__(self, i):
        Data.__init__(self)
        self.Id = i


class Node(Data):
    def __init__(self, i, x, y, z):
        Data.__init__(self)
        assert isinstance(i, int) and i > 0, i
        self.Id = i
        self.X = self.X0 = float(x)
        self.Y = self.Y0 = float(y)
        self.Z = self.Z0 = float(z)
        self.fixed, self.step = set(), {}

    def Fix(self, var):
        self.fixed.add(var.name)

    def IsFixed(self, var):
        return var.name in self.fixed

    def SetSolutionStepValue(self, var, value):
        self.step[var.name] = float(value)

    def GetSolutionStepValue(self, var):
        return self.step.get(var.name, 0.0)


class Geometry(list):
    """A list of nodes."""


class Triangle3D3(Geometry):
    def __init__(self, a, b, c):
        Geometry.__init__(self, (a, b, c))


class GeometriesVector(list):
    pass


class QuadraturePoints:
    """kind: 'volume' (points: [u, v, w, weight]) or 'surface' (nodes of the triangle)."""
    def __init__(self, kind, points, volume):
        self.kind, self.points, self.volume = kind, points, volume


class NurbsVolume:
    def __init__(self, xyz, uvw, p, n):
        self.xyz, self.uvw, self.p, self.n = xyz, uvw, p, n

    def to_xyz(self, q):
        (a, b), (u, v) = self.xyz, self.uvw
        return tuple(a[i] + (q[i] - u[i]) / (v[i] - u[i]) * (b[i] - a[i]) for i in range(3))

    def CreateQuadraturePointGeometries(self, result, derivatives, points):
        assert isinstance(result, GeometriesVector) and derivatives >= 0
        for q in points:
            assert len(q) == 4
        result.append(QuadraturePoints("volume", [tuple(float(x) for x in q) for q in points], self))


class SurfaceInNurbsVolumeGeometry:
    def __init__(self, volume, triangle):
        assert isinstance(volume, NurbsVolume) and isinstance(triangle, Triangle3D3)
        self.volume, self.triangle = volume, triangle

    def CreateQuadraturePointGeometries(self, result, derivatives):
        result.append(QuadraturePoints("surface", [(n.X, n.Y, n.Z) for n in self.triangle], self.volume))

    def Area(self):
        a, b, c = (self.volume.to_xyz((n.X, n.Y, n.Z)) for n in self.triangle)
        p, q = [b[i] - a[i] for i in range(3)], [c[i] - a[i] for i in range(3)]
        return .5 * sum((p[i - 2] * q[i - 1] - p[i - 1] * q[i - 2]) ** 2 for i in range(3)) ** .5


class Entity(Data):
    def __init__(self, name, i, geometry, properties):
        Data.__init__(self)
        assert isinstance(i, int) and i > 0, i
        self.name, self.Id, self.geometry, self.Properties = name, i, geometry, properties

    def GetGeometry(self):
        return self.geometry


class PropertiesMap(dict):
    def __missing__(self, i):
        self[i] = Properties(i)
        return self[i]


class ModelPart:
    def __init__(self, name):
        self.name = name
        self._nodes, self._elements, self._conditions = {}, {}, {}
        self.properties, self.geometries, self.variables, self.dofs = PropertiesMap(), {}, [], []
        self.ProcessInfo = Data()

    Nodes = property(lambda s: [s._nodes[k] for k in sorted(s._nodes)])
    Elements = property(lambda s: [s._elements[k] for k in sorted(s._elements)])
    Conditions = property(lambda s: [s._conditions[k] for k in sorted(s._conditions)])

    def AddNodalSolutionStepVariable(self, v):
        self.variables.append(v.name)

    def GetProperties(self):
        return self.properties

    def CreateNewProperties(self, i):
        assert i not in self.properties, "properties %d exist" % i
        return self.properties[i]

    def HasProperties(self, i):
        return i in self.properties

    def NumberOfProperties(self):
        return len(self.properties)

    def GetGeometry(self, name):
        return self.geometries[name]

    def CreateNewNode(self, i, x, y, z):
        if i in self._nodes:
            raise RuntimeError("Error: node %d exists" % i)
        self._nodes[i] = Node(i, x, y, z)
        return self._nodes[i]

    def GetNode(self, i):
        return self._nodes[i]

    def _new(self, where, name, i, geometry, properties):
        if i in where:
            raise RuntimeError("Error: trying to construct %s with Id %d, which exists already" % (name, i))
        if isinstance(geometry, (list, tuple)) and not isinstance(geometry, Geometry):
            geometry = Geometry(self._nodes[k] for k in geometry)
        assert isinstance(properties, Properties)
        where[i] = Entity(name, i, geometry, properties)
        return where[i]

    def CreateNewElement(self, name, i, geometry, properties):
        return self._new(self._elements, name, i, geometry, properties)

    def CreateNewCondition(self, name, i, geometry, properties):
        return self._new(self._conditions, name, i, geometry, properties)

    def NumberOfConditions(self):
        return len(self._conditions)

    def NumberOfElements(self):
        return len(self._elements)

    def NumberOfNodes(self):
        return len(self._nodes)

    def RemoveElements(self, flag):
        self._elements = {k: v for k, v in self._elements.items() if not v.Is(flag)}

    def RemoveConditions(self, flag):
        self._conditions = {k: v for k, v in self._conditions.items() if not v.Is(flag)}


class Model:
    def __init__(self):
        self.parts = {}

    def CreateModelPart(self, name):
        assert name not in self.parts
        self.parts[name] = ModelPart(name)
        return self.parts[name]

    def GetModelPart(self, name):
        return self.parts[name]

    def __getitem__(self, name):
        return self.parts[name]


class Parameters:
    def __init__(self, data):
        self.holder, self.key = ([json.loads(data)], 0) if isinstance(data, str) else data

    v = property(lambda s: s.holder[s.key])

    def __getitem__(self, k):
        self.v[k]
        return Parameters((self.v, k))

    def values(self):
        return [Parameters((self.v, k)) for k in (range(len(self.v)) if isinstance(self.v, list) else self.v)]

    def Has(self, k):
        return k in self.v

    def AddEmptyValue(self, k):
        self.v.setdefault(k, None)
        return self[k]

    def SetVector(self, x):
        self.holder[self.key] = [float(y) for y in x]

    def GetString(self):
        assert isinstance(self.v, str)
        return self.v


class VariableUtils:
    def AddDof(self, var, reaction, part):
        part.dofs.append((var.name, reaction.name))


class Logger:
    @staticmethod
    def PrintInfo(*a):
        pass


class StructuralMechanicsAnalysis:
    """The order of the calls of Kratos' AnalysisStage."""
    def __init__(self, model, parameters):
        self.model, self.parameters, self.echo_level = model, parameters, 0

    def _GetListOfModelers(self):
        return []

    def _GetSimulationName(self):
        return "Analysis"

    def _ModelersSetupModelPart(self):
        for m in self._GetListOfModelers():
            m.SetupModelPart()

    def ModifyInitialGeometry(self):
        pass

    def Run(self):
        for m in self.parameters["modelers"].values():
            if m["modeler_name"].GetString() == "NurbsGeometryModeler":
                q = m["Parameters"].v
                part = self.model.GetModelPart(q["model_part_name"])
                part.geometries[q["geometry_name"]] = NurbsVolume((q["lower_point_xyz"], q["upper_point_xyz"]), (q["lower_point_uvw"], q["upper_point_uvw"]), q["polynomial_order"], q["number_of_knot_spans"])
                for k in (1, 2, 7):  # left over from the modeler
                    part.CreateNewElement("Dummy", k, None, part.GetProperties()[1])
                    part.CreateNewCondition("Dummy", k, None, part.GetProperties()[1])
        self._ModelersSetupModelPart()
        self.ModifyInitialGeometry()
        self.ran = True


def install():
    km = types.ModuleType("KratosMultiphysics")
    km.__path__ = []
    for k in (Model, ModelPart, Parameters, Node, Triangle3D3, GeometriesVector, SurfaceInNurbsVolumeGeometry, VariableUtils, Logger, Vector):
        setattr(km, k.__name__, k)
    for k in "DISPLACEMENT DISPLACEMENT_X DISPLACEMENT_Y DISPLACEMENT_Z REACTION REACTION_X REACTION_Y REACTION_Z DOMAIN_SIZE TO_ERASE VECTOR_LAGRANGE_MULTIPLIER VECTOR_LAGRANGE_MULTIPLIER_X VECTOR_LAGRANGE_MULTIPLIER_Y VECTOR_LAGRANGE_MULTIPLIER_Z".split():
        setattr(km, k, Var(k))
    subs = {"IgaApplication": "PENALTY_FACTOR VECTOR_LAGRANGE_MULTIPLIER_REACTION VECTOR_LAGRANGE_MULTIPLIER_REACTION_X VECTOR_LAGRANGE_MULTIPLIER_REACTION_Y VECTOR_LAGRANGE_MULTIPLIER_REACTION_Z",
            "StructuralMechanicsApplication": "POINT_LOAD POINT_LOAD_X POINT_LOAD_Y POINT_LOAD_Z", "LinearSolversApplication": ""}
    sys.modules["KratosMultiphysics"] = km
    for s, names in subs.items():
        m = types.ModuleType("KratosMultiphysics." + s)
        m.__path__ = []
        for k in names.split():
            setattr(m, k, Var(k))
        setattr(km, s, m)
        sys.modules["KratosMultiphysics." + s] = m
    m = types.ModuleType("KratosMultiphysics.StructuralMechanicsApplication.structural_mechanics_analysis")
    m.StructuralMechanicsAnalysis = StructuralMechanicsAnalysis
    sys.modules[m.__name__] = m
    return km
