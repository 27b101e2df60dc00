"""What the analysed library is made of: class families and entry points."""
from . import modref, prog as _prog
from .frontend import AnalysisBroken

MODEL_ROOTS = ["StateAbstract", "ActionModelAbstract", "DifferentialActionModelAbstract",
               "CostModelAbstract", "ResidualModelAbstract", "ConstraintModelAbstract",
               "ActivationModelAbstract", "ActuationModelAbstract", "SquashingModelAbstract",
               "ControlParametrizationModelAbstract"]
MODEL_EXTRA = ["CostModelSum", "ConstraintModelManager", "ActivationBounds", "CostItem", "ConstraintItem"]
BASES = ["StateBase", "ActionModelBase", "DifferentialActionModelBase", "CostModelBase", "ResidualModelBase",
         "ConstraintModelBase", "ActivationModelBase", "ActuationModelBase", "SquashingModelBase",
         "ControlParametrizationModelBase"]


def load(mt=False):
    p = _prog.load(None, mt)
    for r in MODEL_ROOTS + MODEL_EXTRA + ["ShootingProblem", "SolverAbstract", "BoxQP"]:
        if r not in p.cls:
            raise AnalysisBroken("class %s has vanished" % r)
    return p, modref.get(p)


def model_classes(p):
    out = set(MODEL_EXTRA)
    for r in MODEL_ROOTS:
        out |= set(p.subclasses(r))
    return out


# methods that evaluate: they may write only their arguments
EVAL = {"calc", "calcDiff", "quasiStatic", "quasiStatic_x", "commands", "torqueTransform",
        "diff", "integrate", "Jdiff", "Jintegrate", "JintegrateTransport",
        "zero", "rand", "safe_zero", "diff_dx", "integrate_x", "Jdiff_Js", "Jintegrate_Js",
        "params", "convertBounds", "multiplyByJacobian", "multiplyJacobianTransposeBy",
        "multiplyByJacobian_J", "multiplyJacobianTransposeBy_J", "createData", "checkData",
        "print", "cast", "cloneAsDouble", "cloneAsFloat"}


def own_methods(p, cls, name):
    return [f for f in p.by_cls.get(cls, []) if f.sname == name]
