"""The published repository lacks the package src/CLA.  For *runtime
evaluation only* a stand-in is injected so that modules importing it load.
Its functions implement the lamination parameter definitions of classical
laminate theory; the verifier never uses it."""
import sys
import types
import numpy as np


def calc_lampam(ss, constraints=None):
    "12 lamination parameters of a stacking sequence (bottom to top)"
    if isinstance(ss, list):
        return np.array([calc_lampam(s, constraints) for s in ss])
    ss = np.asarray(ss)
    if ss.ndim == 2 and ss.shape[0] > 1:
        return np.array([calc_lampam(s, constraints) for s in ss])
    ss = ss.ravel()
    n = ss.size
    out = np.zeros(12)
    if n == 0:
        return out
    for k in range(n):
        t = np.deg2rad(float(ss[k]))
        v = np.array([np.cos(2 * t), np.cos(4 * t), np.sin(2 * t),
                      np.sin(4 * t)])
        z0, z1 = (k - n / 2), (k + 1 - n / 2)
        out[0:4] += v / n
        out[4:8] += 2 * v * (z1**2 - z0**2) / n**2
        out[8:12] += 4 * v * (z1**3 - z0**3) / n**3
    return out


def calc_lampam_2(ss, *a, **k):
    return calc_lampam(ss)


def calc_lampamA(ss, constraints=None):
    "in-plane lamination parameters"
    return calc_lampam(ss)[..., 0:4]


def calc_lampamD(ss, constraints=None):
    "out-of-plane lamination parameters"
    return calc_lampam(ss)[..., 8:12]


def install():
    from dv import spec
    spec.OPAQUE['calc_lampamA'] = calc_lampamA
    spec.OPAQUE['calc_lampam'] = calc_lampam
    if 'src.CLA' in sys.modules:
        return
    try:
        import src.CLA.lampam_functions                     # noqa: F401
        return
    except ImportError:
        pass
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    lf = types.ModuleType('src.CLA.lampam_functions')
    for nm in ('calc_lampam', 'calc_lampam_2', 'calc_lampam_sym',
               'calc_lampam_mp', 'calc_lampam_from_delta_lp_matrix'):
        setattr(lf, nm, calc_lampam)

    class _Any(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)

            def missing(*a, **k):
                raise NotImplementedError('src.CLA is not published: ' + name)
            return missing
    lf2 = _Any('src.CLA.lampam_functions')
    lf2.__dict__.update({k: v for k, v in vars(lf).items()
                         if not k.startswith('__')})
    abd = _Any('src.CLA.ABD')
    lp2 = _Any('src.CLA.lp_functions_2')
    lp2.__dict__['calc_lampam_2'] = calc_lampam
    lp2.__dict__['calc_lampamA'] = calc_lampamA
    lp2.__dict__['calc_lampamD'] = calc_lampamD
    sys.modules['src.CLA'] = pkg
    sys.modules['src.CLA.lampam_functions'] = lf2
    sys.modules['src.CLA.ABD'] = abd
    sys.modules['src.CLA.lp_functions_2'] = lp2
