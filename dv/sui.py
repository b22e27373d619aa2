"""Contracts of ipywidgets and IPython.display used by the settings panel.

A widget holds a value trait: assigning converts it to the trait's type (None
and other types are refused), sliders clamp to their range, and observers are
called when the value changed.  Other attributes are plain traits."""
import types
from fractions import Fraction

from . import core as K
from .core import Sc, lift, isz, ctx, OR, NOT, LT, ITE


class TraitError(Exception):
    pass


class Bunch(dict):
    __getattr__ = dict.get


class Widget(object):
    kind = None
    start = None

    def __init__(self, value=None, **kw):
        self.__dict__["_obs"] = []
        self.__dict__["_traits"] = dict(disabled=False, description="", layout=None, style=None, tooltip=None, visible=True)
        self._traits.update(kw)
        if value is None and "value" not in kw:
            value = self.start
        if self.kind is not None:
            self._traits["value"] = self.coerce(value)

    def coerce(self, v):
        x = lift(v) if not isinstance(v, str) else None
        if v is None or x is None:
            K.lib_raise(TraitError("the value trait does not accept {!r}".format(v)))
        return K.cast(x, self.kind)

    def __getattr__(self, name):
        t = self.__dict__.get("_traits")
        if t is not None and name in t:
            return t[name]
        raise AttributeError(name)

    def __setattr__(self, name, v):
        t = self._traits
        if name == "value" and self.kind is not None:
            v = self.coerce(v)
        if name not in t:
            # a plain python attribute
            self.__dict__[name] = v
            return
        old = t[name]
        t[name] = v
        if self._obs and (old is not v):
            a, b = lift(old) if old is not None and not isinstance(old, str) else None, lift(v) if v is not None and not isinstance(v, str) else None
            same = K.ident(a, b) if a is not None and b is not None and a.k == b.k else (old == v if a is None and b is None else False)
            for f, names in list(self._obs):
                if names is None or name in names:
                    if ctx().decide(NOT(same)):
                        f(Bunch(name=name, old=old, new=v, owner=self, type="change"))

    def observe(self, handler, names=None, type="change"):
        if type not in ("change", None) and not isinstance(type, str):
            K.unsupported("observe")
        if names is not None and not isinstance(names, (list, tuple)):
            names = [names]
        self._obs.append((handler, names))

    def unobserve(self, handler, names=None, type="change"):
        self.__dict__["_obs"] = [q for q in self._obs if q[0] is not handler]

    def unobserve_all(self, name=None):
        self.__dict__["_obs"] = []

    def hold_trait_notifications(self):
        K.unsupported("hold_trait_notifications")


class IntText(Widget):
    kind, start = "i", 0


class FloatText(Widget):
    kind, start = "r", 0


class Checkbox(Widget):
    kind, start = "b", False


class ToggleButton(Checkbox):
    pass


class _Clamp(Widget):
    def coerce(self, v):
        v = Widget.coerce(self, v)
        lo, hi = self.bounds()
        v = K.where(K.lt(v, lo).t, lo, v)
        return K.where(K.gt(v, hi).t, hi, v)

    def bounds(self):
        return tuple(K.cast(lift(self._traits.get(q, d)), self.kind) for q, d in zip(("min", "max"), self.default))


class FloatSlider(_Clamp):
    kind, start = "r", 0
    default = (0, 100)


class BoundedFloatText(FloatSlider):
    pass


class IntSlider(_Clamp):
    kind, start = "i", 0
    default = (0, 100)


class BoundedIntText(IntSlider):
    pass


class FloatLogSlider(_Clamp):
    kind, start = "r", 1
    default = (0, 4)

    def bounds(self):
        b = Fraction(self._traits.get("base", 10)) if not isinstance(self._traits.get("base", 10), Sc) else K.unsupported("symbolic base")
        out = []
        for q, d in zip(("min", "max"), self.default):
            e = self._traits.get(q, d)
            e = Fraction(e.t if isinstance(e, Sc) else e)
            if e.denominator != 1:
                K.unsupported("fractional exponent of a log slider")
            out.append(Sc(b ** int(e), "r"))
        return tuple(out)


class _Box(Widget):
    def __init__(self, children=(), **kw):
        Widget.__init__(self, children=tuple(children), **kw)


class HBox(_Box):
    pass


class VBox(_Box):
    pass


class Layout(Widget):
    pass


class Label(Widget):
    def __init__(self, value="", **kw):
        Widget.__init__(self, **dict(kw, value=value))


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        K.unsupported("{}.{}".format(self.__name__, name))


def modules():
    w = Module("ipywidgets")
    for k in (Widget, IntText, FloatText, Checkbox, ToggleButton, FloatSlider, BoundedFloatText, IntSlider, BoundedIntText, FloatLogSlider, HBox, VBox, Layout, Label):
        setattr(w, k.__name__, k)
    ip, dp = Module("IPython"), Module("IPython.display")
    shown = []
    dp.display = lambda *a, **k: shown.append(a)
    dp.HTML = lambda *a, **k: Label(str(a))
    ip.display = dp
    return {"ipywidgets": w, "IPython": ip, "IPython.display": dp}
