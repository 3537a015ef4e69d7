from . import image, common, multi, api, color, resize, sizes
from .. import driver as dr, model as M
from .common import diff_message

REGISTRY = {}
for m in (image, multi, api, color, resize, sizes):
    for v in vars(m).values():
        if isinstance(v, type) and issubclass(v, dr.Check) and v.id:
            REGISTRY[v.id] = v


def replay(v):
    if v["kind"] == "sized":
        return sizes.sized_message(v["query"], dr.nat(v["simd"], v["lib"]).call(v["query"]))
    if v["kind"] == "diff":
        o = [dr.nat(v["simd"], v["lib"]).call(q) for q in (v["query"], v["query2"])]
        return diff_message(o[0], o[1], dr.image_of(v["query"]["dst"]), v["query"], v["want"])
    if v["kind"] == "simd":
        o = []
        for kind, simd in v["variants"]:
            dr.mod(kind)
            o.append(dr.nat(simd, kind).call(v["query"]))
        return common.simd_message(o, dr.image_of(v["query"]["dst"]), v["query"], v["want"])
    if v["kind"] == "position":
        return image.position_message(dr.nat(v["simd"], v["lib"]).call(v["query"]), dr.image_of(v["query"]["dst"]), v["query"], v["want"])
    if v["kind"] == "multi":
        return multi.multi_message(*multi.native_both(v["query"], v["simd"]))
    if v["kind"] == "api":
        return api.api_message(v["rep"], dr.nat(v["simd"], v["lib"]).call(v["rep"]["query"]))
    if v["kind"] == "color":
        return color.color_message(v["query"], dr.nat(v["simd"], v["lib"]).call(v["query"]))
    if v["kind"] == "resize":
        return resize.resize_message(v["query"], dr.nat(v["simd"], v["lib"]).call(v["query"]), {})
    if v["kind"] == "curve":
        return color.curve_message(v["rep"], [dr.nat(False, "core").call(q) for q in v["rep"]["queries"]])
    if v["kind"] == "matrix":
        return color.matrix_message(v["rep"], dr.nat(False, "core").call(v["rep"]["query"]))
    raise KeyError(v["kind"])
