"""The documented interface of the library: parameter roles, buffer sizes, results.

Sizes are functions of an environment that maps parameter names to polynomials;
'[name]' is the value left in an output cell.  Parameters are identified by
position, so renaming a parameter changes nothing.
"""
class Contract:
    def __init__(self, names, bufs=None, ret=None, cells=None, signed=(), fields=None, resfields=None, outfacts=None,
                 inplace=(), outs=(), kind="image", rdonly=None):
        self.names = names.split()
        self.bufs = bufs or {}
        self.ret = ret
        self.cells = cells or {}
        self._signed = set(signed.split()) if isinstance(signed, str) else set(signed)
        self.fields = fields or {}
        self.resfields = resfields or {}
        self.outfacts = outfacts or {}
        self.inplace = set(inplace.split()) if isinstance(inplace, str) else set(inplace)
        self.outs = set(outs.split()) if isinstance(outs, str) else set(outs)
        self.kind = kind
    def index(self, name): return self.names.index(name)
    def signed(self, name): return name in self._signed
    def readonly(self, i): return i < len(self.names) and self.names[i] not in self.inplace and self.names[i] not in self.outs

U32, I32 = (32, False), (32, True)
rgba = lambda e: e("w") * e("h") * 4
gray = lambda e: e("w") * e("h")
chan = lambda e: e("w") * e("h") * e("ch")
CT = {}
for nm in "fcv_grayscale fcv_grayscale_stretch fcv_flip_x fcv_flip_y fcv_transpose fcv_transverse fcv_rotate_90_cw fcv_rotate_180 fcv_rotate_270_cw".split():
    CT[nm] = Contract("w h data", {"data": rgba}, rgba)
CT["fcv_rgba_to_grayscale"] = Contract("w h data", {"data": rgba}, gray)
CT["fcv_single_to_multichannel"] = Contract("w h data", {"data": gray}, rgba)
CT["fcv_otsu_threshold_rgba"] = Contract("w h dbl data", {"data": rgba}, rgba)
CT["fcv_bw_smart"] = Contract("w h dbl data", {"data": rgba}, rgba)
CT["fcv_apply_gaussian_blur"] = Contract("w h r data", {"data": rgba}, rgba)
CT["fcv_apply_global_threshold"] = Contract("n data t", {"data": lambda e: e("n")}, None, inplace="data", kind="inplace")
def _resize_out(dim, fac):
    def f(e, X, fa):
        p = e(dim) * e(fac)
        return [(p - X, False), (X + 1 - p, True)]
    return f
CT["fcv_resize"] = Contract("w h rx ry ow oh data", {"data": rgba, "ow": 4, "oh": 4}, lambda e: e("[ow]") * e("[oh]") * 4,
    cells={"ow": U32, "oh": U32}, outs="ow oh", outfacts={"ow": _resize_out("w", "rx"), "oh": _resize_out("h", "ry")})
CT["fcv_sobel_edge_detection"] = Contract("w h ch data", {"data": chan}, gray)
CT["fcv_convert_to_binary"] = Contract("data w h fg bg", {"data": rgba, "fg": "str", "bg": "str"}, gray, signed="w h")
for nm in "fcv_binary_dilation_disk fcv_binary_erosion_disk fcv_binary_closing_disk fcv_binary_opening_disk".split():
    CT[nm] = Contract("data w h r", {"data": gray}, gray, signed="w h r")
CT["fcv_crop"] = Contract("w h ch data x y nw nh", {"data": chan}, lambda e: e("nw") * e("nh") * e("ch"))
CT["fcv_trim"] = Contract("w h ch data", {"data": chan, "w": 4, "h": 4}, lambda e: e("[w]") * e("[h]") * e("ch"), cells={"w": I32, "h": I32}, outs="w h")
CT["fcv_trim_threshold"] = Contract("w h ch data t", {"data": chan, "w": 4, "h": 4}, lambda e: e("[w]") * e("[h]") * e("ch"), cells={"w": I32, "h": I32}, outs="w h")
CT["fcv_set_circle_pixel"] = Contract("data w h ch px py r g b", {"data": chan}, None, signed="px py", inplace="data", kind="inplace")
for nm in "fcv_draw_circle_points fcv_fill_disk_lines".split():
    CT[nm] = Contract("data w h ch cx cy x y r g b", {"data": chan}, None, signed="cx cy x y", inplace="data", kind="inplace")
for nm in "fcv_draw_circle fcv_draw_disk".split():
    CT[nm] = Contract("w h ch hex r cx cy data", {"data": chan, "hex": "str"}, None, inplace="data", kind="inplace")
def _border_out(dim):
    def f(e, X, fa):
        p = e(dim) + e("bw") * 2
        return [(p - X, False), (X - p, False)]
    return f
CT["fcv_add_border"] = Contract("w h ch hex bw data ow oh", {"data": chan, "hex": "str", "ow": 4, "oh": 4},
    lambda e: e("[ow]") * e("[oh]") * e("ch"), cells={"ow": U32, "oh": U32}, outs="ow oh", outfacts={"ow": _border_out("w"), "oh": _border_out("h")})
CT["fcv_generate_histogram"] = Contract("w h ch data ow oh", {"data": chan, "ow": 4, "oh": 4}, lambda e: e("[ow]") * e("[oh]") * 4,
    cells={"ow": U32, "oh": U32}, outs="ow oh")
CT["fcv_parse_hex_color"] = Contract("hex r g b", {"hex": "str", "r": 1, "g": 1, "b": 1}, None, outs="r g b", kind="util")
CT["fcv_foerstner_corner"] = Contract("w h data sigma", {"data": gray}, lambda e: e("w") * e("h") * 2)
CT["fcv_corner_peaks"] = Contract("w h data mind at rt", {"data": lambda e: e("w") * e("h") * 2}, lambda e: 16,
    fields={0: lambda e: e(".count") * 16}, resfields={"count": (8, 32, False)}, kind="struct")
CT["sort_corners"] = Contract("ret w h ow oh corners n result", {"corners": lambda e: e("n") * 16, "result": [lambda e: e("n") * 16, 64]}, None, outs="ret result", kind="util")
CT["fcv_calculate_perspective_transform"] = Contract("src dst", {"src": 64, "dst": 64}, lambda e: 72, kind="struct")
CT["fcv_apply_matrix_3x3"] = Contract("w h data ow oh m", {"data": rgba, "m": 72}, lambda e: e("ow") * e("oh") * 4, signed="w h ow oh")
CT["fcv_detect_corners"] = Contract("ret data w h", {"data": rgba}, None, signed="w h", outs="ret", kind="util")
CT["fcv_detect_corners_ptr"] = Contract("data w h", {"data": rgba}, lambda e: 64, signed="w h", kind="struct")
CT["fcv_extract_document"] = Contract("w h data ow oh", {"data": rgba}, lambda e: e("ow") * e("oh") * 4)
CT["fcv_extract_document_auto"] = Contract("w h data ow oh", {"data": rgba, "ow": 4, "oh": 4}, lambda e: e("[ow]") * e("[oh]") * 4,
    cells={"ow": U32, "oh": U32}, outs="ow oh")
CT["fcv_watershed_segmentation"] = Contract("w h data markers n bnd", {"data": gray, "markers": lambda e: e("n") * 16}, rgba)
CT["fcv_get_exif_orientation"] = Contract("path", {"path": "str"}, None, kind="util")
