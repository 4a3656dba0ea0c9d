"""What each property's check explores: models (explicit-state, exhaustive
within their bounds) and seeded random scripts, per tier."""
import gen



def cset(xs):
    return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs) + "}"


def cfg(consts, invs, view=True):
    out = ["SPECIFICATION Spec"] + (["VIEW View"] if view else []) + ["CONSTANTS"]
    for k, v in consts.items():
        if isinstance(v, (list, tuple, set, range)):
            v = cset(v)
        elif isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        out.append(" %s = %s" % (k, v))
    return "\n".join(out + ["INVARIANTS " + " ".join(invs)]) + "\n"


def mc_curve(degrees, interior, weights, queries=(), moves=(), vals=(2, 4), depth=0, maxdeg=6, frontier=False, direct=True):
    return ("MCCurve", cfg(dict(Degrees=degrees, MaxInterior=interior, Weights=weights, KnotVals=vals, Moves=moves,
                                Queries=queries, MaxDepth=depth, MaxDegree=maxdeg, Frontier=frontier, Direct=direct),
                           ["WellFormed", "SameShape", "Conforms", "InsertRemove", "Evaluation", "Derivatives", "Pieces",
                            "Rationality", "Emit"]))


def mc_surf(degs, iu, iv, weights, queries=(), moves=(), vals=(4, 6), depth=0, maxdeg=5, frontier=False, direct=True):
    return ("MCSurface", cfg(dict(DegPairs=degs, IntU=iu, IntV=iv, Weights=weights, KnotVals=vals, Moves=moves,
                                  Queries=queries, MaxDepth=depth, MaxDegree=maxdeg, Frontier=frontier, Direct=direct),
                             ["WellFormed", "SameShape", "Conforms", "Commute", "Evaluation", "Derivatives", "Emit"]))


class Tier:
    def __init__(self, models, rand):
        self.models, self.rand = models, rand


class Prop:
    """rand: list of (generator, number of behaviours)."""

    def __init__(self, quick, thorough, mode="asan", module="Trace", every=None):
        self.quick, self.thorough, self.module = quick, thorough, module
        self.modes = mode.split("+")          # builds the behaviours are run with
        self.every = every or {}              # build: run every n-th behaviour only


P = {}

P["C01"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["eval"], vals=[2, 4])], [(gen.curve_eval, 220)]),
    Tier([mc_curve([1, 2, 3, 4], 4, [1, 2, 3, 4, 5, 6], ["eval"], vals=[2, 4, 7])], [(gen.curve_eval, 6000)]))
P["C02"] = Prop(
    Tier([mc_surf([11, 21, 13, 22], [0, 3, 44], [0, 26], [1, 3], ["eval"])], [(gen.surf_eval, 160)]),
    Tier([mc_surf([11, 12, 21, 22, 13, 31, 23, 32, 33], [0, 3, 44, 26, 555], [0, 26, 1, 44, 347], [1, 2, 3, 4, 5, 6], ["eval"])], [(gen.surf_eval, 5000)]))
P["C03"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["ders"], vals=[2, 4])], [(gen.curve_ders, 160), (gen.curve_high, 12)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 4, 5, 6], ["ders"], vals=[2, 4, 7])], [(gen.curve_ders, 5000), (gen.curve_high, 500)]))
P["C04"] = Prop(
    Tier([mc_surf([11, 21, 13, 22], [0, 44], [0, 26], [1, 3], ["ders"])], [(gen.surf_ders, 150), (gen.surf_high, 8)]),
    Tier([mc_surf([11, 12, 21, 22, 13, 31, 23, 32], [0, 3, 44, 26], [0, 26, 44], [1, 2, 3, 4, 6], ["ders"])], [(gen.surf_ders, 4000), (gen.surf_high, 300)]))
P["C06"] = Prop(
    Tier([mc_curve([1, 2, 3], 1, [1, 3], [], ["ins"], vals=[2, 5], depth=1)], [(gen.curve_insert, 150)]),
    Tier([mc_curve([1, 2, 3, 4], 2, [1, 2, 3, 6], [], ["ins"], vals=[1, 2, 5], depth=2, frontier=True)], [(gen.curve_insert, 4000)]))
P["C07"] = Prop(
    Tier([mc_surf([11, 21, 13, 22], [0, 3, 44], [0, 26], [1, 3], [], ["insu", "insv"])], [(gen.surf_insert, 120)]),
    Tier([mc_surf([11, 12, 21, 22, 13, 31, 23], [0, 3, 44], [0, 26, 44], [1, 3], [], ["insu", "insv"], depth=1)], [(gen.surf_insert, 3000)]))
P["C08"] = Prop(
    Tier([mc_curve([1, 2, 3], 1, [1, 3], [], ["ins", "rem"], vals=[2, 5], depth=1)], [(gen.curve_remove, 120), (gen.curve_remove_near, 220)]),
    Tier([mc_curve([1, 2, 3, 4], 2, [1, 2, 3, 6], [], ["ins", "rem"], vals=[2, 5], depth=2)],
         [(gen.curve_remove, 3000), (gen.curve_remove_near, 3000)]))
P["C09"] = Prop(
    Tier([mc_surf([11, 21, 22], [0, 44], [0, 26], [1, 3], [], ["insu", "insv", "remu", "remv"], depth=1)], [(gen.surf_remove, 100)]),
    Tier([mc_surf([11, 12, 21, 22, 13, 31, 23], [0, 3, 44], [0, 26, 44], [1, 3], [], ["insu", "insv", "remu", "remv"], depth=1)], [(gen.surf_remove, 3000)]))
P["C10"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], [], ["elev"], vals=[2, 5], depth=0)], [(gen.curve_elevate, 150)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 6], [], ["elev"], vals=[2, 5, 6], depth=1, maxdeg=7)], [(gen.curve_elevate, 4000)]))
P["C11"] = Prop(
    Tier([mc_surf([11, 21, 13, 22], [0, 3, 44], [0, 26], [1, 3], [], ["elevu", "elevv"])], [(gen.surf_elevate, 110)]),
    Tier([mc_surf([11, 12, 21, 22, 13, 31, 23], [0, 3, 44], [0, 26, 44], [1, 3], [], ["elevu", "elevv"], depth=1)], [(gen.surf_elevate, 3000)]))
P["C19"] = Prop(
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 3], ["bez"], vals=[2, 5])], [(gen.bezier, 200)]),
    Tier([mc_curve([1, 2, 3, 4, 5], 4, [1, 2, 3, 6], ["bez"], vals=[1, 2, 5])], [(gen.bezier, 5000)]))
P["C20"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["box"], vals=[2, 5])], [(gen.cbox, 130)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 4], ["box"], vals=[2, 5])], [(gen.cbox, 3000)]))
P["C22"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["xform"], vals=[2, 5]), mc_surf([11, 21, 13, 22], [0, 3, 44], [0, 26], [1, 3], ["xform"])], [(gen.xform, 300)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 6], ["xform"], vals=[2, 5]), mc_surf([11, 12, 21, 22, 13, 31, 23], [0, 3, 44], [0, 26, 44], [1, 2, 3], ["xform"])],
         [(gen.xform, 6000)]))
P["C28"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 2, 3, 4, 5, 6], ["ratx"], vals=[2, 5]), mc_surf([11, 21, 13], [0, 3], [0, 26], [1, 2, 3, 4, 5, 6], ["ratx"])],
         [(gen.rational, 300), (gen.rational_more, 60)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 4, 5, 6], ["ratx"], vals=[2, 5]), mc_surf([11, 12, 21, 13, 31, 22], [0, 3, 44], [0, 26, 5], [1, 2, 3, 4, 5, 6], ["ratx"])],
         [(gen.rational, 8000), (gen.rational_more, 2000)]))

def mc_basis(degrees, interior, vals, extra):
    return ("MCBasis", cfg(dict(Degrees=degrees, MaxInterior=interior, KnotVals=vals, MaxExtra=extra),
                           ["Partition", "Reproduction", "Derivatives", "Continuity", "Emit"]))


def mc_rat(num, den, degrees, vals, interior):
    return ("MCRat", cfg(dict(MaxNum=num, MaxDen=den, Degrees=degrees, KnotVals=vals, MaxInterior=interior),
                         ["Arithmetic", "Reading", "BasisFunctions", "Quotients"], view=False))


def mc_knots(degrees, interior, vals, free, moves, queries, times, depth):
    return ("MCKnots", cfg(dict(Degrees=degrees, MaxInterior=interior, KnotVals=vals, Free=free, Moves=moves, Queries=queries,
                                MaxTimes=times, MaxDepth=depth),
                           ["StaysValid", "StaysSorted", "Complete", "ReverseTwice", "QueriesAgree", "Emit"]))


def mc_knotmake(maxlen, pairs, times, deg, extra):
    return ("MCKnotMake", cfg(dict(MaxLen=maxlen, MaxPairs=pairs, MaxTimes=times, MaxDegree=deg, MaxExtra=extra),
                              ["Built", "Uniform", "Emit"]))


P["C05"] = Prop(
    Tier([mc_basis([0, 1, 2, 3], 2, [2, 5], 2), mc_rat(4, 4, [0, 1, 2, 3], [2, 5], 2)], [(gen.basis, 200)]),
    Tier([mc_basis([0, 1, 2, 3, 4, 5], 4, [1, 2, 5], 3), mc_rat(12, 9, [0, 1, 2, 3, 4], [1, 4, 6], 4)], [(gen.basis, 8000)]))
P["C15"] = Prop(
    Tier([mc_knotmake(3, 2, 2, 4, 4)], [(gen.knot_make, 300)]),
    Tier([mc_knotmake(4, 3, 3, 9, 12)], [(gen.knot_make, 10000)]))
P["C16"] = Prop(
    Tier([mc_knots([0, 1, 2, 3], 2, [2, 4, 5], True, False, True, 0, 0)], [(gen.knot_query, 300), (gen.knot_raw, 100), (gen.knot_long, 5)]),
    Tier([mc_knots([0, 1, 2, 3, 4], 4, [2, 4, 6, 7], True, False, True, 0, 0)], [(gen.knot_query, 10000), (gen.knot_raw, 3000), (gen.knot_long, 60)]))
P["C17"] = Prop(
    Tier([mc_knots([0, 1, 2], 1, [2, 5], True, True, False, 2, 2)], [(gen.knot_edit, 300)]),
    Tier([mc_knots([0, 1, 2, 3], 2, [2, 5], True, True, False, 2, 3)], [(gen.knot_edit, 10000)]))

def mc_file(kinds, blanks, depth, damage):
    return ("MCFile", cfg(dict(Kinds=kinds, BlankNames=blanks, MaxDepth=depth, Damage=damage), ["SameObject", "Refused", "Emit"]))


P["C12"] = Prop(
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["io"], vals=[2, 5]), mc_surf([11, 21, 13, 22], [0, 3, 44], [0, 26], [1, 3], ["io"])], [(gen.io, 400), (gen.io_queue, 80), (gen.io_bulk, 7)]),
    Tier([mc_curve([1, 2, 3, 4], 3, [1, 2, 3, 4, 5, 6], ["io"], vals=[2, 5]),
          mc_surf([11, 12, 21, 22, 13, 31, 23, 32, 33], [0, 3, 44, 26, 555], [0, 26, 44], [1, 2, 3, 6], ["io"])], [(gen.io, 10000), (gen.io_queue, 3000), (gen.io_bulk, 70)]))
P["C13"] = Prop(
    Tier([mc_curve([1, 2], 1, [3], ["cut", "patch"], vals=[2]), mc_surf([11, 21], [0], [0, 4], [3], ["cut", "patch"]),
          mc_file(["curve", "surf"], ["sp"], 0, True)], [(gen.io_cut, 100), (gen.text_damage, 200)]),
    Tier([mc_curve([1, 2, 3], 2, [1, 3], ["cut", "patch"], vals=[2, 5]), mc_surf([11, 21, 12, 22], [0, 3], [0, 4], [1, 3], ["cut", "patch"]),
          mc_file(["curve", "surf"], ["sp", "cr"], 1, True)], [(gen.io_cut, 3000), (gen.text_damage, 8000)]))
P["C14"] = Prop(
    Tier([mc_file(["curve", "surf"], ["sp", "tab", "cr"], 1, False), mc_file(["curve"], [], 2, False)], [(gen.text_layout, 250)]),
    Tier([mc_file(["curve", "surf"], ["sp", "tab", "cr"], 2, False), mc_file(["curve"], [], 3, False)], [(gen.text_layout, 8000)]))

def mc_grid(sizes, types, depth, lines=True):
    return ("MCGrid", cfg(dict(Sizes=sizes, Types=types, MaxDepth=depth, Lines=lines), ["IsMap", "ReadsAgree", "Commute", "Emit"]))


def mc_box(corners, points, depth):
    return ("MCBox", cfg(dict(Corners=corners, Points=points, MaxDepth=depth), ["Smallest", "Grows", "Emit"]))


def mc_align(shapes, skews, depth):
    return ("MCAlign", cfg(dict(Shapes_=shapes, Skews=skews, MaxDepth=depth),
                           ["WellFormed", "Orbit", "Idempotent", "Canonical", "Possible", "Emit"]))


def mc_build(deg, extra, places):
    return ("MCBuild", cfg(dict(MaxDegree=deg, MaxExtra=extra, Places=places), ["Built", "Emit"]))


P["C18"] = Prop(
    Tier([mc_grid([11, 22], ["str"], 2), mc_grid([13, 32], ["int"], 2, False)], [(gen.grid, 300)]),
    Tier([mc_grid([11, 22, 31], ["int", "str", "vec"], 2), mc_grid([22, 32, 23, 13], ["int", "str"], 3, False)], [(gen.grid, 10000)]))
P["C21"] = Prop(
    Tier([mc_box([333, 245, 512, 154], [333, 245, 444, 135, 522], 2)], [(gen.box, 300)]),
    Tier([mc_box([333, 245, 512, 154, 421], [333, 245, 444, 135, 522, 551], 3)], [(gen.box, 10000)]))
P["C23"] = Prop(
    Tier([mc_align([1, 2, 3], [0, 1], 1)], [(gen.align, 250)]),
    Tier([mc_align([1, 2, 3, 4], [0, 1, 2], 2)], [(gen.align, 6000)]))
P["C25"] = Prop(
    Tier([mc_build(3, 2, [1, 2])], [(gen.build, 200)]),
    Tier([mc_build(5, 3, [1, 2, 3, 4])], [(gen.build, 6000)]))

LEVEL = "model_checking"
ASSUMPTIONS = []


def mc_search(degrees, interior, vals, kinds, places, nets, depth):
    return ("MCSearch", cfg(dict(Degrees=degrees, MaxInterior=interior, KnotVals=vals, Kinds=kinds, Places=places, Nets=nets, MaxDepth=depth),
                            ["Bracketed", "Classified", "IsAffine", "Falls", "Emit"]))


P["C24"] = Prop(
    Tier([mc_search([1, 2, 3], 1, [3], ["straight", "bent", "wild"], [1, 2, 3], [11, 21], 16)], [(gen.search, 200), (gen.search_wild, 150)]),
    Tier([mc_search([1, 2, 3, 4], 2, [2, 5], ["straight", "bent", "wild"], [1, 2, 3], [11, 21, 12, 22, 31], 256)], [(gen.search, 4000), (gen.search_wild, 4000)]))


def hist_curve(degrees, interior, weights, vals, depth):
    return mc_curve(degrees, interior, weights, [], ["ins", "rem", "elev", "io"], vals=vals, depth=depth, direct=False)


def hist_surf(degs, iu, iv, weights, vals, depth):
    return mc_surf(degs, iu, iv, weights, [], ["insu", "insv", "remu", "remv", "elevu", "elevv", "io"], vals=vals, depth=depth, direct=False)


P["C26"] = Prop(
    Tier([hist_curve([2], 1, [3], [2], 3), hist_surf([12], [0], [4], [3], [4], 2)], [(gen.history, 60)]),
    Tier([hist_curve([1, 2, 3], 1, [1, 3], [2, 5], 3), hist_curve([2], 1, [3], [2], 4), hist_surf([11, 12, 22], [0, 3], [4], [3], [4], 3)], [(gen.history, 2000)]))


def mc_threads(objects, threads, reads):
    return ("MCThreads", cfg(dict(Objects=objects, Threads=threads, Reads=reads), ["Unwritten", "OneView", "AsAlone", "Emit"]))


P["C27"] = Prop(
    Tier([mc_threads([1, 3, 5], 2, 2)], [(gen.threads, 60)]),
    Tier([mc_threads([1, 2, 3, 4, 5, 6], 2, 3), mc_threads([2, 4, 6], 3, 1)], [(gen.threads, 1500)]), mode="tsan")


def mc_save(objects, sizes, pieces, bufs, own, eighths, offs):
    return ("MCSave", cfg(dict(Objects=objects, Lengths=sizes, Pieces=pieces, Bufs=bufs, Own=own, Eighths=eighths, Offs=offs),
                          ["Nothing_lost", "Thrown_rightly", "Decided", "Emit"]))


P["C29"] = Prop(
    Tier([mc_save([1, 2, 3, 4], [1, 5, 9], [1, 4], [0, 1, 3, 20], "{TRUE, FALSE}", [0, 3, 7, 8], [0, 1, 51, 54])], [(gen.save_room, 120)]),
    Tier([mc_save([1, 2, 3, 4], [1, 5, 9, 14], [1, 3, 4], [0, 1, 3, 5, 20], "{TRUE, FALSE}", [0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 1, 2, 4, 9, 51, 52, 54, 58])],
         [(gen.save_room, 5000)]))


P["C30"] = Prop(
    Tier([mc_curve([1, 2, 3], 1, [3], ["eval", "ders", "bez", "ratx", "xform"], ["ins", "rem", "elev", "io"], vals=[2, 5]),
          mc_surf([11, 21, 13], [0, 44], [0, 26], [3], ["eval", "ders", "ratx", "xform"], ["insu", "insv", "remu", "remv", "elevu", "elevv", "io"])],
         [(gen.everything, 1200)]),
    Tier([mc_curve([1, 2, 3, 4], 2, [1, 3], ["eval", "ders", "bez", "ratx", "xform"], ["ins", "rem", "elev", "io"], vals=[2, 5], depth=1),
          mc_surf([11, 21, 13, 22], [0, 44], [0, 26], [3], ["eval", "ders", "ratx", "xform"], ["insu", "insv", "remu", "remv", "elevu", "elevv", "io"], depth=1)],
         [(gen.everything, 12000)]),
    mode="ubsan+memcheck", module="TraceMem", every={"memcheck": 2})


def mc_helpers(n, places):
    return ("MCHelpers", cfg(dict(MaxN=n, MaxFact=9, Places=places), ["Pascal", "Rows", "Factorials", "Emit"]))


P["C31"] = Prop(
    Tier([mc_helpers(29, [1, 2, 3, 4, 5])], [(gen.helpers, 250)]),
    Tier([mc_helpers(29, [1, 2, 3, 4, 5])], [(gen.helpers, 20000)]))
