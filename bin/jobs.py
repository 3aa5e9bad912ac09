PROPS = {}

PROPS["C01"] = dict(
    gen=[dict(module="Orientation", job="c01", spec="Spec", consts={"N": 2}, min_cases=3000,
              inv=["DegenerateZero", "ZeroIffCollinear"], props=["RotateKeeps", "SwapNegates", "MoveKeeps"],
              thorough=dict(consts={"N": 4}))],
    trace=[dict(module="TraceOrientation", job="c01", n=30000, consts={"N": 0}, thorough=dict(n=200000))],
)

PROPS["C02"] = dict(
    gen=[dict(module="RingLocation", job="c02", spec="Spec", consts={"N": 2, "K": 4}, per=8, min_cases=3000,
              inv=["CounterRight", "OnRight", "Canonical", "OutsideIsExterior"],
              thorough=dict(consts={"N": 2, "K": 5}))],
    trace=[dict(module="TraceRingLocation", job="c02", n=30000, consts={"N": 0, "K": 0}, thorough=dict(n=200000))],
)

PROPS["C03"] = dict(
    gen=[dict(module="SegInt", job="c03", spec="Spec", consts={"N": 2}, min_cases=3000,
              inv=["RefinedRight", "ProperInterior", "NearestTouches"], props=["Symmetric"],
              thorough=dict(consts={"N": 3}))],
    trace=[dict(module="TraceSegInt", job="c03", n=30000, consts={"N": 0}, thorough=dict(n=200000))],
)

PROPS["C04"] = dict(
    gen=[dict(module="RingOrient", job="c04", spec="Spec", consts={"N": 2, "K": 5}, per=4, min_cases=30000,
              inv=["TurnDecides", "ReverseFlips", "StartIrrelevant", "FlatIsNot"],
              thorough=dict(consts={"N": 2, "K": 6}))],
    ask=[dict(module="AskRingOrient", job="c04", n=6000, per=12, consts={"N": 0, "K": 0}, thorough=dict(n=60000))],
)

PROPS["C05"] = dict(
    gen=[dict(module="Measure", job="c05", spec="Spec", consts={"N": 2, "K": 4, "M": 4}, per=4, min_cases=20000,
              inv=["AreaLaws", "FanAgrees", "Accumulated"],
              thorough=dict(consts={"N": 2, "K": 5, "M": 5}))],
    ask=[dict(module="AskMeasure", job="c05", n=6000, per=12, consts={"N": 0, "K": 0, "M": 0}, thorough=dict(n=60000))],
)

PROPS["C06"] = dict(
    gen=[dict(module="Centroid", job="c06", spec="Spec", consts={"M": 3}, per=8, min_cases=3000,
              inv=["OrderFree", "DimensionDominates", "NoneIffEmpty", "RingLaws", "SnapLaws"],
              thorough=dict(consts={"M": 4}))],
    ask=[dict(module="AskCentroid", job="c06", n=6000, per=12, consts={"M": 0}, thorough=dict(n=60000))],
)

PROPS["C07"] = dict(
    gen=[dict(module="Dist", job="c07", spec="Spec", consts={"N": 2, "Z": 0}, per=6, min_cases=10000,
              inv=["IsMinimum", "ZeroIffMeet"], props=["Symmetric"],
              thorough=dict(consts={"N": 3, "Z": 0})),
         dict(module="Dist", job="c07", spec="Spec", consts={"N": 1, "Z": 1}, per=6, min_cases=4000,
              inv=["IsMinimum", "ZeroIffMeet"], props=["Symmetric"],
              thorough=dict(consts={"N": 1, "Z": 2}))],
    ask=[dict(module="AskDist", job="c07", n=8000, per=12, consts={"N": 0, "Z": 0}, thorough=dict(n=80000))],
)

PROPS["C08"] = dict(
    gen=[dict(module="Env", job="c08", spec="Spec", consts={"N": 2, "M": 3}, per=6, min_cases=10000,
              inv=["SetsAgree", "WellFormed"],
              thorough=dict(consts={"N": 3, "M": 4}, per=4))],
    ask=[dict(module="AskEnv", job="c08", n=8000, per=12, consts={"N": 0, "M": 0}, thorough=dict(n=80000))],
)

PROPS["C09"] = dict(
    gen=[dict(module="Oct", job="c09", spec="Spec", consts={"N": 2, "M": 3}, per=6, min_cases=10000,
              inv=["Tight", "Ordered", "Sound"],
              thorough=dict(consts={"N": 2, "M": 4}, per=4))],
    ask=[dict(module="AskOct", job="c09", n=8000, per=12, consts={"N": 0, "M": 0}, thorough=dict(n=80000))],
)

PROPS["C10"] = dict(
    gen=[dict(module="Mat", job="c10", spec="Spec", consts={"M": 3, "Vals": "{1}"}, min_cases=4000,
              inv=["TransposeLaws", "Implications"], props=["Monotone"],
              thorough=dict(consts={"M": 3, "Vals": "{0, 1, 2}"}))],
    ask=[dict(module="AskMat", job="c10", n=8000, consts={"M": 0, "Vals": "{}"}, thorough=dict(n=80000))],
)

PROPS["C11"] = dict(
    gen=[dict(module="CList", job="c11", spec="Spec", consts={"M": 3}, per=2, min_cases=10000,
              inv=["StrictNoRun", "Closed"], props=["Kept", "AllowedGrows"],
              thorough=dict(per=5, consts={"M": 3}))],
    ask=[dict(module="AskCList", job="c11", n=10000, consts={"M": 0}, thorough=dict(n=100000))],
)

PROPS["C12"] = dict(
    gen=[dict(module="CSeq", job="c12", spec="Spec", consts={"K": 4, "M": 1}, per=3, min_cases=10000,
              inv=["TwiceBack", "Uniform"], props=["Rearranged", "StaysRing"],
              thorough=dict(consts={"K": 4, "M": 2}, per=4)),
         dict(module="CSeq", job="c12", spec="Spec", consts={"K": 5, "M": 4}, per=3, min_cases=1000,
              simulate=dict(num=60, depth=5), inv=["TwiceBack", "Uniform"], props=["Rearranged", "StaysRing"],
              thorough=dict(simulate=dict(num=2500, depth=5)))],
    ask=[dict(module="AskCSeq", job="c12", n=12000, per=4, consts={"K": 0, "M": 0}, thorough=dict(n=100000))],
)

PROPS["C13"] = dict(
    gen=[dict(module="CArr", job="c13", spec="Spec", consts={"K": 5, "L": 3}, per=4, min_cases=10000,
              inv=["DedupLaws", "OrderLaws", "Direction", "Pieces"],
              thorough=dict(consts={"K": 6, "L": 4}))],
    ask=[dict(module="AskCArr", job="c13", n=10000, per=12, consts={"K": 0, "L": 0}, thorough=dict(n=400000))],
)

PROPS["C14"] = dict(
    gen=[dict(module="Order", job="c14", spec="Spec", consts={"Kinds": '{"coord", "env", "seg", "seq0", "seq2", "seq3", "point", "poly", "lpoly0", "lpoly2", "model"}'}, per=3, min_cases=15000,
              inv=["Preorder", "ZeroIsEqual"], thorough=dict(consts={"Kinds": '{"coord", "env", "seg", "seq0", "seq2", "seq3", "line", "point", "poly", "lpoly0", "lpoly2", "model"}'}, per=6))],
    ask=[dict(module="AskOrder", job="c14", n=12000, per=12, consts={"Kinds": "{}"}, thorough=dict(n=400000))],
)

PROPS["C15"] = dict(
    gen=[dict(module="Geom", job="c15", spec="Spec", per=3, min_cases=5000,
              consts={"Kinds": '{"P", "L", "R", "A", "MP", "ML", "MA"}', "Ops": '{"copy", "rev", "fork", "keep", "look", "init", "void"}', "M": 2, "Mode": '"facts"'},
              inv=["Involution", "Kept", "EqualLaws"],
              thorough=dict(consts={"Kinds": '{"P", "L", "R", "A", "MP", "ML", "MA"}', "Ops": '{"copy", "rev", "fork", "keep", "look", "init", "void"}', "M": 3, "Mode": '"facts"'}))],
    ask=[dict(module="AskGeom", job="c15", n=8000, per=6, consts={"Kinds": "{}", "Ops": "{}", "M": 0, "Mode": '"facts"'}, thorough=dict(n=30000))],
)

PROPS["C16"] = dict(
    gen=[dict(module="Geom", job="c16", spec="Spec", per=4, min_cases=5000,
              consts={"Kinds": '{"P", "L", "R", "A", "MP", "BOX"}', "Ops": '{"env", "rev", "copy", "norm", "fork"}', "M": 3, "Mode": '"box"'},
              inv=["Kept", "BoxTight", "NullIffEmpty"],
              thorough=dict(consts={"Kinds": '{"P", "L", "R", "A", "MP", "BOX"}', "Ops": '{"env", "rev", "copy", "norm", "fork", "keep"}', "M": 4, "Mode": '"box"'}))],
    ask=[dict(module="AskGeom", job="c16", n=10000, per=8, consts={"Kinds": "{}", "Ops": "{}", "M": 0, "Mode": '"box"'}, thorough=dict(n=40000))],
)

PROPS["C17"] = dict(
    gen=[dict(module="Norm", job="c17", spec="Spec", consts={"N": 2, "K": 4, "H": 2}, per=4, min_cases=3000,
              inv=["Idempotent", "SamePoints", "Shape"], props=["Canonical"],
              thorough=dict(consts={"N": 2, "K": 5, "H": 3}))],
    ask=[dict(module="AskNorm", job="c17", n=10000, per=6, consts={"N": 0, "K": 0, "H": 0}, thorough=dict(n=100000))],
)

PROPS["C18"] = dict(
    gen=[dict(module="Pm", job="c18", spec="Spec", consts={"Top": 100, "Big": "{16777200, 33554400, 67108800, 268435400, 1073741700}"}, min_cases=5000,
              inv=["Idempotent", "Close", "SingleClose"], props=["Monotone"],
              thorough=dict(consts={"Top": 1500, "Big": "{16777200, 33554400, 67108800, 134217700, 268435400, 536870900, 1073741700}"}))],
    ask=[dict(module="AskPm", job="c18", n=12000, per=6, consts={"Top": 0, "Big": "{}"}, thorough=dict(n=400000))],
)

PROPS["C19"] = dict(
    gen=[dict(module="Quad", job="c19", spec="Spec", consts={"N": 2}, min_cases=600,
              inv=["Tables"], props=["Turns"], thorough=dict(consts={"N": 4}))],
    ask=[dict(module="AskQuad", job="c19", n=12000, consts={"N": 0}, thorough=dict(n=400000))],
)

PROPS["C20"] = dict(
    gen=[dict(module="Seg", job="c20", spec="SSpec", emit="EmitSeg", consts={"N": 2, "Z": 0}, per=6, min_cases=7000,
              inv=["FootRight", "MirrorRight", "NearRight", "StraightRight"], props=["Undirected", "MeetsEither"],
              thorough=dict(consts={"N": 3, "Z": 0}))],
    ask=[dict(module="AskSeg", job="c20", n=12000, per=10, consts={"N": 0, "Z": 0}, thorough=dict(n=400000))],
)

PROPS["C21"] = dict(
    gen=[dict(module="Tri", job="c21", spec="Spec", consts={"N": 2}, per=6, min_cases=10000,
              inv=["Equidistant", "HeightRight", "Vertices"], props=["Relabel", "Turned"],
              thorough=dict(consts={"N": 3}))],
    ask=[dict(module="AskTri", job="c21", n=12000, per=10, consts={"N": 0}, thorough=dict(n=120000))],
)

PROPS["C22"] = dict(
    gen=[dict(module="Ang", job="c22", spec="Spec", consts={"N": 2, "T": 80}, per=6, min_cases=1500,
              inv=["Ranges", "Agree", "Circle"], props=["Together", "Turned"],
              thorough=dict(consts={"N": 4, "T": 200}))],
    ask=[dict(module="AskAng", job="c22", n=12000, per=10, consts={"N": 0, "T": 0}, thorough=dict(n=120000))],
)

PROPS["C23"] = dict(
    gen=[dict(module="Dd", job="c23", spec="Spec", consts={"M": 4, "Which": "{2, 3, 4, 5, 6}"}, per=8, min_cases=1500,
              inv=["Trimmed", "Order", "Ring", "Whole"],
              thorough=dict(consts={"M": 4, "Which": "{1, 2, 3, 4, 5, 6, 7}"}, per=14))],
    ask=[dict(module="AskDd", job="c23", n=12000, per=10, consts={"M": 0, "Which": "{}"}, thorough=dict(n=120000, per=14))],
)

PROPS["C24"] = dict(
    gen=[dict(module="Vec", job="c24", spec="Spec", consts={"M": 2, "N": 2, "Rank": 0}, per=4, min_cases=5000,
              inv=["VectorLaws"], thorough=dict(consts={"M": 3, "N": 3, "Rank": 0})),
         dict(module="Vec", job="c24", spec="Spec", consts={"M": 0, "N": 0, "Rank": 3}, per=2, min_cases=30000,
              inv=["Solves"], thorough=dict(consts={"M": 1, "N": 0, "Rank": 3}, props=["SameSolution"], simulate=dict(num=800, depth=8))),
         dict(module="Vec", job="c24", spec="Spec", consts={"M": 1, "N": 0, "Rank": 2}, per=4, min_cases=200,
              inv=["Solves"], props=["SameSolution"]),
         dict(module="Vec", job="c24", spec="Spec", consts={"M": 1, "N": 0, "Rank": 1}, per=4, min_cases=3,
              inv=["Solves"], props=["SameSolution"])],
    ask=[dict(module="AskVec", job="c24", n=12000, per=4, consts={"M": 0, "N": 0, "Rank": 0}, thorough=dict(n=120000))],
)

PROPS["C25"] = dict(
    gen=[dict(module="Num", job="c25", spec="Spec", consts={"N": 24, "D": 7}, per=5, min_cases=3000,
              inv=["InRange", "Clamped", "CeilRight"], props=["Onward"], thorough=dict(consts={"N": 60, "D": 16}))],
    ask=[dict(module="AskNum", job="c25", n=12000, per=6, consts={"N": 0, "D": 0}, thorough=dict(n=120000))],
)

PROPS["C26"] = dict(
    gen=[dict(module="Lift", job="c26", spec="LSpec", consts={"N": 2, "HS": 2}, per=4, min_cases=10000, emit="EmitLift",
              inv=["Within", "FlipSame", "SwapSame", "LiftAll"], props=["Raise"], thorough=dict(consts={"N": 3, "HS": 2}))],
    ask=[dict(module="AskLift", job="c26", n=20000, per=6, consts={"N": 0, "HS": 0}, thorough=dict(n=120000))],
)

PROPS["C27"] = dict(
    gen=[dict(module="Lines", job="c27", spec="Spec", consts={"N": 2}, per=8, min_cases=7000,
              inv=["OnBoth", "AbsentRight", "SegRight"], props=["Same"], thorough=dict(consts={"N": 3}, props=[]))],
    ask=[dict(module="AskLines", job="c27", n=20000, per=8, consts={"N": 0}, thorough=dict(n=120000))],
)

PROPS["C28"] = dict(
    gen=[dict(module="Make", job="c28", spec="Spec", consts={"M": 2, "Sizes": "{0, 1, 2, 4}"}, per=3, min_cases=5000,
              inv=["Shapely", "OneLayout"], props=["Kept", "Alone"], thorough=dict(consts={"M": 3, "Sizes": "{0, 1, 4}"})),
         dict(module="Make", job="c28", spec="Spec", consts={"M": 2, "Sizes": "{45}"}, per=2, min_cases=500, inv=["Shapely", "OneLayout"]),
         dict(module="Make", job="c28", spec="Spec", consts={"M": 9, "Sizes": "{0, 1, 4}"}, per=2, min_cases=2000,
              inv=["Shapely", "OneLayout"], simulate=dict(num=40, depth=10), thorough=dict(simulate=dict(num=600, depth=10)))],
)

PROPS["C29"] = dict(
    gen=[dict(module="Coord", job="c29", spec="Spec", consts={"N": 3, "M": 0}, per=4, min_cases=9000,
              inv=["OrderRight", "NearRight"], thorough=dict(consts={"N": 4, "M": 0})),
         dict(module="Coord", job="c29", spec="Spec", consts={"N": 0, "M": 2}, per=6, min_cases=1000,
              props=["Local"], thorough=dict(consts={"N": 0, "M": 3})),
         dict(module="Coord", job="c29", spec="Spec", consts={"N": 0, "M": 10}, per=3, min_cases=1000,
              simulate=dict(num=40, depth=11), thorough=dict(simulate=dict(num=800, depth=11)))],
    ask=[dict(module="AskCoord", job="c29", n=12000, per=6, consts={"N": 0, "M": 0}, thorough=dict(n=120000))],
)

PROPS["C30"] = dict(
    gen=[dict(module="Text", job="c30", spec="Spec", consts={"N": 3, "L": 3, "M": 0}, per=6, min_cases=150,
              inv=["Readable"], thorough=dict(consts={"N": 6, "L": 5, "M": 0})),
         dict(module="Text", job="c30", spec="Spec", consts={"N": 2, "L": 3, "M": 2}, per=3, min_cases=3000,
              inv=["Readable"], props=["OneNumber"], thorough=dict(consts={"N": 2, "L": 3, "M": 3}))],
    ask=[dict(module="AskText", job="c30", n=10000, per=4, consts={"N": 0, "L": 0, "M": 0}, thorough=dict(n=100000))],
)

# ordinates of incomparable size (module Wide)
for _p, _w, _inv in (("C01", "turn", ["TurnLaws"]), ("C02", "where", ["TurnLaws"]), ("C03", "cross", ["TurnLaws"]),
                     ("C04", "ccw", ["TurnLaws"]), ("C27", "meet", ["MeetingOnBoth"]), ("C21", "circum", ["CentreFair"])):
    _c = {"M": 0, "Which": "{}", "What": '{"%s"}' % _w}
    PROPS[_p]["gen"].append(dict(module="Wide", job="w_" + _w, spec="WSpec", emit="EmitWide", per=4, min_cases=10000, inv=_inv,
                                 consts=dict(_c, Ords="{1, 2, 3, 4, 5}"), thorough=dict(consts=dict(_c, Ords="{2, 4, 5, 7, 9}" if _w == "circum" else "{2, 3, 4, 5, 7, 9, 10}"), per=8)))
    PROPS[_p].setdefault("ask", []).append(dict(module="AskWide", job="w_" + _w, n=12000, per=6, consts=dict(_c, Ords="{}"), thorough=dict(n=100000, per=12)))
