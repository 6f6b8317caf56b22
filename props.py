"""What each check runs: harness x cases, engine flags, bounds."""
MP = ["--merge-ptr"]
BR3 = MP + ["--br-budget", "3"]
FAST = "--br-budget 3 --br-abs-ms 100 --br-ex-ms 30 --br-tries 2 --ob-abs-ms 300 --ob-ex-ms 50".split()
ZSA = FAST + ["--zero-sign-agnostic"]
MD0 = FAST + ["--merge-depth", "0"]
def R(cases, *defs, flags=FAST, **kw):
    return dict(harness="p_ref", cases=cases, defs=["-D" + d for d in defs], flags=flags, **kw)
def M(part, cases, flags=FAST, **kw):
    return dict(harness="p_mod", cases=cases, defs=["-DPART=%d" % part], flags=flags, **kw)
def E(part, cases, flags=ZSA, **kw):
    return dict(harness="p_edge", cases=cases, defs=["-DPART=%d" % part], flags=flags, must_reach=["end"], **kw)
MOVES = [0, 1, 2, 11, 14]
ENDS = [3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15]
def H(alpha, cases, depth, *defs, flags=FAST, **kw):
    return dict(harness="p_hist", cases=cases, defs=["-DALPHA=%d" % alpha, "-DDEPTH=%d" % depth] + ["-D" + d for d in defs], flags=flags, **kw)
def fl(sets, n): return [f * 16 + i for f in sets for i in range(n)]
def Q(quick, thorough): return {"quick": quick, "thorough": thorough}
def at(base, l): return [base + x for x in l]
OTH = [0, 3, 4, 7, 18, 19, 34, 39, 52, 55, 66, 71, 82, 87, 103, 113, 130, 150]
def S18(cases, *defs):
    return dict(harness="p18_safe", cases=cases, defs=["-DNOVALS"] + ["-D" + d for d in defs], flags=FAST, variant="ubsan")
SAFE_POS = [0, 1, 2, 3, 4, 5, 7, 10, 16, 17, 18, 19, 20, 21, 23, 26, 64, 65, 66, 67, 68, 71, 74, 84, 87, 96, 98, 100, 101, 103, 106]
SAFE_TIMES = [0, 4, 7, 8, 10, 16, 20, 23, 24, 26, 36, 39, 40, 42, 52, 55, 56, 58, 64, 68, 71, 72, 74, 84, 87, 88, 90, 96, 100, 103, 104, 106, 116, 119, 120, 122]
PROPS = {
 "P01": dict(
  units=[dict(harness="p01_params", cases=range(14), must_reach=["accepted", "rejected"])],
  bounds={"quick": "every field of every parameter struct any double/float/int incl. NaN and infinities; one struct at a time plus the composite; no loop bound needed"},
  outside="none of the fields; combinations of several invalid structs are covered through the composite validator case only",
 ),
 "P02": dict(
  units=[dict(harness="p02_protocol", cases={"quick": [c for c in range(80) if c < 16 or c >= 32], "thorough": range(80)},
              defs=["-DDEPTH=2"], must_reach=["end"]),
         dict(harness="p02_protocol", cases={"quick": [112, 120, 122, 123, 124, 125], "thorough": range(112, 128)}, flags=BR3, defs=["-DDEPTH=1"])],
  bounds={"quick": "5 call prefixes (never reset; reset; mid-stroke; saved+completed stroke; prediction disabled) x 3 further calls from 16 kinds (concrete positions/times, symbolic offending value), and x 2 calls with symbolic positions/times mid-stroke"},
  outside="longer histories; other parameter sets",
 ),
 "P03": dict(
  units=[H(3, fl(range(6), 10), 1, must_reach=["end"]), H(3, Q([1, 4], fl(range(6), 10)), 2), H(3, Q([0, 1, 2, 5, 6, 35], fl(range(6), 10)), 1, "PRE=4"), H(3, Q([4, 7, 9], fl(range(6), 10)), 1, "PRE=0"), H(3, Q([65], fl([4], 10)), 1, "POS=1"), H(3, Q(fl([0, 1, 2], 11), fl(range(6), 11)), 1, "PRE=4", "SAVED=2")],
  bounds={"quick": "2 or 4 inputs, then every sequence of 2-3 further calls from 10 kinds (ordinary and failing: duplicates, time going backwards, non-finite position or time of any kind, unknown event, gap too long, rejected parameters, predictions outside a stroke), then 4-9 probing calls; 6 parameter sets; any stylus values, any offending value; one parameter set with any positions"},
  outside="longer histories; histories with more than one unrelated failure between the probes are covered up to the stated length only",
 ),
 "P04": dict(
  units=[H(4, Q(fl([0, 2], 7), fl(range(6), 7)), 3, must_reach=["end"]), H(4, Q(fl([3, 5], 7), []), 2), H(4, Q([16, 17, 18], fl(range(6), 7)), 2, "PRE=5"), H(4, fl([0, 1], 7), 1, "PRE=7"), H(4, Q([1, 49, 81], at(1, fl(range(6), 1))), 2, "PRE=1"), H(4, Q([64, 65, 66, 67], fl([4], 7)), 1, "POS=1"), H(4, Q([], fl([0, 2], 7)), 4)],
  bounds={"quick": "2-7 inputs, then every sequence of 2-4 calls of move, Save, Restore, up, down, move with missing stylus values, Predict; then probing calls; 6 parameter sets; any stylus values; one parameter set with any positions"},
  outside="longer histories",
 ),
 "P05": dict(
  units=[H(5, Q(fl([0, 2, 3], 7), fl(range(6), 7)), 3, must_reach=["end"]), H(5, Q(fl([1, 5], 7), []), 2), H(5, Q([], fl([0, 2], 7)), 4), H(5, fl([0, 1, 2], 7), 1, "PRE=7"), H(5, fl([4], 7), 1, "POS=1"), R(OTH, "WHICH=7", "CONC=1", "LONG", "OTHER=2", flags=ZSA)],
  bounds={"quick": "2-7 inputs, then every sequence of 2-4 calls of move, up, down, Reset(), Reset(same parameters), Reset(other parameters), move with missing stylus values; then probing calls; 6 parameter sets; any stylus values; one parameter set with any positions"},
  outside="longer histories",
 ),
 "P06": dict(
  units=[H(6, Q([0, 1, 3, 4, 6, 32, 35], fl(range(6), 7)), 3, must_reach=["end"]), H(6, Q(fl([1, 3, 5], 7), []), 2), H(6, fl([0, 1, 2], 7), 1, "PRE=7"), H(6, Q([65], fl([4], 7)), 1, "POS=1"), H(6, Q([], fl([0, 2], 7)), 4), R(OTH, "WHICH=7", "CONC=1", "LONG", "OTHER=1", flags=ZSA)],
  bounds={"quick": "2-7 inputs, then every sequence of 2-4 calls of Predict (twice in a row), move, up, down, move at the same time, move with missing stylus values, use of another modeler; then probing calls; 6 parameter sets; any stylus values; one parameter set with any positions"},
  outside="longer histories; threads",
 ),
 "P07": dict(
  units=[H(7, Q(fl([0, 2], 9), fl(range(6), 9)), 2, must_reach=["end"]), H(7, Q(fl([1, 3, 5], 9), []), 1), H(7, Q(fl([0, 1], 9), fl(range(6), 9)), 1, "PRE=6"), H(7, Q([65], fl([4], 9)), 1, "POS=1"), H(7, Q([], fl([0, 2], 9)), 3), H(7, Q(fl([0, 1], 9), fl(range(6), 9)), 1, "FILL=60"), H(7, Q(fl([2, 5], 9), fl(range(6), 9)), 1, "JUNK=2")],
  bounds={"quick": "2-6 inputs, then every sequence of 2-3 calls of move, up, down, move at the same time, duplicate, time going backwards, Predict, Save, Restore, each done into a vector that already holds results (any values) and into an empty one; 6 parameter sets; any stylus values; one parameter set with any positions"},
  outside="longer histories; vectors of other sizes",
 ),
 "P08": dict(
  units=[dict(harness="p08_down", cases=range(48), flags=FAST, must_reach=["down"])],
  bounds={"quick": "down with any finite position and time and any stylus values (NaN and infinities included), after 8 histories, 6 parameter sets"},
  outside="other histories",
 ),
 "P09": dict(
  units=[dict(harness="p09_sampling", cases=Q([c for c in range(384) if c % 32 in (0, 1, 2, 4, 6, 9, 13, 19, 20, 21, 23, 26, 28, 31)], range(384)), defs=["-DPART=0"], flags=FAST, must_reach=["sampled", "rejected"]),
         dict(harness="p09_sampling", cases=range(240), defs=["-DPART=1"], flags=FAST, must_reach=["sampled", "far"]),
         dict(harness="p09_sampling", cases=range(32), defs=["-DPART=2"], flags=FAST, must_reach=["sampled"]),
         dict(harness="p09_sampling", cases=Q([c for c in range(256) if c % 32 in (0, 1, 2, 3, 5, 8, 13, 31)], range(256)), defs=["-DPART=3"], flags=FAST, must_reach=["sampled", "rejected"]),
         R(at(128, [0, 1, 2, 4, 5, 7, 11, 12]), "WHICH=3", "CONC=1"), R(range(8), "WHICH=2", "LONG", "CONC=1", "STEPS=5", "ITERS=5")],
  bounds={"quick": "6 output rates (7 to 1000 Hz); a move or up any time after the input before, needing 1 to 41 results (whole modeler, 3 starting times) and any dt from 3e-8 s to 8e3 s (step count alone); any max_outputs_per_call; turning angle: 4 strokes, any limit asking for 1 to 8 steps"},
  outside="other rates; result times with more than 41 results per input",
 ),
 "P10": dict(
  units=[R(MOVES, "WHICH=3", must_reach=["moved"]), R(MOVES, "WHICH=3", "STEPS=2"), R([0, 1, 3, 4], "WHICH=3", "STEPS=10"), R([12], "WHICH=3", "CONC=1", "STEPS=11"), R(MOVES, "WHICH=3", "STEPS=3"), R(range(12), "WHICH=3", "SAME"), R([0, 3, 5], "WHICH=3", "LONG"),
         R(at(128, [0, 1, 2, 7, 11]), "WHICH=3", "CONC=1"), R(at(0, [0, 3, 5]), "WHICH=3", "CONC=1", "LONG", "STEPS=5", "ITERS=5"), R(MOVES, "WHICH=3", "RATE=20"), R(MOVES, "WHICH=3", "RATE=1000"), R([0, 3, 5], "WHICH=3", "CONC=1", "LONG", "STEPS=2", "RATE=7")],
  bounds={"quick": "strokes of up to 11 moves (also several at one time), 1-3 modeled states per input (10 in strokes of 1-2); any positions up to 100 in magnitude, any spring mass 1e-5..5e-4, drag 1..150; times within 0.5 ms windows; turning-angle sampling on fixed strokes"},
  outside="longer strokes, larger coordinates, more than 3 states per input with symbolic positions, 5 on fixed strokes (sampling counts themselves: P09)",
 ),
 "P11": dict(
  units=[E(1, range(48)), R(ENDS, "WHICH=3", must_reach=["moved"]), R([c for c in ENDS if c not in (10, 15)], "WHICH=3", "STEPS=2", "ITERS=3"),
         R([1, 2, 3], "WHICH=3", "LONG"), R([4, 5, 6, 9], "WHICH=3", "SAME"), R(range(8), "WHICH=3", "CONC=1", "LONG", "STEPS=2", "ITERS=5"), R(at(0, ENDS), "WHICH=3", "CONC=9", "ITERS=12"), R([3, 4, 6, 7], "WHICH=3", "RATE=20"), R([3, 4, 6, 7], "WHICH=3", "RATE=1000"), R([1, 2, 3], "WHICH=3", "CONC=9", "LONG", "RATE=7", "ITERS=6")],
  bounds={"quick": "ups and stroke-end predictions after up to 8 moves; 2-3 iterations with any positions, spring and stopping distance 1e-3..10; 5-12 iterations on fixed strokes"},
  outside="more iterations with symbolic positions",
 ),
 "P12": dict(
  units=[E(0, range(12)), M(0, range(100), must_reach=["smoothed"]), R([16, 17, 19, 23], "WHICH=3"), R(range(16, 28), "WHICH=3", "SAME", "CONC=1", "WFLOOR=150"), R(range(16, 24), "WHICH=3", "CONC=1", "LONG", "WFLOOR=150"), R(range(16, 24), "WHICH=3", "CONC=1", "LONG", "STEPS=2", "WFLOOR=1000")],
  bounds={"quick": "smoother alone: 1-5 updates, any positions up to 100, any speed floor/ceiling up to 2000, windows of 7.8 ms, 15.6 ms and 1 s, regular times, times on the edge of the window, pauses, equal times, a stroke after another; whole modeler: 1-2 moves symbolic, up to 11 moves fixed with partial and full smoothing"},
  outside="more updates in the window",
 ),
 "P13": dict(
  units=[E(2, range(16)), M(1, range(40), must_reach=["queried"]), M(5, range(11)), M(9, range(18), must_reach=["unknown", "known"]), R(range(8), "WHICH=4", "CONC=1", "LONG"), R(range(12), "WHICH=4", "CONC=1", "SAME", "UNKNOWN=1"), R(range(8), "WHICH=4", "CONC=1", "LONG", "UNKNOWN=1"), R(range(8), "WHICH=4", "CONC=1", "LONG", "UNKNOWN=2"), R(range(8), "WHICH=4", "CONC=1", "LONG", "UNKNOWN=3"), R([14, 15], "WHICH=4", "CONC=1", "UNKNOWN=3")],
  bounds={"quick": "1-4 raw inputs with any positions up to 100 and any stylus values, any query point; 5 patterns of missing values; interpolation of any two angles in 8 ranges; whole modeler: up to 11 fixed positions, any pressures and tilts"},
  outside="more than 4 raw inputs with symbolic positions",
 ),
 "P14": dict(
  units=[E(2, range(16, 32)), M(2, [c for c in range(192) if c % 16 in (1, 2, 3, 7, 15)] + [c for c in range(192, 256) if c % 16 < (3 if c % 64 < 16 else 2)], flags=MD0, must_reach=["queried"]), M(3, range(4)), R(range(32, 48), "CONC=1"), R(range(32, 44), "CONC=1", "SAME"), R(range(32, 40), "CONC=1", "LONG", "STEPS=2", "ITERS=5"), R(range(144, 160), "CONC=1", flags=ZSA)],
  bounds={"quick": "1-4 raw inputs on 3 bent shapes, 3 directions of the normal and none, any query point, any acceleration, any stylus values; normal: any position, velocity, acceleration up to 100; whole modeler: up to 11 fixed positions, any pressures and tilts"},
  outside="symbolic polylines and normals together",
 ),
 "P15": dict(
  units=[E(3, range(24)), M(4, range(27), must_reach=["end"]), R(range(48, 80), "CONC=1"), R(range(48, 60), "CONC=1", "SAME"), R(list(range(48, 56)) + list(range(64, 72)), "CONC=1", "LONG", "STEPS=2", "ITERS=5"), R(list(range(48, 56)) + list(range(64, 72)), "CONC=1", "LONG", "DISC=3"), R([52, 54, 56, 57, 58, 59], "CONC=1", "SAME", "DISC=5")],
  bounds={"quick": "mitigation alone: up to 4 samples, any velocities up to 1000, any bounds and strengths, 3 window settings; whole modeler: up to 11 fixed positions, any strengths, pressures and tilts"},
  outside="longer speed windows with symbolic velocities",
 ),
 "P16": dict(
  units=[E(4, range(48)), M(6, range(72), flags=ZSA, must_reach=["end"]), M(7, range(24), flags=ZSA, must_reach=["estimated"]), M(8, range(45), flags=ZSA, must_reach=["end"]),
         R([80, 86, 87, 88, 93, 95, 104], flags=ZSA), R([86, 87, 88, 89, 93, 95, 104], "KVAR=2", flags=ZSA)] +
        [R([82, 84, 86, 87, 98, 100, 103, 146, 148], "WHICH=3", "CONC=%d" % (1 if k % 2 else 3), "LONG", "KVAR=%d" % k, flags=ZSA) for k in range(4)] +
        [R([82, 84, 87, 146], "WHICH=3", "CONC=1", "LONG", "KVAR=2", "RATE=60", flags=ZSA), R(range(80, 92), "WHICH=3", "CONC=1", "SAME", "KVAR=0", flags=ZSA), R(range(80, 92), "WHICH=3", "CONC=1", "SAME", "KVAR=2", flags=ZSA), R([92, 93, 108, 109, 156, 157], "WHICH=3", "CONC=1", "SAME", "KVAR=1", flags=ZSA)],
  bounds={"quick": "each filter: 1-6 observations of any size up to 1e3, 3 noise settings, fresh and after Reset; estimate: 1-6 inputs anywhere up to 100, any weights; whole prediction: strokes with positions in narrow bands (any value inside) and on fixed bent strokes up to 11 moves, 5 predictor settings"},
  outside="longer filters; prediction lengths other than those of the strokes used",
 ),
 "P17": dict(
  units=[dict(harness="p17_sym", cases=Q([c for c in range(144) if c % 16 in ((0, 1, 3, 4, 6, 7, 9, 11, 14, 15) if k == 0 else (3, 4, 7, 9, 14) if k in (3, 4) else (4, 7, 9))], range(144)), defs=["-DTURN=%d" % k], flags=ZSA, must_reach=["end"]) for k in range(7)] +
        [E(5, range(20)), dict(harness="p17_sym", cases=[0, 1, 16, 17, 80, 81, 112], defs=["-DTURN=0", "-DSYMPOS"], flags=ZSA)],
  bounds={"quick": "16 strokes on fixed bent paths (up to 11 moves, ups, predictions, second strokes), 9 parameter sets with every stage and predictor on; any pressures, tilts and mitigation strengths; quarter and half turns, exchange of the axes, lengths in units of 8192 and 2^-20, times in units of 16 and 1/256; short strokes also with any positions up to 100"},
  outside="angles other than multiples of a quarter turn and units other than powers of two, where rounding differs"),
 "P18": dict(
  units=[dict(harness="p18_prim", cases=list(range(1, 15)) + list(range(20, 84)), flags=FAST, variant="ubsan", must_reach=["end"]),
         S18(range(128)), S18(range(128), "ORI=1"), S18(range(128), "ORI=2"), S18(SAFE_POS, "POS=1"), S18(SAFE_TIMES, "TIMES=1"),
         dict(harness="p01_params", cases=range(14), variant="ubsan"),
         dict(harness="p02_protocol", cases=Q([c for c in range(80) if c < 16 or c >= 32], range(80)), defs=["-DDEPTH=1"], variant="ubsan")],
  bounds={"quick": "compiled with the undefined-behaviour checks as traps (overflow, float-to-int conversion, division, shifts, null, bounds, enum and bool values, missing returns) and memory accesses checked by the engine; primitives: any floats at all, NaN and infinities included; whole modeler: 16 scripts, 8 parameter sets, any stylus values, huge, infinite and NaN orientations; positions any up to 100 and any time steps on a part of them; every call kind with any offending value"},
  outside="positions beyond 100 (the Kalman predictor converts an overflowing float to int for positions around 1e9 and beyond, see DESIGN.md); allocation failure"),
 "P19": dict(
  units=[dict(harness="p19_types", cases=[c for c in range(36) if c != 17], flags=ZSA, must_reach=["end"]), dict(harness="p19_types", cases=[17], flags=ZSA + ["--merge-depth", "0"])],
  bounds={"quick": "any values of every field (NaN and infinities included) for Vec2, Duration, Time, Input, Result; angles of vectors up to 1e6; matrices and vectors with entries up to 1e3"},
  outside="text forms (ToFormattedString, operator<<)"),
 "P21": dict(
  units=[dict(harness="p21_text", cases=range(10), flags=FAST, must_reach=["end"])],
  bounds={"quick": "any values of every field except NaN, any event type; number formatting replaced by writing the value's bytes"},
  outside="the digits themselves (made by Abseil: values that agree to six digits share a text)"),
 "P20": dict(
  units=[dict(harness="p18_safe", cases=range(128), defs=["-DROUND=1"], flags=FAST, must_reach=["end"]), dict(harness="p18_safe", cases=range(128), flags=FAST),
         dict(harness="p18_safe", cases=range(128), defs=["-DROUND=1", "-DSCL=1e-25f"], flags=FAST), dict(harness="p18_safe", cases=range(128), defs=["-DROUND=1", "-DSCL=1e5f"], flags=FAST),
         dict(harness="p18_safe", cases=SAFE_POS, defs=["-DPOS=1"], flags=FAST), dict(harness="p18_safe", cases=SAFE_TIMES, defs=["-DTIMES=1"], flags=FAST)],
  bounds={"quick": "16 scripts, 8 parameter sets; any stylus values on fixed paths; any positions up to 100 (without projection, short strokes), any time steps from .1 to 11 ms"},
  outside="larger coordinates; symbolic positions with projection along the normal"),
}
