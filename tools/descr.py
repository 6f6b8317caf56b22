NA = {}
D = []
def prop(id, title, statement, over, q, why, files, mech, observe=(), **kw):
    D.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": q}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe)}, **kw))
S = "ink_stroke_modeler/"
I = S + "internal/"
prop("P01", "A parameter set is accepted exactly when it meets the documented constraints",
  "ValidateStrokeModelParams and the validators of each parameter group return OK exactly when every field meets its documented constraint (finite, positive, non-negative, ordered, at least N, as documented), and InvalidArgument otherwise. NaN and infinite values are never accepted where a finite value is required, and the composite validator accepts exactly when all the groups do; constraints documented as applying only to an enabled feature are applied only then.",
  ["inputs", "configurations"], "every value of every field, including NaN, infinities, zero, subnormal and extreme integers, in any combination within one parameter group",
  "params_test.cc probes a few hand-picked invalid values per field; a boundary off by one, a NaN that slips through a negated comparison, or a dependency between two fields shows only for values no test uses.",
  [S + "params.cc", S + "params.h", I + "validation.h"],
  [("ValidateIsFiniteNumber / ValidateGreaterThanZero / ValidateGreaterThanOrEqualToZero", I + "validation.h"), ("Validate*Params", S + "params.cc")],
  ["ValidateStrokeModelParams", "Validate*Params"])
prop("P02", "Every call history gets the documented status codes",
  "For every sequence of Reset, Update, Predict, Save and Restore calls the status of each call is the documented one: FailedPrecondition before a successful Reset(params), for a down during a stroke and for a move or up outside one; InvalidArgument for non-finite positions or times, an unknown event type, an exact duplicate of the previous input, time going backwards, or a time gap needing more outputs than max_outputs_per_call; FailedPrecondition from Predict outside a stroke or with no predictor; OK otherwise. Every OK Update whose time advances adds at least one result and a rejected one adds none.",
  ["histories", "inputs"], "every sequence of calls (including calls on a never-initialised modeler, after failed calls, after Save/Restore and across strokes), with any input values",
  "Tests exercise a handful of hand-written histories, each ending at its first error; the status depends on state left behind by any earlier calls, failed ones included.",
  [S + "stroke_modeler.cc", S + "stroke_modeler.h"],
  [("StrokeModeler::Update/Predict/Reset/Save/Restore", S + "stroke_modeler.cc")], ["absl::Status of every public StrokeModeler call", "size of the results vector"])

NT = "Tests compare a few fixed strokes with golden values (and most modeler tests are not even part of the stable suite); a wrong term, order or boundary that those strokes do not excite goes unnoticed."
HT = "A test replays one history; state left behind in any of the sub-modelers by an earlier call shows only in some later call of some other history."
SM = [S + "stroke_modeler.cc", S + "stroke_modeler.h"]
SUB = SM + [I + "position_modeler.h", I + "wobble_smoother.cc", I + "stylus_state_modeler.cc", I + "loop_contraction_mitigation_modeler.cc", I + "prediction/kalman_predictor.cc", I + "prediction/stroke_end_predictor.cc"]
prop("P03", "A call that fails has no effect",
  "A call that returns an error (a rejected Update of any kind: duplicate, time going backwards, non-finite position or time, unknown event type, too long a gap, wrong event for the state; a Predict outside a stroke; a Reset with invalid parameters) changes nothing: it adds no results, and every later status and result is exactly what it would have been had the call not been made.",
  ["histories", "inputs"], "every history of accepted and failing calls, every offending value", HT, SUB,
  [("StrokeModeler::Update/Process*Event validation before state changes", S + "stroke_modeler.cc"), ("NumberOfStepsBetweenInputs", I + "position_modeler.cc")], ["statuses and results of all later Update and Predict calls"])
prop("P04", "Restore returns the modeler exactly to the last Save of the stroke",
  "After Save, any further calls of the same stroke (moves, ups, predictions, repeated restores) and Restore, the modeler behaves exactly as it did at the Save: every later status and result of Update and Predict is identical to that of a modeler that only got the inputs before the Save. Restore can be repeated, a later Save replaces the earlier one, Restore without a Save does nothing, and a Save made in an earlier stroke or before Reset is no longer restored after a new down or Reset.",
  ["histories", "inputs"], "every history of Save, Restore, Update and Predict calls, all input values", HT, SUB,
  [("StrokeModeler::Save/Restore", S + "stroke_modeler.cc"), ("Save/Restore of each sub-modeler", I)], ["statuses and results of all later Update and Predict calls"])
prop("P05", "A new stroke or a Reset starts afresh",
  "After an up, Reset() or Reset(params), nothing of the earlier strokes remains: statuses and results of everything that follows are exactly those of a new modeler reset with the parameters in force. Reset(params) makes the new parameters effective for all stages, Reset() keeps the current ones and abandons the stroke in progress.",
  ["histories", "inputs", "configurations"], "every history of strokes and resets, all input values", HT, SUB,
  [("StrokeModeler::Reset", S + "stroke_modeler.cc"), ("StrokeModeler::ProcessDownEvent resets the sub-modelers", S + "stroke_modeler.cc")], ["statuses and results of all later Update and Predict calls"])
prop("P06", "Predict is pure, and results depend only on this modeler's own inputs",
  "Predict changes nothing: calling it any number of times at any point leaves all later results of Update and Predict exactly as they would be without, and two predictions in a row are identical. Results are a function of the parameters and of the inputs accepted in the current stroke only: other StrokeModeler instances, whatever they do, have no influence.",
  ["histories", "inputs"], "every history, all input values, any use of other instances", HT, SUB,
  [("StrokeModeler::Predict works on copies", S + "stroke_modeler.cc"), ("InputPredictor::ConstructPrediction const", I + "prediction/input_predictor.h")], ["results of Predict", "later results of Update and Predict"])
prop("P07", "Update only appends to the results, Predict replaces them",
  "Update leaves the results already in the given vector untouched and in place and appends its own after them (none if it fails); Predict replaces the vector's content, leaving it empty when it fails. Statuses and the results produced do not depend on what the vector held before.",
  ["histories", "inputs"], "every history, any content of the vectors", HT, SM,
  [("ModelStylus appends", S + "stroke_modeler.cc"), ("StrokeModeler::Predict clears", S + "stroke_modeler.cc")], ["the results vectors of Update and Predict"])
prop("P08", "A down yields exactly one result: the input itself, at rest",
  "Every down with finite position and time that is accepted adds exactly one result, whose position, time, pressure, tilt and orientation are those of the input unchanged (whatever their values, unknown ones included) and whose velocity and acceleration are zero, independently of parameters and of earlier strokes; a second down is rejected and adds none.",
  ["inputs", "histories"], "all finite positions and times, all stylus values including NaN and infinities, after any history", "Tests use a few ordinary values; a clamp, wrap or residue of the previous stroke affects only others.", SM,
  [("StrokeModeler::ProcessDownEvent", S + "stroke_modeler.cc")], ["result of Update(down)"])
prop("P09", "Results keep the minimum output rate with the fewest samples, evenly spaced in time",
  "A move dt after the previous input adds n results, n the smallest number with n >= dt * min_output_rate and, when max_estimated_angle_to_traverse_per_input is set, n >= estimated turning angle / that limit (up to the rounding of dt to float); their times are strictly increasing, evenly spaced, and end at the input's time. An up adds these and then up to end_of_stroke_max_iterations more, with increasing times at most 1/min_output_rate apart. If n exceeds max_outputs_per_call the input is rejected with InvalidArgument, otherwise it is accepted.",
  ["inputs", "configurations"], "all time differences, rates, angle limits and max_outputs_per_call values within the bounds", NT,
  [I + "position_modeler.cc", I + "position_modeler.h", S + "stroke_modeler.cc"],
  [("NumberOfStepsBetweenInputs", I + "position_modeler.cc"), ("PositionModeler::UpdateAlongLinearPath", I + "position_modeler.h")], ["number and times of the results of Update"])
prop("P10", "Modeled positions follow the documented spring model",
  "For every accepted down, move and up, the modeled tip states (with the optional smoothing, projection and mitigation stages off) are exactly those of the documented model: a down starts the tip at rest at the input's position and time; between the previous and the current input the anchor moves along the straight line in equal steps of position and time; and for each step of length dt, acceleration = (anchor - position) / spring_mass_constant - drag_constant * velocity, then velocity += dt * acceleration, then position += dt * velocity. Results come in order of time, carry the state's velocity, acceleration and time, and a later stroke starts afresh.",
  ["inputs", "configurations", "histories"], "every stroke, all input positions and times, all spring and drag constants", NT,
  [I + "position_modeler.h", I + "position_modeler.cc", S + "stroke_modeler.cc"],
  [("PositionModeler::Update / UpdateAlongLinearPath", I + "position_modeler.h"), ("StrokeModeler::ProcessMoveEvent", S + "stroke_modeler.cc")], ["results of Update"])
prop("P11", "The end of a stroke is modeled as documented, on lifting and in stroke-end prediction",
  "On an up, the tip first moves to the up's position as for a move, then keeps advancing towards it by steps of 1/min_output_rate: a step shorter than end_of_stroke_stopping_distance ends the stroke, a step that overshoots the anchor is undone and retried with half the time step, otherwise its state is added, and the stroke ends when the tip is within the stopping distance; at most end_of_stroke_max_iterations steps are tried; at least one result is always added. Stroke-end prediction does the same from the last position received without changing the modeler's state, and may be empty.",
  ["inputs", "configurations", "histories"], "every stroke and up, all positions, spring constants and stopping distances", NT,
  [I + "position_modeler.h", I + "position_modeler.cc", I + "prediction/stroke_end_predictor.cc", S + "stroke_modeler.cc"],
  [("PositionModeler::ModelEndOfStroke", I + "position_modeler.h"), ("StrokeEndPredictor::ConstructPrediction", I + "prediction/stroke_end_predictor.cc"), ("StrokeModeler::ProcessUpEvent", S + "stroke_modeler.cc")], ["results of Update(up) and Predict"])
prop("P12", "Wobble smoothing is the time-weighted moving average, blended by mean speed",
  "With smoothing enabled each move is anchored at blend(average, raw): average is the duration-weighted mean position of the samples of the last timeout seconds, the blend goes linearly from the average at mean speed <= speed_floor to the raw position at >= speed_ceiling (distance travelled over time in the same window); samples older than the window never count; the first position and ups are not smoothed; with smoothing disabled, or while no time has passed, the raw position is used unchanged.",
  ["inputs", "configurations", "histories"], "all positions, times, window lengths and speed limits", NT,
  [I + "wobble_smoother.cc", I + "wobble_smoother.h", S + "stroke_modeler.cc"],
  [("WobbleSmoother::Update/Reset", I + "wobble_smoother.cc")], ["results of Update", "WobbleSmoother::Update"])
prop("P13", "Pressure, tilt and orientation come from the closest point of the raw stroke",
  "Each result's pressure, tilt and orientation are those of the raw input polyline (of the last max_input_samples inputs) at the point closest to the modeled tip, linearly interpolated between its two inputs, orientation along the shorter arc and normalised to [0, 2pi]; a field is -1 in every result from the moment any input of the stroke leaves it unknown (negative or NaN), independently of the other fields, and until the next down; before two inputs exist the nearest input's values are used. Scalar, vector, angle and result interpolation clamp their ratio to [0, 1].",
  ["inputs", "histories"], "all positions, stylus values (known or missing in any pattern) and query points", NT,
  [I + "stylus_state_modeler.cc", I + "stylus_state_modeler.h", I + "utils.h", I + "utils.cc"],
  [("StylusStateModeler::Update/Query", I + "stylus_state_modeler.cc"), ("InterpAngle / InterpResult / NearestPointOnSegment", I + "utils.h")], ["pressure, tilt, orientation of results", "StylusStateModeler::Query", "InterpAngle, Interp, Normalize01, NearestPointOnSegment"])
prop("P14", "With stroke-normal projection the raw state is found along the stroke normal, outside of the turn",
  "With use_stroke_normal_projection the raw state is taken where the line through the tip along the stroke normal meets the raw polyline: the nearest crossing on each side is kept, and if both sides have one, the side opposite to the acceleration is used; with no crossing the nearer end of the polyline is used. The normal is the left-hand orthogonal of the direction of motion (averaged over the step, of the acceleration alone when at rest, absent when both are zero). Raw inputs are kept until both min_input_samples and min_sample_duration are exceeded; position, velocity and acceleration of the raw state are interpolated too.",
  ["inputs", "histories", "configurations"], "all query points, accelerations, velocities and stylus values on bent polylines", NT,
  [I + "stylus_state_modeler.cc", I + "utils.cc", S + "stroke_modeler.cc"],
  [("ProjectAlongStrokeNormal", I + "stylus_state_modeler.cc"), ("GetStrokeNormal / ProjectToSegmentAlongNormal", I + "utils.cc")], ["StylusStateModeler::Query", "results of Update and Predict"])
prop("P15", "Loop contraction mitigation blends modeled and raw state by recent speed",
  "With the mitigation enabled each result is the interpolation between the projected raw state (strength 0) and the modeled state (strength 1), the strength going linearly from interpolation_strength_at_speed_lower_bound to interpolation_strength_at_speed_upper_bound as the mean speed of the recent results goes from speed_lower_bound to speed_upper_bound (clamped outside); recent means the results since both min_speed_sampling_window and min_discrete_speed_samples are exceeded, within the stroke. Without speeds yet, or disabled, the strength is 1. Predictions use but never change the speeds of the stroke.",
  ["inputs", "configurations", "histories"], "all velocities, bounds, strengths and stylus values", NT,
  [I + "loop_contraction_mitigation_modeler.cc", S + "stroke_modeler.cc"],
  [("LoopContractionMitigationModeler::Update/GetInterpolationValue", I + "loop_contraction_mitigation_modeler.cc"), ("ModelStylus", S + "stroke_modeler.cc")], ["LoopContractionMitigationModeler", "results of Update and Predict"])
prop("P16", "The Kalman prediction is the documented filter, connector and extrapolation",
  "With the Kalman predictor, Predict is empty until min_stable_iteration inputs of the stroke were received; then it is a cubic connector from the current tip to the filters' estimate (its number of steps set by the distance and the larger of the two speeds and min_catchup_velocity, at least one), followed by the cubic extrapolation of the estimate (weighted acceleration and jerk), in steps of 1/min_output_rate, over at most prediction_interval, shortened by the documented confidence (samples, estimation error, speed, linearity with its baseline). Each axis is filtered by the constant-jerk Kalman filter with the given process and measurement noise, in units of the mean time between the last max_time_samples inputs; every stroke and Reset starts with fresh filters.",
  ["inputs", "configurations", "histories"], "all observations, weights and strokes within the bounds", NT,
  [I + "prediction/kalman_predictor.cc", I + "prediction/kalman_filter/kalman_filter.cc", I + "prediction/kalman_filter/axis_predictor.cc", I + "prediction/kalman_filter/matrix.h"],
  [("KalmanPredictor::ConstructPrediction/GetEstimatedState", I + "prediction/kalman_predictor.cc"), ("KalmanFilter::Update", I + "prediction/kalman_filter/kalman_filter.cc")], ["results of Predict", "AxisPredictor", "KalmanPredictor::GetEstimatedState"])
prop("P17", "Results do not depend on the choice of axes and units",
  "The same stroke given in a coordinate system turned by a quarter or half turn or with its axes exchanged, or with lengths or times measured in other units (parameters converted accordingly), has the same statuses, numbers of results, predictions, pressures, tilts and orientations, and its positions, velocities, accelerations and times are the same ones expressed in that system. In particular no constant of a particular unit is hidden in the code, and the two coordinates are treated alike.",
  ["inputs", "configurations", "histories"], "every stroke, every parameter set, the stated changes of axes and units", "Golden tests fix one coordinate system and one unit; a threshold in absolute units or a term treating x and y differently shows only against the same stroke in another system.", SUB,
  [("parameter units", S + "params.h"), ("every stage", I)], ["results of Update and Predict"])
prop("P18", "No input, parameter set or history crashes, hangs or runs into undefined behaviour",
  "Every call of the public interface with any values (NaN, infinities, huge and tiny numbers, unknown enumeration values, missing stylus values) in any order returns in a bounded number of steps without a memory error, arithmetic undefined behaviour (integer overflow, float-to-integer conversion out of range, division by zero, bad shift or enum) or failed assertion; so do the primitives it is built on.",
  ["inputs", "histories", "configurations"], "all values, all call orders within the bounds", "Undefined behaviour and endless loops need particular extreme values (an angle of 1e30, a window that empties, a zero time step); tests use ordinary ones.", SUB + [I + "utils.h", I + "utils.cc", S + "params.cc"],
  [("InterpAngle", I + "utils.h"), ("NumberOfStepsBetweenInputs", I + "position_modeler.cc"), ("deque handling in WobbleSmoother, StylusStateModeler, LoopContractionMitigationModeler, KalmanPredictor", I)], ["process health during any call"])
prop("P19", "Value types compare, combine and validate by all their fields",
  "Vec2, Time and Duration arithmetic and comparison are those of their components; two Inputs or Results are equal exactly when every field is; ValidateInput accepts exactly known events with finite position and time; AbsoluteAngleTo fails exactly for non-finite vectors and else lies in [0, pi], is symmetric and 0 towards the zero vector; the 4-vectors and 4x4 matrices of the Kalman filter obey the usual definitions of sum, difference, product, outer and dot product, transposition and equality.",
  ["inputs"], "all values of all fields", "Tests compare a few hand-picked pairs; a field missing from a comparison or a wrong index shows only for values differing just there.",
  [S + "types.h", S + "types.cc", I + "prediction/kalman_filter/matrix.h"],
  [("operators of Vec2, Time, Duration, Input, Result", S + "types.h"), ("ValidateInput, Vec2::AbsoluteAngleTo", S + "types.cc"), ("Vec4, Matrix4", I + "prediction/kalman_filter/matrix.h")], ["the operators and functions themselves"])
prop("P20", "Results are finite, in range and in order",
  "For strokes of ordinary size (finite inputs) every result of Update and Predict has finite position, velocity, acceleration and time; times never decrease from one result of a stroke to the next, and predictions lie after the last input; when the pressures, tilts and orientations of all inputs lie in a range (not across the turn of the orientation), so do those of the results.",
  ["inputs", "histories", "configurations"], "all positions, stylus values and time steps within the bounds", "A division by a zero time step or a zero speed window gives NaN only for particular input timings; an extrapolated instead of interpolated pressure only for particular shapes.", SUB,
  [("KalmanPredictor::GetEstimatedState", I + "prediction/kalman_predictor.cc"), ("WobbleSmoother::Update", I + "wobble_smoother.cc"), ("Interp / InterpResult", I + "utils.h")], ["results of Update and Predict"])
prop("P21", "Text forms show every field",
  "ToFormattedString, AbslStringify and operator<< of Vec2, Time, Duration, Input, its event types and Result (and of the internal TipState, StylusState, Vec4 and Matrix4) show the current value of every field, each in its own place, all three alike; different event types, unknown ones included, have different texts.",
  ["inputs"], "all values of all fields", "Tests print one value of each type, with several fields equal; a field shown twice in place of another goes unnoticed.",
  [S + "types.cc", S + "types.h", I + "internal_types.cc", I + "prediction/kalman_filter/matrix.h"], [("ToFormattedString", S + "types.cc"), ("AbslStringify / operator<<", S + "types.h")], ["ToFormattedString", "operator<<"])
