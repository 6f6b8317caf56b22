#!/usr/bin/env python3
"""Development aid: runs checks on a scratch copy of /repo with one small change each.
usage: mutants.py [PROP ...]; prints caught / MISSED per change."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "ink_stroke_modeler/internal/"
SM = "ink_stroke_modeler/stroke_modeler.cc"
K = I + "prediction/kalman_predictor.cc"
MUT = [
 ("P10", I + "position_modeler.cc", "drag_constant * state_.velocity", "drag_constant * state_.velocity * .999f"),
 ("P10", I + "position_modeler.h", "static_cast<float>(i) / n_samples;", "static_cast<float>(i) / n_samples; if (i == 2) interp_value += .01f;"),
 ("P10", SM, "last_input_ = {.input = input, .corrected_position = corrected_position};", "last_input_ = {.input = input, .corrected_position = n_steps.value() > 0 ? corrected_position : last_input_->corrected_position};"),
 ("P11", I + "position_modeler.h", "delta_time *= .5;", "delta_time *= (i > 0 ? .25 : .5);"),
 ("P11", I + "position_modeler.h", "if (closest_t < 1) {", "if (closest_t < 1 && i + 1 < max_iterations) {"),
 ("P11", I + "position_modeler.h", "i < max_iterations", "i <= max_iterations"),
 ("P11", I + "position_modeler.h", "if (Distance(candidate.position, anchor_position) < stop_distance)", "if (Distance(previous_state.position, anchor_position) < stop_distance)"),
 ("P12", I + "wobble_smoother.cc", "while (state_.samples.front().time < time - params_.timeout)", "while (state_.samples.front().time <= time - params_.timeout)"),
 ("P12", I + "wobble_smoother.cc", "    state_.distance_sum -= state_.samples.front().distance;\n", ""),
 ("P12", I + "wobble_smoother.cc", "while (state_.samples.front()", "if (state_.samples.front()"),
 ("P12", I + "wobble_smoother.cc", "  state_.duration_sum = 0;\n", ""),
 ("P13", I + "stylus_state_modeler.cc", "state.tilt < 0 || std::isnan(state.tilt)", "state.tilt < 0"),
 ("P13", I + "stylus_state_modeler.cc", "states.size() > params.max_input_samples", "states.size() >= params.max_input_samples"),
 ("P13", I + "utils.h", "} else if (delta > kPi) {", "} else if (delta > 2 * kPi) {"),
 ("P13", I + "utils.cc", "start.tilt < 0 || end.tilt < 0", "start.tilt < 0"),
 ("P13", I + "stylus_state_modeler.cc", "if (state_.received_unknown_tilt) {", "if (state_.received_unknown_tilt && state_.received_unknown_pressure) {"),
 ("P13", I + "stylus_state_modeler.cc", "  state_.received_unknown_tilt = false;\n", ""),
 ("P14", I + "stylus_state_modeler.cc", "? best_right_projection\n               : best_left", "? best_left_projection\n               : best_right"),
 ("P14", I + "stylus_state_modeler.cc", "if (distance < best_distance) {", "if (true) {"),
 ("P14", I + "utils.cc", "if (param < 0 || param > 1)", "if (param < 0 || param >= 1)"),
 ("P14", I + "stylus_state_modeler.cc", "raw_input_and_stylus_states[1].time) > params", "raw_input_and_stylus_states[0].time) > params"),
 ("P14", I + "stylus_state_modeler.cc", "(velocity - state_.raw_input_and_stylus_states.back().velocity) /", "(velocity) /"),
 ("P14", I + "utils.cc", "return orthogonal(tip_state.acceleration);", "return tip_state.acceleration;"),
 ("P14", SM, "    prev_time = tip_state.time;\n", ""),
 ("P15", I + "loop_contraction_mitigation_modeler.cc", "static_cast<int>(speed_samples_.size()) >", "static_cast<int>(speed_samples_.size()) >="),
 ("P15", I + "loop_contraction_mitigation_modeler.cc", "speed_samples_.size();", "(speed_samples_.size() + (speed_samples_.size() > 3));"),
 ("P15", SM, "result.back().velocity, tip_state.time);", "tip_state.velocity, tip_state.time);"),
 ("P15", SM, "  LoopContractionMitigationModeler prediction_loop_modeler =", "  LoopContractionMitigationModeler& prediction_loop_modeler = const_cast<StrokeModeler*>(this)->"),
 ("P16", K, "estimated_state.jerk /= dt_cubed", "estimated_state.jerk /= dt_squared"),
 ("P16", K, "            sample_times_.size();", "            (sample_times_.size() > 4 ? sample_times_.size() - 1 : sample_times_.size());"),
 ("P16", K, "  sample_times_.clear();\n", ""),
 ("P16", K, "  y_predictor_.Reset();\n", ""),
 ("P16", K, "std::max(max_velocity_at_ends, params.min_catchup_velocity)", "(max_velocity_at_ends + params.min_catchup_velocity)"),
 ("P16", K, "params.max_linear_deviation", "params.max_linear_deviation * 2"),
 ("P16", K, "baseline_linearity_confidence, 1.f", "baseline_linearity_confidence * .9f, 1.f"),
 ("P16", I + "prediction/kalman_filter/kalman_filter.cc", "  error_covariance_matrix_ = Matrix4();  // identity\n", ""),
 ("P16", I + "prediction/kalman_filter/kalman_filter.cc", "I_KH * error_covariance_matrix_ * I_KH.Transpose() +", "I_KH * error_covariance_matrix_ +"),
 ("P02", SM, "  save_active_ = false;\n}\n\nabsl::Status StrokeModeler::Update", "}\n\nabsl::Status StrokeModeler::Update"),
 # 38..
 ("P03", SM, "  // Note that many of the sub-modelers require some knowledge about the stroke\n  // (e.g. start position, input type) when resetting, and as such are reset in\n  // ProcessTDown() instead.\n  stroke_model_params_ = stroke_model_params;\n", "  stroke_model_params_ = stroke_model_params;\n"),  # placeholder, equivalent
 ("P03", SM, "  if (auto status = ValidateStrokeModelParams(stroke_model_params);\n      !status.ok()) {\n    return status;", "  if (auto status = ValidateStrokeModelParams(stroke_model_params);\n      !status.ok()) {\n    save_active_ = false; last_input_.reset();\n    return status;"),
 ("P03", SM, "    if (input.time < last_input_->input.time) {\n", "    if (input.time < last_input_->input.time) {\n      stylus_state_modeler_.Restore();\n"),
 ("P03", SM, "  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(\n      position_modeler_.CurrentState(), last_input_->input, input,\n      stroke_model_params_->sampling_params,\n      stroke_model_params_->position_modeler_params);\n  if (!n_steps.ok()) {\n    return n_steps.status();\n  }\n  tip_state_buffer_", "  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(\n      position_modeler_.CurrentState(), last_input_->input, input,\n      stroke_model_params_->sampling_params,\n      stroke_model_params_->position_modeler_params);\n  if (!n_steps.ok()) {\n    last_input_ = std::nullopt;\n    return n_steps.status();\n  }\n  tip_state_buffer_"),
 ("P03", SM, "        \"Received down event while stroke is in-progress\");", "        (wobble_smoother_.Reset(stroke_model_params_->wobble_smoother_params, input.position, input.time), \"Received down event while stroke is in-progress\"));"),
 ("P04", SM, "  loop_contraction_mitigation_modeler_.Save();\n", ""),
 ("P04", SM, "    predictor_ = saved_predictor_->MakeCopy();", "    predictor_ = std::move(saved_predictor_);"),
 ("P04", I + "position_modeler.h", "if (saved_state_.has_value()) state_ = *saved_state_;", "if (saved_state_.has_value()) { state_ = *saved_state_; saved_state_.reset(); }"),
 ("P04", I + "wobble_smoother.cc", "  if (save_active_) state_ = saved_state_;", "  if (save_active_ && !saved_state_.samples.empty()) { state_.samples = saved_state_.samples; state_.duration_sum = saved_state_.duration_sum; state_.weighted_position_sum = saved_state_.weighted_position_sum; }"),
 ("P04", I + "stylus_state_modeler.cc", "    state_ = saved_state_;\n", "    state_.raw_input_and_stylus_states = saved_state_.raw_input_and_stylus_states; state_.received_unknown_pressure = saved_state_.received_unknown_pressure; state_.received_unknown_tilt |= saved_state_.received_unknown_tilt; state_.received_unknown_orientation = saved_state_.received_unknown_orientation;\n"),
 ("P05", SM, "  loop_contraction_mitigation_modeler_.Reset(\n      stroke_model_params_->position_modeler_params\n          .loop_contraction_mitigation_params);\n\n  stylus", "  stylus"),
 ("P05", SM, "    predictor_->Reset();\n", ""),
 ("P05", I + "loop_contraction_mitigation_modeler.cc", "  speed_samples_.clear();\n", ""),
 ("P05", I + "wobble_smoother.cc", "  state_.distance_sum = 0;\n", ""),
 ("P06", SM, "  LoopContractionMitigationModeler prediction_loop_modeler =", "  LoopContractionMitigationModeler& prediction_loop_modeler = const_cast<StrokeModeler*>(this)->"),
 ("P06", SM, "  tip_state_buffer_.clear();\n  tip_state_buffer_.reserve(*n_steps);\n", "  if (*n_steps > 0) tip_state_buffer_.clear();\n  tip_state_buffer_.reserve(*n_steps);\n"),
 ("P06", SM, "  position_modeler_.Reset({.position = input.position, .time = input.time},\n                          stroke_model_params_->position_modeler_params);", "  static const PositionModelerParams first = stroke_model_params_->position_modeler_params;\n  position_modeler_.Reset({.position = input.position, .time = input.time}, first);"),
 ("P07", SM, "  result.reserve(tip_states.size());\n", "  if (result.size() > 40) result.clear();\n  result.reserve(tip_states.size());\n"),
 ("P07", SM, "    result.push_back(\n        InterpResult(projected_state, modeled_state, interp_value));", "    if (!result.empty() && result.back().time == tip_state.time) result.pop_back();\n    result.push_back(\n        InterpResult(projected_state, modeled_state, interp_value));"),
 ("P08", SM, "                    .orientation = input.orientation});\n  return", "                    .orientation = std::fmod(input.orientation, 6.2831855f)});\n  return"),
 ("P08", SM, "                    .tilt = input.tilt,\n                    .orientation = input.orientation});\n  return", "                    .tilt = input.tilt < 0 ? -1 : input.tilt,\n                    .orientation = input.orientation});\n  return"),
 ("P09", I + "position_modeler.cc", "std::min(std::ceil(float_delta * sampling_params.min_output_rate),", "std::min(std::ceil(float_delta * sampling_params.min_output_rate - 1e-3),"),
 ("P09", I + "position_modeler.cc", "  if (n_steps > sampling_params.max_outputs_per_call) {", "  if (n_steps > sampling_params.max_outputs_per_call && n_steps > 1) {"),
 ("P09", I + "position_modeler.cc", "    if (steps_for_angle > n_steps) {", "    if (steps_for_angle > n_steps + 1) {"),
 ("P09", I + "position_modeler.cc", "        std::ceil(*estimated_angle /", "        std::round(*estimated_angle /"),
 ("P09", I + "position_modeler.h", "      Time time = Interp(start_time, end_time, interp_value);", "      Time time = Interp(start_time, end_time, n_samples > 12 ? interp_value * interp_value : interp_value);"),
 # 63..: second round
 ("P10", SM, "      last_input_->corrected_position, last_input_->input.time,\n      corrected_position, input.time, *n_steps,", "      last_input_->corrected_position, position_modeler_.CurrentState().time,\n      corrected_position, input.time, *n_steps,"),
 ("P10", I + "position_modeler.cc", "  state_.velocity += delta_time.Value() * state_.acceleration;", "  state_.velocity += std::min(delta_time.Value(), .02) * state_.acceleration;"),
 ("P11", SM, "Duration(1. / stroke_model_params_->sampling_params.min_output_rate),", "Duration(1. / std::max(100., stroke_model_params_->sampling_params.min_output_rate)),"),
 ("P11", I + "position_modeler.h", "        state_ = previous_state;\n", "        state_.position = previous_state.position; state_.time = previous_state.time;\n"),
 ("P11", SM, "    tip_state_buffer_.push_back(position_modeler_.CurrentState());", "    tip_state_buffer_.push_back({.position = input.position, .time = input.time});"),
 ("P12", I + "wobble_smoother.cc", "  if (state_.duration_sum == 0) {", "  if (state_.duration_sum == 0 || delta_time.Value() == 0) {"),
 ("P12", SM, "Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);", "Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time); if (input.pressure == 0) corrected_position = input.position;"),
 ("P13", I + "stylus_state_modeler.cc", "    if (distance <= min_distance) {", "    if (distance < min_distance) {"),
 ("P13", I + "stylus_state_modeler.cc", "      state_.received_unknown_orientation) {\n    // We've", "      state_.received_unknown_tilt) {\n    // We've"),
 ("P15", I + "loop_contraction_mitigation_modeler.cc", "speed_samples_.clear();", "if (speed_samples_.size() > 1) speed_samples_.clear();"),
 ("P16", K, "predictor_params_.max_time_samples)) {", "predictor_params_.max_time_samples) + 1) {"),
 ("P16", K, "  last_position_received_ = position;\n", "  if (sample_times_.empty() || time != sample_times_.back()) last_position_received_ = position;\n"),
 ("P16", I + "prediction/stroke_end_predictor.cc", "last_position_", "last_position_"),
 ("P18", I + "utils.h", "    if (angle < -2 * kPi || angle > 4 * kPi) angle = std::fmod(angle, 2 * kPi);\n", ""),
 ("P20", K, "  if (!(dt_cubed > 0)) return std::nullopt;\n", ""),
 ("P18", I + "position_modeler.cc", "        \"Please check", "        \"Please check"),
 ("P18", I + "wobble_smoother.cc", "while (state_.samples.front().time < time - params_.timeout)", "while (state_.samples.front().time <= time - params_.timeout || state_.samples.size() > 5)"),
 ("P18", I + "stylus_state_modeler.cc", "raw_input_and_stylus_states.size() < 2", "raw_input_and_stylus_states.size() < 1"),
 ("P17", I + "utils.cc", "{-v.y, v.x}", "{-v.y, v.x * 1.001f}"),
 ("P17", K, "estimated_state.position.x", "estimated_state.position.x"),
 ("P17", I + "wobble_smoother.cc", "delta_time.Value() == 0", "delta_time.Value() < 1e-4"),
 ("P19", "ink_stroke_modeler/types.h", "lhs.tilt == rhs.tilt && ", ""),
 ("P19", "ink_stroke_modeler/types.h", "  lhs.y -= rhs.y;\n", "  lhs.y -= rhs.x - rhs.x + rhs.y; if (lhs.x != lhs.x) lhs.y = lhs.x;\n"),
 ("P19", "ink_stroke_modeler/types.cc", "std::clamp(dot, -1.f, 1.f)", "std::clamp(dot, -.999f, 1.f)"),
 ("P19", "ink_stroke_modeler/types.cc", "!IsFinite() || !other.IsFinite()", "!IsFinite() && !other.IsFinite()"),
 ("P20", I + "utils.h", "  return Clamp01((value - start) / (end - start));", "  return (value - start) / (end - start);"),
 ("P20", I + "utils.h", "  return start + (end - start) * Clamp01(interp_amount);", "  return start + (end - start) * interp_amount;"),
 ("P20", I + "utils.h", "  if (squared_length == 0) return 0;", ""),
 ("P20", SM, "    prev_time = tip_state.time;\n", ""),
]
def main():
    want = sys.argv[1:]
    d = "/tmp/mm/repo"
    for n, (p, f, a, b) in enumerate(MUT):
        if want and p not in want and str(n) not in want:
            continue
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo/.", d + "/"] if os.path.isdir(d) else ["cp", "-a", "/repo", d], check=True)
        s = open(d + "/" + f).read()
        if a not in s:
            print(n, p, "NOT FOUND", a[:60]); continue
        open(d + "/" + f, "w").write(s.replace(a, b, 1))
        r = subprocess.run(["python3", V + "/check.py", p, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VP_REPO=d), cwd=V)
        ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        w = re.search(r"wall=(\S+)", r.stdout)
        print(n, p, "caught" if ok else "MISSED rc=%d" % r.returncode, w.group(1) if w else "", "|", a.strip()[:50].replace("\n", " "), "->", b.strip()[:40].replace("\n", " "), flush=True)
        if not ok:
            print("   ", "\n    ".join(l[:200] for l in r.stdout.splitlines() if "INCONCL" in l or "unrepro" in l or "wall=" in l or "not reprod" in l)[:700])
if __name__ == "__main__":
    main()
