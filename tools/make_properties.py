"""Writes properties.jsonl (kept as data so that it stays in step with the contracts)."""
import json, os
L, C, N, D, M, K, P, PL, LAM, COL = ("src/honeycomb_layout.py", "src/honeycomb_circuit.py", "src/noise.py", "src/decoding.py",
    "src/measure_tracker.py", "src/collect_data.py", "src/probability_util.py", "src/plotting.py",
    "src/paper/main_render_lambda_figure.py", "src/paper/main_collect_all.py")
props = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": list(observe)}})

p("C01", "Noiseless memory circuits have deterministic detectors and observable",
  "For every circuit style, choice of protected observable, legal grid size and number of sub-rounds, the generated memory circuit run without noise gives every detector and the logical observable the same parity in every run. This includes circuits long enough to be folded into a repeat block, where it must hold for every number of repetitions.",
  ["configurations"], "all styles x observables x grid sizes (even width, height a multiple of 6) x sub-round counts",
  "the tests generate a fixed list of small sizes and round counts; folding, the round count modulo 3 and 6 and the style interact, and determinism must hold for every combination",
  [C, L, M], [("circuit generation, init and final measurement", C + ":generate_honeycomb_circuit"), ("loop folding", C + ":generate_rounds_sd6, generate_rounds_pc3, generate_rounds_em3, generate_rounds_SI1000"), ("record bookkeeping", M + ":MeasurementTracker")], ["HoneycombLayout.make_circuit"])
p("C02", "The circuit measures exactly the honeycomb parity schedule",
  "Whatever the style, the generated circuit prepares all data qubits in the basis of the protected observable, then performs exactly the requested number of sub-rounds, the k-th measuring the XX, YY or ZZ parity (cycling X, Y, Z) of every edge of the k-th colour class and nothing else on the data qubits, and finally measures all data qubits in the observable's current basis. A circuit folded into a repeat block performs the same operations as the unfolded schedule.",
  ["configurations"], "all styles x observables x sizes x sub-round counts",
  "tests compare a handful of circuits against stored text; a wrong gate on one qubit class, one colour or one remainder of the round count only shows for other sizes and counts",
  [C, L], [("sub-round schedule", C + ":_sub_round_2q_ops, _sd6_pipeline_step, generate_cycle_SI1000, generate_rounds_pc3, generate_rounds_em3"), ("preparation and read-out", C + ":fault_tolerant_init, fault_tolerant_measurement")], ["HoneycombLayout.make_circuit"])
p("C03", "Detectors cover every plaquette comparison, correctly located",
  "In every generated circuit each plaquette of the colour completed in a sub-round is compared with its own previous value by exactly one detector, together with the comparisons with the prepared state and with the final data measurement; nothing is skipped, duplicated or mixed up. Each detector is annotated with the position of its plaquette (or edge) and the sub-round at which it completes. On patches at least four data qubits wide, no single fault of the noisy circuit flips the observable without triggering a detector.",
  ["configurations"], "all styles x observables x sizes x sub-round counts",
  "the tests check error-model properties on a few sizes; a dropped, duplicated or mislabelled detector leaves the circuit valid and deterministic",
  [C, M, L], [("detector emission", C + ":_sub_round_measurements_and_detectors"), ("boundary detectors", C + ":fault_tolerant_init, fault_tolerant_measurement")], ["HoneycombLayout.make_circuit"])
p("C04", "The H and V observables are conserved, independent logical operators",
  "For every grid size and sub-round, the horizontal and the vertical observable commute with all edge parities measured in the next sub-round, and the observable's operator before the following sub-round is its current operator times the edge parities along its path measured in between. Neither is a product of plaquettes and edges currently stabilised, so each carries logical information, and the final data measurement reads the operator valid at the end.",
  ["configurations"], "all sizes x sub-round numbers (any integer)",
  "tests look at particular sizes; the operators follow a 6-step cycle with patterns tiled over the size",
  [L, C], [("observable patterns", L + ":obs_h_before_sub_round, obs_v_before_sub_round"), ("observable paths", L + ":obs_h_edges, obs_v_edges, obs_h_qubits, obs_v_qubits")], ["HoneycombLayout.obs_before_sub_round"])
p("C05", "The layout is a 3-coloured honeycomb on a torus",
  "For every legal size, each data qubit lies on exactly three edges, one of each colour class; each colour class pairs up all data qubits; each plaquette has six distinct data qubits and six boundary edges alternating between the two other colours. Edges of one class join plaquettes of that class, and all coordinates are wrapped into the torus.",
  ["configurations"], "all even widths and heights that are multiples of 6",
  "tests list the geometry of one or two sizes; wrapping errors show only at particular sizes",
  [L], [("plaquette colouring", L + ":_hex_center_categories"), ("edges", L + ":EdgeType.hex_to_edge, round_edges"), ("edges around a plaquette", L + ":first_edges_around_hex, second_edges_around_hex, qubits_around_hex"), ("wrapping", L + ":wrap")], ["HoneycombLayout"])
p("C06", "Qubit indexing is a bijection and qubit counts are exact",
  "For every legal size, qubit indices number the data qubits first and then one measurement qubit per edge, each position having exactly one index and no index being skipped. The reported number of qubits, the list of used qubits and the split of data qubits into two halves (each edge having one end in each half) agree with the circuit for every style.",
  ["configurations"], "all sizes x styles",
  "tests check counts on a few sizes",
  [L], [("index map", L + ":q2i, data_qubit_coords, measure_qubit_coords"), ("counts and halves", L + ":num_qubits, used_qubit_coords, data_qubit_indices_1st, data_qubit_indices_2nd, _data_qubit_parity")], ["HoneycombLayout"])
p("C07", "Noise insertion never changes the ideal circuit",
  "For every noise model and every circuit of supported operations, including nested repeat blocks, removing the noise from the noisy circuit gives the original operations back in the original order: same gates, targets, measurement records (including inverted results), detectors, observables, coordinates and time steps. The one permitted rewrite is the correlated model replacing a two-qubit parity measurement by an equivalent gadget on an ancilla that no part of the circuit uses.",
  ["programs", "configurations"], "all circuits x noise models x noise strengths",
  "tests insert noise into a few short circuits; flushing rules depend on the order of annotations, ticks and repeat blocks",
  [N], [("moment buffering and flushing", N + ":NoiseModel.noisy_circuit"), ("per-operation noise", N + ":NoiseModel.noisy_op")], ["NoiseModel.noisy_circuit"])
p("C08", "Every operation and idle qubit gets exactly the model's noise",
  "For every named noise model and strength p, each operation of a noisy circuit is accompanied by exactly the channel, strength, side (before or after) and targets the model prescribes for it, and each time step depolarises exactly the qubits that idle in it (or idle while others are measured or reset) with the prescribed strengths. Nothing is noisy when p is zero, time steps with no operation add no noise, repeat blocks (which begin and end a time step) are treated like their unrolled contents, and operations the model does not know are refused.",
  ["programs", "configurations"], "all circuits x named models x strengths",
  "tests cover a few gates per model",
  [N], [("model tables", N + ":NoiseModel.SD6, PC3, EM3_v1, EM3_v2, SI1000"), ("placement", N + ":NoiseModel.noisy_op, noisy_circuit")], ["NoiseModel.noisy_circuit"])
p("C09", "The correlated parity measurement is the exact measure-then-mix channel",
  "The correlated noisy parity measurement reports the parity of the two given Pauli targets (inverted when exactly one target is inverted) and, with exactly the requested probability, replaces the pair and the result by a uniformly random one of the 32 combinations of two-qubit Pauli and result flip. This holds for every pair of targets, basis choice and mixing probability.",
  ["inputs"], "all target pairs, Pauli bases, inversions, mixing probabilities in [0, 1]",
  "tests compare sampled or tabulated cases",
  [N], [("gadget", N + ":parity_measurement_with_correlated_measurement_noise"), ("component probability", N + ":mix_probability_to_independent_component_probability")], ["parity_measurement_with_correlated_measurement_noise"])
p("C10", "Measurement tracking resolves every key to the right records",
  "After any sequence of recorded measurements, placeholder entries and groups, a lookup of keys (the latest or an earlier occurrence of each) yields exactly the symmetric difference of the measurement records those occurrences stand for, expressed relative to the requested moment. A lookup involving an unknown placeholder yields nothing and emits no detector, and looking further back than was recorded fails.",
  ["histories"], "all call histories and key sets",
  "tests run one short history",
  [M], [("history", M + ":MeasurementTracker.add_measurements, add_dummies, add_group"), ("lookup", M + ":MeasurementTracker.measurement_time_set, get_record_targets, append_detector"), ("earlier occurrences", M + ":Prev")], ["MeasurementTracker"])
p("C11", "Error-model flattening visits every error with the right detectors",
  "Flattening a detector error model reports, in order, every independent error component with its probability, absolute detector numbers and observables, and every detector's absolute coordinates, exactly as unrolling all repeat blocks and shifts would. This holds for any nesting of repeat blocks and any interleaving of shifts.",
  ["programs"], "all detector error models",
  "tests flatten one or two models",
  [D], [("flattening", D + ":iter_flatten_model")], ["iter_flatten_model"])
p("C12", "The matching graph represents the error model exactly",
  "The matching graph has a node per detector plus one boundary node, and one edge per distinct symptom pair (single symptoms going to the boundary); its probability is that of an odd number of the contributing errors happening, its weight the log-odds of that, and its frame changes are those of the first error with these symptoms. Errors with zero probability or no symptoms add nothing, components with more than two symptoms are refused, and detector coordinates are attached to the right nodes.",
  ["programs"], "all detector error models",
  "tests convert one or two models; merging depends on order, repetition and shared symptoms",
  [D], [("graph construction", D + ":detector_error_model_to_nx_graph")], ["detector_error_model_to_nx_graph"])
p("C13", "Decoding predictions are matched to shots and counted exactly",
  "The reported number of correct shots is the number of sampled shots whose predicted observable flips all equal the actual ones, between zero and the number of shots, for any number of detectors and observables. Predictions of the matching decoder are the observable flips of a minimum-weight explanation of that shot's symptoms, each shot being decoded on its own, and decoding a shot whose symptoms come from one error of the model restores its observables when no likelier explanation exists.",
  ["inputs", "programs"], "all circuits (any number of detectors and observables) x shots",
  "tests sample a few circuits and compare rates loosely",
  [D], [("counting", D + ":sample_decode_count_correct"), ("matching", D + ":decode_using_pymatching, detector_error_model_to_pymatching_graph")], ["sample_decode_count_correct", "decode_using_pymatching"])
p("C14", "Sampling stops exactly when the requested statistics are reached",
  "For each problem, shots are collected in batches of at least one and at most the batch limit until either the maximum is reached (never exceeded) or at least the minimum has been taken and both the error and the precision target are met (or at least ten errors with an error rate of at least 48% were seen); it neither stops earlier nor continues after that. Every problem is sampled on its own, in order, and its batches add up to what is recorded.",
  ["histories", "configurations"], "all limits x all outcomes of the batches",
  "tests run one configuration with one outcome sequence",
  [K], [("batch loop", K + ":collect_simulated_experiment_data")], ["collect_simulated_experiment_data"])
p("C15", "Recorded data is appended intact and reads back exactly",
  "Every batch is appended as one row whose columns match the header and carry the problem's descriptor, the shots, the correct count and the time taken; existing data is kept unless discarding was requested, and rows already written survive an interruption of later batches. Reading any set of files back yields, per distinct problem, the exact totals of shots, correct shots and seconds over all rows.",
  ["histories", "crash_points", "inputs"], "all descriptors, outcome histories, interruption points and file sets",
  "tests write and read one file",
  [K, "src/paper/aggregate_csv_data.py"], [("writing", K + ":collect_simulated_experiment_data, collect_detection_fraction_data"), ("reading", K + ":read_recorded_data"), ("re-writing aggregated data", "src/paper/aggregate_csv_data.py:main")], ["CSV file"])
p("C16", "Grouping, merging and filtering conserve the shot data",
  "Grouping by any key partitions the problems: every problem appears with its data in exactly the group of its key, and groups come in ascending key order. Merging gives each key the exact sum of shots, correct shots and seconds of its problems, filtering keeps exactly the problems satisfying the predicate, and none of them modifies the source data; changing some fields of a descriptor leaves the others as they were.",
  ["inputs"], "all data sets x key functions x predicates",
  "tests use one small data set",
  [K], [("grouping", K + ":ProblemShotData.grouped_by, merged_by, filter"), ("descriptor edits", K + ":DecodingProblemDesc.with_changes")], ["ProblemShotData"])
p("C17", "Per-piece error rates compose back to the total error rate",
  "The per-piece error rate computed from a total error rate and a number of pieces is such that the given number of independent pieces flips the outcome with exactly the total rate, for totals up to one half; totals above one half are mirrored. It is one half at one half, zero at zero and grows with the total.",
  ["inputs"], "all rates in [0, 1] and piece counts of at least 1",
  "tests sample a few values",
  [PL], [("conversion", PL + ":total_error_to_per_piece_error")], ["total_error_to_per_piece_error"])
p("C18", "Likelihood bounds bracket the estimate at the requested ratio",
  "For any shot counts, the likelihood interval contains the observed error rate, stays within zero and one, and each bound is the nearest grid point where the binomial likelihood has dropped to the requested ratio of its maximum (or the end of the range when it never does). Binomial log likelihoods equal the exact value up to the stated approximation of factorials, for single probabilities and arrays alike.",
  ["inputs"], "all shot counts, error counts and ratios",
  "tests check a few points",
  [K, P], [("bounds", K + ":ShotData.likely_error_rate_bounds"), ("log likelihood", P + ":log_binomial, log_factorial")], ["ShotData.likely_error_rate_bounds"])
p("C19", "The searches return the closest point and always terminate",
  "Searching an ascending function over an integer range returns a point of the range whose value is closest to the target, using logarithmically many evaluations, all within the range. Searching for an intercept returns a point on the chosen side whose value is within the tolerance of the target.",
  ["inputs"], "all ascending functions, ranges and targets; all continuous functions crossing the target",
  "tests use a few functions",
  [P], [("searches", P + ":binary_search, binary_intercept")], ["binary_search", "binary_intercept"])
p("C20", "Constrained fits and confidence ranges are truly least-squares",
  "The line fitted through a required point or with a required slope satisfies the constraint and has the least squared error among all such lines. The reported ranges of slopes and of predicted outputs contain the unconstrained best fit and end where the least achievable cost has increased by the requested amount.",
  ["inputs"], "all data sets with distinct abscissae, points, slopes and cost increases",
  "tests use one data set",
  [P], [("constrained fits", P + ":least_squares_through_point, least_squares_with_slope, least_squares_cost"), ("ranges", P + ":least_squares_output_range, least_squares_slope_range")], ["least_squares_slope_range", "least_squares_output_range"])
p("C21", "Lambda and teraquop projections follow the fitted decay",
  "For every noise level, results are grouped by distance and observable without loss, the per-cell rate at a distance is the chance that either observable fails in a cell, and projections use the straight-line fit of log rate against distance: projected distance and projected error are inverse, lambda is the suppression per distance step of two, and ranges bracket the estimate. Required qubit counts scale the measured patch quadratically to a realisable distance that is no smaller than asked for.",
  ["inputs"], "all data sets, target errors and distances",
  "the figures' code has no tests",
  [LAM], [("grouping and rates", LAM + ":LambdaGroup.groups_from_data, combo_data"), ("projections", LAM + ":LambdaGroup.linear_fit_d_to_log_err, projected_lambda_range, projected_distance, projected_error, projected_qubit_count_range, _d_to_q, projected_required_qubit_count")], ["LambdaGroup"])
p("C22", "Problem descriptors state what their circuits do",
  "Every decoding problem's descriptor agrees with the circuit it makes: grid size, number of qubits, number of full rounds (partial rounds counted up), noise strength, style, observable and decoder, and the code distance is the smaller of width and two thirds of the height for honeycomb patches. The same holds for the surface code problems, and the two benchmark lists contain every combination of parameters exactly once.",
  ["configurations"], "all layouts and surface code problems",
  "tests check one descriptor",
  [L, COL], [("honeycomb descriptor", L + ":as_decoder_problem_desc, code_distance_1qdep, legend_label"), ("surface code descriptor", COL + ":surface_code_problem, surface_code_circuit, honeycomb_problems")], ["DecodingProblem"])
p("C23", "Remaining-work estimates agree with the stopping limits",
  "Work is reported finished exactly when the shot limit, the error limit or (after ten shots) the error-rate cutoff is reached; then nothing remains. Otherwise the remaining shots and errors are what is missing to the limits, both positive, and the remaining time is the sooner of the two at the speed seen so far.",
  ["inputs"], "all shot data and limits",
  "tests check a few states",
  [K], [("estimates", K + ":RemainingWork, ShotData.remaining_work, ShotData.num_errors, ShotData.logical_error_rate")], ["RemainingWork"])
p("C24", "Plotted curves show each problem's per-cell rate and likelihood region",
  "A threshold plot has one curve per problem family (problems differing only in noise), whose points are, in ascending noise order, the noise and the per-cell error rate of every problem with at least one error, and one region per family covering the per-cell likelihood bounds of all its problems. Cells are rounds divided by code distance, rounded up.",
  ["inputs"], "all data sets",
  "the test only checks that plotting does not crash",
  [PL], [("curves", PL + ":plot_data")], ["matplotlib axes"])
p("C25", "The external decoder gets exactly the shots and is read back exactly",
  "When the external decoder is used, it is handed the circuit's decomposed error model and, shot by shot, exactly the detectors that fired, and its printed predictions become the prediction of the same shot and observable. An answer with foreign characters, rows of the wrong length or too few rows is refused rather than mis-read, and correlated decoding is requested exactly when asked for.",
  ["inputs", "fault_sequences"], "all shots, numbers of observables and decoder answers",
  "the binary is not public, so tests do not exercise this path",
  [D], [("hand-over and read-back", D + ":decode_using_internal_decoder, sample_decode_count_correct")], ["decode_using_internal_decoder"])
p("C26", "Circuit diagrams place every operation at its qubit and time step",
  "A circuit diagram shows each gate, measurement, reset and parity measurement at the position of its qubit in the layer of its time step, joins the two qubits of two-qubit operations, and marks all other qubits of the layer as idle. With the repeat-block option only the operations inside of the outermost repeat blocks are shown, once.",
  ["programs"], "all circuits whose qubits have integer coordinates spanning at least two rows and two columns, with two-qubit operations along rows or columns",
  "tests compare a few stored drawings",
  ["src/circuit_diagrams.py"], [("layers", "src/circuit_diagrams.py:plot_circuit, _iter_circuit"), ("drawing", "src/circuit_diagrams.py:diagram_3d, diagram_2d")], ["plot_circuit"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        print(json.dumps(x), file=f)
print(len(props))
