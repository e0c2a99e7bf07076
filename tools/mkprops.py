#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

A property is claimed when checks/<id>.py exists; otherwise it is listed under
not_applicable with the reason in NA (or "no check built yet")."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LTI_F, LTI_S, LTI_R, LTI_I = (f"philtorch/lti/{k}.py" for k in ("filtering", "ssm", "recur", "interp"))
LPV_F, LPV_S, LPV_R, LPV_U = (f"philtorch/lpv/{k}.py" for k in ("filtering", "ssm", "recur", "utils"))
INIT, MAT, POLY, HEL = "philtorch/__init__.py", "philtorch/mat.py", "philtorch/poly.py", "philtorch/_helion.py"
PP, PS, NL = "philtorch/prototype/poly.py", "philtorch/prototype/signal.py", "philtorch/prototype/nl.py"
CS = ["philtorch/csrc/host_recur2.cpp", "philtorch/csrc/host_recurN.cpp", "philtorch/csrc/host_lti_recurN.cpp",
      "philtorch/csrc/host_lti_recur.cpp"]
CU = ["philtorch/csrc/recur2.cuh", "philtorch/csrc/recur2.cu", "philtorch/csrc/lti_recur2.cu", "philtorch/csrc/lti_recur.cu"]

P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs", "configurations"), observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or ["return values of the public functions"], "hook_needed": None},
    })


prop("P01", "Time-invariant IIR filtering computes the difference equation",
     "For coefficients b, a and signal x, the time-invariant filter returns y with y[n] = sum_k b[k] x[n-k] - sum_k a[k] y[n-k], whichever structure (df1, df2, tdf1, tdf2) and unroll factor is chosen, for real and complex inputs, any numerator and denominator lengths, and batched, shared or unbatched coefficients (broadcast over the batch). The result has the signal's length, the promoted batch shape and the inputs' dtype.",
     "all real/complex values of b, a, x; all combinations of orders, lengths, batch layouts, structures and unroll factors in the stated bounds",
     "The tests compare with scipy on random real signals of a few fixed orders and lengths; agreement for every value, order/length relation (longer b than a, length shorter than the order) and complex coefficients is not implied.",
     [LTI_F, LTI_S, "philtorch/mat.py"], [("structure dispatch", "lti/filtering.py lfilter, _ssm_lfilter"), ("block recursion", "lti/ssm.py state_space_recursion")])
prop("P02", "Time-invariant filter state carries a signal across chunk boundaries",
     "With an initial state the time-invariant filter (df2, tdf2) returns the output and a final state such that filtering a signal in consecutive chunks, passing each final state on, gives exactly the outputs and final state of filtering it in one call, for every way of cutting the signal. For tdf2 the state is the one scipy.signal.lfilter uses; for df2 it is the direct-form-II delay line (most recent first).",
     "all values of coefficients, signal and state; all cuts of the signal, including chunks shorter than the order",
     "Streaming correctness quantifies over every cut and every state; the tests check a single cut of one random signal.",
     [LTI_F, LTI_S], [("state update and final state", "lti/ssm.py state_space"), ("zi handling", "lti/filtering.py lfilter")], over=("inputs", "histories", "configurations"))
prop("P03", "Time-varying IIR filtering follows the chosen filter structure at each step",
     "With coefficients that change every sample the filter returns the output of the selected structure (df1, df2, tdf1, tdf2) evaluated step by step with that sample's coefficients, and both back ends (state space, LPC) agree on every structure they both offer. When the coefficients are constant in time all structures reduce to the time-invariant difference equation; batched and shared coefficients broadcast over the batch, for real and complex values.",
     "all coefficient trajectories, signals, structures, back ends and unroll factors in the stated bounds",
     "The tests compare back ends on random real trajectories of fixed orders; they never compare against an independent definition of the structures.",
     [LPV_F, LPV_S, LPV_U], [("structure dispatch", "lpv/filtering.py lfilter"), ("coefficient shifting", "lpv/utils.py diag_shift")])
prop("P04", "Time-varying filter state carries a signal across chunk boundaries",
     "For the time-varying filters (full IIR in df2/tdf2, and the FIR and all-pole filters in direct and transposed form) the output and final state returned with an initial state are those of the structure's delay line, so filtering consecutive chunks with the matching coefficient slices and handing the state on equals one call over the whole signal. This holds for chunks shorter than the filter order as well.",
     "all values of coefficients, signal and state; all cuts, including very short chunks",
     "Streaming with time-varying coefficients is only tested for a single cut of long random signals.",
     [LPV_F, LPV_S], [("state return", "lpv/filtering.py fir, allpole, _torchlpc_lfilter"), ("final state", "lpv/ssm.py state_space")], over=("inputs", "histories", "configurations"))
prop("P05", "Time-invariant state-space simulation satisfies its defining equations",
     "The time-invariant state-space function returns y_t = C h_t + D x_t with h_{t+1} = A h_t + B x_t, h_0 the initial state (zero by default), and the final state h_N when an initial state is given, for every documented shape of A, B, C, D and the state (shared or per batch, vector or matrix, scalar input or multi-channel input). Selecting a single state gives that component of the full state sequence, and the unroll factor never changes the result.",
     "all values; all documented shape combinations, state sizes, lengths and unroll factors in the stated bounds",
     "About fifty shape/branch combinations times arbitrary values; the tests sample a subset with random floats and mostly check only that back ends agree.",
     [LTI_S], [("B/C/D shape dispatch", "lti/ssm.py state_space, _ssm_C_D"), ("runner choice", "lti/ssm.py extension_backend_indicator")])
prop("P06", "Time-varying state-space simulation satisfies its defining equations",
     "The time-varying state-space function returns y_t = C_t h_t + D_t x_t with h_{t+1} = A_t h_t + B_t x_t and the final state when an initial state is given, for every documented shape of A, B, C, D (constant, per time step, per batch, or both) and the state. Selecting a single state gives that component of the state sequence, and the unroll factor never changes the result.",
     "all values; all documented unambiguous shape combinations, state sizes, lengths and unroll factors in the stated bounds",
     "The tests sample a few of the shape combinations, with random floats.",
     [LPV_S], [("B/C/D shape dispatch", "lpv/ssm.py state_space"), ("runner choice", "lpv/ssm.py extension_backend_indicator")])
prop("P07", "Block unrolling never changes the result of a recurrence",
     "The pure-Python scalar and matrix recurrences, time-invariant and time-varying, return h_t = A_t h_{t-1} + x_t for every block size, including block sizes that do not divide the length, equal it or exceed it, with or without selecting one state, for signals given as scalars (driving the first state) or as vectors. Coefficients and initial values may be shared or per batch.",
     "all values; all combinations of length, block size, order and batch layout in the stated bounds",
     "The block algorithm is recursive in the block size and padding; tests cover some lengths and factors with random values.",
     [LTI_S, LTI_R, LPV_S, LPV_R, MAT], [("block unrolling", "lti/ssm.py, lpv/ssm.py state_space_recursion; lti/recur.py, lpv/recur.py linear_recurrence")])
prop("P08", "The compiled recurrence operators compute the recurrence exactly",
     "Every compiled operator (second-order and N-th-order matrix recurrences, time-varying and time-invariant, and the scalar recurrence) returns h_t = A_t h_{t-1} + x_t from the given initial state for shared and per-batch coefficients, any memory layout of its inputs, and every supported real or complex dtype. Inputs are left unchanged and the result does not depend on neighbouring batch entries.",
     "all element values; all batch sizes, lengths, orders, memory layouts in the stated bounds",
     "The tests compare with the Python loop on a few contiguous random batches.",
     CS, [("kernels", "philtorch/csrc/host_*.cpp"), ("operator registration", "host_recur2.cpp TORCH_LIBRARY")], observe=["torch.ops.philtorch.*"])
prop("P09", "Reverse-mode gradients of the filters are the true derivatives",
     "For every public filter and recurrence (time-invariant and time-varying IIR filters, FIR, all-pole, comb, state space, scalar and matrix recurrences) the reverse-mode gradient with respect to coefficients, signal and initial state equals the derivative of the defining equations for every cotangent, including when the final state is part of the output. For complex inputs the gradient follows the conjugate convention of the tensor library.",
     "all values and cotangents; all configurations in the stated bounds",
     "gradcheck probes finite differences at single random points with tolerances.",
     [LTI_F, LTI_S, LTI_R, LPV_F, LPV_S, LPV_R], [("custom backward rules", "lti/recur.py LTIRecurrence, lti/ssm.py LTIMatrixRecurrence, lpv/ssm.py MatrixRecurrence")], observe=["torch.autograd.grad"])
prop("P10", "Forward-mode and second-order derivatives of the recurrences are exact",
     "Forward-mode derivatives through the compiled recurrences (scalar, matrix time-invariant, matrix time-varying) equal the directional derivative for every tangent of every subset of inputs, and differentiating the reverse-mode gradient again yields the exact second derivative. This holds for shared and per-batch coefficients and for real and complex values.",
     "all values, tangents and cotangents; all subsets of differentiated inputs; configurations in the stated bounds",
     "gradcheck/gradgradcheck sample single random points, and forward mode is only sampled for some layouts.",
     [LTI_R, LTI_S, LPV_S], [("jvp rules", "LTIRecurrence.jvp, LTIMatrixRecurrence.jvp, MatrixRecurrence.jvp")], observe=["torch.autograd.forward_ad", "torch.autograd.grad(create_graph=True)"])
prop("P11", "The registered operators differentiate correctly when called directly",
     "Calling a registered operator directly (compiled or Helion) under autograd gives, for every cotangent and every subset of inputs requiring gradients, exactly the derivative of the recurrence with respect to coefficients, initial state and input, for shared and per-batch coefficients and for real and complex values.",
     "all values and cotangents; all subsets of inputs requiring gradients; configurations in the stated bounds",
     "opcheck and gradcheck sample a handful of random shapes.",
     [INIT], [("registered autograd", "philtorch/__init__.py _recurN_backward, _lti_recurN_backward, _lti_recur_backward")], observe=["torch.ops.philtorch.* under autograd"])
prop("P12", "Abstract (shape-only) execution of the operators agrees with real execution",
     "For every registered operator, tracing it abstractly yields a tensor with the same shape, dtype and memory strides as the real execution, for all input shapes, memory layouts and floating or complex dtypes that the operator accepts (the stride of a dimension of size one carries no meaning). Inputs that abstract execution rejects are rejected by real execution too, and conversely.",
     "all batch sizes, lengths, orders and layouts in the stated bounds, symbolic dimensions included",
     "opcheck tests a few contiguous shapes.",
     [INIT] + CS, [("fake kernels", "philtorch/__init__.py register_fake")], over=("inputs", "configurations", "programs"), observe=["FakeTensorMode results", "real results"])
prop("P13", "The time-invariant FIR filter is exact convolution with a delay-line state",
     "The time-invariant FIR filter returns y[n] = sum_k b[k] x[n-k] in direct and transposed form, with the initial state contributing exactly as that form's delay line, and returns the final delay line when a state is given. Cutting the signal anywhere, including chunks shorter than the order and order zero, and handing the state on changes nothing.",
     "all values; all lengths, orders and cuts in the stated bounds, direct and transposed form, real and complex",
     "The tests compare long random signals with scipy for one order.",
     [LTI_F], [("convolution", "lti/filtering.py fir")], over=("inputs", "histories", "configurations"))
prop("P14", "The comb filter computes its delayed feedback recurrence and state",
     "The comb filter returns y[n] = x[n] - a y[n-D] for every positive delay D, per-batch or scalar coefficient and unroll factor, with the past outputs (most recent first) as initial state. With an initial state it also returns the last D outputs, most recent first, so that chunked filtering equals filtering in one call.",
     "all values; all delays, lengths (also shorter than the delay), batch sizes and cuts in the stated bounds",
     "The tests compare a few delays with an IIR filter on random signals.",
     [LTI_F, LTI_R], [("folding by the delay", "lti/filtering.py comb_filter")], over=("inputs", "histories", "configurations"))
prop("P15", "Steady-state initial conditions make a constant input pass without transient",
     "The steady-state initial condition is the filter state for which a constant unit input yields a constant output from the first sample (for tdf2 and df2 states), whenever the DC gain is finite. Forward-backward filtering returns the forward filter followed by the time-reversed filter on the padded signal, started at those conditions scaled by the edge samples, trimmed to the original length and shape.",
     "all coefficients with non-singular DC gain and all signals; orders, lengths, batch layouts, pad lengths and modes in the stated bounds",
     "The tests compare with scipy on a few random filters.",
     [LTI_F, MAT], [("steady state solve", "lti/filtering.py lfilter_zi"), ("forward-backward", "lti/filtering.py filtfilt")])
prop("P16", "The initial state built from past inputs and outputs continues the filter",
     "Given the most recent outputs and inputs (most recent first), the constructed initial state makes the tdf2 filter produce exactly the samples that follow in the infinite difference equation with that past. Missing inputs mean zero past input, and batched coefficients and pasts are handled row by row.",
     "all coefficients, pasts and continuations; orders and batch layouts in the stated bounds",
     "The tests compare with scipy.signal.lfiltic on random vectors of one order.",
     [LTI_F], [("Hankel products", "lti/filtering.py lfiltic")], over=("inputs", "histories"))
prop("P17", "Diagonalised state-space evaluation equals direct evaluation",
     "For a diagonalisable system, evaluating it through its eigen-decomposition (supplied as eigenvalues with eigenvectors, inverse eigenvectors or the matrix, or computed from the matrix) gives the outputs and final state of the state-space equations. The diagonal back end of the IIR filter gives the same output as the difference equation, including numerators longer than the denominator in both quotient forms.",
     "all diagonalisable systems and signals; shapes, orders and lengths in the stated bounds",
     "The tests sample random systems and compare to tolerance.",
     [LTI_S, LTI_F, MAT, POLY], [("diagonal recursion", "lti/ssm.py diag_state_space"), ("quotient split", "lti/filtering.py _diag_ssm_lfilter")])
prop("P18", "The matrix helpers return the documented matrices",
     "The companion matrix has characteristic polynomial 1 + a_1 z^-1 + ... ; accumulated powers are A, A^2, ..., A^n for every n (identity for zero, inverse powers for negative n); cumulative products are A_1, A_1 A_2, ...; eigenvectors satisfy A v = lambda v with unit norm; the Vandermonde matrix lists the powers of the poles in descending order. All of them act independently on leading batch dimensions.",
     "all matrix entries; sizes, exponents, lengths and batch shapes in the stated bounds",
     "The factorised power/product algorithms depend on the prime factors of the length; tests sample a few lengths.",
     [MAT], [("factorised accumulation", "mat.py matrix_power_accumulate, matrices_cumdot")])
prop("P19", "Polynomial arithmetic satisfies its defining identities",
     "Polynomial division returns q and r with u = q v + r and deg r < deg v for batched and single polynomials (and q empty, r = u when the divisor is longer), products, sums, differences, derivatives and evaluation agree with the algebraic definitions, and leading zeros never change the value of a result.",
     "all coefficients (leading coefficient of the divisor non-zero); degrees and batch shapes in the stated bounds",
     "The tests compare with numpy on a few random polynomials.",
     [POLY, PP], [("long division", "poly.py polydiv; prototype/poly.py polydiv"), ("arithmetic", "prototype/poly.py")])
prop("P20", "Cubic spline upsampling interpolates the samples with the cubic B-spline",
     "Upsampling by m returns (L-1) m + 1 samples that pass through the original samples and equal the cubic B-spline expansion of the spline coefficients in between, for both boundary conventions and both the parallel and the cascaded evaluation of the coefficients. The coefficients are the inverse B-spline filter of the mirrored signal.",
     "all signals bounded by 1 in magnitude; lengths and factors in the stated bounds, tolerance 1e-6 or the truncation the documented initialisation implies",
     "The tests compare with scipy on random signals of a few lengths and factors.",
     [LTI_I], [("inverse filter", "lti/interp.py cspline"), ("interpolation kernel", "lti/interp.py cubic_spline")])
prop("P21", "The Newton solver is exact on affine recurrences and keeps the history",
     "For every recurrence y_t = f(y_{t-1}, x_t) that is affine in the state, the solver returns the exact solution after one step whatever the starting guess, and for any f each performed iteration equals the documented Newton update with the first samples fixed exactly; the reported iteration count is the number performed.",
     "all coefficients, inputs, initial states and guesses; lengths, state sizes and iteration limits in the stated bounds",
     "The tests use a few nonlinear functions at random points (two of them currently fail).",
     [NL], [("Newton step through the matrix recurrence", "prototype/nl.py newton_solve")], over=("inputs", "histories"))
prop("P22", "Filtering is pure and treats batch entries independently",
     "No public filter, recurrence or helper modifies its arguments, whatever their memory layout, and results depend only on argument values, not on their strides, storage offsets or overlap. Each batch entry's output depends only on that entry's inputs and the shared coefficients.",
     "all values; all memory layouts (transposed, strided, offset, expanded, non-contiguous) of every argument in the stated bounds",
     "The tests use freshly allocated contiguous tensors almost everywhere.",
     [LTI_F, LTI_S, LTI_R, LPV_F, LPV_S, LPV_R, MAT, POLY] + CS, [("all entry points", "philtorch/lti, philtorch/lpv, csrc")])
prop("P23", "The compiled kernels are memory-safe and race-free for every shape",
     "For every accepted batch size, length and order the compiled kernels read and write only inside their buffers, every output element is written from initialised data, and no two parallel iterations touch the same element unless both only read it, so the result is the same for every thread count and schedule. Index arithmetic does not overflow within the supported sizes.",
     "all shapes up to the stated bound and all pairs of parallel iterations (schedules)",
     "Tests run one schedule at small sizes; races and out-of-bounds accesses need not show in results.",
     CS, [("parallel loops", "philtorch/csrc/host_*.cpp")], over=("schedules", "inputs", "configurations"), observe=["memory accesses of the kernels"])
prop("P24", "Inconsistent shapes are rejected instead of producing garbage",
     "Calls whose batch sizes, time lengths, state sizes or orders disagree, whose ranks are unsupported, whose dtypes differ in the compiled operators, or whose options are unknown raise an error; no such call returns a value or reads outside its inputs (a dimension of size one may broadcast). Consistent calls are accepted.",
     "all mismatched shape pairs around the documented shapes in the stated bounds",
     "The tests check a handful of mismatches for two functions.",
     [LTI_F, LTI_S, LTI_R, LPV_F, LPV_S, LPV_R, INIT, MAT, POLY] + CS, [("argument checks", "assertions and TORCH_CHECKs of the entry points")])
prop("P25", "The diagonal shift moves each coefficient to the time it is used at",
     "The diagonal shift of a time-varying coefficient sequence places coefficient k of time t at time t + k + offset and fills the remaining places with zeros, for every length, number of coefficients, offset and batch shape, keeping the extra trailing time steps unless asked to discard them.",
     "all coefficient values; lengths, coefficient counts, offsets and batch shapes in the stated bounds",
     "Only exercised indirectly by a few fixed sizes.",
     [LPV_U], [("pad and reshape", "lpv/utils.py diag_shift")])
prop("P26", "The Helion kernels compute the same recurrence for every tiling",
     "Each Helion kernel (shared or per-batch coefficients, time-invariant or time-varying) returns h_t = A_t h_{t-1} + x_t for every admissible tiling of the batch and state dimensions and every order in which independent tiles are executed, and does not modify its inputs.",
     "all element values; all tilings and tile orders of the batch and state dimensions in the stated bounds",
     "The tests for these kernels are skipped without a GPU.",
     [HEL], [("tiled loops", "_helion.py")], over=("schedules", "inputs", "configurations"), observe=["return values of the kernels"])
prop("P27", "The CUDA scan operators are associative and reproduce the recurrence",
     "The combination operators of the GPU parallel scans are associative with the documented meaning, and a segmented inclusive scan with them over the keys, coefficients and inputs that the GPU host code lays out yields exactly the recurrence for every batch entry, without leakage across batch entries, for every bracketing of the scan.",
     "all element values; all bracketings, batch sizes and lengths in the stated bounds",
     "There is no GPU in the test environment, so this code is never executed.",
     CU, [("scan operators", "recur2.cuh recur2_binary_op; lti_recur.cu scan_functor"), ("key layout", "lti_recur2.cu, recur2.cu")], over=("schedules", "inputs", "configurations"), observe=["scan results"])
prop("P28", "Partial-fraction expansions add up to the original rational function",
     "The residue expansions (in s, in z, and of second-order sections) return residues, poles and direct terms whose sum is the original rational function, for simple and repeated poles, improper fractions, and real or complex-conjugate poles.",
     "all numerators and leading gains for the listed pole patterns; degrees and multiplicities in the stated bounds",
     "The tests compare with scipy on a few fixed polynomials.",
     [PS, PP], [("factor products", "prototype/signal.py")])
prop("P29", "Branch names are formatted to valid version labels or rejected",
     "A branch name is accepted exactly when it is a fix/feat branch with a non-empty name, a detached head, or one of the main branches; accepted names map to the documented label containing the whole matched name and everything else is rejected with an error.",
     "all strings without control characters (git forbids those in branch names) up to the stated length",
     "There is no test of the formatter.",
     ["philtorch/_version.py"], [("pattern", "_version.py format_branch_name")], over=("inputs",))
prop("P30", "Results do not depend on whether the compiled extension is available",
     "Without the compiled extension the public time-invariant and time-varying functions that do not explicitly require it accept the same calls and return the same values, shapes, dtypes and gradients as the defining equations prescribe with it.",
     "all values; configurations in the stated bounds, with the extension absent",
     "The test environment always has the extension, so the fall-back paths are only partly executed.",
     [INIT, LTI_F, LTI_S, LTI_R, LTI_I, LPV_F, LPV_S], [("fallback choice", "EXTENSION_LOADED branches")])

NA = {}

TECH = {
    "P12": "symbolic execution over shapes on both sides (real host C++ against a symbolic ATen model, fake kernels on symbolic dimensions); z3 decides for every pair of paths that outcome, shape, strides and dtype agree",
    "P23": "symbolic execution of the real kernels with symbolic sizes and loop counters; z3 decides bounds, initialisation, race and overflow obligations for every iteration (pair); native replay of counterexamples",
    "P24": "symbolic execution of the real code over tensor shapes: every dimension is a symbolic integer, path conditions come from the branches and shape checks actually taken, z3 enumerates the paths and decides accepted => consistent and consistent => accepted",
    "P29": "CrossHair: symbolic execution (z3) of the real function over symbolic strings",
}
DEF_TECH = ("bounded symbolic execution of the real Python and C++ code (symbolic tensor elements) with z3 deciding "
            "equality to an independent specification")
NOTE = ("For every listed shape/configuration z3 shows equality with the specification for all real/complex element values "
        "(exact arithmetic); shapes, orders, lengths are bounded as in the evidence file. Counterexamples are replayed on the real "
        "library before being reported. Trusts the ATen op models (validated against real runs in the thorough tier), torchlpc's "
        "contract, z3, and g++.")
NOTES = {
    "P12": "Sizes are symbolic up to 2^20 per dimension on both sides; ranks, memory layouts and dtypes are enumerated as in the evidence file. Every path of the ATen model is confirmed on real tensors at one point; counterexamples are replayed on the real library.",
    "P23": "Sizes, iterations and thread pairs are symbolic and unbounded (bounded_obligations in the evidence: those decided only for dimensions up to 4). Trusts the ATen model's allocation rule, the source rewriting of loops and pragmas, and g++; counterexamples are replayed on the real kernel code with instrumented buffers.",
    "P24": "All dimensions in the stated bounds per signature; quick caps the paths per signature, the evidence names the signatures explored completely. Shape semantics of ATen come from PyTorch's own meta kernels and are confirmed on real tensors at every path; violations are confirmed on the real library.",
    "P29": "Every path exhausted for strings up to the stated length; trusts CrossHair's models of str and re; counterexamples are replayed on the real function.",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
            checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEF_TECH), "level": "other",
                           "level_note": NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")


main()
