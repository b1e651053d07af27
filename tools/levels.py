"""Per property: theorems that state it (regular expressions over the contract file) and what the check assures."""
INT = "Integer arithmetic is checked (overflow = failure), no floating point involved. Trusted: the extractor, RsPrelude.lean, Lean kernel."
MAIN = {
 "C01": r"[ui](8|16|32|64|128|size)_factorial[2k]?",
 "C02": r"[ui](8|16|32|64|128|size)_comb(_rep)?",
 "C03": r"[ui](8|16|32|64|128|size)_(perm|stirling2)",
 "C04": r"\w+_contract",
 "C05": r"\w+_contract",
 "C06": r"\w+_(contract|rejects)",
 "C07": r"\w+_contract|filt_(length|coef)",
 "C08": r"pieces_eq_whole|two_pieces|ifast_pieces",
 "C09": r"\w+_(contract|rejects)|step_response",
 "C10": r"\w+_(contract|rejects)",
 "C11": r"\w+_(contract|rejects)|constant_signal|steady_unique",
 "C12": r"\w+_(contract|rejects)",
 "C13": r"\w+ap_(contract|poles)",
 "C14": r"\w+_(contract|rejects|roots)",
 "C15": r"\w+_(contract|rejects)|bilinear_stable",
 "C16": r"\w+_contract",
 "C17": r"\w+_contract",
 "C18": r"\w+_design",
 "C19": r"savgol_\w+_(contract|zero|rejects)|fit_unique|exact_on_polynomials",
 "C20": r"\w+_contract",
 "C21": r"resample_\w+",
 "C22": r"square_\w+|phase_\w+",
 "C25": r"\w+_(contract|rejects|length)",
 "C23": r"\w+_contract|even|tables",
}
REAL = "Floats are treated as real numbers (rounding, NaN and infinities outside the proof; the compiled code is run on sampled inputs for that). Trusted: the extractor, RsPrelude.lean, Lean kernel."
NOTE = {
 "C01": "Full functional correctness and absence of overflow of every (type, n, k) with representable result, all 12 types, unbounded k. " + INT,
 "C02": "Full functional correctness and absence of overflow of comb and comb_rep for every (type, n, k) with representable result. " + INT,
 "C03": "Full functional correctness and absence of overflow of perm and stirling2 for every (type, n, k) with representable result. " + INT,
 "C04": "Full functional correctness and termination of quickselect, median and median_abs_deviation for every real sample. " + REAL,
 "C05": "Every statistic equals its textbook definition, with count and order, for every real sample. " + REAL,
 "C06": "The tiled kernels equal the full sums for every N, M, SKIP and array content; M + SKIP > N is rejected. " + REAL,
 "C07": "All entry points equal the sample-by-sample cascade, output and final state, for every section count and input length, over an abstract scalar (operations uninterpreted, so exactly the same operations in the same order: bit-exact). Trusted: the extractor, RsPrelude.lean (including the meaning of the raw-pointer tile loops, each access bounds-checked in the translation), Lean kernel.",
 "C08": "For every sequence of pieces and every choice of entry point per piece, output and state equal one pass over the whole, over an abstract scalar (bit-exact). Trusted as for C07.",
 "C09": "lfilter_zi and sosfilt_zi return the steady state of the step response for every filter and cascade with the stated preconditions; other inputs are rejected. " + REAL,
 "C10": "Shape, middle block and every extension entry of the odd extension, and the pad decision table, for every matrix, axis and pad length; too short inputs are rejected. " + REAL,
 "C11": "sosfiltfilt equals extend, filter, reverse, filter, reverse, trim for every cascade and signal, with a constant signal coming out as c times the squared DC gain, proved on the contracts of sosfilt (C07), sosfilt_zi (C09) and pad (C10). " + REAL,
 "C12": "Every entry and the shape of the companion matrix for every coefficient sequence, every write inside the matrix, sizes below 2 and empty sequences rejected. " + REAL,
 "C13": "Poles, zeros and gain of the three prototypes by formula for every order, pole locations, real coefficients and DC gain for every positive ripple. " + REAL,
 "C14": "The transformed filter is the substituted transfer function at every s, for every proper real prototype for lp2lp and lp2bp, and for every all-pole prototype for lp2hp and lp2bs, whose handling of finite zeros is a recorded finding; counts for every prototype, the transformed roots stay conjugate-closed and each is the image of a root, improper inputs rejected. " + REAL,
 "C15": "The digital filter is H(2 fs (z-1)/(z+1)) at every z, for every proper real analog filter, with the stated zero and pole counts, and left-half-plane poles map inside the unit circle. " + REAL,
 "C16": "The coefficients are those of the monic polynomial, for every list of roots, and the zpk to tf conversion's scaling and padding for every order. " + REAL,
 "C17": "For every conjugate-closed zero/pole set of every size: no panic, the section products equal k times the padded zero polynomial and the padded pole polynomial, count, a[0] = 1 and position of the worst pole, proved through contracts of cplxreal_dyn, the nearest-root selection and single_zpksos_dyn (using zpk2tf_dyn's contract, C16). Roots within 100 eps of the real axis, and conjugates that differ by rounding, are outside the proof and only run on sampled inputs. " + REAL,
 "C18": "Every invalid request of the four design functions is rejected (for all argument values), and every valid one returns, without panicking, the requested format of a stable real filter whose response is the prototype's at the substituted, pre-warped frequency, composed from the contracts of C13-C17. Outside the proof and covered by running the code: second-order sections of analog filters and of roots within 100 eps of the real axis. Chebyshev II high-pass and band-stop are a recorded finding; elliptic and Bessel families are unimplemented and always panic. " + REAL,
 "C19": "Shape, window, edge handling and rejections for every input; the coefficients satisfy every moment equation and are the only polynomial-shaped ones, and the filter is exact on polynomials up to the fitted degree. Assumes the lstsq crate returns the minimum-norm least-squares solution (its threshold of 1e-9 never cutting a singular value). " + REAL,
 "C20": "Every mode equals the direct sums for all non-empty inputs, by the convolution theorem proved over the extracted code. Assumes rustfft computes the DFT of its length. " + REAL,
 "C21": "Length, bins and scaling for every non-empty signal and target length, constants preserved. Assumes rustfft computes the DFT of its length. " + REAL,
 "C22": "Value at every real time and duty, shape, and rejection of duties outside [0,1]. " + REAL,
 "C23": "Clenshaw's recurrence equals the Chebyshev sum of the published tables at every x on both branches, both types, evenness, and element-by-element evaluation. " + REAL,
}
NOTE["C25"] = "Count, order, every coefficient and zero delays of the sections for every order and coefficient list of matching length; other lengths rejected; over an abstract scalar (nothing is computed). Trusted: the extractor, RsPrelude.lean (itertools' tuples as consecutive groups of six), Lean kernel."
NA = {
 "C24": "a statement about floating-point rounding of a 30-term recurrence against a transcendental function at every double: no deductive verifier here has a theory of IEEE rounding over exp and Bessel functions (contracts treat arithmetic as real), so no contract within reach decides it; C23 covers the algebraic part",
}
