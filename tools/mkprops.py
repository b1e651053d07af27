#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
S='sci-rs/src/'
prop('C01','Factorial, double and k-factorial are exact for every integer type',
 "For each of the 12 primitive integer types and every n whose mathematical result fits in that type, factorial, double factorial and k-factorial (any k > 0) return exactly n!, n!! and n(n-k)(n-2k)..., without panicking or wrapping. Zero gives 1 and every negative n gives 0.",
 ['inputs'],"all integer types, all n, all k>0 whose result is representable",
 "tests sample n below the overflow limit for a table of values and k<=14 with n<=14; they never reach steps near the type maximum, nor most (type,n,k) combinations",
 [S+'special/factorial.rs'],
 [('table look-up and continuation product','primint_factorial, primint_factorial2, primint_factorialk, partial_product'),('forwarding impls','factorial_primint_impl!')],
 ['Factorial::factorial','Factorial::factorial2','Factorial::factorialk'])
prop('C02','Combinations with and without repetition are exact wherever representable',
 "For each primitive integer type and all n, k, comb returns exactly the binomial coefficient C(n,k) and comb_rep returns exactly C(n+k-1,k), whenever that value fits in the type, without panicking or wrapping on the way. comb is 0 for negative arguments and for k > n; comb_rep is 0 for negative arguments and for n = 0.",
 ['inputs'],"all integer types and all pairs (n,k) with representable result",
 "tests cover 0<=n,k<10 in 32-bit types only, far from any type limit",
 [S+'special/combinatorics.rs'],
 [('multiplicative binomial recurrence','primint_comb, primint_comb_rep'),('forwarding impls','combinatoric_primint_impl!')],
 ['Combinatoric::comb','Combinatoric::comb_rep'])
prop('C03','Permutation counts and Stirling numbers are exact wherever representable',
 "For each primitive integer type and all n, k, perm returns exactly n!/(n-k)! and stirling2 returns exactly the Stirling number of the second kind S(n,k), whenever that value fits in the type, without panicking or wrapping. Both are 0 for negative arguments and for k > n.",
 ['inputs'],"all integer types and all pairs (n,k) with representable result",
 "tests cover 0<=n,k<10 in 32-bit types only",
 [S+'special/combinatorics.rs'],
 [('falling product and two-term recursion','primint_perm, primint_stirling2'),('forwarding impls','combinatoric_primint_impl!')],
 ['Combinatoric::perm','Combinatoric::stirling2'])
prop('C04','The median is the true middle order statistic of the sample',
 "For every non-empty sample from a totally ordered numeric type, in any order and with any repetitions, median returns the middle element of the sorted sample (the sum of the two middle elements divided by two when the count is even) together with the sample count, and it always terminates. An empty sample gives zero with count 0. The median absolute deviation is that median applied to the absolute deviations from the median.",
 ['inputs'],"all finite samples (all lengths, orders and repetition patterns) without NaN",
 "tests use samples of at most 16 values; selection bugs need particular partitions (duplicates of the pivot, one-sided splits, particular ranks)",
 [S+'stats.rs'],
 [('recursive three-way selection','quickselect'),('rank choice','median, median_abs_deviation')],
 ['stats::median','stats::median_abs_deviation'])
prop('C05','Moment statistics equal their textbook definitions for every sample',
 "For every sample, mean, variance (population), standard deviation, lag-k autocorrelation, lag difference, root mean square of successive differences, z-score and modified z-score equal their textbook definitions and the returned counts equal the number of samples. Per-sample outputs have one element per input (one fewer for lag difference) in input order. Empty samples give zero and count 0 for mean, variance and standard deviation.",
 ['inputs'],"all samples of all lengths, all lags",
 "tests check a handful of 4-10 element samples; autocorrelation has no value assertion at all",
 [S+'stats.rs'],
 [('single pass fold and derived formulas','mean, variance, stdev, autocorr, lag_diff, rmssd, zscore, mod_zscore')],
 ['stats::*'])
prop('C06','Tiled fast statistics use every sample at every array length',
 "For every array length N, output length M and first lag SKIP with M + SKIP <= N, the fast autocorrelation writes, at output i, the full sum over t of the mean-removed products y[t]*y[t+SKIP+i], removes the mean from y in place and returns the population variance. For every array length the fast root-mean-square equals sqrt(sum(y^2)/N). No sample is skipped because a length is not a multiple of the tile size.",
 ['inputs','configurations'],"all N, M, SKIP and all sample values (up to rounding)",
 "no test calls these functions; tile remainders depend on (N-lag) mod 4",
 [S+'stats.rs'],
 [('tile plus remainder accumulation','autocorr_fast32, rms_fast32')],
 ['stats::autocorr_fast32','stats::rms_fast32'])
prop('C07','All second-order-section filter entry points compute the same cascade',
 "For every number of sections with normalised coefficients (a[0] = 1), every other coefficient and state value and every input length, the allocating, iterator, per-sample, 32-bit fast and integer-input fast filters produce exactly the output of the direct-form-II-transposed cascade applied sample by sample, and leave exactly the same delay state in the sections. Output length equals input length and the b and a coefficients are never modified.",
 ['inputs','configurations'],"all section counts (including those with a specialised path), all lengths, all values",
 "tests exercise only four sections on one signal; the specialised arms (2,3,4,5,6,8,10,...,20 sections; lengths multiple of 4) are separate copies of the recurrence that no test reaches, and the fast versions are untested",
 [S+'signal/filter/sosfilt.rs'],
 [('specialised and generic arms','sosfilt_dyn, sosfilt_st, sosfilt_item'),('tiled 32-bit paths','_sosfilt32, _sosfilt_isize_32, biquad_fold')],
 ['sosfilt_dyn','sosfilt_st','sosfilt_item','sosfilt_fast32_st','sosfilt_ifast32_st'],
 [dict(name='zi0, zi1',meaning='delay line of a section, carried between calls',where=S+'signal/filter/design/sos.rs')])
prop('C08','Filtering a stream in pieces equals filtering it whole',
 "For every filter entry point, every section count and every way of cutting an input into consecutive pieces, filtering the pieces one after the other with the same sections gives the concatenation of outputs and the final delay state that filtering the whole input at once gives. Mixing entry points between pieces makes no difference.",
 ['inputs','histories'],"all cut points, any number of pieces, all section counts, all values",
 "one test cuts one 4-section signal at its midpoint",
 [S+'signal/filter/sosfilt.rs'],
 [('state carried only in the sections','sosfilt_dyn, sosfilt_st, sosfilt_item, _sosfilt32, _sosfilt_isize_32')],
 ['sosfilt_dyn','sosfilt_st','sosfilt_item','sosfilt_fast32_st','sosfilt_ifast32_st'],
 [dict(name='zi0, zi1',meaning='delay line of a section, carried between calls',where=S+'signal/filter/design/sos.rs')])
prop('C09','Initial conditions put a filter in its step-response steady state',
 "For every digital filter (b, a of equal length at least 2, first a coefficient nonzero, coefficients of a not summing to zero) the initial state returned makes the direct-form-II-transposed recurrence answer a constant unit input with the constant DC gain sum(b)/sum(a) from the first sample on, the state never changing. For a cascade of sections with a[0] = 1 the initial delays of every section do the same for the whole cascade, each section seeing the accumulated DC gain of those before it.",
 ['inputs'],"all coefficient vectors of all lengths, all cascades",
 "two tests compare one filter each with stored numbers",
 [S+'signal/filter/lfilter_zi.rs',S+'signal/filter/sosfilt_zi.rs',S+'linalg/companion.rs'],
 [('companion-matrix solve','lfilter_zi_dyn'),('gain accumulation over sections','sosfilt_zi_dyn')],
 ['lfilter_zi_dyn','sosfilt_zi_dyn'])
prop('C10','Odd extension padding has the documented shape and values',
 "For every matrix, axis (0 or 1) and pad length n smaller than the extent along that axis, the odd extension has 2n more entries along that axis; its middle block is the input, entry n-1-d before it is 2*first - x[1+d] and entry d after it is 2*last - x[last-1-d], line by line. Padding with an explicit length uses that length, otherwise three times the tap count, no-padding returns the input unchanged, and the returned edge is the number of entries added on each side.",
 ['inputs'],"all matrix shapes, both axes, all pad lengths, all element values",
 "tests check pad lengths 1 and 2 on two small matrices; the element accesses are unchecked, so an index slip is undefined behaviour rather than a test failure",
 [S+'signal/filter/ext.rs'],
 [('unchecked copy loops','odd_ext_dyn'),('edge selection','pad')],
 ['pad','odd_ext_dyn'])
prop('C11','Zero-phase filtering preserves length and the step steady state',
 "For every cascade and every signal longer than three times its tap count (2*sections+1 less the trailing zero coefficients common to b and a), forward-backward filtering returns exactly one output per input, in input order, equal to: odd-extend by that edge, filter forward from the step steady state scaled by the first extended sample, filter the reversed result from the steady state scaled by its first sample, reverse and drop the edges. In particular a constant signal c comes out as c times the squared DC gain, and the caller's sections are not modified.",
 ['inputs'],"all cascades, all signal lengths and values",
 "tests assert only that one output length equals the input length",
 [S+'signal/filter/sosfiltfilt.rs'],
 [('pad, filter, reverse, filter, trim','sosfiltfilt_dyn')],
 ['sosfiltfilt_dyn'])
prop('C12','Companion matrices are correct and stay in bounds',
 "For every coefficient sequence of length m >= 2 with nonzero leading coefficient, the result is the (m-1)x(m-1) matrix whose first row is -c[1..]/c[0], whose first subdiagonal is one and which is zero elsewhere. No memory outside the matrix is written whatever the sequence length, and sizes below 2 are rejected.",
 ['inputs'],"all coefficient sequences and all sizes m, including sequences whose length differs from m",
 "one 4-coefficient example; writes are unchecked, so an out-of-range index is silent memory corruption",
 [S+'linalg/companion.rs'],
 [('unchecked writes','companion_dyn')],['companion_dyn'])
prop('C13','Analog prototypes have the right poles, zeros and gain for every order',
 "For every order n the Butterworth prototype has no zeros, gain 1 and the n poles -exp(i*pi*m/(2n)), m = -n+1, -n+3, ..., n-1; the Chebyshev I and II prototypes have the poles, zeros and gain of their defining formulas for every positive ripple or attenuation. All poles lie strictly in the left half plane, the Butterworth poles on the unit circle, and the DC gain is 1 (for Chebyshev I of even order 10^(-rp/20)).",
 ['inputs','configurations'],"all orders n, all ripples rp > 0 and attenuations rs > 0",
 "tests compare a few orders with stored numbers",
 [S+'signal/filter/design/iirfilter.rs'],
 [('pole formulas','buttap_dyn, cheb1ap_dyn, cheb2ap_dyn')],
 ['butter_dyn(analog, wn=1, Zpk)','cheb1ap_dyn','cheb2ap_dyn'])
prop('C14','Frequency transformations substitute s as documented',
 "For every proper real prototype (zeros and poles closed under conjugation; none at the origin for high-pass and band-stop), every cutoff wo > 0 and bandwidth bw > 0, the transformed zeros, poles and gain describe exactly H(s/wo) for low-pass, H(wo/s) for high-pass, H((s^2+wo^2)/(s*bw)) for band-pass and H(s*bw/(s^2+wo^2)) for band-stop, where H is the input's transfer function. With m zeros and n poles in, pole counts are n, n, 2n, 2n and zero counts m, n, n+m, 2n; conjugate-closed roots stay conjugate-closed, omitted parameters mean 1, and improper inputs are rejected.",
 ['inputs','configurations'],"all pole/zero sets, all wo, bw",
 "tests compare one or two pole sets each with stored numbers",
 [S+'signal/filter/design/lp2lp_zpk.rs',S+'signal/filter/design/lp2hp_zpk.rs',S+'signal/filter/design/lp2bp_zpk.rs',S+'signal/filter/design/lp2bs_zpk.rs',S+'signal/filter/design/relative_degree.rs'],
 [('pole/zero mapping and gain compensation','lp2lp_zpk_dyn, lp2hp_zpk_dyn, lp2bp_zpk_dyn, lp2bs_zpk_dyn, relative_degree_dyn')],
 ['lp2lp_zpk_dyn','lp2hp_zpk_dyn','lp2bp_zpk_dyn','lp2bs_zpk_dyn'])
prop('C15','The bilinear transform is exact and keeps stable filters stable',
 "For every proper real analog filter (zeros and poles closed under conjugation, none at 2*fs) and sample rate fs > 0 the digital zeros, poles and gain describe exactly H(2*fs*(z-1)/(z+1)); the digital filter has as many zeros as poles, the extra zeros at z = -1. Every pole with negative real part is mapped strictly inside the unit circle.",
 ['inputs'],"all pole/zero sets and sample rates with 2*fs not a pole or zero",
 "one 4th-order example with stored numbers",
 [S+'signal/filter/design/bilinear_zpk.rs'],
 [('bilinear map and gain compensation','bilinear_zpk_dyn')],['bilinear_zpk_dyn'])
prop('C16','Polynomial form is the product over the given roots',
 "For every list of roots, in any order and with any multiplicity, the returned coefficients are exactly those, highest degree first, of the monic polynomial with those roots. The zeros/poles/gain to numerator/denominator conversion returns k times the real part of the zeros' polynomial and the real part of the poles' polynomial, each left-aligned in order+1 coefficients and padded with zeros.",
 ['inputs'],"all root lists of all lengths, all gains",
 "one test with stored numbers; the convolution loop has separately coded edge cases per position",
 [S+'signal/filter/design/zpk2tf.rs',S+'signal/filter/design/cplx.rs'],
 [('repeated convolution with (1,-r)','poly_dyn'),('real part extraction and padding','zpk2tf_dyn, sort_cplx_dyn')],
 ['poly_dyn','zpk2tf_dyn'])
prop('C17','Second-order sections multiply out to the designed filter',
 "For every digital filter given by zeros, poles and gain whose roots are real or in conjugate pairs (up to rounding; values within rounding of the real axis count as real), zpk2sos_dyn with the default nearest pairing returns a cascade of second-order sections with the same transfer function: every zero and pole is used in exactly one section (the shorter list padded with roots at the origin), the gain is applied exactly once, every section has real coefficients with a[0] = 1, and there are ceil(max(#zeros,#poles)/2) sections, at least one. The section holding the pole closest to the unit circle comes last.",
 ['inputs','configurations'],"all conjugate-closed zero/pole sets of all sizes",
 "tests compare a few Butterworth designs with stored numbers; pairing has many special cases (odd counts, real poles, unequal counts)",
 [S+'signal/filter/design/zpk2sos.rs',S+'signal/filter/design/cplx.rs'],
 [('greedy pole-zero pairing','zpk2sos_dyn, nearest_real_complex_idx_dyn, single_zpksos_dyn'),('conjugate splitting','cplxreal_dyn')],
 ['zpk2sos_dyn'])
prop('C18','Filter design validates its inputs and composes the right steps',
 "For every order, band type, family, output format and sampling rate, a design call rejects (by panicking) critical frequencies that, scaled by 2/fs, are non-positive, not increasing, of the wrong count for the band type, or at or above Nyquist (1) for digital designs, a sampling rate for an analog design, negative ripple or attenuation and missing ripple parameters. Every other request (with positive ripple) returns the requested format of prototype -> pre-warped frequency transformation -> bilinear transform, with frequencies scaled by 2/fs, centre sqrt(w0*w1) and width w1-w0; the filter is stable and real. The Butterworth and Chebyshev front ends only choose the family and the documented defaults (low-pass, digital, numerator/denominator).",
 ['inputs','configurations'],"all argument combinations",
 "tests cover a few Butterworth designs; no rejection and no Chebyshev II design is tested end to end",
 [S+'signal/filter/design/iirfilter.rs',S+'signal/filter/design/butter.rs'],
 [('validation and pipeline','iirfilter_dyn'),('front ends','butter_dyn, cheby1_dyn, cheby2_dyn')],
 ['iirfilter_dyn','butter_dyn','cheby1_dyn','cheby2_dyn'])
prop('C19','Savitzky-Golay filtering is the documented windowed fit',
 "For every odd window length exceeding polyorder+1 and every input, the output has one sample per input, each the inner product of the reversed coefficients with the window centred on it, the input being extended with its first and last value; empty input gives empty output, and even or too-short windows are rejected. The coefficients solve the moment equations (row i: powers i of the centred positions; right-hand side deriv!/delta^deriv at i = deriv, else 0) and are all zero when deriv exceeds polyorder.",
 ['inputs','configurations'],"all window lengths, polynomial orders, derivatives, spacings and inputs",
 "tests compare a few (window, order, derivative) triples with stored numbers and never use delta other than 1",
 [S+'signal/filter/savgol_filter.rs'],
 [('edge padding and convolution','savgol_filter_dyn'),('Vandermonde system','savgol_coeffs_dyn, factorial')],
 ['savgol_filter_dyn','savgol_coeffs_dyn'])
prop('C20','FFT convolution and correlation equal the direct sums in every mode',
 "For all non-empty inputs of lengths n1 and n2, full convolution returns the n1+n2-1 sums over j of in1[j]*in2[i-j], same mode its n1 centred values (starting at (n2-1)/2) and valid mode its max-min+1 fully overlapping values (up to rounding). Correlation is the same with the second input reversed, and the plain and FFT-named convolutions agree.",
 ['inputs'],"all pairs of lengths and values, all modes",
 "tests use 3-4 element inputs, and valid mode only with the longer input first",
 [S+'signal/convolve.rs'],
 [('zero-padded FFT product','fftconvolve'),('mode slicing','fftconvolve'),('reversal','correlate')],
 ['convolve','fftconvolve','correlate'])
prop('C21','Fourier resampling returns the requested length from the right bins',
 "For every non-empty signal and every target length n >= 1 the result has exactly n samples, equal to the scaled inverse transform of a length-n spectrum holding the lowest floor(min(n,len)/2) positive-side bins and as many negative-side bins of the input's spectrum and zero elsewhere (up to rounding). In particular a constant signal of at least two samples resampled to at least two samples stays that constant.",
 ['inputs'],"all input lengths, target lengths and values",
 "tests assert only output lengths (the value comparison is a test that must fail)",
 [S+'signal/resample.rs'],
 [('half-spectrum copy','resample')],['resample'])
prop('C22','The square wave is plus or minus one with the requested duty cycle',
 "For every time value and duty in [0,1] the square wave is +1 when the time modulo 2*pi (taken in [0,2*pi), also for negative times) is below 2*pi*duty and -1 otherwise (up to rounding of that residue); the output has the input's shape and a duty outside [0,1] is rejected.",
 ['inputs'],"all time values, positive and negative, all shapes, all duty cycles",
 "tests sample at most 20 times in (-5,5), less than one period on either side",
 [S+'signal/wave/mod.rs'],
 [('remainder with sign correction','square')],['square'])
prop('C23','Modified Bessel I0 follows its Chebyshev expansions on both branches',
 "For every finite x, i0e(x) is the Chebyshev series sum (zero-order coefficient halved) of the published (Cephes) coefficient table at |x|/2-2 for |x| <= 8 and at 32/|x|-2 divided by sqrt(|x|) beyond, i0(x) = exp(|x|)*i0e(x), and both are even functions; this holds for 32- and 64-bit floats. Vectors and arrays are evaluated element by element, in order.",
 ['inputs'],"all finite x, both float widths, all containers",
 "tests sample five points with absolute tolerance 1e-6",
 [S+'special/xsf/chbevl.rs',S+'special/xsf/i0.rs',S+'special/bessel.rs'],
 [('Clenshaw recurrence','chbevl'),('branch selection','Bessel::i0, Bessel::i0e')],['Bessel::i0','Bessel::i0e'])
prop('C24','I0 values are accurate to near machine precision',
 "For every finite x, i0(x) and i0e(x) agree with the mathematical modified Bessel function of order zero to a relative error of at most 1e-14 (64-bit) or 1e-5 (32-bit), as long as the result does not overflow.",
 ['inputs'],"all finite x",
 "tests sample five points with tolerance 1e-6",
 [S+'special/xsf/i0.rs'],[('Chebyshev coefficient tables','I0_A_F64, I0_B_F64, I0_A_F32, I0_B_F32')],['Bessel::i0','Bessel::i0e'])
prop('C25','Sections imported from SciPy rows keep every coefficient in place',
 "For every order n and every list of 6n coefficients, from_scipy_dyn returns n sections in order, section i holding entries 6i..6i+2 as b and 6i+3..6i+5 as a, unchanged and with zero delays, as Sos::new does for one section. A list of any other length is rejected.",
 ['inputs'],"all orders and coefficient lists",
 "the only test imports one 4-section filter and checks the count",
 [S+'signal/filter/design/sos.rs'],
 [('regrouping of the flat list','Sos::from_scipy_dyn'),('zero delays','Sos::new, Default for Sos')],
 ['Sos::from_scipy_dyn','Sos::new'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
