#!/usr/bin/env python3
import json
T = ["u8","u16","u32","u64","u128","usize","i8","i16","i32","i64","i128","isize"]
U = []
def unit(name, roots, mode="real", checked=False):
    U.append(dict(name=name, mode=mode, checked=checked, roots=roots))
unit("Factorial", ["partial_product","primint_factorial","primint_factorial2","primint_factorialk"]
     + [f"Factorial_{t}_{m}" for t in T for m in ("factorial","factorial2","factorialk")], checked=True)
unit("Comb", ["primint_comb","primint_comb_rep"] + [f"Combinatoric_{t}_{m}" for t in T for m in ("comb","comb_rep")], checked=True)
unit("Perm", ["primint_perm","primint_stirling2"] + [f"Combinatoric_{t}_{m}" for t in T for m in ("perm","stirling2")], checked=True)
unit("Median", ["quickselect","median","median_abs_deviation"])
unit("Moments", ["mean","variance","stdev","autocorr","lag_diff","rmssd","zscore","mod_zscore"])
unit("Fast", ["autocorr_fast32","rms_fast32"])
unit("Sos", ["Default_Sos_default","Sos_new","Sos_from_scipy_dyn"], mode="abs")
unit("Sosfilt", ["biquad_fold","u_sosfilt32","u_sosfilt_isize_32","sosfilt_item","sosfilt_st","sosfilt_dyn","sosfilt_fast32_st","sosfilt_ifast32_st"], mode="abs")
unit("Companion", ["companion_dyn"])
unit("Zi", ["lfilter_zi_dyn","sosfilt_zi_dyn"])
unit("Ext", ["odd_ext_dyn","pad"])
unit("Filtfilt", ["sosfiltfilt_dyn"])
unit("Reldeg", ["relative_degree_dyn","ZpkFormatFilter_new"])
unit("Proto", ["buttap_dyn","cheb1ap_dyn","cheb2ap_dyn"])
unit("Freq", ["lp2lp_zpk_dyn","lp2hp_zpk_dyn","lp2bp_zpk_dyn","lp2bs_zpk_dyn"])
unit("Bilinear", ["bilinear_zpk_dyn"])
unit("Tf", ["poly_dyn","zpk2tf_dyn"])
unit("Cplx", ["sort_cplx_dyn","cplxreal_dyn"])
unit("Zpk2sos", ["nearest_real_complex_idx_dyn","single_zpksos_dyn","zpk2sos_dyn"])
unit("Iir", ["iirfilter_dyn","butter_dyn","cheby1_dyn","cheby2_dyn"])
unit("Savgol", ["factorial","savgol_coeffs_dyn","savgol_filter_dyn"])
unit("Convolve", ["fftconvolve","convolve","correlate"])
unit("Resample", ["resample"])
unit("Wave", ["square"])
unit("Bessel", ["chbevl","Bessel_f64_i0","Bessel_f64_i0e","Bessel_f32_i0","Bessel_f32_i0e","Bessel_Vec_i0","Bessel_Vec_i0e","Bessel_ArrayD_i0","Bessel_ArrayD_i0e"])
json.dump(dict(units=U), open("/verif/units.json","w"), indent=1)
