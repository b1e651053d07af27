import Mathlib
register_simp_attr rs_inline
register_simp_attr rs_simp
/-- contracts of the form `f args = some v` without preconditions, used wherever `f` is called -/
register_simp_attr rs_spec
/-- loops and iterator chains to one normal form (sums, products, maps, filters) -/
register_simp_attr rs_norm
