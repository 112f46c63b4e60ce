"""Harnesses and entries of the symbolically executed properties"""
GC_NOTE = "the garbage collector is replaced by plain allocation (collection schedules are outside)"
PROPS = {
    "C01": dict(
        bounds="x + y, x - y, comparisons, unary minus, abs, ++/--, mod: all 64-bit operands; x * y: all 64-bit x times 40 chosen constants (both orders), and all |x|, |y| <= 300; x div y: all 64-bit operands",
        harnesses=[
            dict(file="h_int.cpp", own=["gc_stub.cpp"], src=["lib/values.cpp", "lib/exception.cpp"], entries=[
                dict(name="h_add"), dict(name="h_sub"), dict(name="h_mod", cost=30), dict(name="h_div", cost=30), dict(name="h_mul", parts=8, cost=20),
                dict(name="h_mul_small", cost=5), dict(name="h_inf"), dict(name="h_unary"), dict(name="h_cmp"), dict(name="h_pow", parts=4, cost=10),
                dict(name="h_pow_base", parts=5, cost=8), dict(name="h_mul_sign", parts=8, cost=20)]),
            dict(file="h_lit.cpp", own=["gc_stub.cpp"], src=["lib/values.cpp", "lib/exception.cpp"], entries=[
                dict(name="h_unboxed_int"), dict(name="h_unboxed_float"), dict(name="h_float2int"), dict(name="h_floordiv", parts=4)]),
        ]),
    "C02": dict(
        bounds="two sets of up to 2 ranges each (float union, intersection, difference: 3 in total; thorough: 2 each, and 3 each for integers without infinite ends), integer ends and points of the form 2^36 s + t with s in -4..3, t in 0..31 (256 values, large and adjacent ones), float ends and points out of 256 doubles of both signs (zero, subnormal, normal, adjacent ones), each set with any combination of infinite ends; element lists of up to 4 elements",
        outside=["sets of more ranges", "values outside the 256 (the code only compares values and takes neighbours)", GC_NOTE],
        harnesses=[dict(file="h_set.cpp", own=["gc_stub.cpp"], src=["lib/values.cpp", "lib/exception.cpp"], entries=[
                dict(name='h_union', parts=8, cost=9),
                dict(name='h_inter', parts=8, cost=9),
                dict(name='h_diff', parts=8, cost=9),
                dict(name='h_subset', parts=8, cost=9),
                dict(name='h_disjoint', parts=3, cost=5),
                dict(name='h_equal', parts=3, cost=5),
                dict(name='h_funion', parts=8, cost=20),
                dict(name='h_funion4', parts=16, cost=60, thorough=True),
                dict(name='h_finter', parts=8, cost=20),
                dict(name='h_finter4', parts=16, cost=60, thorough=True),
                dict(name='h_fdiff', parts=8, cost=20),
                dict(name='h_fdiff4', parts=16, cost=60, thorough=True),
                dict(name='h_fsubset', parts=8, cost=20),
                dict(name='h_fdisjoint', parts=3, cost=20),
                dict(name='h_fequal', parts=3, cost=5),
                dict(name='h_query', parts=4, cost=5),
                dict(name='h_range_subset', parts=3, cost=2),
                dict(name='h_elements', parts=5, cost=8),
                dict(name='h_range_make', parts=1, cost=1),
                dict(name='h_bounded', parts=3, cost=4),
                dict(name='h_values', parts=4, cost=4),
                dict(name='h_less', parts=3, cost=8),
                dict(name='h_less_eq', parts=3, cost=8),
                dict(name='h_union3', parts=16, cost=90, thorough=True),
                dict(name='h_inter3', parts=16, cost=90, thorough=True),
                dict(name='h_diff3', parts=16, cost=90, thorough=True),
                dict(name='h_subset3', parts=8, cost=90, thorough=True),
            ])]),
}
