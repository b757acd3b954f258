"""A small use of each header, with known answers: C(got, want)."""
S = {
"core/constants.h": "C(theoretica::PI, 3.14159265358979323846L); C(theoretica::E, 2.71828182845904523536L); C(theoretica::SQRT2, 1.41421356237309504880L); C(theoretica::DEG2RAD * 180, theoretica::PI);",
"core/error.h": "K(theoretica::is_nan(theoretica::nan())); K(!theoretica::is_nan(R(1))); K(theoretica::is_inf(theoretica::inf())); K(theoretica::th_errcode_to_errno(theoretica::OUT_OF_DOMAIN) == EDOM);",
"core/core_traits.h": "K(theoretica::is_real_type<R>::value); K(!theoretica::is_real_type<bool*>::value);",
"core/real_analysis.h": "C(theoretica::sqrt(R(2)), 1.41421356237309504880L); C(theoretica::abs(R(-0.75)), 0.75L); C(theoretica::exp(R(1)), 2.71828182845904523536L); C(theoretica::ln(R(10)), 2.30258509299404568402L); C(theoretica::sin(R(0.5)), 0.47942553860420300027L); C(theoretica::cos(R(0.5)), 0.87758256189037271612L); C(theoretica::atan(R(1)), 0.78539816339744830962L, 1e-3L); C(theoretica::pow(R(1.5), 3), 3.375L); C(theoretica::max(R(1.25), R(1.5)), 1.5L); C(theoretica::cbrt(R(27)), 3);",
"core/special.h": "C(theoretica::special::gamma(R(0.5)), 1.77245385090551602730L); C(theoretica::special::gamma(R(5)), 24);",
"core/bit_op.h": "{ uint64_t l, h; theoretica::mul_uint128(uint64_t(1) << 63, 6, l, h); K(l == 0 && h == 3); K(theoretica::bit_rotate(uint64_t(1), 4) == 16); std::vector<R> v = {R(0.25), R(1.5), R(2.75), R(3.5)}; theoretica::swap_bit_reverse(v, 2); C(v[1], 2.75L); C(v[2], 1.5L); }",
"core/dataset.h": "{ std::vector<R> v = {R(0.5), R(-0.75), R(0.25), R(1.5)}; C(theoretica::sum(v), 1.5L); C(theoretica::sum_pairwise(v), 1.5L); C(theoretica::sum_compensated(v), 1.5L); C(theoretica::product(v), -0.140625L); C(theoretica::max(v), 1.5L); C(theoretica::min(v), -0.75L); C(theoretica::arithmetic_mean(v), 0.375L); C(theoretica::quadratic_mean(v), 0.88388347648318440550L); const R big = 1 / std::numeric_limits<R>::epsilon() * 8; std::vector<R> w = {R(0.75), big, R(0.5), -big}; C(theoretica::sum_compensated(w), 1.25L); }",
"core/function.h": "{ theoretica::real_function f = [](R x) { return x * R(0.5); }; C(f(R(0.5)), 0.25L); }",
"core/ratio.h": "{ theoretica::ratio<long> a(1, 2), b(3, 4); auto c = a + b; K(c.num * 4 == c.den * 5); }",
"algebra/algebra.h": "{ std::vector<R> v = {R(3), R(4)}, w = {R(0.5), R(0.25)}; C(theoretica::algebra::norm(v), 5); C(theoretica::algebra::dot(v, w), 2.5L); }",
"algebra/algebra_types.h": "{ theoretica::mat2 m; m(0, 0) = R(0.5); m(0, 1) = R(1); m(1, 0) = R(0.25); m(1, 1) = R(2); C(theoretica::algebra::det(m), 0.75L); theoretica::vec3 v = {R(1), R(2), R(2)}; C(v.norm(), 3); theoretica::mat4 i = theoretica::algebra::identity<theoretica::mat4>(); C(i(2, 2), 1); C(theoretica::algebra::trace(i), 4); }",
"algebra/vec.h": "{ theoretica::vec<R> v = {R(0.6), R(0.8)}; C(v.norm(), 1); C((v * v), 1); theoretica::vec<R, 3> a = {R(1), R(0), R(0)}, b = {R(0), R(1), R(0)}; C(a.cross(b)[2], 1); v *= R(2); C(v[0], 1.2L); C(v.normalized()[1], 0.8L); }",
"algebra/mat.h": "{ theoretica::mat<R> m(2, 2); m(0, 0) = R(0.5); m(0, 1) = R(1); m(1, 0) = R(0.25); m(1, 1) = R(2); C(theoretica::algebra::det(m), 0.75L); C(theoretica::algebra::trace(m), 2.5L); theoretica::mat<R> i = theoretica::algebra::inverse(m); auto p = m * i; C(p(0, 0), 1); C(p(0, 1), 0); m.transpose(); C(m(0, 1), 0.25L); }",
"algebra/transform.h": "{ struct M { typedef R value_type; R d[4] = {9, 9, 9, 9}; R& operator()(unsigned i, unsigned j) { return d[2 * i + j]; } const R& operator()(unsigned i, unsigned j) const { return d[2 * i + j]; } unsigned rows() const { return 2; } unsigned cols() const { return 2; } void resize(unsigned, unsigned) {} }; M r = theoretica::algebra::identity<M>(); C(r(0, 0), 1); C(r(0, 1), 0); C(theoretica::algebra::rotation_2d<M>(R(0.5))(0, 0), 0.87758256189037271612L); }",
"algebra/distance.h": "{ theoretica::vec<R> a = {R(0), R(0.5)}, b = {R(1.5), R(2.5)}; C(theoretica::algebra::euclidean_distance(a, b), 2.5L); C(theoretica::algebra::manhattan_distance(a, b), 3.5L); C(theoretica::algebra::chebyshev_distance(a, b), 2); }",
"algebra/parallel.h": "{ theoretica::vec<R> v = {R(0.25), R(2.25), R(0.5)}; auto w = theoretica::parallel::sqrt(v); C(w[1], 1.5L); C(theoretica::parallel::sin(v)[2], 0.47942553860420300027L); }",
"complex/complex.h": "{ theoretica::complex<R> z(R(3), R(4)), w(R(0.5), R(-0.25)); C(z.norm(), 5); C((z * w).Re(), 2.5L); C((z / z).Re(), 1);  }",
"complex/complex_types.h": "K(theoretica::is_complex_type<theoretica::complex<R>>::value); K(!theoretica::is_complex_type<R>::value);",
"complex/complex_analysis.h": "{ theoretica::complex<R> z(R(0), R(0.5)); C(theoretica::exp(z).Im(), 0.47942553860420300027L); C(theoretica::sqrt(theoretica::complex<R>(R(-2.25), R(0))).Im(), 1.5L); C(theoretica::cos(z).Re(), 1.12762596520638078522L); C(theoretica::sin(z).Im(), 0.52109530549374736162L); C(theoretica::tan(z).Im(), 0.46211715726000975850L); C(theoretica::atan(theoretica::asin(z)).Re(), 0, 1e-3L); C(theoretica::acos(z).Re(), 1.57079632679489661923L, 1e-3L); C(theoretica::ln(z).Im(), 1.57079632679489661923L, 1e-3L); }",
"complex/phasor.h": "{ theoretica::phasor<R> p(R(2), R(0.5)), q(R(0.5), R(0.25)); C((p * q).phase, 0.75L); C((p + p).modulus, 4); }",
"complex/quat.h": "{ theoretica::quat<R> i(0, 1, 0, 0), j(0, 0, 1, 0); C((i * j).d, 1); C(theoretica::quat<R>(R(0.5), R(0.5), R(0.5), R(0.5)).norm(), 1); }",
"polynomial/polynomial.h": "{ theoretica::polynomial<R> p = {R(0.5), R(0.25), R(1)}; C(p(R(0.5)), 0.875L); C((p * p)(R(0.5)), 0.765625L); C(p.find_order(), 2); theoretica::polynomial<R> q = {R(-0.75), R(1), R(1)}; auto r = q.quadratic_roots(); C(r[0].Re() + r[1].Re(), -1); }",
"polynomial/orthogonal.h": "{ C(theoretica::legendre_polynomial(2)(R(0.5)), -0.125L); C(theoretica::hermite_polynomial(2)(R(0.5)), -1); C(theoretica::laguerre_polynomial(1)(R(0.25)), 0.75L); C(theoretica::chebyshev1_polynomial(3)(R(0.5)), -1); }",
"calculus/deriv.h": "{ auto f = [](R x) { return x * x * x; }; C(theoretica::deriv(f, R(0.5)), 0.75L, 1e-2L); theoretica::polynomial<R> p = {R(1), R(2), R(0.25)}; C(theoretica::deriv(p)(R(1)), 2.5L); }",
"calculus/gauss.h": "C(theoretica::tables::legendre_roots_2[0] * theoretica::tables::legendre_roots_2[0], 0.33333333333333333333L); C(theoretica::tables::laguerre_weights_2[0] + theoretica::tables::laguerre_weights_2[1], 1);",
"calculus/integral.h": "{ auto f = [](R x) { return x * x; }; C(theoretica::integral_simpson(f, R(0), R(1.5)), 1.125L); C(theoretica::integral_legendre(f, R(0), R(1.5), 8), 1.125L); C(theoretica::integral_trapezoid(f, R(0), R(1.5)), theoretica::integral_trapezoid(f, R(0), R(1.5), THEORETICA_CALCULUS_INTEGRAL_STEPS)); theoretica::polynomial<R> p = {R(1), R(0.5)}; C(theoretica::integral(p)(R(2)), 3); }",
"calculus/ode.h": "{ auto f = [](R, const theoretica::vec<R>& x) { theoretica::vec<R> y(1); y[0] = -x[0]; return y; }; theoretica::vec<R> x(1); x[0] = 1; auto s = theoretica::ode::solve_rk4(f, x, R(0), R(1), R(0.03125)); C(s.x[s.x.size() - 1][0], 0.36787944117144232160L); theoretica::ode::ode_solution2d none; K(none.t.size() == 0); }",
"calculus/taylor.h": "{ auto p = theoretica::taylor::expand_linear([](theoretica::dual x) { return x * x; }, R(0.5)); C(p(R(1.5)), 1.25L); }",
"autodiff/dual.h": "{ theoretica::dual x(R(0.5), R(1)); auto y = x * x / (x + R(1)); C(y.Re(), 0.16666666666666666667L); C(y.Dual(), 0.55555555555555555556L); }",
"autodiff/dual2.h": "{ theoretica::dual2 x(R(0.5), R(1), R(0)); auto y = x * x * x; C(y.Dual1(), 0.75L); C(y.Dual2(), 3); }",
"autodiff/multidual.h": "{ theoretica::multidual<2> x(R(0.5), theoretica::vec<R, 2>({R(1), R(0)})), y(R(0.25), theoretica::vec<R, 2>({R(0), R(1)})); auto z = x * y; C(z.Dual()[0], 0.25L); C(z.Dual()[1], 0.5L); }",
"autodiff/dual_functions.h": "{ theoretica::dual x(R(0.5), R(1)); C(theoretica::sin(x).Dual(), 0.87758256189037271612L); C(theoretica::cos(x).Dual(), -0.47942553860420300027L); C(theoretica::tan(x).Dual(), 1.29844641040952554867L); C(theoretica::exp(x).Dual(), 1.64872127070012814685L); C(theoretica::ln(x).Dual(), 2); C(theoretica::sqrt(x).Dual(), 0.70710678118654752440L); C(theoretica::atan(x).Dual(), 0.8L); C(theoretica::asin(x).Dual(), 1.15470053837925152902L); C(theoretica::abs(theoretica::dual(R(-0.5), R(1))).Dual(), -1); }",
"autodiff/dual2_functions.h": "{ theoretica::dual2 x(R(0.5), R(1), R(0)); C(theoretica::exp(x).Dual2(), 1.64872127070012814685L); C(theoretica::sin(x).Dual2(), -0.47942553860420300027L); C(theoretica::cos(x).Dual2(), -0.87758256189037271612L); C(theoretica::ln(x).Dual2(), -4); C(theoretica::sqrt(x).Dual2(), -0.70710678118654752440L); C(theoretica::atan(x).Dual2(), -0.64L); C(theoretica::asin(x).Dual2(), 0.76980035891950101935L); }",
"autodiff/multidual_functions.h": "{ theoretica::multidual<2> x(R(0.5), theoretica::vec<R, 2>({R(1), R(0)})); C(theoretica::cos(x).Dual()[0], -0.47942553860420300027L); C(theoretica::sin(x).Dual()[0], 0.87758256189037271612L); C(theoretica::exp(x).Dual()[0], 1.64872127070012814685L); C(theoretica::ln(x).Dual()[0], 2); C(theoretica::sqrt(x).Dual()[0], 0.70710678118654752440L); C(theoretica::tan(x).Dual()[0], 1.29844641040952554867L); C(theoretica::acos(x).Dual()[0], -1.15470053837925152902L); C(theoretica::cosh(x).Dual()[0], 0.52109530549374736162L); }",
"autodiff/autodiff_types.h": "K(theoretica::autodiff::is_dual_type<theoretica::dual>::value); K(!theoretica::autodiff::is_dual_type<R>::value);",
"autodiff/autodiff.h": "{ auto f = [](theoretica::autodiff::dvec_t<2> v) { return v[0] * v[1] + v[1] * v[1]; }; auto g = theoretica::autodiff::gradient(f, theoretica::vec<R, 2>({R(0.5), R(0.25)})); C(g[0], 0.25L); C(g[1], 1); }",
"interpolation/polynomial.h": "{ std::vector<theoretica::vec<R, 2>> p = {{R(0), R(1)}, {R(1), R(0.5)}, {R(2), R(1)}}; C(theoretica::lagrange_polynomial(p)(R(0.5)), 0.625L); }",
"interpolation/splines.h": "{ C(theoretica::lerp(R(0.5), R(1.5), R(0.25)), 0.75L); C(theoretica::smoothstep(R(0), R(1), R(0.25)), 0.15625L); std::vector<theoretica::vec<R, 2>> p = {{R(0), R(1)}, {R(1), R(2)}, {R(2), R(3)}}; theoretica::spline s(p); C(s(R(1.25)), 2.25L); }",
"optimization/roots.h": "{ auto f = [](R x) { return x * x - R(2); }; C(theoretica::root_bisect(f, R(0), R(2), R(1e-5)), 1.41421356237309504880L, 1e-4L); C(theoretica::root_itp(f, R(0), R(2), R(1e-5)), 1.41421356237309504880L, 1e-4L); theoretica::real_function g = f, h = [](R x) { return 2 * x; }; C(theoretica::root_newton(g, h, R(1), R(1e-5)), 1.41421356237309504880L, 1e-4L); }",
"optimization/extrema.h": "{ auto f = [](R x) { return (x - R(0.25)) * (x - R(0.25)); }; NOTFLOAT(C(theoretica::minimize_goldensection(f, R(-1), R(1)), 0.25L, 1e-4L)); K(f(R(0.25)) == 0); }",
"optimization/multi_extrema.h": "{ auto f = [](theoretica::autodiff::dvec_t<2> v) { return (v[0] - R(0.25)) * (v[0] - R(0.25)) + v[1] * v[1]; }; auto x = theoretica::multi_minimize_grad<2>(f, theoretica::vec<R, 2>({R(1), R(1)}), R(-0.1)); C(x[0], 0.25L, 1e-2L); }",
"optimization/multi_roots.h": "{ auto f = [](theoretica::autodiff::dvec_t<2> v) { return theoretica::autodiff::dvec_t<2>({v[0] + v[1] - R(1), v[0] - v[1] - R(0.5)}); }; auto x = theoretica::multiroot_newton<2>(f, theoretica::vec<R, 2>({R(1), R(1)}), R(1e-4)); C(x[0], 0.75L, 1e-3L); C(x[1], 0.25L, 1e-3L); }",
"statistics/statistics.h": "{ std::vector<R> v = {R(0.5), R(1), R(1.5), R(3)}, w = {R(1), R(2), R(3), R(6)}; C(theoretica::stats::mean(v), 1.5L); C(theoretica::stats::variance(v), 1.16666666666666666667L); C(theoretica::stats::covariance(v, w), 2.33333333333333333333L); C(theoretica::stats::correlation_coefficient(v, w), 1); }",
"statistics/distributions.h": "{ C(theoretica::distribution::gaussian(R(0), R(0), R(1)), 0.39894228040143267794L); C(theoretica::distribution::exponential(R(0.5), R(1)), 0.60653065971263342360L); C(theoretica::distribution::cauchy(R(0), R(0), R(1)), 0.31830988618379067154L); }",
"statistics/histogram.h": "{ std::vector<R> v = {R(0.1), R(0.4), R(0.6), R(0.9)}; theoretica::histogram h(v, 2); K(h.number() == 4); K(h[0] == 2); C(h.mean(), 0.5L); }",
"statistics/errorprop.h": "{ std::vector<R> v = {R(0.5), R(0.75)}; C(theoretica::stats::propagate_sum(v), 0.90138781886599729996L); }",
"statistics/regression.h": "{ std::vector<R> x = {R(0), R(1), R(2), R(3)}, y = {R(0.5), R(0.75), R(1), R(1.25)}; theoretica::regression::linear_model m(x, y); C(m.A, 0.5L); C(m.B, 0.25L); }",
"pseudorandom/pseudorandom.h": "{ std::vector<uint64_t> s = {48271, 0, 2147483647}; K(theoretica::randgen_congruential(1, s) == 48271); K(theoretica::randgen_congruential(48271, s) == 182605794); }",
"pseudorandom/prng.h": "{ theoretica::PRNG g = theoretica::PRNG::xoshiro(7), h = theoretica::PRNG::xoshiro(7); K(g() == h()); K(g() != h() + 1); }",
"pseudorandom/quasirandom.h": "{ C(theoretica::qrand_weyl(1), 0.61803398874989484820L); }",
"pseudorandom/sampling.h": "{ theoretica::PRNG g = theoretica::PRNG::xoshiro(7); R x = theoretica::rand_uniform(R(0.25), R(0.75), g); K(x >= R(0.25) && x <= R(0.75)); R s = 0; for (int i = 0; i < 2000; ++i) s += theoretica::rand_gaussian(R(0.5), R(0.1), g); C(s / 2000, 0.5L, 0.03L); }",
"pseudorandom/montecarlo.h": "{ theoretica::PRNG g = theoretica::PRNG::xoshiro(7); auto f = [](R x) { return x; }; C(theoretica::integral_crude(f, R(0), R(1), g, 2000), 0.5L, 0.1L); C(theoretica::integral_quasi_crude(f, R(0), R(1), 1000), 0.5L, 0.02L); }",
"signal/fft.h": "{ theoretica::cvec x(4); x[0] = theoretica::complex<R>(R(1), R(0)); x[1] = x[2] = x[3] = theoretica::complex<R>(R(0.5), R(0)); auto k = theoretica::signal::fft(x); C(k[0].Re(), 2.5L); C(k[1].Re(), 0.5L); }",
"utility.h": "{ std::istringstream in(\"0.5\\n0,25\\nend\\n\"); auto v = theoretica::readln(in, \"end\"); K(v.size() == 2); C(v[1], 0.25L); std::ostringstream o; theoretica::fprintln(o, 1, \"a\"); K(o.str() == \"1 a\\n\"); }",
}
MINI = ["core/constants.h", "core/error.h", "core/core_traits.h", "core/real_analysis.h", "core/dataset.h", "algebra/algebra.h", "algebra/algebra_types.h",
        "algebra/vec.h", "algebra/mat.h", "complex/complex.h", "complex/quat.h"]
S["theoretica_mini.h"] = " ".join(S[h] for h in MINI)
S["theoretica.h"] = " ".join(S[h] for h in S if h not in ("utility.h", "theoretica_mini.h", "pseudorandom/quasirandom.h", "core/function.h", "autodiff/autodiff_types.h", "calculus/gauss.h"))
