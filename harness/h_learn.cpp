// C22: learned models.
#include "engine.hpp"
#include <mutable/mutable.hpp>
#include <mutable/util/LinearModel.hpp>
#include "util/GridSearch.hpp"
#include "util/Kmeans.hpp"
#include "util/RDC.hpp"
#include "util/Spn.hpp"
#include <cmath>
#include <Eigen/Dense>
#include <limits>

using vp::Case;

namespace {

/*----- Linear models ----------------------------------------------------------------------------------------------------*/
VP_PROP("C22", "linear", 40000, 400000) {
    const size_t features = c.draw(4), rows = features + 1 + c.size(30);
    const bool exact = c.chance(1, 3), transform = c.chance(1, 3);
    Eigen::MatrixXd X(rows, features + 1); Eigen::VectorXd y(rows), w(features + 1);
    const double scale = c.oneof({1., 10., 1000.});
    for (size_t j = 0; j <= features; ++j) w(j) = double(c.range(-50, 50));
    for (size_t i = 0; i != rows; ++i) {
        X(i, 0) = 1;
        for (size_t j = 1; j <= features; ++j) X(i, j) = double(c.range(-1000, 1000)) / 1000 * scale;
        y(i) = exact ? 0 : double(c.range(-100000, 100000)) / 100;
    }
    auto t = [](Eigen::MatrixXd M) { Eigen::MatrixXd R(M.rows(), M.cols() * 2 - 1); R << M, M.rightCols(M.cols() - 1).array().square().matrix(); return R; };
    Eigen::MatrixXd Z = transform ? Eigen::MatrixXd(t(X)) : X;
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(Z);
    const auto &sv = svd.singularValues();
    if (Z.rows() < Z.cols() or sv(sv.size() - 1) < 1e-3 or sv(0) / sv(sv.size() - 1) > 1e4) c.discard(); // ill-conditioned
    if (exact) { if (transform) { w.conservativeResize(Z.cols()); for (Eigen::Index j = features + 1; j < Z.cols(); ++j) w(j) = double(c.range(-5, 5)); } y = Z * w; }
    c.log() << (transform ? "squares, " : "") << "X\n" << X << "\ny " << y.transpose() << "\n";
    auto model = transform ? m::LinearModel(X, y, t) : m::LinearModel(X, y);
    Eigen::VectorXd got = model.get_coefficients();
    VP_REQUIRE(c, got.rows() == Z.cols(), "coefficients", got.rows() << " coefficients for " << Z.cols() << " features");
    // the residual is orthogonal to every feature
    const double yn = 1 + y.norm();
    Eigen::VectorXd grad = Z.transpose() * (Z * got - y);
    for (Eigen::Index j = 0; j != grad.rows(); ++j) {
        const double tol = 1e-6 * (1 + Z.col(j).norm()) * yn;
        VP_REQUIRE(c, std::abs(grad(j)) <= tol, "not-least-squares", "coefficients " << got.transpose() << " are not the least-squares fit: gradient " << grad.transpose());
    }
    if (exact) VP_REQUIRE(c, (got - w).norm() <= 1e-5 * (1 + w.norm()), "not-recovered", "coefficients " << got.transpose() << " instead of " << w.transpose());
    for (int k = 0; k != 3; ++k) { // predictions
        Eigen::RowVectorXd f(features); for (size_t j = 0; j != features; ++j) f(j) = double(c.range(-1000, 1000)) / 1000 * scale;
        double want = got(0); for (size_t j = 0; j != features; ++j) { want += got(j + 1) * f(j); if (transform) want += got(features + 1 + j) * f(j) * f(j); }
        const double p = model.predict_target(f);
        VP_REQUIRE(c, std::abs(p - want) <= 1e-9 * (1 + std::abs(want) + got.norm() * (1 + f.squaredNorm())), "prediction", "predicts " << p << " instead of " << want << " for " << f);
    }
    c.nontrivial(features > 0); c.label(exact ? "exact" : "noisy"); c.label_if(transform, "transformed");
}

/*----- Grid search ------------------------------------------------------------------------------------------------------*/
template<typename T> m::gs::LinearSpace<T> space(Case &c, unsigned max_steps) {
    T lo, hi;
    if constexpr (std::is_integral_v<T>) {
        constexpr unsigned bits = std::min<unsigned>(sizeof(T) * 8, 40);
        auto one = [&] { if (sizeof(T) <= 4 and c.chance(1, 8)) return c.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
            int64_t v = c.integer(bits); if (std::is_unsigned_v<T>) v = v < 0 ? ~v : v; return T(v); };
        lo = one(); hi = one();
    } else { lo = T(double(c.integer(30)) / 64); hi = T(double(c.integer(30)) / 64); }
    if (lo > hi) std::swap(lo, hi);
    return m::gs::LinearSpace<T>(lo, hi, 1 + c.draw(max_steps - 1), c.chance(2, 3));
}

template<typename T> void check_space(Case &c) {
    auto S = space<T>(c, c.coin() ? 12 : 500);
    c.log() << "from " << +S.lo() << " to " << +S.hi() << " in " << S.num_steps() << " steps, " << (S.ascending() ? "ascending" : "descending") << "\n";
    auto seq = S.sequence();
    VP_REQUIRE(c, seq.size() == size_t(S.num_steps()) + 1, "points", seq.size() << " points");
    const long double lo = S.lo(), hi = S.hi();
    for (size_t i = 0; i != seq.size(); ++i) {
        VP_REQUIRE(c, seq[i] == S.at(i) and seq[i] == S(i), "sequence", "point " << i);
        VP_REQUIRE(c, S.lo() <= seq[i] and seq[i] <= S.hi(), "outside", "point " << i << " is " << +seq[i]);
        const long double off = (hi - lo) * i / S.num_steps(), want = S.ascending() ? lo + off : hi - off;
        const long double tol = std::is_integral_v<T> ? 0.5L + (hi - lo) * 1e-14L : (std::abs(lo) + std::abs(hi)) * (sizeof(T) == 4 ? 1e-6L : 1e-14L);
        VP_REQUIRE(c, std::abs((long double)(seq[i]) - want) <= tol, "point", "point " << i << " is " << +seq[i] << " instead of " << want);
        if (i) VP_REQUIRE(c, S.ascending() ? seq[i - 1] <= seq[i] : seq[i - 1] >= seq[i], "order", "point " << i);
    }
    VP_REQUIRE(c, seq[0] == (S.ascending() ? S.lo() : S.hi()), "first", "first point " << +seq[0]);
    if (std::is_integral_v<T>) VP_REQUIRE(c, seq.back() == (S.ascending() ? S.hi() : S.lo()), "last", "last point " << +seq.back());
    bool thrown = false; try { S.at(S.num_steps() + 1 + c.draw(3)); } catch (std::out_of_range&) { thrown = true; }
    VP_REQUIRE(c, thrown, "out-of-range", "points beyond the space");
    if (S.lo() != S.hi()) { bool t = false; try { m::gs::LinearSpace<T>(S.hi(), S.lo(), 1); } catch (std::invalid_argument&) { t = true; } VP_REQUIRE(c, t, "invalid-range", "accepted a reversed range"); }
    c.nontrivial(seq.size() > 2 and S.lo() != S.hi());
}

VP_PROP("C22", "space", 60000, 600000) {
    switch (c.draw(5)) {
        case 0: c.label("int"); return check_space<int>(c);
        case 1: c.label("unsigned"); return check_space<unsigned>(c);
        case 2: c.label("int64"); return check_space<int64_t>(c);
        case 3: c.label("int16"); return check_space<int16_t>(c);
        case 4: c.label("float"); return check_space<float>(c);
        case 5: c.label("double"); return check_space<double>(c);
    }
}

VP_PROP("C22", "grid", 30000, 300000) {
    auto A = space<int>(c, 9); auto B = space<unsigned>(c, 7); auto D = space<double>(c, 5);
    using P = std::tuple<int, unsigned, double>;
    std::vector<P> want, got;
    for (auto a : A.sequence()) for (auto b : B.sequence()) for (auto d : D.sequence()) want.emplace_back(a, b, d);
    c.log() << A.num_steps() << " x " << B.num_steps() << " x " << D.num_steps() << " steps from " << A.lo() << ", " << B.lo() << ", " << D.lo() << "\n";
    m::gs::GridSearch G(A, B, D);
    VP_REQUIRE(c, G.num_spaces() == 3, "spaces", G.num_spaces());
    VP_REQUIRE(c, G.num_points() == want.size(), "num-points", G.num_points() << " points instead of " << want.size());
    G([&](int a, unsigned b, double d) { got.emplace_back(a, b, d); });
    auto s = got; std::sort(s.begin(), s.end()); auto w = want; std::sort(w.begin(), w.end());
    VP_REQUIRE(c, s == w, "visits", "visits " << got.size() << " points, not every one of the " << want.size() << " points once");
    { // many points
        const unsigned n = 1 + c.draw(UINT32_MAX - 2), k = 1 + c.draw(UINT32_MAX - 2);
        m::gs::GridSearch H(m::gs::LinearSpace<double>(0, 1, n), m::gs::LinearSpace<double>(0, 1, k));
        VP_REQUIRE(c, H.num_points() == (size_t(n) + 1) * (size_t(k) + 1), "num-points-large", H.num_points() << " points for " << n << " by " << k << " steps");
    }
    c.nontrivial();
}

/*----- Clustering -------------------------------------------------------------------------------------------------------*/
Eigen::MatrixXf points(Case &c, size_t rows, size_t cols) {
    Eigen::MatrixXf M(rows, cols); const unsigned kind = c.draw(2);
    std::vector<std::vector<int>> centres(1 + c.draw(4));
    for (auto &x : centres) for (size_t j = 0; j != cols; ++j) x.push_back(int(c.range(-40, 40)));
    for (size_t i = 0; i != rows; ++i) { auto &ct = c.pick(centres); for (size_t j = 0; j != cols; ++j)
        M(i, j) = kind == 0 ? float(c.range(-2, 2)) : kind == 1 ? float(ct[j]) + float(c.range(-8, 8)) / 4 : float(c.range(-4000, 4000)) / 64; }
    return M;
}

VP_PROP("C22", "kmeans", 40000, 400000) {
    const size_t rows = c.size(60), cols = 1 + c.draw(3); const unsigned k = 1 + c.draw(6);
    auto M = points(c, rows, cols);
    c.log() << k << " clusters of\n" << M << "\n";
    auto [labels, centroids] = m::kmeans_with_centroids(M, k);
    VP_REQUIRE(c, labels == m::kmeans(M, k), "deterministic", "different labels");
    VP_REQUIRE(c, labels.size() == rows, "labels", labels.size() << " labels for " << rows << " points");
    if (rows == 0) { c.label("no points"); return; }
    VP_REQUIRE(c, size_t(centroids.rows()) == k and size_t(centroids.cols()) == cols, "centroids", centroids.rows() << " centroids");
    std::vector<Eigen::RowVectorXd> mean(k, Eigen::RowVectorXd::Zero(cols)); std::vector<size_t> num(k, 0);
    for (size_t i = 0; i != rows; ++i) { VP_REQUIRE(c, labels[i] < k, "label", "label " << labels[i]); mean[labels[i]] += M.row(i).cast<double>(); ++num[labels[i]]; }
    for (unsigned l = 0; l != k; ++l) if (num[l]) {
        mean[l] /= double(num[l]);
        VP_REQUIRE(c, (centroids.row(l).cast<double>() - mean[l]).norm() <= 1e-3 * (1 + mean[l].norm()), "centroid", "centroid " << l << " is " << centroids.row(l) << " instead of the mean of its points " << mean[l]);
    }
    for (size_t i = 0; i != rows; ++i) {
        const double mine = (M.row(i).cast<double>() - mean[labels[i]]).squaredNorm();
        for (unsigned l = 0; l != k; ++l) if (num[l]) {
            const double d = (M.row(i).cast<double>() - mean[l]).squaredNorm();
            VP_REQUIRE(c, mine <= d + 1e-3 * (1 + d), "nearest", "point " << i << " is assigned to cluster " << labels[i] << " at squared distance " << mine << ", but cluster " << l << " is at " << d);
        }
    }
    // the initial centres are points
    auto init = m::kmeans_plus_plus(M, k);
    for (unsigned l = 0; l != k; ++l) { bool any = false; for (size_t i = 0; i != rows; ++i) any |= init.row(l) == M.row(i); VP_REQUIRE(c, any, "initial", "initial centroid " << init.row(l) << " is not a point"); }
    c.nontrivial(k > 1 and rows > k);
}

VP_PROP("C22", "cdf", 30000, 300000) {
    const size_t rows = 1 + c.size(60), cols = 1 + c.draw(3);
    auto M = points(c, rows, cols);
    c.log() << M << "\n";
    auto C = m::create_CDF_matrix(M);
    VP_REQUIRE(c, size_t(C.rows()) == rows and size_t(C.cols()) == cols + 1, "shape", C.rows() << " x " << C.cols());
    for (size_t i = 0; i != rows; ++i) {
        for (size_t j = 0; j != cols; ++j) {
            size_t le = 0; for (size_t k = 0; k != rows; ++k) le += M(k, j) <= M(i, j);
            VP_REQUIRE(c, C(i, j) == float(le) / rows, "cdf", "row " << i << ", column " << j << ": " << C(i, j) << " instead of " << le << "/" << rows);
        }
        VP_REQUIRE(c, C(i, cols) == 1.f, "ones", "row " << i);
    }
    c.nontrivial(rows > 3);
}

/*----- Sum-product networks ---------------------------------------------------------------------------------------------*/
using Spn = m::Spn;
using Row = std::vector<std::optional<float>>;
const char *OPS[]{"=", "<", "<=", ">", ">=", "IS NULL"};

struct Data
{
    size_t cols; std::vector<Spn::LeafType> types; std::vector<Row> rows;

    bool matches(const Row &r, unsigned col, Spn::SpnOperator op, float v) const {
        if (op == Spn::IS_NULL) return not r[col];
        if (not r[col]) return false;
        const float x = *r[col];
        switch (op) { case Spn::EQUAL: return x == v; case Spn::LESS: return x < v; case Spn::LESS_EQUAL: return x <= v; case Spn::GREATER: return x > v; case Spn::GREATER_EQUAL: return x >= v; default: return false; }
    }
    double fraction(unsigned col, Spn::SpnOperator op, float v) const { size_t n = 0; for (auto &r : rows) n += matches(r, col, op, v); return double(n) / double(rows.size()); }
};

float gen_value(Case &c, const Data &d, unsigned col, size_t group) {
    if (d.types[col] == Spn::DISCRETE) return float(int(group * 3) + int(c.range(-2, 2)));
    return float(int(group * 16)) + float(c.range(-64, 64)) / 16;
}

Data gen_data(Case &c, bool nulls) {
    Data d; d.cols = 1 + c.draw(3);
    for (size_t j = 0; j != d.cols; ++j) d.types.push_back(c.chance(2, 3) ? Spn::DISCRETE : Spn::CONTINUOUS);
    const size_t n = 1 + (c.coin() ? c.draw(12) : c.draw(120)), groups = 1 + c.draw(3);
    std::vector<unsigned> nullp; for (size_t j = 0; j != d.cols; ++j) nullp.push_back(nulls and c.chance(1, 3) ? (c.chance(1, 6) ? 8 : 2) : 0);
    for (size_t i = 0; i != n; ++i) {
        Row r; const size_t g = c.draw(groups - 1);
        for (size_t j = 0; j != d.cols; ++j) if (nullp[j] and c.draw(7) < nullp[j]) r.push_back(std::nullopt); else r.push_back(gen_value(c, d, j, g));
        d.rows.push_back(std::move(r));
    }
    return d;
}

void log_data(Case &c, const Data &d) {
    for (auto t : d.types) c.log() << (t == Spn::DISCRETE ? "discrete " : "continuous "); c.log() << "\n";
    for (auto &r : d.rows) { for (auto &x : r) if (x) c.log() << *x << ' '; else c.log() << "NULL "; c.log() << '\n'; }
}

Spn learn(const Data &d) {
    Eigen::MatrixXf M(d.rows.size(), d.cols); Eigen::MatrixXi N(d.rows.size(), d.cols);
    for (size_t i = 0; i != d.rows.size(); ++i) for (size_t j = 0; j != d.cols; ++j) { N(i, j) = not d.rows[i][j]; M(i, j) = d.rows[i][j].value_or(0.f); }
    auto t = d.types;
    return Spn::learn_spn(M, N, t);
}

float pick_value(Case &c, const Data &d, unsigned col) {
    if (c.chance(2, 3)) { auto &x = c.pick(d.rows)[col]; if (x) return *x + (c.chance(1, 3) ? float(c.range(-1, 1)) / 8 : 0.f); }
    return gen_value(c, d, col, c.draw(5)) + (c.coin() ? 0.5f : 0.f);
}

constexpr double TOL = 2e-4;

/// What a network says about single columns, and how that is consistent.
void check_single(Case &c, const Data &d, const Spn &spn, bool learned) {
    for (int k = 0; k != 6; ++k) {
        const unsigned col = c.draw(d.cols - 1); const bool discrete = d.types[col] == Spn::DISCRETE;
        const float v = pick_value(c, d, col);
        double p[6], lo[6], up[6];
        for (int op = 0; op != 6; ++op) {
            const auto o = op == 5 ? Spn::IS_NULL : Spn::SpnOperator(op);
            Spn::Filter f; f.emplace(col, std::make_pair(o, v));
            p[op] = spn.likelihood(f); lo[op] = spn.lower_bound(f); up[op] = spn.upper_bound(f);
            VP_REQUIRE(c, p[op] >= -TOL and p[op] <= 1 + TOL, "not-a-probability", "column " << col << " " << OPS[op] << " " << v << ": " << p[op]);
            const double want = d.fraction(col, o, v);
            if (discrete or op == 5)
                VP_REQUIRE(c, std::abs(p[op] - want) <= TOL, op == 5 ? "null" : "discrete", "column " << col << " " << OPS[op] << " " << v << ": " << p[op] << " instead of " << want);
            else if (op > 0) {
                VP_REQUIRE(c, lo[op] <= p[op] + TOL and p[op] <= up[op] + TOL, "bounds", "column " << col << " " << OPS[op] << " " << v << ": " << p[op] << " is not within [" << lo[op] << ", " << up[op] << "]");
                // single values have no weight in a continuous domain: `<` and `<=` are one
                const double a = d.fraction(col, op <= 2 ? Spn::LESS : Spn::GREATER, v), b = d.fraction(col, op <= 2 ? Spn::LESS_EQUAL : Spn::GREATER_EQUAL, v);
                VP_REQUIRE(c, lo[op] <= b + TOL and a <= up[op] + TOL, "bounds-of-truth", "column " << col << " " << OPS[op] << " " << v << ": the fraction " << want << " is not within [" << lo[op] << ", " << up[op] << "]");
            } else VP_REQUIRE(c, want <= p[op] + TOL, "equal", "column " << col << " = " << v << ": " << p[op] << " is less than " << want);
        }
        VP_REQUIRE(c, std::abs(p[1] + p[4] + p[5] - 1) <= TOL, "additive", "column " << col << ", value " << v << ": P(<) + P(>=) + P(NULL) = " << p[1] + p[4] + p[5]);
        VP_REQUIRE(c, std::abs(p[2] + p[3] + p[5] - 1) <= TOL, "additive", "column " << col << ", value " << v << ": P(<=) + P(>) + P(NULL) = " << p[2] + p[3] + p[5]);
        // monotone
        const float w = v + float(c.draw(64)) / 8; Spn::Filter f, g;
        const auto o = Spn::SpnOperator(1 + c.draw(3));
        f.emplace(col, std::make_pair(o, v)); g.emplace(col, std::make_pair(o, w));
        const double a = spn.likelihood(f), b = spn.likelihood(g);
        VP_REQUIRE(c, o <= Spn::LESS_EQUAL ? a <= b + TOL : b <= a + TOL, "monotone", "column " << col << " " << OPS[o] << " " << v << ": " << a << ", " << w << ": " << b);
        c.label(discrete ? "discrete" : "continuous");
    }
}

VP_PROP("C22", "networks", 25000, 250000) {
    auto d = gen_data(c, true); log_data(c, d);
    auto spn = learn(d);
    VP_REQUIRE(c, spn.num_rows() == d.rows.size(), "rows", spn.num_rows() << " rows");
    VP_REQUIRE(c, spn.breadth() >= d.cols, "breadth", spn.breadth() << " leaves for " << d.cols << " columns");
    check_single(c, d, spn, true);
    VP_REQUIRE(c, spn.likelihood(Spn::Filter{}) == 1.f and spn.lower_bound(Spn::Filter{}) == 1.f and spn.upper_bound(Spn::Filter{}) == 1.f, "no-condition", "no condition");
    // several columns
    for (int k = 0; k != 3 and d.cols > 1; ++k) {
        Spn::Filter f; double last = 1;
        std::vector<unsigned> order; for (unsigned j = 0; j != d.cols; ++j) order.push_back(j);
        for (size_t j = order.size() - 1; j; --j) std::swap(order[j], order[c.draw(j)]);
        std::ostringstream os;
        for (auto col : order) {
            const auto op = c.chance(1, 8) ? Spn::IS_NULL : Spn::SpnOperator(c.draw(4)); const float v = pick_value(c, d, col);
            os << (f.empty() ? "" : " and ") << col << " " << OPS[op == Spn::IS_NULL ? 5 : op] << " " << v;
            f.emplace(col, std::make_pair(op, v));
            const double p = spn.likelihood(f);
            VP_REQUIRE(c, p >= -TOL and p <= 1 + TOL, "not-a-probability", os.str() << ": " << p);
            VP_REQUIRE(c, p <= last + TOL, "conjunction", os.str() << ": " << p << " exceeds the probability " << last << " without the last condition");
            last = p;
        }
        // a partition of the last column
        const unsigned col = order.back(); auto g = f; g.erase(col); const float v = pick_value(c, d, col);
        const double whole = spn.likelihood(g); double sum = 0;
        for (auto op : {Spn::LESS, Spn::GREATER_EQUAL, Spn::IS_NULL}) { auto h = g; h.emplace(col, std::make_pair(op, v)); sum += spn.likelihood(h); }
        VP_REQUIRE(c, std::abs(sum - whole) <= TOL, "additive-several", "partitioning column " << col << " at " << v << " changes the probability from " << whole << " to " << sum);
    }
    // expectations
    for (unsigned col = 0; col != d.cols; ++col) {
        bool nulls = false; double mean = 0, mn = HUGE_VAL, mx = -HUGE_VAL; for (auto &r : d.rows) { if (not r[col]) { nulls = true; break; } mean += *r[col]; mn = std::min<double>(mn, *r[col]); mx = std::max<double>(mx, *r[col]); }
        if (nulls) continue;
        mean /= double(d.rows.size());
        const double e = spn.expectation(col, Spn::Filter{});
        if (d.types[col] == Spn::DISCRETE) VP_REQUIRE(c, std::abs(e - mean) <= TOL * (1 + std::abs(mx) + std::abs(mn)), "expectation", "the expectation of column " << col << " is " << e << " instead of " << mean);
        else VP_REQUIRE(c, e >= mn - 0.01 and e <= mx + 0.01, "expectation-range", "the expectation of column " << col << " is " << e << ", not within [" << mn << ", " << mx << "]");
    }
    // distinct values
    for (unsigned col = 0; col != d.cols; ++col) {
        std::set<float> s; for (auto &r : d.rows) if (r[col]) s.insert(*r[col]);
        const size_t n = spn.estimate_number_distinct_values(col);
        VP_REQUIRE(c, n <= d.rows.size() and n >= std::min(s.size(), d.rows.size()), "distinct", n << " distinct values of column " << col << " instead of " << s.size());
    }
    c.nontrivial(d.cols > 1 and d.rows.size() > 4);
    c.label(spn.height() == 0 ? "leaf" : spn.height() == 1 ? "product" : "sum");
    std::ostringstream os; spn.dump(os);
}

VP_PROP("C22", "updates", 25000, 250000) {
    auto d = gen_data(c, c.chance(1, 3)); log_data(c, d);
    auto spn = learn(d);
    const bool sums = spn.height() > 1; // a deletion is searched for in the cluster nearest to the row only
    bool nulls = false; for (auto &r : d.rows) for (auto &x : r) nulls |= not x;
    size_t dels = 0, n = 1 + c.size(20);
    for (; n; --n) {
        Eigen::VectorXf v(d.cols);
        auto set = [&](const Row &r) { c.log() << ":"; for (size_t j = 0; j != d.cols; ++j) { v(j) = *r[j]; c.log() << ' ' << *r[j]; } c.log() << "\n"; };
        auto fresh = [&] { Row r; const size_t g = c.draw(4); for (size_t j = 0; j != d.cols; ++j) r.push_back(gen_value(c, d, j, g)); return r; };
        const size_t victim = c.draw(d.rows.size() - 1); bool full = true; for (auto &x : d.rows[victim]) full &= x.has_value();
        switch (sums or not full ? 0 : c.weighted({3, 2, 1})) {
            case 0: { auto r = fresh(); c.log() << "insert"; set(r); spn.insert_row(v); d.rows.push_back(std::move(r)); break; }
            case 1: { if (d.rows.size() < 2) break; c.log() << "delete"; set(d.rows[victim]); spn.delete_row(v); d.rows.erase(d.rows.begin() + victim); ++dels; break; }
            case 2: { auto r = fresh(); c.log() << "update"; set(d.rows[victim]); auto old = v; c.log() << "  to"; set(r); spn.update_row(old, v); d.rows[victim] = r; ++dels; break; }
        }
        VP_REQUIRE(c, spn.num_rows() == d.rows.size(), "rows", spn.num_rows() << " rows instead of " << d.rows.size());
        if (c.coin()) check_single(c, d, spn, false);
    }
    check_single(c, d, spn, false);
    c.nontrivial(d.rows.size() > 2); c.label(sums ? "sums" : dels ? "with deletions" : "without deletions");
}

}
