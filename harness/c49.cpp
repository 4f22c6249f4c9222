// C49: matrices and vectors of the Eigen library: construction, reading and writing, products, type queries.
#include "mc.hpp"
#include <cassert>
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/eigen.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#include "ieompp/types/matrix_check.hpp"
#include "ieompp/io/eigen/sparse.hpp"

#include <map>
#include <sstream>

using namespace ieompp::types;
using C = std::complex<double>;

template <typename T>
T value(int k); // pairwise different, printed exactly
template <> double value(int k) { return k == 0 ? 0. : (k % 2 ? 0.5 : -1.25) * k; }
template <> float value(int k) { return k == 0 ? 0.f : (k % 2 ? 0.5f : -1.25f) * k; }
template <> long double value(int k) { return k == 0 ? 0.L : (k % 2 ? 0.5L : -1.25L) * k; }
template <> C value(int k) { return k == 0 ? C() : C(k % 3 ? 0.5 * k : 0., k % 2 ? 0.25 : -1. * k); }

// all fillings of the cells with 0, one and another value (different in every cell)
template <typename T>
std::vector<std::vector<T>> fillings(int cells, int letters)
{
    std::vector<std::vector<T>> r{{}};
    for(int c = 0; c < cells; ++c) {
        std::vector<std::vector<T>> n;
        for(auto& v : r)
            for(int l = 0; l < letters; ++l) {
                n.push_back(v);
                n.back().push_back(l == 0 ? T() : value<T>(2 * c + l));
            }
        r = n;
    }
    return r;
}
template <typename M>
typename M::Scalar get(const M& m, int i, int j) { return m.coeff(i, j); }
template <typename S, int R, int K, int O>
long stored(const Eigen::Matrix<S, R, K, O>&) { return -1; }
template <typename S, int O, typename I>
long stored(const Eigen::SparseMatrix<S, O, I>& m) { return long(m.nonZeros()); }

template <typename M>
void is(const M& m, int rows, int cols, const std::vector<typename M::Scalar>& v, const char* what)
{
    MC_CHECK(m.rows() == rows && m.cols() == cols, what, ": ", m.rows(), 'x', m.cols(), " instead of ", rows, 'x', cols);
    if(m.rows() != rows || m.cols() != cols) return;
    long count = 0;
    for(int i = 0; i < rows; ++i)
        for(int j = 0; j < cols; ++j) {
            const auto want = v[i * cols + j];
            count += want != typename M::Scalar();
            MC_CHECK(get(m, i, j) == want, what, ": element ", i, ',', j, " is ", get(m, i, j), " instead of ", want);
        }
    MC_CHECK(stored(m) == -1 || stored(m) == count, what, ": ", stored(m), " elements stored instead of ", count);
}
// matrices filled from a function, over what they held before
template <typename M>
void filled(const char* name)
{
    using S = typename M::Scalar;
    using I = typename IndexType<M>::Type;
    for(int rows = 1; rows <= 4; ++rows)
        for(int cols = 1; cols <= 4; ++cols) {
            if(rows * cols > mc::pick(8, 9)) continue;
            const auto all = fillings<S>(rows * cols, rows * cols <= 6 ? 3 : 2);
            M m;
            for(std::size_t x = 0; x < all.size(); ++x) {
                const auto& v = all[x];
                MC_CASE(name, ' ', rows, 'x', cols, " filling ", x)
                {
                    mc::distinct(mc::hash_str(mc::str(name, rows, 'x', cols, '/', x)));
                    M before;
                    init(before, I(3), I(2), [](I, I) { return S(7); });
                    for(M* p : {&m, &before}) {
                        init(*p, I(rows), I(cols), [&](I i, I j) {
                            MC_CHECK(i >= 0 && i < rows && j >= 0 && j < cols, "asked for the element ", i, ',', j);
                            return v[i * cols + j];
                        });
                        is(*p, rows, cols, v, "matrix");
                    }
                }
            }
        }
    for(int n = 1; n <= 4; ++n) {
        const auto all = fillings<S>(n * (n + 1) / 2, n <= 3 ? 3 : 2);
        M m;
        for(std::size_t x = 0; x < all.size(); ++x)
            MC_CASE(name, " symmetric ", n, " filling ", x)
            {
                mc::distinct(mc::hash_str(mc::str(name, n, "s/", x)));
                auto f = [&](I i, I j) {
                    MC_CHECK(i >= 0 && i < n && j >= 0 && j < n, "asked for the element ", i, ',', j);
                    if(i < j) std::swap(i, j);
                    return all[x][i * (i + 1) / 2 + j];
                };
                std::vector<S> v;
                for(int i = 0; i < n; ++i)
                    for(int j = 0; j < n; ++j) v.push_back(f(i, j));
                M before;
                init(before, I(n), I(n + 1), [](I, I) { return S(7); });
                for(M* p : {&m, &before}) {
                    init_symmetric(*p, I(n), f);
                    is(*p, n, n, v, "symmetric matrix");
                }
            }
    }
    // larger than a narrow index
    for(int n : {127, 128, 129, 257})
        MC_CASE(name, " with ", n, " rows or columns")
        {
            mc::distinct(mc::hash_str(mc::str(name, "l/", n)));
            auto f = [](I i, I j) { return (i * 3 + j) % 5 == 0 ? value<S>(1 + int(i + 2 * j) % 50) : S(); };
            for(auto s : std::vector<std::pair<int, int>>{{n, 3}, {2, n}, {n, n}}) {
                if(s.first == s.second && n > 130) continue;
                std::vector<S> v;
                for(int i = 0; i < s.first; ++i)
                    for(int j = 0; j < s.second; ++j) v.push_back(f(i, j));
                M m;
                init(m, I(s.first), I(s.second), f);
                is(m, s.first, s.second, v, "matrix");
            }
            if(n < 130 || mc::thorough()) {
                auto g = [&](I i, I j) { return f(std::max(i, j), std::min(i, j)); };
                std::vector<S> v;
                for(int i = 0; i < n; ++i)
                    for(int j = 0; j < n; ++j) v.push_back(g(i, j));
                M m;
                init_symmetric(m, I(n), g);
                is(m, n, n, v, "symmetric matrix");
            }
        }
}
// elements that a tolerance would take for zero, single elements of a symmetric matrix
template <typename M>
void special(const char* name)
{
    using S = typename M::Scalar;
    using I = typename IndexType<M>::Type;
    using R = typename Eigen::NumTraits<S>::Real;
    for(int e : {-8, -20, -24, -32, -40, -50})
        for(int n = 1; n <= 4; ++n)
            MC_CASE(name, " elements of the order of 2^", e, ", dimension ", n)
            {
                mc::distinct(mc::hash_str(mc::str(name, n, "tiny", e)));
                for(int only = -1; only < n * n; ++only) {
                    auto f = [&](I i, I j) { return only < 0 || int(i * n + j) == only ? S(std::ldexp(R(1 + (i + j) % 3), e)) : (only % 2 == 0 ? S() : S(1)); };
                    auto g = [&](I i, I j) { return f(std::max(i, j), std::min(i, j)); };
                    std::vector<S> v, w;
                    for(int i = 0; i < n; ++i)
                        for(int j = 0; j < n; ++j) {
                            v.push_back(f(i, j));
                            w.push_back(g(i, j));
                        }
                    M m, k;
                    init(m, I(n), I(n), f);
                    is(m, n, n, v, "matrix");
                    init_symmetric(k, I(n), g);
                    is(k, n, n, w, "symmetric matrix");
                }
            }
    for(int n = 1; n <= mc::pick(20, 40); ++n)
        MC_CASE(name, " one element in dimension ", n)
        {
            mc::distinct(mc::hash_str(mc::str(name, n, "one")));
            for(int a = 0; a < n; ++a)
                for(int b = 0; b <= a; ++b) {
                    auto f = [&](I i, I j) { return (i == a && j == b) || (i == b && j == a) ? S(2) : S(); };
                    std::vector<S> v(n * n);
                    v[a * n + b] = v[b * n + a] = S(2);
                    M m, k;
                    init_symmetric(m, I(n), f);
                    is(m, n, n, v, "symmetric matrix");
                    init(k, I(n), I(n), f);
                    is(k, n, n, v, "matrix");
                }
        }
}
// dimensions that a narrow counter does not hold; what is stored is checked through the elements and their number
template <typename M>
void wide(const char* name)
{
    using S = typename M::Scalar;
    using I = typename IndexType<M>::Type;
    for(auto d : std::vector<std::pair<long, long>>{{255, 2}, {256, 2}, {257, 3}, {300, 1}, {2, 256}, {3, 257}, {300, 300}, {257, 256}, {65535, 1}, {65537, 1}, {70000, 2}, {1, 65537}, {2, 70000}})
        MC_CASE(name, ' ', d.first, 'x', d.second)
        {
            mc::distinct(mc::hash_str(mc::str(name, d.first, 'x', d.second, "wide")));
            const long rows = d.first, cols = d.second;
            auto f = [&](I i, I j) { return (i * 7 + j * 13) % 31 == 5 || (i == I(rows - 1) && j == I(cols - 1)) ? value<S>(int(1 + (i + 3 * j) % 50)) : S(); };
            M m;
            init(m, I(rows), I(cols), f);
            MC_CHECK(m.rows() == rows && m.cols() == cols, "size ", m.rows(), 'x', m.cols());
            long wrong = 0, count = 0;
            for(long i = 0; i < rows && m.rows() == rows && m.cols() == cols; ++i)
                for(long j = 0; j < cols; ++j) {
                    const auto want = f(I(i), I(j));
                    count += want != S();
                    wrong += get(m, int(i), int(j)) != want;
                }
            MC_CHECK(wrong == 0 && (stored(m) == -1 || stored(m) == count), wrong, " wrong elements, ", stored(m), " stored instead of ", count);
        }
    for(long n : {255, 256, 257, 300})
        MC_CASE(name, " symmetric ", n)
        {
            mc::distinct(mc::hash_str(mc::str(name, n, "wide symmetric")));
            auto f = [&](I i, I j) { return (i + j) % 29 == 5 || (i == j && i % 17 == 3) || i + j == I(n - 1) ? value<S>(int(1 + (i * j) % 50)) : S(); };
            M m;
            init_symmetric(m, I(n), f);
            std::vector<S> v;
            for(long i = 0; i < n; ++i)
                for(long j = 0; j < n; ++j) v.push_back(f(I(i), I(j)));
            is(m, int(n), int(n), v, "symmetric matrix");
        }
}
template <typename S, int O = Eigen::ColMajor>
using Dense = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, O>;
template <typename S, int O = Eigen::ColMajor, typename I = int>
using Sparse = Eigen::SparseMatrix<S, O, I>;

void dense()
{
    filled<Dense<double>>("dense");
    filled<Dense<double, Eigen::RowMajor>>("dense by rows");
    filled<Dense<C>>("dense complex");
    filled<Dense<float>>("dense float");
    special<Dense<double>>("dense");
    wide<Dense<double>>("dense");
    wide<Dense<C, Eigen::RowMajor>>("dense complex by rows");
    special<Dense<C, Eigen::RowMajor>>("dense complex by rows");
}
void sparse()
{
    filled<Sparse<double>>("sparse");
    filled<Sparse<double, Eigen::RowMajor>>("sparse by rows");
    filled<Sparse<C, Eigen::RowMajor>>("sparse complex by rows");
    filled<Sparse<C, Eigen::ColMajor, long>>("sparse complex, long index");
    special<Sparse<double>>("sparse");
    wide<Sparse<double>>("sparse");
    wide<Sparse<C, Eigen::RowMajor>>("sparse complex by rows");
    wide<Sparse<double, Eigen::ColMajor, long>>("sparse, long index");
    special<Sparse<double, Eigen::RowMajor>>("sparse by rows");
    special<Sparse<C, Eigen::RowMajor>>("sparse complex by rows");
}

// ---- text
template <typename M>
M made(int rows, int cols, const std::vector<typename M::Scalar>& v, int how)
{
    M m(rows, cols);
    for(int k = 0; k < rows * cols; ++k) {
        const int c = how & 1 ? rows * cols - 1 - k : k;
        if(v[c] != typename M::Scalar()) m.insert(c / cols, c % cols) = v[c];
    }
    if(how & 2) m.makeCompressed();
    return m;
}
template <typename T>
std::string shown(const T& x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
template <typename M>
void written(const char* name)
{
    using S = typename M::Scalar;
    for(int rows = 1; rows <= 3; ++rows)
        for(int cols = 1; cols <= 3; ++cols) {
            const auto all = fillings<S>(rows * cols, rows * cols <= 6 ? 3 : 2);
            for(std::size_t x = 0; x < all.size(); ++x)
                MC_CASE(name, ' ', rows, 'x', cols, " filling ", x)
                {
                    mc::distinct(mc::hash_str(mc::str(name, rows, 'x', cols, '/', x)));
                    std::map<std::string, int> want;
                    int entries = 0;
                    for(int c = 0; c < rows * cols; ++c)
                        if(all[x][c] != S()) {
                            ++want[mc::str(c / cols, '\t', c % cols, '\t', shown(all[x][c]))];
                            ++entries;
                        }
                    for(int how = 0; how < 4; ++how) {
                        const M m = made<M>(rows, cols, all[x], how);
                        std::ostringstream o;
                        ieompp::io::write_matrix(o, m);
                        const std::string text = o.str();
                        std::map<std::string, int> got;
                        std::istringstream i(text);
                        std::string l;
                        while(std::getline(i, l)) ++got[l];
                        MC_CHECK(got == want && (text.empty() || text.back() == '\n'), "written (", how, "): ", text);
                        is(m, rows, cols, all[x], "matrix after writing");
                        // and back
                        std::istringstream in(mc::str(rows, 'x', cols, '\n', entries, '\n', text));
                        M n;
                        ieompp::io::read_matrix(in, n, typename M::Index(3));
                        is(n, rows, cols, all[x], "matrix written and read");
                        std::string rest;
                        MC_CHECK(!std::getline(in, rest), "left in the stream: ", rest);
                        MC_COUNT("traces", 1);
                    }
                }
        }
}
void writing()
{
    written<Sparse<double>>("by columns");
    written<Sparse<double, Eigen::RowMajor>>("by rows");
    written<Sparse<C>>("complex");
    written<Sparse<C, Eigen::RowMajor, long>>("complex by rows, long index");
}
// every order of the entries, lines to skip between any two lines
template <typename M>
void readings(const char* name)
{
    using S = typename M::Scalar;
    const std::vector<std::string> heads{"3x2", " 3x2", "3 x 2", "\t3\tx  2 ", "03x2"}, skips{"", "\n", "# comment\n", "  # 7 7 7\n \t\n"}, seps{" ", "\t", "  \t "};
    const std::vector<std::vector<int>> sets{{}, {0}, {5}, {0, 3}, {1, 4}, {2, 3, 5}, {0, 1, 2}, {0, 1, 2, 3, 4, 5}};
    for(auto& head : heads)
        for(std::size_t set = 0; set < sets.size(); ++set)
            MC_CASE(name, " head '", head, "' entries ", sets[set])
            {
                mc::distinct(mc::hash_str(mc::str(name, head, '/', set)));
                auto cells = sets[set];
                M m;
                do {
                    std::vector<S> v(6);
                    for(auto c : cells) v[c] = value<S>(c + 1);
                    // one place with lines to skip, at every position
                    for(std::size_t at = 0; at <= cells.size() + 1; ++at)
                        for(auto& skip : skips)
                            for(auto& sep : seps) {
                                if(cells.size() > 4 && &sep != &seps[0]) continue;
                                std::string text = (at == 0 ? skip : "") + head + '\n' + (at == 1 ? skip : "") + std::to_string(cells.size()) + '\n';
                                std::size_t k = 1;
                                for(auto c : cells) {
                                    if(++k == at) text += skip;
                                    text += mc::str(c / 2, sep, c % 2, sep, shown(v[c]), &skip == &skips[1] ? sep : std::string(), '\n');
                                }
                                text += "3x3\n";
                                for(int reserve : {0, 1, 6}) {
                                    std::istringstream in(text);
                                    try {
                                        ieompp::io::read_matrix(in, m, typename M::Index(reserve));
                                    } catch(const std::exception& e) {
                                        MC_CHECK(false, "refused: ", e.what(), ": ", text);
                                    }
                                    is(m, 3, 2, v, "matrix read");
                                    std::string rest;
                                    MC_CHECK(std::getline(in, rest) && rest == "3x3", "the line behind the matrix was read");
                                    MC_COUNT("traces", 1);
                                }
                                if(skip.empty() && at == 0) continue;
                            }
                } while(std::next_permutation(cells.begin(), cells.end()) && cells.size() < 4);
            }
}
void reading()
{
    readings<Sparse<double>>("by columns");
    readings<Sparse<double, Eigen::RowMajor>>("by rows");
    readings<Sparse<C, Eigen::RowMajor, long>>("complex by rows, long index");
    // large dimensions
    for(unsigned long rows : {1ul, 255ul, 256ul, 65536ul, 70000ul})
        for(unsigned long cols : {1ul, 257ul, 65535ul, 65537ul})
            MC_CASE("dimensions ", rows, 'x', cols)
            {
                mc::distinct(mc::hash_str(mc::str("dim", rows, 'x', cols)));
                std::istringstream in(mc::str(rows, 'x', cols, "\n1\n", rows - 1, ' ', cols - 1, " 2.5\n"));
                Sparse<double> m;
                ieompp::io::read_matrix(in, m, 1);
                MC_CHECK(m.rows() == long(rows) && m.cols() == long(cols), "size ", m.rows(), 'x', m.cols());
                MC_CHECK(m.nonZeros() == 1 && m.coeff(rows - 1, cols - 1) == 2.5, "last element");
                std::ostringstream o;
                ieompp::io::write_matrix(o, m);
                MC_CHECK(o.str() == mc::str(rows - 1, '\t', cols - 1, "\t2.5\n"), "written: ", o.str());
            }
}
// more entries than a narrow counter holds, and leading zeros
void longer()
{
    for(int entries : {255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000})
        for(int cols : {1, 7, 300})
            MC_CASE("matrix of ", entries, " elements, ", cols, " columns")
            {
                mc::distinct(mc::hash_str(mc::str("many", entries, '/', cols)));
                const int rows = (entries + cols - 1) / cols;
                std::string text = mc::str(rows, 'x', cols, '\n', entries, '\n');
                for(int k = entries; k-- > 0;) text += mc::str(k / cols, ' ', k % cols, ' ', 1 + k % 9, '\n');
                text += "end\n";
                std::istringstream in(text);
                Sparse<double> m;
                try {
                    ieompp::io::read_matrix(in, m, cols > rows ? 1 : 2);
                } catch(const std::exception& e) {
                    MC_CHECK(false, "refused: ", e.what());
                }
                MC_CHECK(m.rows() == rows && m.cols() == cols && m.nonZeros() == entries, m.rows(), 'x', m.cols(), " with ", m.nonZeros(), " elements");
                long wrong = 0, seen = 0;
                for(int o = 0; o < m.outerSize(); ++o)
                    for(Sparse<double>::InnerIterator i(m, o); i; ++i) {
                        ++seen;
                        const int k = int(i.row()) * cols + int(i.col());
                        wrong += k >= entries || i.value() != 1 + k % 9;
                    }
                MC_CHECK(seen == entries && wrong == 0, wrong, " of ", seen, " elements are wrong");
                std::ostringstream o;
                ieompp::io::write_matrix(o, m);
                std::istringstream w(o.str());
                std::vector<char> met(entries);
                std::string l;
                long lines = 0, bad = 0;
                while(std::getline(w, l)) {
                    long i = -1, j = -1, x = 0;
                    char more;
                    ++lines;
                    const bool ok = std::sscanf(l.c_str(), "%ld\t%ld\t%ld%c", &i, &j, &x, &more) == 3 && i >= 0 && j >= 0 && j < cols && i * cols + j < entries;
                    if(!ok || x != 1 + (i * cols + j) % 9 || met[i * cols + j]++) ++bad;
                }
                MC_CHECK(lines == entries && bad == 0, bad, " of ", lines, " written lines are wrong");
                std::string rest;
                MC_CHECK(std::getline(in, rest) && rest == "end", "the line behind the matrix is '", rest, "'");
            }
    for(int rows : {1, 7, 8, 9, 10, 17, 64, 100})
        for(int cols : {1, 7, 8, 9, 10, 17, 64, 100})
            for(auto zr : {"", "0", "00"})
                for(auto zc : {"", "0", "00"})
                    MC_CASE("size ", zr, rows, 'x', zc, cols)
                    {
                        mc::distinct(mc::hash_str(mc::str("zeros", zr, rows, 'x', zc, cols)));
                        for(auto z : {"", "0"}) {
                            std::istringstream in(mc::str(zr, rows, 'x', zc, cols, '\n', z, "1\n", z, rows - 1, ' ', z, cols - 1, " 2.5\n"));
                            Sparse<double> m;
                            try {
                                ieompp::io::read_matrix(in, m, 1);
                            } catch(const std::exception& e) {
                                MC_CHECK(false, "refused: ", e.what());
                            }
                            MC_CHECK(m.rows() == rows && m.cols() == cols && m.nonZeros() == 1 && m.coeff(rows - 1, cols - 1) == 2.5, "size ", m.rows(), 'x', m.cols(), " with ", m.nonZeros());
                        }
                    }
}
// texts that are no matrix
void broken()
{
    const std::string good = "3x2\n3\n0 1 0.5\n2 0 -1\n1 1 4\n";
    auto refused = [](const std::string& text) {
        Sparse<double> m;
        std::istringstream in(text);
        try {
            ieompp::io::read_matrix(in, m, 2);
        } catch(const ieompp::io::IOException& e) {
            MC_CHECK(std::string(e.what()).size() > 0, "no message");
            return true;
        }
        return false;
    };
    const std::vector<std::string> heads{"", "3", "3x", "x2", "3y2", "3x2x1", "3 2", "-3x2", "3x-2", "a3x2", "3x2a", "3X2", "3.5x2", "3xx2", "matrix", "# 3x2", "3 x 2 1"};
    for(auto& h : heads)
        MC_CASE("first line '", h, "'")
        {
            mc::distinct(mc::hash_str("head" + h));
            MC_CHECK(refused(h + "\n1\n0 0 1\n"), "accepted");
            MC_CHECK(refused("# comment\n\n" + h + "\n1\n0 0 1\n"), "accepted after a comment");
            MC_CHECK(refused(h), "accepted as the only line");
        }
    // every line but the count lost, and the text cut behind every line
    std::vector<std::string> lines;
    std::istringstream s(good);
    for(std::string l; std::getline(s, l);) lines.push_back(l);
    for(std::size_t cut = 0; cut <= lines.size(); ++cut)
        for(std::size_t lost = 0; lost <= lines.size(); ++lost) {
            if(lost == 1 || cut == 1) continue; // without a count there is nothing to miss
            MC_CASE("cut behind line ", cut, ", line ", lost, " lost")
            {
                mc::distinct(mc::hash_str(mc::str("cut", cut, '/', lost)));
                std::string text;
                for(std::size_t k = 0; k < cut; ++k)
                    if(k != lost) text += lines[k] + '\n';
                MC_CHECK(refused(text) == (cut < lines.size() || lost < lines.size()), "read as a matrix: ", text);
            }
        }
    for(std::size_t line = 2; line < lines.size(); ++line)
        for(auto& bad : {"0", "0 1", "x 1 2", "0 x 2", "0 1 x", "0,1,2", "value", "0\t1"})
            MC_CASE("entry ", line - 2, " is '", bad, "'")
            {
                mc::distinct(mc::hash_str(mc::str("bad", line, bad)));
                std::string text;
                for(std::size_t k = 0; k < lines.size(); ++k) text += (k == line ? std::string(bad) : lines[k]) + '\n';
                MC_CHECK(refused(text), "read as a matrix: ", text);
            }
}

// ---- products
template <typename V>
void scalar(const char* name)
{
    using S = typename V::Scalar;
    for(int n = 1; n <= 4; ++n) {
        if(V::SizeAtCompileTime != Eigen::Dynamic && V::SizeAtCompileTime != n) continue;
        const auto all = fillings<S>(n, 3);
        for(std::size_t x = 0; x < all.size(); ++x)
            for(std::size_t y = 0; y < all.size(); ++y)
                MC_CASE(name, " vectors of ", n, ": ", x, " and ", y)
                {
                    mc::distinct(mc::hash_str(mc::str(name, n, '/', x, '/', y)));
                    V a(n), b(n);
                    S want = S();
                    for(int i = 0; i < n; ++i) {
                        a(i) = all[x][i];
                        b(i) = all[y][n - 1 - i];
                        want += Eigen::numext::conj(a(i)) * b(i);
                    }
                    const V ca = a, cb = b;
                    const S got = dot_product(ca, cb);
                    MC_CHECK(std::abs(got - want) <= 1e-6 * double(n), "product is ", got, " instead of ", want);
                    MC_CHECK(ca == a && cb == b, "the vectors changed");
                    MC_CHECK((std::is_same<decltype(dot_product(ca, cb)), S>::value), "type of the product");
                }
    }
}
void products()
{
    scalar<Eigen::VectorXd>("real");
    scalar<Eigen::VectorXcd>("complex");
    scalar<Eigen::VectorXf>("float");
    scalar<Eigen::Vector2d>("two-dimensional");
    scalar<Eigen::Vector3d>("three-dimensional");
    scalar<Eigen::RowVectorXd>("row");
}
// products in place, one after the other in different dimensions and kinds
template <typename S, typename I, int O = 0>
void apply(int n, int s)
{
    FunctionMatrix<S, I> m(I(n), I(n), [s](I i, I j) { return value<S>(1 + int(i * 7 + j * 3 + s) % 11); });
    Eigen::Matrix<S, Eigen::Dynamic, 1> v(n);
    std::vector<S> want(n);
    for(int i = 0; i < n; ++i) v(i) = value<S>((i * i + s) % 9);
    for(int k = 0; k < 2; ++k) {
        double scale = 1;
        for(int i = 0; i < n; ++i) {
            want[i] = S();
            for(int j = 0; j < n; ++j) want[i] += m(I(i), I(j)) * v(j);
            scale = std::max(scale, double(std::abs(want[i])));
        }
        multiply_assign(m, v);
        bool ok = v.size() == n;
        for(int i = 0; i < n && ok; ++i) ok = std::abs(v(i) - want[i]) <= 1e-5 * scale;
        MC_CHECK(ok, "product of dimension ", n, " of kind ", s);
        MC_COUNT("transitions", 1);
    }
}
// coefficients and elements that a tolerance would drop
template <typename S>
void small_products(const char* name)
{
    using R = typename Eigen::NumTraits<S>::Real;
    for(int a : {0, 10, 20, 30, 40, 50})
        for(int b : {0, 10, 20, 30, 40, 50, 60})
            for(int n = 1; n <= 6; ++n)
                MC_CASE(name, " coefficients of 2^-", a, " and elements of 2^-", b, ", dimension ", n)
                {
                    mc::distinct(mc::hash_str(mc::str(name, a, '/', b, '/', n)));
                    using I = uint64_t;
                    for(int only = -1; only < n; ++only) {
                        auto f = [&](I i, I j) { return std::ldexp(R(1 + (i + j) % 3), -a - (only >= 0 && int(j) != only ? 4 : 0)) * S(1); };
                        FunctionMatrix<S, I> m(I(n), I(n), f);
                        Eigen::Matrix<S, Eigen::Dynamic, 1> v(n), u(n);
                        for(int i = 0; i < n; ++i) v(i) = u(i) = S(std::ldexp(R(2 + i), -b));
                        std::vector<S> want(n);
                        R scale = 0;
                        S dot   = S();
                        for(int i = 0; i < n; ++i) {
                            for(int j = 0; j < n; ++j) want[i] += f(i, j) * v(j);
                            scale = std::max(scale, R(std::abs(want[i])));
                            dot += v(i) * v(i);
                        }
                        MC_CHECK(std::abs(dot_product(v, u) - dot) <= 1e-6 * std::abs(dot), "scalar product is ", dot_product(v, u), " instead of ", dot);
                        multiply_assign(m, v);
                        for(int i = 0; i < n; ++i) MC_CHECK(std::abs(v(i) - want[i]) <= 1e-6 * scale, "component ", i, " is ", v(i), " instead of ", want[i]);
                    }
                }
}
void act(int what)
{
    const int n = 1 + what % 5, s = what;
    switch(what / 5) {
    case 0: apply<double, uint64_t>(n, s); break;
    case 1: apply<C, uint64_t>(n, s); break;
    default: apply<double, uint64_t>(n * 40, s); break;
    }
}
void place()
{
    for(int n = 1; n <= 12; ++n)
        for(int s = 0; s < 12; ++s)
            MC_CASE("dimension ", n, " kind ", s)
            {
                mc::distinct(mc::hash_str(mc::str("place", n, '/', s)));
                apply<double, uint64_t>(n, s);
                apply<double, int>(n, s);
                apply<C, uint32_t>(n, s);
                apply<C, std::size_t>(n, s);
                apply<float, long>(n, s);
                apply<long double, uint64_t>(n, s);
            }
    for(int n : {127, 128, 255, 256, 257, 300})
        MC_CASE("dimension ", n)
        {
            mc::distinct(mc::hash_str(mc::str("place", n)));
            apply<double, uint64_t>(n, 1);
            apply<C, uint32_t>(n, 2);
        }
    small_products<double>("real");
    small_products<C>("complex");
    small_products<float>("float");
    // every sequence of three of fifteen products
    for(int a = 0; a < 15; ++a)
        for(int b = 0; b < 15; ++b)
            for(int c = 0; c < 15; ++c)
                MC_CASE("products ", a, ' ', b, ' ', c)
                {
                    mc::distinct(mc::hash_str(mc::str("seq", a, '/', b, '/', c)));
                    act(a);
                    act(b);
                    act(c);
                    MC_COUNT("traces", 1);
                }
}

// ---- type queries
template <typename T, typename S, typename I>
void kind(const char* name, bool matrix, bool vector, bool row, bool column, bool dense, bool sparse)
{
    MC_CASE("type ", name)
    {
        mc::distinct(mc::hash_str(name));
        MC_CHECK(IsMatrix<T>::value == matrix, "IsMatrix");
        MC_CHECK(IsVector<T>::value == vector, "IsVector");
        MC_CHECK(IsRowVector<T>::value == row, "IsRowVector");
        MC_CHECK(IsColumnVector<T>::value == column, "IsColumnVector");
        MC_CHECK(IsEigenDenseMatrix<T>::value == dense, "IsEigenDenseMatrix");
        MC_CHECK(IsEigenSparseMatrix<T>::value == sparse, "IsEigenSparseMatrix");
        MC_CHECK((std::is_same<typename ScalarType<T>::Type, S>::value), "ScalarType");
        MC_CHECK((std::is_same<typename IndexType<T>::Type, I>::value), "IndexType");
    }
}
template <typename T>
void size(const char* name, const T& m, long rows, long cols)
{
    MC_CASE(name, ' ', rows, 'x', cols)
    {
        mc::distinct(mc::hash_str(mc::str(name, rows, 'x', cols)));
        MC_CHECK(long(MatrixDimensionInfo<T>::rows(m)) == rows && long(MatrixDimensionInfo<T>::columns(m)) == cols, "size is reported as ", MatrixDimensionInfo<T>::rows(m), 'x',
                 MatrixDimensionInfo<T>::columns(m));
        MC_CHECK(is_quadratic(m) == (rows == cols), "is_quadratic");
    }
}
void kinds()
{
    kind<Eigen::MatrixXd, double, int>("MatrixXd", true, false, false, false, true, false);
    kind<Eigen::MatrixXcf, std::complex<float>, int>("MatrixXcf", true, false, false, false, true, false);
    kind<Eigen::Matrix3d, double, int>("Matrix3d", true, false, false, false, true, false);
    kind<Dense<C, Eigen::RowMajor>, C, int>("dense complex by rows", true, false, false, false, true, false);
    kind<Eigen::VectorXd, double, int>("VectorXd", false, true, false, true, true, false);
    kind<Eigen::VectorXcd, C, int>("VectorXcd", false, true, false, true, true, false);
    kind<Eigen::Vector4f, float, int>("Vector4f", false, true, false, true, true, false);
    kind<Eigen::RowVectorXd, double, int>("RowVectorXd", false, true, true, false, true, false);
    kind<Eigen::RowVector3d, double, int>("RowVector3d", false, true, true, false, true, false);
    kind<Sparse<double>, double, int>("sparse", true, false, false, false, false, true);
    kind<Sparse<C, Eigen::RowMajor, long>, C, long>("sparse complex by rows", true, false, false, false, false, true);
    for(long r : {1, 2, 3, 255, 256, 70000})
        for(long c : {1, 2, 3, 257}) {
            if(r * c > 1000000) continue;
            size("dense", Eigen::MatrixXd(r, c), r, c);
            size("sparse", Sparse<double>(r, c), r, c);
            size("sparse by rows", Sparse<C, Eigen::RowMajor, long>(r, c), r, c);
            if(c == 1) size("vector", Eigen::VectorXd(r), r, 1);
            if(c == 1) size("row", Eigen::RowVectorXcd(r), 1, r);
        }
    MC_CASE("other types")
    {
        mc::distinct(mc::hash_str("other types"));
        MC_CHECK(!IsEigenMatrix<double>::value && !IsEigenMatrix<std::vector<double>>::value && !IsEigenMatrix<std::string>::value, "a matrix");
        MC_CHECK(!IsEigenDenseMatrix<double>::value && !IsEigenDenseMatrix<std::vector<double>>::value && !IsEigenDenseMatrix<C>::value, "a dense matrix");
        MC_CHECK(!IsEigenSparseMatrix<double>::value && !IsEigenSparseMatrix<std::vector<double>>::value && !IsEigenSparseMatrix<C>::value, "a sparse matrix");
    }
    MC_CASE("version")
    {
        mc::distinct(mc::hash_str("version"));
        MC_CHECK(ieompp::eigen_version() == mc::str(EIGEN_WORLD_VERSION, '.', EIGEN_MAJOR_VERSION, '.', EIGEN_MINOR_VERSION), "version ", ieompp::eigen_version());
    }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"dense", dense}, {"sparse", sparse}, {"writing", writing}, {"reading", reading}, {"longer", longer}, {"broken", broken}, {"products", products}, {"place", place}, {"kinds", kinds}});
}
