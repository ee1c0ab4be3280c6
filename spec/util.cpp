// Bit sets, matrices, the random number generator and penalty functions (C33).
#include "DynamicBitset.h"
#include "Matrix.h"
#include "Measure.h"
#include "PiecewiseLinearFunction.h"
#include "RandomNumberGenerator.h"

#include <array>
#include <stdexcept>
#include <vector>

namespace pyvrp::spec
{
using Bits = DynamicBitset;
using Blocks = std::vector<std::bitset<64>>;

Blocks got_bitsNew(size_t n) { return Bits(n).data_; }
Blocks want_bitsNew(size_t n) { return Blocks((n + 63) / 64, 0); }

Blocks got_bitsOf(Blocks v) { return Bits(v).data(); }
Blocks want_bitsOf(Blocks v) { return v; }

bool got_bitsEqual(Bits const &a, Bits const &b) { return a == b; }
bool want_bitsEqual(Bits const &a, Bits const &b)
{
    return a.data_ == b.data_;
}

bool got_bitsGet(Bits const &a, size_t idx) { return a[idx]; }
bool want_bitsGet(Bits const &a, size_t idx)
{
    return a.data_[idx / 64][idx % 64];
}

Blocks got_bitsPut(Bits a, size_t idx, bool value)
{
    a[idx] = value;
    return a.data_;
}

Blocks want_bitsPut(Bits a, size_t idx, bool value)
{
    a.data_[idx / 64][idx % 64] = value;
    return a.data_;
}

bool got_bitsAll(Bits const &a) { return a.all(); }
bool want_bitsAll(Bits const &a)
{
    bool res = true;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        if (!a.data_[idx].all())
            res = false;
    return res;
}

bool got_bitsAny(Bits const &a) { return a.any(); }
bool want_bitsAny(Bits const &a)
{
    bool res = false;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        if (a.data_[idx].any())
            res = true;
    return res;
}

bool got_bitsNone(Bits const &a) { return a.none(); }
bool want_bitsNone(Bits const &a)
{
    bool res = true;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        if (a.data_[idx].any())
            res = false;
    return res;
}

size_t got_bitsCount(Bits const &a) { return a.count(); }
size_t want_bitsCount(Bits const &a)
{
    size_t res = 0;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res += a.data_[idx].count();
    return res;
}

size_t got_bitsSize(Bits const &a) { return a.size(); }
size_t want_bitsSize(Bits const &a) { return 64 * a.data_.size(); }

Blocks got_bitsAnd(Bits const &a, Bits const &b) { return (a & b).data_; }
Blocks want_bitsAnd(Bits const &a, Bits const &b)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx] &= b.data_[idx];
    return res;
}

Blocks got_bitsOr(Bits const &a, Bits const &b) { return (a | b).data_; }
Blocks want_bitsOr(Bits const &a, Bits const &b)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx] |= b.data_[idx];
    return res;
}

Blocks got_bitsXor(Bits const &a, Bits const &b) { return (a ^ b).data_; }
Blocks want_bitsXor(Bits const &a, Bits const &b)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx] ^= b.data_[idx];
    return res;
}

Blocks got_bitsNot(Bits const &a) { return (~a).data_; }
Blocks want_bitsNot(Bits const &a)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx] = ~a.data_[idx];
    return res;
}

Blocks got_bitsSet(Bits a) { return a.set().data_; }
Blocks want_bitsSet(Bits a)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx].set();
    return res;
}

Blocks got_bitsReset(Bits a) { return a.reset().data_; }
Blocks want_bitsReset(Bits a)
{
    Blocks res = a.data_;
    for (size_t idx = 0; idx != a.data_.size(); ++idx)
        res[idx].reset();
    return res;
}

// Matrices.

using M = Matrix<Distance>;

Distance got_matrixGet(std::vector<Distance> v, size_t rows, size_t cols,
                       size_t r, size_t c)
{
    M const m(std::move(v), rows, cols);
    return m(r, c);
}
Distance want_matrixGet(std::vector<Distance> v, size_t rows, size_t cols,
                        size_t r, size_t c)
{
    return v[r * cols + c];
}

Distance got_matrixPut(std::vector<Distance> v, size_t rows, size_t cols,
                       size_t r, size_t c, Distance x)
{
    M m(std::move(v), rows, cols);
    m(r, c) = x;
    return m.data_[r * cols + c];
}
Distance want_matrixPut(std::vector<Distance> v, size_t rows, size_t cols,
                        size_t r, size_t c, Distance x)
{
    return x;
}

struct Shape
{
    size_t rows;
    size_t cols;
    size_t size;
    Distance const *data;
};

Shape got_matrixShape(size_t rows, size_t cols, Distance x)
{
    M const m(rows, cols, x);
    return {m.numRows(), m.numCols(), m.size(), nullptr};
}
Shape want_matrixShape(size_t rows, size_t cols, Distance x)
{
    return {rows, cols, rows * cols, nullptr};
}

Distance got_matrixFill(size_t rows, size_t cols, Distance x, size_t r,
                        size_t c)
{
    M const m(rows, cols, x);
    return m(r, c);
}
Distance want_matrixFill(size_t rows, size_t cols, Distance x, size_t r,
                         size_t c)
{
    std::vector<Distance> v(rows * cols, x);
    return v[r * cols + c];
}

Distance got_matrixMax(M const &m) { return m.max(); }
Distance want_matrixMax(M const &m)
{
    return *std::max_element(m.data_.begin(), m.data_.end());
}

bool got_matrixEqual(M const &a, M const &b) { return a == b; }
bool want_matrixEqual(M const &a, M const &b)
{
    return a.rows_ == b.rows_ && a.cols_ == b.cols_ && a.data_ == b.data_;
}

// Random numbers: Marsaglia's xor128.

using RNG = RandomNumberGenerator;

struct Draw
{
    uint32_t value;
    uint32_t s0;
    uint32_t s1;
    uint32_t s2;
    uint32_t s3;
};

Draw got_rngNext(std::array<uint32_t, 4> state)
{
    RNG rng(state);
    Draw res;
    res.value = rng();
    res.s0 = rng.state()[0];
    res.s1 = rng.state()[1];
    res.s2 = rng.state()[2];
    res.s3 = rng.state()[3];
    return res;
}

Draw want_rngNext(std::array<uint32_t, 4> state)
{
    uint32_t t = state[3];
    uint32_t const s = state[0];
    t = t ^ (t << 11);
    t = t ^ (t >> 8);
    Draw res;
    res.value = t ^ s ^ (s >> 19);
    res.s0 = res.value;
    res.s1 = s;
    res.s2 = state[1];
    res.s3 = state[2];
    return res;
}

Draw got_rngSeed(uint32_t seed)
{
    RNG const rng(seed);
    auto const &state = rng.state();
    return {0, state[0], state[1], state[2], state[3]};
}

Draw want_rngSeed(uint32_t seed)
{
    return {0, seed, 123456789, 362436069, 521288629};
}

double got_rngRand(RNG &rng) { return rng.rand(); }
double want_rngRand(RNG &rng)
{
    return rng() / static_cast<double>(4294967295u);
}

uint32_t got_rngRandint(RNG &rng, uint32_t high) { return rng.randint(high); }
uint32_t want_rngRandint(RNG &rng, uint32_t high) { return rng() % high; }

// Penalty functions.

using F = PiecewiseLinearFunction<int64_t, int64_t>;

bool got_pwlEqual(F const &a, F const &b) { return a == b; }
bool want_pwlEqual(F const &a, F const &b)
{
    return a.breakpoints_ == b.breakpoints_ && a.segments_ == b.segments_;
}

int64_t got_pwlEval(F const &f, int64_t x) { return f(x); }
int64_t want_pwlEval(F const &f, int64_t x)
{
    auto const it = std::upper_bound(
        f.breakpoints_.begin(), f.breakpoints_.end(), x);
    auto const seg = f.segments_[it - f.breakpoints_.begin()];
    return seg.first + seg.second * x;
}

bool got_pwlMonotone(F const &f) { return f.isMonotonicallyIncreasing(); }
bool want_pwlMonotone(F const &f)
{
    for (size_t idx = 0; idx != f.segments_.size(); ++idx)
        if (f.segments_[idx].second < 0)
            return false;

    for (size_t idx = 0; idx != f.breakpoints_.size(); ++idx)
    {
        auto const x = f.breakpoints_[idx];
        auto const left = f.segments_[idx].first + f.segments_[idx].second * x;
        auto const right
            = f.segments_[idx + 1].first + f.segments_[idx + 1].second * x;
        if (right < left)
            return false;
    }

    return true;
}

F got_pwlPoints(std::vector<std::pair<int64_t, int64_t>> points)
{
    return F(points);
}
F want_pwlPoints(std::vector<std::pair<int64_t, int64_t>> points)
{
    F res({}, {{0, 0}});
    res.segments_.clear();

    if (points.size() < 2)
        throw std::invalid_argument("");
    if (points[0].first == points[1].first)
        throw std::invalid_argument("");
    if (points[points.size() - 2].first == points[points.size() - 1].first)
        throw std::invalid_argument("");

    for (size_t idx = 0; idx + 1 != points.size(); ++idx)
    {
        auto const dx = points[idx + 1].first - points[idx].first;
        auto const dy = points[idx + 1].second - points[idx].second;
        if (dx == 0)
            continue;
        if (dx < 0 || dy % dx != 0)
            throw std::invalid_argument("");
        if (idx > 0)
            res.breakpoints_.push_back(points[idx].first);
        res.segments_.emplace_back(
            points[idx].second - dy / dx * points[idx].first, dy / dx);
    }
    return res;
}

F got_pwlParts(std::vector<int64_t> bps,
               std::vector<std::pair<int64_t, int64_t>> segs)
{
    return F(bps, segs);
}
F want_pwlParts(std::vector<int64_t> bps,
                std::vector<std::pair<int64_t, int64_t>> segs)
{
    if (segs.empty() || bps.size() + 1 != segs.size())
        throw std::invalid_argument("");
    for (size_t idx = 0; idx + 1 < bps.size(); ++idx)
        if (bps[idx] >= bps[idx + 1])
            throw std::invalid_argument("");
    F res({}, {{0, 0}});
    res.breakpoints_ = bps;
    res.segments_ = segs;
    return res;
}

std::vector<int64_t> got_pwlBps(F const &f) { return f.breakpoints(); }
std::vector<int64_t> want_pwlBps(F const &f) { return f.breakpoints_; }
std::vector<std::pair<int64_t, int64_t>> got_pwlSegs(F const &f)
{
    return f.segments();
}
std::vector<std::pair<int64_t, int64_t>> want_pwlSegs(F const &f)
{
    return f.segments_;
}
}  // namespace pyvrp::spec
