// C11: contracts of SparseMatrix and of the vector primitives.
// Abstraction: the matrix is the function (i,j) -> real given by operator(), zero outside the shape.
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#include <limits>
#include <iostream>
#include <thread>
#include "vf.h"
#include "algebra/algebra.h"
using namespace algebra;
namespace {
const int N = 4;
MatrixShape shape_with(const int row, const int mask)   // row: any subset; the others: fixed patterns
    {
    MatrixShape s(N);
    const int other[N] = {0xd, 0x6, 0xb, 0x0};
    for (int i = 0; i < N; i++)
        {
        const int m = i == row ? mask : other[i];
        for (int j = N - 1; j >= 0; j--) if (m >> j & 1) s[i].insert(j);
        }
    return s;
    }
struct State { MatrixShape s; double m[N][N]; };
void arbitrary(SparseMatrix &A, State &S)       // any values on the shape
    {
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            {
            S.m[i][j] = 0;
            if (S.s[i].count(j)) { S.m[i][j] = vf_real("a"); A.set(i, j, S.m[i][j]); }
            }
    }
void same(const char *name, const SparseMatrix &A, const State &S)
    { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ(name, A(i, j), S.m[i][j]); }
}
VC(sparse_construct)
    {
    const int row = vf_int("row", 0, N-1), mask = vf_int("mask", 0, 15);
    const SparseMatrix A(shape_with(row, mask));
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ("a new matrix is zero everywhere", A(i, j), 0.0);
    }
VC(sparse_ops)
    {
    const int row = vf_int("row", 0, N-1), mask = vf_int("mask", 0, 15);
    State S; S.s = shape_with(row, mask);
    SparseMatrix A(S.s);
    arbitrary(A, S);
    same("set writes the addressed coefficient only", A, S);
    std::vector<double> X(N), Y(N);
    for (int i = 0; i < N; i++) { X[i] = vf_real("x"); Y[i] = vf_real("y"); }
    const std::vector<double> X0(X);
    A.mult(X, Y);
    for (int i = 0; i < N; i++)
        {
        double r = 0;
        for (int j = 0; j < N; j++) r += S.m[i][j]*X0[j];
        EQ("product with a vector", Y[i], r);
        EQ("the operand is not modified", X[i], X0[i]);
        }
    same("product leaves the matrix unchanged", A, S);
    for (int j = 0; j < N; j++)
        {
        if (!S.s[row].count(j)) continue;
        const double v = vf_real("v");
        vf_watch_begin();
        A.add(row, j, v);
        const int bad = vf_watch_end();
        ENSURES("add modifies the matrix only under the row lock", bad == 0);
        ENSURES("add releases the lock", vf_locked() == 0);
        S.m[row][j] += v;
        same("add changes the addressed coefficient only", A, S);
        }
    A.clear();
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ("clear zeroes everything", A(i, j), 0.0);
    for (int j = 0; j < N; j++)
        {
        if (!S.s[row].count(j)) continue;
        const double v = vf_real("w"), w = vf_real("w");
        A.add(row, j, v);
        A.add(row, j, w);
        EQ("after clear, additions start from zero", A(row, j), v + w);
        }
    }
// every sequence of three operations with arbitrary values on a 2x2 matrix
VC(sparse_history)
    {
    MatrixShape s(2); s[0].insert(0); s[0].insert(1); s[1].insert(1);
    SparseMatrix A(s);
    double m[2][2] = {{0, 0}, {0, 0}};
    for (int k = 0; k < 3; k++)
        {
        const int op = vf_int("op", 0, 6);
        if (op == 6) { A.clear(); m[0][0] = m[0][1] = m[1][1] = 0; }
        else
            {
            const int c = op % 3, i = c == 2, j = c != 0;
            const double v = vf_real("v");
            if (op < 3) { A.add(i, j, v); m[i][j] += v; }
            else { A.set(i, j, v); m[i][j] = v; }
            }
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) EQ("history of operations", A(i, j), m[i][j]);
        }
    }
VC(sparse_locks)
    {
    State S; S.s = shape_with(0, 15);
    for (int j = 0; j < N; j++) S.s[3].insert(j);
    SparseMatrix A(S.s);
    long lock[N][2];
    for (int i = 0; i < N; i++)
        {
        int k = 0;
        for (int j : S.s[i]) if (k < 2)
            {
            vf_watch_begin();
            A.add(i, j, vf_real("v"));
            ENSURES("add modifies the matrix only under the row lock", vf_watch_end() == 0);
            lock[i][k++] = vf_watch_lock();
            }
        ENSURES("one lock guards all coefficients of a row", lock[i][0] == lock[i][1]);
        }
#ifdef VF_NATIVE
    static int runs = 0;
    if (runs++ < 3)
        {
        SparseMatrix B(S.s);
        auto work = [&B]() { for (int k = 0; k < 60000; k++) B.add(0, 1, 1.0); };
        std::thread t1(work), t2(work), t3(work); t1.join(); t2.join(); t3.join();
        EQ("concurrent additions are not lost", B(0, 1), 180000.0);
        }
#endif
    }
VC(sparse_precond)
    {
    MatrixShape s(N);
    for (int i = 0; i < N; i++) { s[i].insert(i); s[i].insert((i + 1) % N); }
    SparseMatrix A(s);
    double d[N];
    for (int i = 0; i < N; i++)
        {
        d[i] = vf_real("d"); REQUIRES(d[i] != 0); vf_prefer(std::fabs(d[i]) > 1e-3);
        A.set(i, i, d[i]); A.set(i, (i + 1) % N, vf_real("o"));
        }
    std::vector<double> D(N);
    A.build_diag_precond(D);
    for (int i = 0; i < N; i++)
        { EQ("preconditioner is the inverse diagonal", D[i]*d[i], 1.0); EQ("matrix diagonal unchanged", A(i, i), d[i]); }
    }
VC(vectors)
    {
    const int n = vf_int("n", 1, 4);
    std::vector<double> X(n), Y(n), Z(n);
    for (int i = 0; i < n; i++) { X[i] = vf_real("x"); Y[i] = vf_real("y"); Z[i] = vf_real("z"); }
    const double al = vf_real("alpha");
    const std::vector<double> X0(X), Y0(Y);
    double s = 0, q = 0;
    for (int i = 0; i < n; i++) { s += X[i]*Y[i]; q += X[i]*X[i]; }
    EQ("dot", dot(X, Y), s);
    const double nr = norm(X);
    EQ("norm squared", nr*nr, q);
    ENSURES("norm is not negative", nr >= 0);
    ENSURES("norm is a number", !std::isnan(nr));
    const int op = vf_int("op", 0, 5);
    if (op == 0) { scaled(al, Y); for (int i = 0; i < n; i++) EQ("scaled", Y[i], al*Y0[i]); }
    if (op == 1) { p_direct(X, Y, Z); for (int i = 0; i < n; i++) { EQ("direct product", Z[i], X0[i]*Y0[i]); EQ("p_direct frame", Y[i], Y0[i]); } }
    if (op == 2) { algebra::add(X, Y); for (int i = 0; i < n; i++) EQ("add", Y[i], Y0[i] + X0[i]); }
    if (op == 3) { algebra::sub(X, Y); for (int i = 0; i < n; i++) EQ("sub", Y[i], Y0[i] - X0[i]); }
    if (op == 4) { scaled_add(X, al, Y); for (int i = 0; i < n; i++) EQ("scaled_add", Y[i], Y0[i] + al*X0[i]); }
    if (op == 5)
        {
        const int mask = vf_int("mask", 0, (1 << n) - 1);
        std::vector<int> m;
        for (int i = n - 1; i >= 0; i--) if (mask >> i & 1) m.push_back(i);
        applyMask(m, Y);
        for (int i = 0; i < n; i++) EQ("applyMask zeroes exactly the masked entries", Y[i], (mask >> i & 1) ? 0.0 : Y0[i]);
        ENSURES("check accepts numbers", check(Y));
        }
    for (int i = 0; i < n; i++) EQ("operands are not modified", X[i], X0[i]);
    }
VC(vectors_nan)
    {
    std::vector<double> Y(3);
    const int k = vf_int("k", 0, 3);
    for (int i = 0; i < 3; i++) Y[i] = vf_real("y");
    if (k < 3) Y[k] = std::numeric_limits<double>::quiet_NaN();
    ENSURES("check reports a NaN anywhere", check(Y) == (k == 3));
    }
#ifdef VF_NATIVE
#include <map>
#include <random>
#endif
VC(large)               // replay only: some hundred rows, a long history
    {
#ifdef VF_NATIVE
    const int n = vf_int("rows", 5, 200);
    std::mt19937 g(vf_int("seed", 0, 1000000));
    auto R = [&](int k) { return int(g() % k); };
    std::uniform_real_distribution<double> U(-1, 1);
    MatrixShape sh(n);
    for (int i = 0; i < n; i++) { if (i % 7) sh[i].insert(i); for (int k = R(30); k > 0; k--) sh[i].insert(R(n)); }
    SparseMatrix A(sh);
    std::map<std::pair<int,int>, double> D;
    for (int s = 0; s < 3000; s++)
        {
        const int i = R(n); if (sh[i].empty()) continue;
        auto it = sh[i].begin(); std::advance(it, R(sh[i].size())); const int j = *it; const double v = U(g);
        switch (R(40)) { case 0: if (R(20) == 0) { A.clear(); D.clear(); } break; case 1: case 2: case 3: A.set(i, j, v); D[{i,j}] = v; break; default: A.add(i, j, v); D[{i,j}] += v; }
        }
    std::vector<double> x(n), y(n, 7.0), w(n, 0.0);
    for (double &c : x) c = U(g);
    for (auto &e : D) w[e.first.first] += e.second*x[e.first.second];
    mult(A, x, y);
    for (int i = 0; i < n; i++) EQ("product is the matrix-vector product", y[i], w[i]);
    const SparseMatrix &C = A;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { auto it = D.find({i, j}); EQ("a coefficient is the sum since the last set or clear", C(i, j), it == D.end() ? 0.0 : it->second); }
    double dd = 0, nn = 0; for (int i = 0; i < n; i++) { dd += x[i]*w[i]; nn += x[i]*x[i]; }
    EQS("scalar product", dot(x, y), dd, 100); EQ("norm", norm(x), std::sqrt(nn));
#endif
    }
