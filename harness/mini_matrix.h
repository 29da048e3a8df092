// A stand-in for the dense matrices of Eigen: plain column-major storage, plain loops, with as many as
// MM_CAP columns where their number is decided at run time.  Include before any ecl header.
#pragma once
#include <math.h>
#include <memory>
#define ECL_LINEAR_ALGEBRA_HPP_
#define ECL_LINEAR_ALGEBRA_EIGEN_HPP_
#define ECL_LINEAR_ALGEBRA_SOPHUS_HPP_
#ifndef EIGEN_MAKE_ALIGNED_OPERATOR_NEW
#define EIGEN_MAKE_ALIGNED_OPERATOR_NEW
#endif
#ifndef MM_CAP
#define MM_CAP 6
#endif
namespace drv {
struct NoChange_t { NoChange_t() {} };
template <class M> struct CommaInitializer;
template <typename T, int R, int C, int O = 0, int MR = R, int MC = C> class Matrix;
template <class D> struct MatrixBase { const D &derived() const { return static_cast<const D &>(*this); } D &derived() { return static_cast<D &>(*this); } };
// A part of a matrix: R rows (cols columns) that start at p
template <typename T, int R, int C> struct Block : MatrixBase<Block<T, R, C> > {
  T *p; int stride, n; Block(T *q, int s, int k) : p(q), stride(s), n(k) {}
  Block(const Block &o) : p(o.p), stride(o.stride), n(o.n) {}
  int rows() const { return R; } int cols() const { return n; }
  T &operator()(int r, int c) const { return p[r + c * stride]; } T &operator()(int i) const { return p[i]; } T &operator[](int i) const { return p[i]; }
  template <class D> Block &operator=(const MatrixBase<D> &o) { for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) p[r + c * stride] = o.derived()(r, c); return *this; }
  Block &operator=(const Block &o) { for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) p[r + c * stride] = o(r, c); return *this; }
  template <class D> Block &operator+=(const MatrixBase<D> &o) { for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) p[r + c * stride] += o.derived()(r, c); return *this; }
};
template <typename T, int R, int C, int O, int MR, int MC> class Matrix : public MatrixBase<Matrix<T, R, C, O, MR, MC> > {
  enum { Cap = C < 0 ? MM_CAP : C };
  T e[R * Cap]; int n;
  void copy(const T *o, int k) { n = k; for (int i = 0; i < R * k; ++i) e[i] = o[i]; }
public:
  typedef T Scalar; typedef long Index;
  Matrix() : n(C < 0 ? 0 : C) {}
  explicit Matrix(int k) : n(C < 0 ? k : C) {}
  Matrix(const T &a, const T &b) : n(C) { e[0] = a; e[1] = b; }
  Matrix(const T &a, const T &b, const T &c) : n(C) { e[0] = a; e[1] = b; e[2] = c; }
  Matrix(const Matrix &o) { copy(o.e, o.n); }
  Matrix &operator=(const Matrix &o) { if (this != &o) copy(o.e, o.n); return *this; }
  template <class D> Matrix(const MatrixBase<D> &o) { n = o.derived().cols(); for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) e[r + c * R] = o.derived()(r, c); }
  template <class D> Matrix &operator=(const MatrixBase<D> &o) { Matrix m(o); copy(m.e, m.n); return *this; }
  static Matrix Constant(const T &v) { Matrix m; m.setConstant(v); return m; }
  static Matrix Zero() { return Constant(T(0)); } static Matrix Ones() { return Constant(T(1)); }
  static Matrix Zero(int, int k) { Matrix m(k); m.setZero(); return m; }
  static Matrix Identity() { Matrix m; m.setIdentity(); return m; }
  Matrix &setConstant(const T &v) { for (int i = 0; i < R * n; ++i) e[i] = v; return *this; }
  Matrix &setZero() { return setConstant(T(0)); } Matrix &setOnes() { return setConstant(T(1)); }
  Matrix &setIdentity() { setZero(); for (int i = 0; i < R && i < n; ++i) e[i + i * R] = T(1); return *this; }
  void fill(const T &v) { setConstant(v); }
  T &operator[](int i) { return e[i]; } const T &operator[](int i) const { return e[i]; }
  T &operator()(int i) { return e[i]; } const T &operator()(int i) const { return e[i]; }
  T &operator()(int r, int c) { return e[r + c * R]; } const T &operator()(int r, int c) const { return e[r + c * R]; }
  T &coeffRef(int i) { return e[i]; } const T &coeff(int i) const { return e[i]; } T &coeffRef(int r, int c) { return e[r + c * R]; } const T &coeff(int r, int c) const { return e[r + c * R]; }
  T &x() { return e[0]; } const T &x() const { return e[0]; } T &y() { return e[1]; } const T &y() const { return e[1]; } T &z() { return e[2]; } const T &z() const { return e[2]; }
  T *data() { return e; } const T *data() const { return e; }
  int size() const { return R * n; } int rows() const { return R; } int cols() const { return n; }
  // columns at run time
  // what was there is only kept by a conservative resize, and new columns hold nothing in particular
  void columns(int k, int kept) { __v_assert(k >= 0, "OOB: a matrix gets a negative number of columns"); __v_assume(k <= Cap); for (int i = R * kept; i < R * k; ++i) e[i] = (T)__v_double("unspecified"); n = k; }
  void resize(const NoChange_t &, int k) { if (k != n) columns(k, 0); }
  void resize(int, int k) { resize(NoChange_t(), k); }
  void conservativeResize(const NoChange_t &, int k) { columns(k, n); }
  void conservativeResize(int, int k) { columns(k, n); }
  // parts; the numbers are checked as Eigen does in its debug mode
  template <int K> Block<T, K, 1> head() const { static_assert(K <= R, "head"); return Block<T, K, 1>((T *)e, R, 1); }
  template <int K> Block<T, K, 1> tail() const { static_assert(K <= R, "tail"); return Block<T, K, 1>((T *)e + (R - K), R, 1); }
  template <int K> Block<T, K, C> topRows() const { return Block<T, K, C>((T *)e, R, n); }
  template <int K> Block<T, K, C> bottomRows() const { return Block<T, K, C>((T *)e + (R - K), R, n); }
  template <int K> Block<T, K, C> middleRows(int r) const { return Block<T, K, C>((T *)e + r, R, n); }
  Block<T, R, 1> col(int c) const { need(c >= 0 && c < n); return Block<T, R, 1>((T *)e + c * R, R, 1); }
  template <int K> Block<T, R, K> leftCols() const { need(K <= n); return Block<T, R, K>((T *)e, R, K); }
  template <int K> Block<T, R, K> rightCols() const { need(K <= n); return Block<T, R, K>((T *)e + (n - K) * R, R, K); }
  template <int K> Block<T, R, K> middleCols(int c) const { need(c >= 0 && c + K <= n); return Block<T, R, K>((T *)e + c * R, R, K); }
  Block<T, R, -1> leftCols(int k) const { need(k >= 0 && k <= n); return Block<T, R, -1>((T *)e, R, k); }
  Block<T, R, -1> rightCols(int k) const { need(k >= 0 && k <= n); return Block<T, R, -1>((T *)e + (n - k) * R, R, k); }
  Block<T, R, -1> middleCols(int c, int k) const { need(c >= 0 && k >= 0 && c + k <= n); return Block<T, R, -1>((T *)e + c * R, R, k); }
  template <int BR, int BC> Block<T, BR, BC> block(int r, int c) const { need(r >= 0 && r + BR <= R && c >= 0 && c + BC <= n); return Block<T, BR, BC>((T *)e + (r + c * R), R, BC); }
  template <int BR, int BC> Block<T, BR, BC> topLeftCorner() const { return this->template block<BR, BC>(0, 0); }
  static void need(bool b) { __v_assert(b, "OOB: a part of a matrix lies outside of it"); }
  template <class S> CommaInitializer<Matrix> operator<<(const S &v) { return CommaInitializer<Matrix>(*this, v); }
  template <class D> Matrix &operator+=(const MatrixBase<D> &o) { for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) e[r + c * R] += o.derived()(r, c); return *this; }
  template <class D> Matrix &operator-=(const MatrixBase<D> &o) { for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) e[r + c * R] -= o.derived()(r, c); return *this; }
  Matrix &operator*=(const T &v) { for (int i = 0; i < R * n; ++i) e[i] *= v; return *this; }
  Matrix &operator/=(const T &v) { for (int i = 0; i < R * n; ++i) e[i] /= v; return *this; }
  template <class D> Matrix operator+(const MatrixBase<D> &o) const { Matrix m(*this); m += o; return m; }
  template <class D> Matrix operator-(const MatrixBase<D> &o) const { Matrix m(*this); m -= o; return m; }
  Matrix operator-() const { Matrix m(*this); for (int i = 0; i < R * n; ++i) m.e[i] = -e[i]; return m; }
  Matrix operator*(const T &v) const { Matrix m(*this); m *= v; return m; }
  Matrix operator/(const T &v) const { Matrix m(*this); m /= v; return m; }
  template <int C2> Matrix<T, R, C2> operator*(const Matrix<T, C, C2> &o) const { Matrix<T, R, C2> m; for (int c = 0; c < C2; ++c) for (int r = 0; r < R; ++r) { T s = (*this)(r, 0) * o(0, c); for (int k = 1; k < C; ++k) s += (*this)(r, k) * o(k, c); m(r, c) = s; } return m; }
  Matrix<T, (C < 0 ? 1 : C), R> transpose() const { Matrix<T, (C < 0 ? 1 : C), R> m; for (int c = 0; c < n; ++c) for (int r = 0; r < R; ++r) m(c, r) = (*this)(r, c); return m; }
  T determinant() const { static_assert(R == 2 && C == 2, "2x2"); return e[0] * e[3] - e[2] * e[1]; }
  Matrix inverse() const { T d = determinant(); Matrix m; m.e[0] = e[3] / d; m.e[1] = -e[1] / d; m.e[2] = -e[2] / d; m.e[3] = e[0] / d; return m; }
  T squaredNorm() const { T s = e[0] * e[0]; for (int i = 1; i < R * n; ++i) s += e[i] * e[i]; return s; }
  T norm() const { return sqrt(squaredNorm()); }
  template <class D> T dot(const MatrixBase<D> &o) const { T s = e[0] * o.derived()(0); for (int i = 1; i < R; ++i) s += e[i] * o.derived()(i); return s; }
  bool operator==(const Matrix &o) const { if (n != o.n) return false; for (int i = 0; i < R * n; ++i) if (!(e[i] == o.e[i])) return false; return true; }
  bool operator!=(const Matrix &o) const { return !(*this == o); }
  bool isApprox(const Matrix &o, double = 0) const { return *this == o; }
};
template <class M> struct CommaInitializer {
  M *m; int n, col;
  template <class S> CommaInitializer(M &x, const S &v) : m(&x), n(0), col(0) { put(v); }
  // numbers go row by row, matrices of full height column by column
  void one(typename M::Scalar v) { int cols = m->cols(), r = n / cols, c = n - r * cols; (*m)(r, c) = v; ++n; }
  void put(int v) { one(v); } void put(float v) { one(v); } void put(double v) { one(v); }
  template <class D> void put(const MatrixBase<D> &b) { const D &d = b.derived(); __v_assert(col + d.cols() <= m->cols(), "OOB: more is stored in a matrix than it holds"); for (int c = 0; c < d.cols(); ++c) for (int r = 0; r < d.rows(); ++r) (*m)(r, col + c) = d(r, c); col += d.cols(); n += d.cols() * d.rows(); }
  template <class S> CommaInitializer &operator,(const S &v) { put(v); return *this; }
  M &finished() { return *m; }
};
template <typename T, int R, int C> Matrix<T, R, C> operator*(const T &v, const Matrix<T, R, C> &m) { return m * v; }
template <typename T, int R, int C> Matrix<T, R, C> operator*(int v, const Matrix<T, R, C> &m) { return m * T(v); }
}
namespace ecl { namespace linear_algebra {
const int Dynamic = -1;
template <typename T, int R, int C, int O = 0, int MR = R, int MC = C> using Matrix = drv::Matrix<T, R, C, O, MR, MC>;
template <class M> using CommaInitializer = drv::CommaInitializer<M>;
template <class D> using MatrixBase = drv::MatrixBase<D>;
typedef drv::Matrix<double, 2, 1> Vector2d; typedef drv::Matrix<double, 3, 1> Vector3d; typedef drv::Matrix<float, 2, 1> Vector2f; typedef drv::Matrix<float, 3, 1> Vector3f; typedef drv::Matrix<double, 2, 2> Matrix2d; typedef drv::Matrix<float, 2, 2> Matrix2f;
template <typename T> struct Rotation2D { T a; Rotation2D(const T &v) : a(v) {} drv::Matrix<T, 2, 2> toRotationMatrix() const { drv::Matrix<T, 2, 2> m; m(0, 0) = cos(a); m(0, 1) = -sin(a); m(1, 0) = sin(a); m(1, 1) = cos(a); return m; } };
} }
namespace Eigen {
template <class T> using aligned_allocator = std::allocator<T>;
const int Dynamic = -1; static const drv::NoChange_t NoChange;
using drv::Matrix; using drv::MatrixBase; using drv::CommaInitializer; using ecl::linear_algebra::Rotation2D;
typedef drv::Matrix<double, 2, 1> Vector2d; typedef drv::Matrix<double, 3, 1> Vector3d; typedef drv::Matrix<float, 2, 1> Vector2f; typedef drv::Matrix<float, 3, 1> Vector3f; typedef drv::Matrix<float, 2, -1> Matrix2Xf; typedef drv::Matrix<float, 3, -1> Matrix3Xf; typedef drv::Matrix<double, 2, 2> Matrix2d; typedef drv::Matrix<float, 2, 2> Matrix2f;
}
