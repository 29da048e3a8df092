/* Stand-in for the external Sophus library: declarations only, enough for ecl_core's headers to parse. */
#ifndef VERIF_STUB_SOPHUS_HPP_
#define VERIF_STUB_SOPHUS_HPP_
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {
template <typename T> class SO3 {
public:
  typedef Eigen::Matrix<T,3,1> Tangent;
  SO3(); SO3(const Eigen::Quaternion<T>&); SO3(const Eigen::Matrix<T,3,3>&);
  Eigen::Quaternion<T> unit_quaternion() const;
  Eigen::Matrix<T,3,3> matrix() const;
  SO3 inverse() const; SO3 operator*(const SO3&) const;
  static Tangent log(const SO3&); static SO3 exp(const Tangent&);
};
template <typename T> class SE3 {
public:
  typedef Eigen::Matrix<T,6,1> Tangent;
  SE3(); SE3(const SO3<T>&, const Eigen::Matrix<T,3,1>&); SE3(const Eigen::Quaternion<T>&, const Eigen::Matrix<T,3,1>&);
  SE3(const Eigen::Matrix<T,3,3>&, const Eigen::Matrix<T,3,1>&);
  const Eigen::Matrix<T,3,1>& translation() const; Eigen::Matrix<T,3,1>& translation();
  Eigen::Quaternion<T> unit_quaternion() const;
  Eigen::Matrix<T,3,3> rotationMatrix() const; Eigen::Matrix<T,4,4> matrix() const;
  void setQuaternion(const Eigen::Quaternion<T>&);
  SO3<T>& so3(); const SO3<T>& so3() const;
  SE3 inverse() const; SE3 operator*(const SE3&) const; Eigen::Matrix<T,3,1> operator*(const Eigen::Matrix<T,3,1>&) const;
  static Tangent log(const SE3&); static SE3 exp(const Tangent&); Tangent log() const;
};
template <typename T> class SO2 { public: typedef T Tangent; SO2(); SO2(T); static T log(const SO2&); T log() const; };
template <typename T> class SE2 { public: typedef Eigen::Matrix<T,3,1> Tangent; SE2(); static Tangent log(const SE2&); };
typedef SO3<float> SO3f; typedef SO3<double> SO3d; typedef SE3<float> SE3f; typedef SE3<double> SE3d;
typedef SO2<float> SO2f; typedef SE2<float> SE2f;
}
#endif
