// Instantiates the channel templates so that their bodies are analysed as type-checked code.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <aslam/common/channel-definitions.h>

namespace verif_driver {
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> Bytes;
template <typename T>
void group(aslam::channels::ChannelGroup* g) {
  aslam::channels::addChannel<T>("x", g);
  aslam::channels::getChannelData<T>("x", *g);
  aslam::channels::hasChannel("x", *g);
  aslam::channels::Channel<T> c;
  aslam::channels::Channel<T> d(c);
  c.compare(d);
  (void)(c == d);
  c.clone();
}
template <typename T>
void serial(T* v) {
  std::string s;
  char* b = nullptr;
  size_t n = 0;
  aslam::internal::serializeToString(*v, &s);
  aslam::internal::deSerializeFromString(s, v);
  aslam::internal::serializeToBuffer(*v, &b, &n);
  aslam::internal::deSerializeFromBuffer(b, n, v);
}
void use(aslam::channels::ChannelGroup* g) {
  group<Eigen::MatrixXd>(g);
  group<Eigen::Vector3i>(g);
  group<std::vector<Bytes>>(g);
  group<cv::Mat>(g);
  group<double>(g);
  Eigen::MatrixXd dd;
  serial(&dd);
  Eigen::Matrix2Xd fd;
  serial(&fd);
  Eigen::Matrix<float, Eigen::Dynamic, 4> df;
  serial(&df);
  Eigen::Matrix3i ff;
  serial(&ff);
  Bytes by;
  serial(&by);
  std::vector<Bytes> vb;
  serial(&vb);
  std::vector<Eigen::Matrix3Xf> vf;
  serial(&vf);
  std::vector<Eigen::Vector2d> v2;
  serial(&v2);
  std::vector<Eigen::MatrixX2i> vx2;
  serial(&vx2);
  cv::Mat m;
  serial(&m);
  double x = 0;
  serial(&x);
  int64_t l = 0;
  serial(&l);
  uint32_t u = 0;
  serial(&u);
  uint64_t ul = 0;
  serial(&ul);
  int i = 0;
  serial(&i);
  float f = 0;
  serial(&f);
}
}  // namespace verif_driver
