I = "aslam_cv_common/include/aslam/common/"
H = I + "channel-serialization.h"
C = "aslam_cv_common/src/channel-serialization.cc"
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <Eigen/Core>
#include <opencv2/core/core.hpp>
#include <glog/logging.h>
#include <aslam/common/channel-serialization.h>
using namespace aslam::internal;
#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::_Exit(1); } } while (0)
// how a function ends: 0 returned, otherwise the signal that killed it
template <typename F>
int ends(F f) {
  const pid_t p = fork();
  if (p == 0) {
    std::freopen("/dev/null", "w", stderr);
    f();
    std::_Exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
}
// a copy of the bytes that ends directly before an inaccessible page
const char* atPageEnd(const std::string& s) {
  const size_t page = sysconf(_SC_PAGESIZE);
  const size_t n = (s.size() + page - 1) / page * page;
  char* p = static_cast<char*>(mmap(nullptr, n + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p + n, page, PROT_NONE);
  std::memcpy(p + n - s.size(), s.data(), s.size());
  return p + n - s.size();
}
'''
SEEDS = [
    dict(id="se-image-truncated", property="P09", edits=[
        (C, "  size_t total_size = matrix_size + header.size();\n  CHECK_EQ(size, total_size);\n  int type",
         "  const size_t total_size = matrix_size + header.size();\n  CHECK_GE(total_size, size) << \"Trailing bytes after the image.\";\n  int type")],
        demo=HEAD + r'''
int main() {
  // An image whose last bytes are missing is rejected, not read from behind the end of the buffer.
  cv::Mat image(40, 30, CV_16UC1, cv::Scalar(7));
  std::string s;
  REQUIRE(serializeToString(image, &s));
  cv::Mat out;
  REQUIRE(deSerializeFromString(s, &out));
  const std::string cut = s.substr(0, s.size() - 3);
  const char* buffer = atPageEnd(cut);
  const int end = ends([&]() { cv::Mat o; deSerializeFromBuffer(buffer, cut.size(), &o); });
  REQUIRE(end == SIGABRT);
  return 0;
}
''', needs="a serialized image from which the last bytes are missing (truncated file or message)",
        breaks="the size check became one-sided, so the deserializer copies from behind the end of the buffer"),
    dict(id="se-matrix-rows-unchecked", property="P09", edits=[
        (H, "  if (ROWS != Eigen::Dynamic) {\n    CHECK_EQ(header.rows, static_cast<uint32_t>(ROWS));\n  }\n  if (COLS != Eigen::Dynamic) {\n    CHECK_EQ(header.cols, static_cast<uint32_t>(COLS));\n  }\n  CHECK_EQ(header.depth",
         "  if (ROWS != Eigen::Dynamic && COLS != Eigen::Dynamic) {\n    CHECK_EQ(header.rows, static_cast<uint32_t>(ROWS));\n    CHECK_EQ(header.cols, static_cast<uint32_t>(COLS));\n  }\n  CHECK_EQ(header.depth"),
        (H, "  size_t matrix_size = sizeof(Scalar) * matrix->rows() * matrix->cols();\n",
         "  size_t matrix_size = sizeof(Scalar) * header.rows * header.cols;\n")],
        demo=HEAD + r'''
int main() {
  // A 5 x 4 matrix does not fit into a matrix with three rows: it is rejected.
  Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> m(5, 4);
  m.setRandom();
  std::string s;
  REQUIRE(serializeToString(m, &s));
  const int end = ends([&]() {
    Eigen::Matrix<double, 3, Eigen::Dynamic> o;
    deSerializeFromString(s, &o);
  });
  REQUIRE(end == SIGABRT);
  return 0;
}
''', needs="a header whose number of rows differs from that of a matrix type with fixed rows and dynamic columns",
        breaks="the rows in the header are only compared for matrices of entirely fixed size, the copy then writes past the matrix"),
    dict(id="se-image-short-depth", property="P10", edits=[
        (C, "    case cv::DataType<int16_t>::depth:\n    success = serializeToBuffer<int16_t>(matrixData, image.rows,",
         "    case cv::DataType<int16_t>::depth:\n    success = serializeToBuffer<uint16_t>(matrixData, image.rows,")],
        demo=HEAD + r'''
int main() {
  const int types[] = {CV_8UC1, CV_8SC1, CV_16UC1, CV_16SC1, CV_32SC1, CV_32FC1, CV_64FC1, CV_8UC3};
  for (int type : types) {
    cv::Mat image(3, 4, type);
    cv::randu(image, cv::Scalar(-100), cv::Scalar(100));
    char* buffer = nullptr;
    size_t size = 0;
    REQUIRE(serializeToBuffer(image, &buffer, &size));
    cv::Mat out;
    REQUIRE(deSerializeFromBuffer(buffer, size, &out));
    REQUIRE(out.type() == image.type());
    REQUIRE(out.size() == image.size());
    REQUIRE(0 == std::memcmp(out.data, image.data, image.total() * image.elemSize()));
    delete[] buffer;
  }
  return 0;
}
''', needs="an image of signed 16 bit depth serialized to a buffer",
        breaks="the header says unsigned 16 bit, so the image comes back with another type"),
    dict(id="se-vector-size-of-first", property="P10", edits=[
        (H, "  *size = sizeof(repeat);\n\n  HeaderInformation header;\n  for (size_t i = 0; i < matrices.size(); i++) {\n    const int rows = matrices[i].rows();\n    const int cols = matrices[i].cols();\n    const size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n    *size += matrixSize + header.size();\n  }\n",
         "  *size = sizeof(repeat);\n\n  HeaderInformation header;\n  if (!matrices.empty()) {\n    const int rows = matrices.front().rows();\n    const int cols = matrices.front().cols();\n    const size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n    *size += repeat * (matrixSize + header.size());\n  }\n")],
        demo=HEAD + r'''
int main() {
  // Matrices of different sizes in one vector.
  std::vector<Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic>> v(3);
  for (int i = 0; i < 3; ++i) {
    v[i].resize(4 - i, 5 - i);
    v[i].setConstant(i);
  }
  char* buffer = nullptr;
  size_t size = 0;
  REQUIRE(serializeToBuffer(v, &buffer, &size));
  std::string s;
  REQUIRE(serializeToString(v, &s));
  REQUIRE(s.size() == size);
  REQUIRE(0 == std::memcmp(s.data(), buffer, size));
  return 0;
}
''', needs="a vector of matrices that do not all have the same size",
        breaks="the memory is allocated as if all elements had the size of the first one"),
]
