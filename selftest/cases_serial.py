H = "aslam_cv_common/include/aslam/common/channel-serialization.h"
C = "aslam_cv_common/src/channel-serialization.cc"
GE = "  CHECK_GE(size, header.size());\n"
PAY = "    CHECK_GE(size - offset, matrix_size);\n"
HDR = "    CHECK_GE(size - offset, header.size());\n"
REP = "  CHECK_LE(repeat, (size - offset) / header.size());\n"
EQ = "  size_t total_size = matrix_size + header.size();\n  CHECK_EQ(size, total_size);\n  memcpy(matrix->data(), buffer + header.size(), matrix_size);\n"
CASES = [
    # ---- P09
    ("se: no minimum size for header", "P09", "fire", [(H, GE, "")]),
    ("se: image no minimum size", "P09", "fire", [(C, GE, "")]),
    ("se: matrix size check one-sided", "P09", "fire", [(H, "  CHECK_EQ(size, total_size);\n  memcpy(matrix->data()", "  CHECK_LE(size, total_size);\n  memcpy(matrix->data()")]),
    ("se: matrix size check ge", "P09", "quiet", [(H, "  CHECK_EQ(size, total_size);\n  memcpy(matrix->data()", "  CHECK_GE(size, total_size);\n  memcpy(matrix->data()")]),
    ("se: matrix size ignores header", "P09", "fire", [(H, "  size_t total_size = matrix_size + header.size();\n  CHECK_EQ(size, total_size);\n  memcpy(matrix->data()", "  CHECK_GE(size, matrix_size);\n  memcpy(matrix->data()")]),
    ("se: image channels unchecked", "P09", "fire", [(C, "  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));\n", "")]),
    ("se: image size checks rows only", "P09", "fire", [(C, "  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;\n  size_t total_size = matrix_size + header.size();\n  CHECK_EQ(size, total_size);", "  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;\n  CHECK_GE(size, sizeof(SCALAR) * header.rows * header.cols + header.size());")]),
    ("se: image created transposed", "P09", "quiet", [(C, "image->create(header.rows, header.cols, type)", "image->create(header.cols, header.rows, type)")]),
    ("se: image created single channel", "P09", "fire", [(C, "CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels)", "CV_MAKETYPE(cv::DataType<SCALAR>::depth, 1)")]),
    ("se: image create moved after copy", "P09", "fire", [(C, "  image->create(header.rows, header.cols, type);\n  memcpy(image->data, buffer + header.size(), matrix_size);\n", "  memcpy(image->data, buffer + header.size(), matrix_size);\n  image->create(header.rows, header.cols, type);\n")]),
    ("se: vector payload unchecked", "P09", "fire", [(H, PAY, "")]),
    ("se: vector header unchecked", "P09", "fire", [(H, HDR, "")]),
    ("se: vector count unchecked", "P09", "fire", [(H, REP, "")]),
    ("se: vector count by size", "P09", "quiet", [(H, REP, "  CHECK_LE(repeat, size);\n")]),
    ("se: vector payload check without offset", "P09", "fire", [(H, PAY, "    CHECK_GE(size, matrix_size);\n")]),
    ("se: vector payload check as sum", "P09", "quiet", [(H, PAY, "    CHECK_LE(offset + matrix_size, size);\n")]),
    ("se: vector header check if-return", "P09", "quiet", [(H, HDR, "    if (offset + header.size() > size) {\n      return false;\n    }\n")]),
    ("se: vector size minimum dropped", "P09", "fire", [(H, "  CHECK_GE(size, sizeof(repeat));\n", "")]),
    ("se: resize after the copy", "P09", "fire", [(H, "    matrix->resize(header.rows, header.cols);\n  } else", "    matrix->resize(header.cols, header.cols);\n  } else"), (H, "  size_t matrix_size = sizeof(Scalar) * matrix->rows() * matrix->cols();\n", "  size_t matrix_size = sizeof(Scalar) * header.rows * header.cols;\n")]),
    ("se: matrix size from header", "P09", "quiet", [(H, "  size_t matrix_size = sizeof(Scalar) * matrix->rows() * matrix->cols();\n", "  size_t matrix_size = sizeof(Scalar) * header.rows * header.cols;\n")]),
    ("se: scalar size unchecked", "P09", "fire", [(H, "  CHECK_EQ(size, sizeof(Scalar));\n", "")]),
    ("se: scalar copies its own size", "P09", "quiet", [(H, "  memcpy(value, buffer, size);\n", "  memcpy(value, buffer, sizeof(Scalar));\n")]),
    ("se: header read wider", "P09", "fire", [(C, "  memcpy(&channels, buffer, sizeof(channels));\n  buffer += sizeof(channels);\n  return true;\n}\n\nbool serializeToString", "  memcpy(&channels, buffer, sizeof(size_t));\n  buffer += sizeof(channels);\n  return true;\n}\n\nbool serializeToString")]),
    ("se: pointer version of the header read", "P09", "quiet", [(C, "  const char* buffer = buffer_in;\n  buffer += offset;\n", "  const char* buffer = buffer_in + offset;\n")]),
    ("se: remaining helper variable", "P09", "quiet", [(H, PAY, "    const size_t remaining = size - offset;\n    CHECK_GE(remaining, matrix_size);\n")]),
    ("se: offset advanced before the copy", "P09", "fire", [(H, "    memcpy((*matrices)[i].data(), buffer + offset, matrix_size);\n    offset += matrix_size;\n", "    offset += matrix_size;\n    memcpy((*matrices)[i].data(), buffer + offset, matrix_size);\n")]),
    # ---- P10
    ("se: header order swapped in the reader", "P10", "fire", [(C, "  memcpy(&rows, buffer, sizeof(rows));\n  buffer += sizeof(rows);\n  memcpy(&cols, buffer, sizeof(cols));\n  buffer += sizeof(cols);\n  memcpy(&depth, buffer, sizeof(depth));\n  buffer += sizeof(depth);\n  memcpy(&channels, buffer, sizeof(channels));\n  buffer += sizeof(channels);\n  return true;\n}\n\nbool serializeToString", "  memcpy(&cols, buffer, sizeof(cols));\n  buffer += sizeof(cols);\n  memcpy(&rows, buffer, sizeof(rows));\n  buffer += sizeof(rows);\n  memcpy(&depth, buffer, sizeof(depth));\n  buffer += sizeof(depth);\n  memcpy(&channels, buffer, sizeof(channels));\n  buffer += sizeof(channels);\n  return true;\n}\n\nbool serializeToString")]),
    ("se: rows and cols swapped by the writer", "P10", "fire", [(H, "  return serializeToBuffer<Scalar>(matrixData, matrix.rows(), matrix.cols(),", "  return serializeToBuffer<Scalar>(matrixData, matrix.cols(), matrix.rows(),")]),
    ("se: header from the first element", "P10", "fire", [(H, "    makeHeaderInformation<Scalar>(rows, cols, channels, &header);\n    bool success = header.serializeToBuffer(*buffer, offset);", "    makeHeaderInformation<Scalar>(matrices[0].rows(), cols, channels, &header);\n    bool success = header.serializeToBuffer(*buffer, offset);")]),
    ("se: vector size misses header", "P10", "fire", [(H, "    *size += matrixSize + header.size();\n", "    *size += matrixSize;\n")]),
    ("se: vector size misses count", "P10", "fire", [(H, "  *size = sizeof(repeat);\n", "  *size = 0u;\n")]),
    ("se: vector size in two steps", "P10", "quiet", [(H, "    *size += matrixSize + header.size();\n", "    *size += matrixSize;\n    *size += header.size();\n")]),
    ("se: vector string offset not advanced", "P10", "fire", [(H, "    memcpy(buffer + offset, matrixData, matrixSize);\n    offset += matrixSize;\n  }\n\n  return true;", "    memcpy(buffer + offset, matrixData, matrixSize);\n    offset += sizeof(Scalar) * rows;\n  }\n\n  return true;")]),
    ("se: image case of wrong type", "P10", "fire", [(C, "    case cv::DataType<int16_t>::depth:\n    success = serializeToBuffer<int16_t>", "    case cv::DataType<int16_t>::depth:\n    success = serializeToBuffer<uint16_t>")]),
    ("se: image reader case of wrong type", "P10", "fire", [(C, "    case cv::DataType<int32_t>::depth:\n    deSerializeTypedFromBuffer<int32_t>", "    case cv::DataType<int32_t>::depth:\n    deSerializeTypedFromBuffer<float>")]),
    ("se: image writer ignores channels", "P10", "fire", [(C, "    success = serializeToString<double>(matrixData, image.rows,\n                                        image.cols, image.channels(),", "    success = serializeToString<double>(matrixData, image.rows,\n                                        image.cols, 1,")]),
    ("se: depth check dropped", "P10", "fire", [(H, "  CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);\n  CHECK_EQ(1u, header.channels) << \"Eigen matrices must have one channel.\";\n\n  if", "  CHECK_EQ(1u, header.channels) << \"Eigen matrices must have one channel.\";\n\n  if")]),
    ("se: trailing bytes accepted", "P10", "fire", [(H, "  CHECK_EQ(offset, size);\n", "")]),
    ("se: image created transposed", "P10", "fire", [(C, "image->create(header.rows, header.cols, type)", "image->create(header.cols, header.rows, type)")]),
    ("se: empty elements skipped by the writer", "P10", "fire", [(H, "    makeHeaderInformation<Scalar>(rows, cols, channels, &header);\n    bool success = header.serializeToBuffer(buffer, offset);", "    if (rows == 0) continue;\n    makeHeaderInformation<Scalar>(rows, cols, channels, &header);\n    bool success = header.serializeToBuffer(buffer, offset);")]),
    ("se: float as to_string", "P10", "fire", [(H, "  std::string value_string = stream.str();\n", "  std::string value_string = std::to_string(value);\n")]),
    ("se: digits10", "P10", "fire", [(H, "numeric_limits<Scalar>::max_digits10", "numeric_limits<Scalar>::digits10")]),
    ("se: float read by stof", "P10", "fire", [(H, "std::stod(string)", "std::stof(string)")]),
    ("se: integers by stoi", "P10", "fire", [(H, "std::stoll(string)", "std::stoi(string)")]),
    ("se: string size precomputed", "P10", "quiet", [(H, "  size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n  size_t totalSize = matrixSize + header.size();\n\n  CHECK_GT(totalSize, 0u);\n", "  const size_t num_elements = static_cast<size_t>(rows) * cols * channels;\n  size_t matrixSize = num_elements * sizeof(Scalar);\n  size_t totalSize = header.size() + matrixSize;\n")]),
    ("se: header built by hand", "P10", "quiet", [(H, "  HeaderInformation header;\n  makeHeaderInformation<Scalar>(rows, cols, channels, &header);\n  size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n  *totalSize", "  HeaderInformation header;\n  header.depth = cv::DataType<Scalar>::depth;\n  header.channels = channels;\n  header.rows = rows;\n  header.cols = cols;\n  size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n  *totalSize")]),
    ("se: vector loop over range", "P10", "quiet", [(H, "  for (size_t i = 0; i < matrices.size(); i++) {\n    const int rows = matrices[i].rows();\n    const int cols = matrices[i].cols();\n    const size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n    *size +=", "  for (const Eigen::Matrix<Scalar, ROWS, COLS>& matrix : matrices) {\n    const int rows = matrix.rows();\n    const int cols = matrix.cols();\n    const size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n    *size +=")]),
    ("se: helper for the element size", "P10", "quiet", [(H, "template<typename Scalar, int ROWS, int COLS>\nbool serializeToBuffer(const std::vector<", "template<typename Matrix>\nsize_t dataSize(const Matrix& matrix) {\n  return sizeof(typename Matrix::Scalar) * matrix.rows() * matrix.cols();\n}\n\ntemplate<typename Scalar, int ROWS, int COLS>\nbool serializeToBuffer(const std::vector<"), (H, "    const size_t matrixSize = sizeof(Scalar) * rows * cols * channels;\n    *size += matrixSize + header.size();", "    *size += dataSize(matrices[i]) + header.size();")]),
    ("se: continuity unchecked", "P10", "fire", [(C, "  CHECK(image.isContinuous()) << \"This method only works if the image is stored \"\n      \"in contiguous memory.\";\n", "")]),
    ("se: continuity by branch", "P10", "quiet", [(C, "  CHECK(image.isContinuous()) << \"This method only works if the image is stored \"\n      \"in contiguous memory.\";\n", "  if (!image.isContinuous()) {\n    return false;\n  }\n")]),
]
