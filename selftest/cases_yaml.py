E = "aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h"
Y = "aslam_cv_common/include/aslam/common/yaml-serialization.h"
F = "aslam_cv_common/include/aslam/common/yaml-file-serialization.h"
S = "aslam_cv_common/src/sensor.cc"
CASES = []


def fire(name, *edits):
    CASES.append(("yaml: " + name, "P18", "fire", list(edits)))


def quiet(name, *edits):
    CASES.append(("yaml: " + name, "P18", "quiet", list(edits)))


# ---- matrices
fire("rows and cols swapped when writing", (E, 'node["rows"] = rows;\n    node["cols"] = cols;', 'node["rows"] = cols;\n    node["cols"] = rows;'))
fire("last row left out", (E, "for (IndexType i = 0; i < rows; ++i) {\n      if (cols > 1) {", "for (IndexType i = 0; i + 1 < rows; ++i) {\n      if (cols > 1) {"))
fire("written transposed", (E, "ith_row << M(i, j);", "ith_row << M(j, i);"))
fire("last column left out", (E, "for (IndexType j = 0; j < cols; ++j) {\n          ith_row << M(i, j);", "for (IndexType j = 0; j < cols - 1; ++j) {\n          ith_row << M(i, j);"))
fire("two columns count as one", (E, "      if (cols > 1) {\n        YAML::Emitter", "      if (cols > 2) {\n        YAML::Emitter"))
fire("first row each time", (E, 'node["data"].push_back(M(i, 0));', 'node["data"].push_back(M(0, 0));'))
fire("six digits", (E, "ith_row << YAML::Flow;", "ith_row << YAML::Flow;\n        ith_row.SetDoublePrecision(6);"))
fire("flat storage read transposed", (E, "            M(i, j) = it->as<Scalar>();\n          }\n          ++it;", "            M(j, i) = it->as<Scalar>();\n          }\n          ++it;"))
fire("flat storage moves once per row", (E, "          }\n          ++it;\n        }\n      }\n    } else if", "          }\n        }\n        ++it;\n      }\n    } else if"))
fire("rows not moved on", (E, "          M(i, 0) = it->as<Scalar>();\n        }\n        ++it;", "          M(i, 0) = it->as<Scalar>();\n          ++it;\n        }"))
fire("columns from the second", (E, "for (IndexType j = 0; j < cols; ++j) {\n            CHECK(col_it != col_it_end);", "for (IndexType j = 1; j < cols; ++j) {\n            CHECK(col_it != col_it_end);"))
fire("row length not compared", (E, """          CHECK(static_cast<int>(it->size()) == cols)
              << "Wrong dimension of Eigen-type matrix! Expected " << cols
              << " columns, but provided " << it->size();
""", ""))
fire("longer rows accepted", (E, "CHECK(static_cast<int>(it->size()) == cols)", "CHECK(static_cast<int>(it->size()) >= cols)"))
fire("any number of rows", (E, "} else if (static_cast<int>(node.size()) == rows) {", "} else if (static_cast<int>(node.size()) >= rows) {"))
fire("read as float", (E, "M(i, j) = col_it->as<Scalar>();", "M(i, j) = static_cast<Scalar>(col_it->template as<float>());"))
fire("fixed sizes not compared", (E, "if (rows != A || cols != B) {", "if (rows != A && cols != B) {"))
fire("sizes swapped when resizing", (E, "M.resize(rows, cols);", "M.resize(cols, rows);"))
fire("columns not compared", (E, "if (cols != B) {", "if (cols == B + 1) {"))
fire("negative rows", (E, "if (rows < 0 || cols < 0) {", "if (cols < 0) {"))
fire("cols read from rows", (E, 'IndexType cols = node["cols"].as<IndexType>();\n\n    if (rows != A || cols != B)', 'IndexType cols = node["rows"].as<IndexType>();\n\n    if (rows != A || cols != B)'))
fire("true for a wrong number of rows", (E, """                    "matrix!";
      return false;""", """                    "matrix!";
      return true;"""))
fire("empty counts as one of the sizes", (E, "if (rows == 0 && cols == 0) {", "if (rows == 0 || cols <= 1) {"))
fire("scalar row for several columns", (E, """          CHECK(cols == 1) << "Wrong dimension of Eigen-type matrix! Expected "
                           << cols << " columns, but provided " << 1;
""", ""))
quiet("entries by index", (E, """          if (it->IsSequence()) {
            CHECK(it->size() == 1u)""", """          const YAML::Node entry = *it;
          if (entry.IsSequence()) {
            CHECK(entry.size() == 1u)"""), (E, "            M(i, j) = it->begin()->as<Scalar>();\n          } else {\n            M(i, j) = it->as<Scalar>();", "            M(i, j) = entry.begin()->template as<Scalar>();\n          } else {\n            M(i, j) = entry.template as<Scalar>();"))
quiet("columns by while", (E, """          for (IndexType j = 0; j < cols; ++j) {
            CHECK(col_it != col_it_end);
            M(i, j) = col_it->as<Scalar>();
            ++col_it;
          }""", """          IndexType j = 0;
          while (j < cols) {
            CHECK(col_it != col_it_end);
            M(i, j) = col_it->as<Scalar>();
            ++col_it;
            ++j;
          }"""))
quiet("steps in the for", (E, """      for (IndexType i = 0; i < rows; ++i) {
        CHECK(it != it_end);

        // If there""", """      for (IndexType i = 0; i < rows; ++i, ++it) {
        CHECK(it != it_end);

        // If there"""), (E, "          M(i, 0) = it->as<Scalar>();\n        }\n        ++it;\n", "          M(i, 0) = it->as<Scalar>();\n        }\n"))
quiet("sizes tested one by one", (E, "if (rows != A || cols != B) {", "const bool fits = rows == A && cols == B;\n    if (!fits) {"))
quiet("branches the other way round", (E, """      if (cols > 1) {
        YAML::Emitter ith_row;
        ith_row << YAML::Flow;
        ith_row << YAML::BeginSeq;
        for (IndexType j = 0; j < cols; ++j) {
          ith_row << M(i, j);
        }
        ith_row << YAML::EndSeq;
        CHECK(ith_row.good()) << "Emitter error: " << ith_row.GetLastError();
        node["data"].push_back(YAML::Load(ith_row.c_str()));
      } else {
        node["data"].push_back(M(i, 0));
      }
""", """      if (cols <= 1) {
        node["data"].push_back(M(i, 0));
        continue;
      }
      YAML::Emitter ith_row;
      ith_row << YAML::Flow << YAML::BeginSeq;
      for (IndexType j = 0; j != cols; j++) {
        const Scalar entry = M(i, j);
        ith_row << entry;
      }
      ith_row << YAML::EndSeq;
      CHECK(ith_row.good()) << "Emitter error: " << ith_row.GetLastError();
      node["data"].push_back(YAML::Load(ith_row.c_str()));
"""))
quiet("more than enough digits", (E, "ith_row << YAML::Flow;", "ith_row << YAML::Flow;\n        ith_row.SetDoublePrecision(18);"))
quiet("no early return", (E, "    if (rows == 0 && cols == 0) {\n      return true;\n    }\n", ""))

# ---- readers and writers
fire("success before the value", (Y, "        *value = sub_node.as<ValueType>();\n        success = true;", "        success = true;\n        *value = sub_node.as<ValueType>();"))
fire("success behind the try", (Y, "            << typeid(ValueType).name() << \": \" << e.what();\n      }\n", "            << typeid(ValueType).name() << \": \" << e.what();\n      }\n      success = true;\n"))
fire("default value when it cannot be read", (Y, "        LOG(ERROR) << \"Error getting key", "        *value = ValueType();\n        LOG(ERROR) << \"Error getting key"))
fire("missing key succeeds", (Y, "    LOG(ERROR) << \"Key \\\"\" << key << \"\\\" does not exist\";", "    LOG(ERROR) << \"Key \\\"\" << key << \"\\\" does not exist\";\n      success = !success;"))
fire("no map test in safeGet", (Y, "  bool success = false;\n  if(!node.IsMap()) {", "  bool success = false;\n  if(!node.IsDefined()) {"))
fire("only invalid nodes are caught", (Y, "catch(const YAML::Exception& e)", "catch(const YAML::InvalidNode& e)"))
fire("hasKey of a sequence", (Y, """because the node is not a map";
    return false;
  }
  const YAML::Node sub_node = node[key];
  return""", """because the node is not a map";
    return true;
  }
  const YAML::Node sub_node = node[key];
  return"""))
fire("hasKey the other way", (Y, "return static_cast<bool>(sub_node);", "return !sub_node;"))
fire("Load ignores errors", (Y, 'LOG(ERROR) << "Encountered exception while reading yaml " << e.what();\n    return false;', 'LOG(ERROR) << "Encountered exception while reading yaml " << e.what();\n    return object != nullptr;'))
fire("Load of a missing file", (Y, "  if (!ifs.good()) {\n    return false;", "  if (!ifs.good()) {\n    return true;"))
fire("Load lets others pass", (Y, '''  catch (const std::exception& e) {  // NOLINT
    LOG(ERROR) << "Encountered exception while reading''', '''  catch (const YAML::ParserException& e) {  // NOLINT
    LOG(ERROR) << "Encountered exception while reading'''))
fire("Save ignores errors", (Y, 'LOG(ERROR)<< "Encountered exception while saving yaml " << e.what();\n    return false;', 'LOG(ERROR)<< "Encountered exception while saving yaml " << e.what();'))
fire("Save does not look at the stream", (Y, "  return ofs->good();", "  return true;"))
fire("Save does not flush", (Y, "  ofs->flush();\n", ""))
fire("Save drops the result", (Y, "  return Save(object, &ofs);", "  Save(object, &ofs);\n  return ofs.is_open();"))
fire("file read failure is success", (F, "                 << \" with the error: \" << ex.what();\n      return false;", "                 << \" with the error: \" << ex.what();\n      return true;"))
fire("result of deserialize dropped", (F, "    return deserialize(yaml_node);", "    deserialize(yaml_node);\n    return true;"))
fire("stream not checked behind the file", (F, "    CHECK(output_file_stream.good())", "    LOG_IF(ERROR, !output_file_stream.good())"))
fire("only bad files are caught", (F, "catch (const std::exception& ex)", "catch (const YAML::BadFile& ex)"))
fire("appended behind what was there", (F, "std::ofstream output_file_stream(file_name);", "std::ofstream output_file_stream(file_name, std::ios::app);"))
quiet("safeGet with early returns", (Y, """  bool success = false;
  if(!node.IsMap()) {
    LOG(ERROR) << "Unable to get Node[\\"" << key << "\\"] because the node is not a map";
  } else {
    const YAML::Node sub_node = node[key];
    if(sub_node) {
      try {
        *value = sub_node.as<ValueType>();
        success = true;
      } catch(const YAML::Exception& e) {
        LOG(ERROR) << "Error getting key \\"" << key << "\\" as type "
            << typeid(ValueType).name() << ": " << e.what();
      }
    } else {
      LOG(ERROR) << "Key \\"" << key << "\\" does not exist";
    }
  }
  return success;
}
""", """  if(!node.IsMap()) {
    LOG(ERROR) << "Unable to get Node[\\"" << key << "\\"] because the node is not a map";
    return false;
  }
  const YAML::Node sub_node = node[key];
  if(!sub_node) {
    LOG(ERROR) << "Key \\"" << key << "\\" does not exist";
    return false;
  }
  try {
    const ValueType read = sub_node.as<ValueType>();
    *value = read;
  } catch(const std::exception& e) {
    LOG(ERROR) << "Error getting key \\"" << key << "\\": " << e.what();
    return false;
  }
  return true;
}
"""))
quiet("hasKey in one", (Y, "  const YAML::Node sub_node = node[key];\n  return static_cast<bool>(sub_node);", "  return node[key].IsDefined();"))
quiet("hasKey with branches", (Y, "  return static_cast<bool>(sub_node);", "  if (sub_node) {\n    return true;\n  }\n  return false;"))
quiet("Load returns behind", (Y, "    (*object) = doc.as<ObjectType>();\n    return true;\n  }", "    (*object) = doc.as<ObjectType>();\n  }"), (Y, 'LOG(ERROR) << "Encountered exception while reading yaml " << e.what();\n    return false;\n  }\n', 'LOG(ERROR) << "Encountered exception while reading yaml " << e.what();\n    return false;\n  }\n  return true;\n'))
quiet("Save asks fail", (Y, "  return ofs->good();", "  if (ofs->fail()) {\n    return false;\n  }\n  return true;"))
quiet("result of deserialize kept", (F, "    return deserialize(yaml_node);", "    const bool success = deserialize(yaml_node);\n    if (!success) {\n      LOG(ERROR) << \"Failed to deserialize \" << file_name;\n    }\n    return success;"))
quiet("load helper", (F, "  bool deserializeFromFile(", """  static bool loadNode(const std::string& file_name, YAML::Node* node) {
    try {
      *node = YAML::LoadFile(file_name);
    } catch (const std::exception& ex) {  // NOLINT
      LOG(ERROR) << "Failed to load YAML node from file " << file_name
                 << " with the error: " << ex.what();
      return false;
    }
    return true;
  }

  bool deserializeFromFile("""), (F, """    YAML::Node yaml_node;
    try {
      yaml_node = YAML::LoadFile(file_name.c_str());
    } catch (const std::exception& ex) {  // NOLINT
      LOG(ERROR) << "Failed to load YAML node from file " << file_name
                 << " with the error: " << ex.what();
      return false;
    }

    return""", """    YAML::Node yaml_node;
    if (!loadNode(file_name, &yaml_node)) {
      return false;
    }

    return"""))

# ---- sensors
TOPIC = """          sensor_node, static_cast<std::string>(kYamlFieldNameTopic),
          &topic_)"""
fire("topic read from the description", (S, TOPIC, TOPIC.replace("NameTopic", "NameDescription")))
fire("topic read into the description", (S, TOPIC, TOPIC.replace("&topic_", "&description_")))
fire("description written as topic", (S, "= topic_;\n  sensor_node[static_cast<std::string>(kYamlFieldNameDescription)] =\n      description_;", "= description_;\n  sensor_node[static_cast<std::string>(kYamlFieldNameDescription)] =\n      topic_;"))
fire("topic only written when set", (S, "  sensor_node[static_cast<std::string>(kYamlFieldNameTopic)] = topic_;", "  if (topic_.size() > 1u) {\n    sensor_node[static_cast<std::string>(kYamlFieldNameTopic)] = topic_;\n  }"))
fire("always a new id", (S, "    LOG(WARNING) << \"Unable to find an ID field. Generating a new random id.\";\n    generateId(&id_);\n  }", "    LOG(WARNING) << \"Unable to find an ID field. Generating a new random id.\";\n  }\n  generateId(&id_);"))
fire("no new id", (S, "    LOG(WARNING) << \"Unable to find an ID field. Generating a new random id.\";\n    generateId(&id_);\n  }", "    LOG(WARNING) << \"Unable to find an ID field. Generating a new random id.\";\n  }"))
fire("own reader ignored", (S, "  return loadFromYamlNodeImpl(sensor_node);", "  loadFromYamlNodeImpl(sensor_node);\n  return id_.isValid();"))
fire("own values not written", (S, "\n  saveToYamlNodeImpl(&sensor_node);\n", "\n"))
quiet("own reader first asked", (S, "  return loadFromYamlNodeImpl(sensor_node);", "  if (!loadFromYamlNodeImpl(sensor_node)) {\n    return false;\n  }\n  return true;"))
quiet("other order", (S, "  sensor_node[static_cast<std::string>(kYamlFieldNameTopic)] = topic_;\n  sensor_node[static_cast<std::string>(kYamlFieldNameDescription)] =\n      description_;\n", "  sensor_node[static_cast<std::string>(kYamlFieldNameDescription)] =\n      description_;\n  sensor_node[static_cast<std::string>(kYamlFieldNameTopic)] = topic_;\n"))
quiet("topic through a local", (S, """  if (!YAML::safeGet(
          sensor_node, static_cast<std::string>(kYamlFieldNameTopic),
          &topic_)) {""", """  std::string topic;
  if (YAML::safeGet(
          sensor_node, static_cast<std::string>(kYamlFieldNameTopic),
          &topic)) {
    topic_ = topic;
  } else {"""))
