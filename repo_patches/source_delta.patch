From 669356afd5c1b50819822aa099ba17b08919cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 01/30] fix: compute every inner control point when a Bezier
 segment is degree elevated

---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..a6afa81 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j <= GetDegree(dimension).get(); ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 74c176b47936ca3a6709639a8b44a42c20c8548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:21 +0000
Subject: [PATCH 02/30] fix: report files that could not be opened or written
 completely

---
 src/io/executables/converter_log.cc | 4 ++++
 src/io/iges_writer.cc               | 3 +++
 src/io/irit_writer.cc               | 5 ++++-
 src/io/vtk_writer.cc                | 5 ++++-
 src/io/xml_writer.cc                | 8 +++++++-
 5 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..d6bb194 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -108,6 +108,10 @@ void io::ConverterLog::WriteLog() const {
     log << "No splines";
   }
   log << " in file " << input_ << (OneSpline() ? " has" : " have") << " been written to " << output_;
+  log.close();
+  if (!log) {
+    throw std::runtime_error("Log file could not be written.");
+  }
 }
 
 void io::ConverterLog::PrintHelp() const {
diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index f793fe2..b8337eb 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -54,6 +54,9 @@ void io::IGESWriter::WriteFile(const std::vector<std::any> &splines, const char
     WriteFile(newFile, start, global, dataEntry, parameter, terminate);
   }
   newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("IGES file could not be written.");
+  }
 }
 
 std::vector<std::string> io::IGESWriter::GetStartSection() const {
diff --git a/src/io/irit_writer.cc b/src/io/irit_writer.cc
index c3cef8a..52a82da 100644
--- a/src/io/irit_writer.cc
+++ b/src/io/irit_writer.cc
@@ -33,7 +33,10 @@ void io::IRITWriter::WriteFile(const std::vector<std::any> &splines, const char
       }
     }
     newFile << "]";
-    newFile.close();
+  }
+  newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("IRIT file could not be written.");
   }
 }
 
diff --git a/src/io/vtk_writer.cc b/src/io/vtk_writer.cc
index 71c3ec3..ce52be7 100644
--- a/src/io/vtk_writer.cc
+++ b/src/io/vtk_writer.cc
@@ -41,7 +41,10 @@ void io::VTKWriter::WriteFile(const std::vector<std::any> &splines,
     for (auto i = 0u; i < splines.size(); ++i) {
       AddCellTypes(newFile, scattering[i], dimensions[i]);
     }
-    newFile.close();
+  }
+  newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("VTK file could not be written.");
   }
 }
 
diff --git a/src/io/xml_writer.cc b/src/io/xml_writer.cc
index 1dee429..48905ea 100644
--- a/src/io/xml_writer.cc
+++ b/src/io/xml_writer.cc
@@ -14,6 +14,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "xml_writer.h"
 
+#include <fstream>
 #include <string>
 
 #include "any_casts.h"
@@ -28,7 +29,12 @@ void io::XMLWriter::WriteFile(const std::vector<std::any> &splines, const char *
   for (const auto &spline : splines) {
     AddSpline(&spline_list, spline);
   }
-  doc.save_file(filename, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  std::ofstream file(filename, std::ios_base::binary);
+  doc.save(file, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  file.close();
+  if (!file) {
+    throw std::runtime_error("XML file could not be written.");
+  }
 }
 
 void io::XMLWriter::AddSpline(pugi::xml_node *spline_list, const std::any &spline) const {
-- 
2.43.0


From caf705c582fd63d6a83276fba7bcfa1e012f88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 03/30] fix: reject incomplete and malformed input files
 instead of reading past their data

---
 src/io/iges_reader.cc      | 54 ++++++++++++++++++++++++--------------
 src/io/iges_reader.h       |  2 ++
 src/io/irit_reader.cc      | 29 ++++++++++++--------
 src/io/irit_reader_utils.h | 13 ++++-----
 src/io/xml_reader.cc       |  5 +++-
 src/io/xml_reader_utils.h  |  3 +--
 src/spl/parameter_space.h  |  5 +++-
 src/spl/physical_space.h   |  7 +++--
 8 files changed, 76 insertions(+), 42 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..36b8354 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -31,13 +31,19 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
   std::string line;
   std::vector<std::string> directoryEntrySection;
   std::vector<std::string> parameterDataSection;
+  bool isTerminated = false;
   while (getline(newFile, line)) {
+    if (line.size() <= 72) continue;
     if (line[72] == 'D') {
       directoryEntrySection.push_back(line.substr(0, 72));
     }
     if (line[72] == 'P') {
       parameterDataSection.push_back(line.substr(0, 64));
     }
+    if (line[72] == 'T') isTerminated = true;
+  }
+  if (newFile.bad() || !isTerminated) {
+    throw std::runtime_error("IGES file could not be read completely.");
   }
   std::vector<std::any> splines;
   for (int i = 0; i < directoryEntrySection.size() * 0.5; ++i) {
@@ -56,9 +62,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
 }
 
 std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData) {
-  auto upperSumIndex = static_cast<int>(parameterData[1]);
+  int upperSumIndex = GetSize(parameterData, 1);
   std::array<Degree, 1> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[2])};
+  degree[0] = Degree{GetSize(parameterData, 2)};
   KnotVectors<1> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -73,15 +79,15 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   controlPointsStartEnd[1] = controlPointsStartEnd[0] + (3 * upperSumIndex) + 2;
   std::vector<ParamCoord> knots;
   for (int i = knotsStartEnd[0]; i <= knotsStartEnd[1]; ++i) {
-    knots.emplace_back(parameterData[i]);
+    knots.emplace_back(parameterData.at(i));
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
   for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
@@ -92,7 +98,7 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 1; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[5] == 1) {
+  if (parameterData.at(5) == 1) {
     auto spl = std::make_shared<spl::BSpline<1>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<1>>>(spl);
   }
@@ -102,11 +108,14 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
 
 std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData) {
   std::array<int, 2> upperSumIndex{};
-  upperSumIndex[0] = static_cast<int>(parameterData[1]);
-  upperSumIndex[1] = static_cast<int>(parameterData[2]);
+  upperSumIndex[0] = GetSize(parameterData, 1);
+  upperSumIndex[1] = GetSize(parameterData, 2);
+  if ((1.0 + upperSumIndex[0]) * (1.0 + upperSumIndex[1]) > parameterData.size()) {
+    throw std::runtime_error("The parameter data of an entity in the IGES file is not complete.");
+  }
   std::array<Degree, 2> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[3])};
-  degree[1] = Degree{static_cast<int>(parameterData[4])};
+  degree[0] = Degree{GetSize(parameterData, 3)};
+  degree[1] = Degree{GetSize(parameterData, 4)};
   KnotVectors<2> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -120,24 +129,24 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
-    knots[0].push_back(ParamCoord{parameterData[i]});
+    knots[0].push_back(ParamCoord{parameterData.at(i)});
   }
   for (int i = knotsStartEnd[1][0]; i <= knotsStartEnd[1][1]; ++i) {
-    knots[1].push_back(ParamCoord{parameterData[i]});
+    knots[1].push_back(ParamCoord{parameterData.at(i)});
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots[0]);
   knot_vector[1] = std::make_shared<baf::KnotVector>(knots[1]);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
@@ -146,7 +155,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 2; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[7] == 1) {
+  if (parameterData.at(7) == 1) {
     auto spl = std::make_shared<spl::BSpline<2>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<2>>>(spl);
   }
@@ -157,7 +166,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
 std::array<int, 2> io::IGESReader::GetParameterSectionStartEndPointers(std::vector<std::string> directoryEntrySection,
                                                                        int entityToBeRead) {
   std::string parameterDataStartPointer = trim(directoryEntrySection[entityToBeRead * 2].substr(8, 8));
-  std::string parameterDataLineCount = trim(directoryEntrySection[entityToBeRead * 2 + 1].substr(24, 8));
+  std::string parameterDataLineCount = trim(directoryEntrySection.at(entityToBeRead * 2 + 1).substr(24, 8));
   std::array<int, 2> ParameterSectionStartEndPointers{};
   ParameterSectionStartEndPointers[0] = std::stoi(trim(parameterDataStartPointer));
   ParameterSectionStartEndPointers[1] =
@@ -171,11 +180,18 @@ std::vector<double> io::IGESReader::ParameterSectionToVector(std::vector<std::st
   int last = ParameterSectionStartEndPointers[1] - 1;
   std::string temp;
   for (int i = first; i <= last; ++i) {
-    temp.append(parameterSection[i]);
+    temp.append(parameterSection.at(i));
   }
   return util::StringOperations::DelimitedStringToVector(temp);
 }
 
+int io::IGESReader::GetSize(const std::vector<double> &parameterData, int index) {
+  if (!(parameterData.at(index) >= 0 && parameterData.at(index) <= parameterData.size())) {
+    throw std::runtime_error("The parameter data of an entity in the IGES file is not complete.");
+  }
+  return static_cast<int>(parameterData.at(index));
+}
+
 std::string io::IGESReader::trim(std::string s) {
   return util::StringOperations::trim(std::move(s));
 }
diff --git a/src/io/iges_reader.h b/src/io/iges_reader.h
index 05f62bc..d718ff6 100644
--- a/src/io/iges_reader.h
+++ b/src/io/iges_reader.h
@@ -39,6 +39,8 @@ class IGESReader : public Reader {
   std::vector<double> ParameterSectionToVector(std::vector<std::string> parameterSection,
                                                std::array<int, 2> ParameterSectionStartEndPointers);
 
+  static int GetSize(const std::vector<double> &parameterData, int index);
+
   static inline std::string trim(std::string s);
 };
 }  // namespace io
diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..01f0169 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -14,6 +14,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "irit_reader.h"
 
+#include <algorithm>
 #include <fstream>
 
 #include "irit_reader_utils.h"
@@ -32,6 +33,9 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   while (getline(newFile, line)) {
     file += line;
   }
+  if (newFile.bad() || std::count(file.begin(), file.end(), '[') > std::count(file.begin(), file.end(), ']')) {
+    throw std::runtime_error("IRIT file could not be read completely.");
+  }
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
   for (int &spline_position : spline_positions) {
@@ -48,7 +52,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
 
 std::vector<int> io::IRITReader::GetSplinePositions(const std::vector<std::string> &entries) const {
   std::vector<int> spline_positions;
-  for (auto i = 0u; i < entries.size(); i++) {
+  for (auto i = 1u; i < entries.size(); i++) {
     if (entries[i] == "BSPLINE") {
       spline_positions.push_back(i - 1);
     }
@@ -103,11 +107,14 @@ std::any io::IRITReader::Get3DSpline(int start, const std::vector<std::string> &
 }
 
 int io::IRITReader::GetNumberOfControlPoints(int start, const std::vector<std::string> &entries) {
-  int total_number_of_points = 1;
+  double total_number_of_points = 1;
   for (int i = 0; i < GetDimension(entries[start]); i++) {
-    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<int>({entries[start + 2 + i]})[0];
+    total_number_of_points *= util::StringOperations::StringToDouble(entries.at(start + 2 + i));
+  }
+  if (!(total_number_of_points >= 1 && total_number_of_points <= entries.size())) {
+    throw std::runtime_error("The number of control points in the IRIT file is not correct.");
   }
-  return total_number_of_points;
+  return static_cast<int>(total_number_of_points);
 }
 
 std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
@@ -119,12 +126,12 @@ std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
   start = GetPositionOfFirstControlPoint(start, entries);
   for (int i = 0; i < number_of_control_points; i++) {
     std::vector<double> coordinates;
-    while (!util::StringOperations::EndsWith(entries[start], "]")) {
+    while (!util::StringOperations::EndsWith(entries.at(start), "]")) {
       coordinates.push_back(
-          util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+          util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     }
     coordinates.push_back(
-        util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+        util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     if (rational) {
       coordinates.erase(coordinates.begin());
     }
@@ -141,8 +148,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
   if (rational) {
     start = GetPositionOfFirstControlPoint(start, entries);
     for (auto i = 0u; i < number_of_control_points; i++) {
-      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++]));
-      while (!util::StringOperations::EndsWith(entries[start++], "]")) {}
+      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++)));
+      while (!util::StringOperations::EndsWith(entries.at(start++), "]")) {}
     }
   }
   return weights;
@@ -150,8 +157,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
 
 int io::IRITReader::GetPositionOfFirstControlPoint(int start, const std::vector<std::string> &entries) const {
   ++start;
-  while (!util::StringOperations::StartsWith(entries[start], "[")
-      || util::StringOperations::StartsWith(entries[start], "[KV")) {
+  while (!util::StringOperations::StartsWith(entries.at(start), "[")
+      || util::StringOperations::StartsWith(entries.at(start), "[KV")) {
     ++start;
   }
   return start;
diff --git a/src/io/irit_reader_utils.h b/src/io/irit_reader_utils.h
index 65efa93..ca15e3b 100644
--- a/src/io/irit_reader_utils.h
+++ b/src/io/irit_reader_utils.h
@@ -29,8 +29,9 @@ class IRITReaderUtils {
   static std::array<Degree, DIM> GetDegrees(int start, const std::vector<std::string> &entries) {
     std::array<Degree, DIM> degrees;
     for (int i = 0; i < DIM; i++) {
-      degrees[i] =
-          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries[start + DIM + 2 + i]})[0] - 1);
+      int order = std::stoi(entries.at(start + DIM + 2 + i));
+      if (order < 1) throw std::runtime_error("The order of a spline in the IRIT file is not correct.");
+      degrees[i] = Degree(order - 1);
     }
     return degrees;
   }
@@ -39,10 +40,10 @@ class IRITReaderUtils {
   static KnotVectors<DIM> GetKnotVectors(int start, const std::vector<std::string> &entries) {
     KnotVectors<DIM> knot_vectors;
     for (int i = 0; i < DIM; i++) {
-      while (!util::StringOperations::StartsWith(entries[start++], "[KV")) {}
+      while (!util::StringOperations::StartsWith(entries.at(start++), "[KV")) {}
       std::vector<ParamCoord> knots;
-      while (!util::StringOperations::StartsWith(entries[start], "[")) {
-        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])));
+      while (!util::StringOperations::StartsWith(entries.at(start), "[")) {
+        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))));
       }
       knot_vectors[i] = std::make_shared<baf::KnotVector>(knots);
     }
@@ -51,7 +52,7 @@ class IRITReaderUtils {
 
   template<int DIM>
   static bool IsRational(int start_of_spline, const std::vector<std::string> &entries) {
-    return util::StringOperations::StartsWith(entries[start_of_spline + 2 * DIM + 2], "P");
+    return util::StringOperations::StartsWith(entries.at(start_of_spline + 2 * DIM + 2), "P");
   }
 };
 }  // namespace io
diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index ede3477..baabf6e 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -99,11 +99,14 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
   int dimension = std::stoi(spline->attribute("spaceDim").value());
   int number_of_vars = std::stoi(spline->attribute("numOfCntrlPntVars").value());
   int number_of_points = std::stoi(spline->attribute("numCntrlPnts").value());
+  if (dimension < 0 || dimension > number_of_vars - start) {
+    throw std::runtime_error("There are less control point variables than space dimensions in the XML file.");
+  }
   std::vector<baf::ControlPoint> points;
   for (int i = 0; i < number_of_points; i++) {
     std::vector<double> coordinates;
     for (int j = start; j < start + dimension; j++) {
-      coordinates.push_back(vars[i * number_of_vars + j]);
+      coordinates.push_back(vars.at(static_cast<size_t>(i) * number_of_vars + j));
     }
     points.emplace_back(coordinates);
   }
diff --git a/src/io/xml_reader_utils.h b/src/io/xml_reader_utils.h
index b1bb4dc..35ca697 100644
--- a/src/io/xml_reader_utils.h
+++ b/src/io/xml_reader_utils.h
@@ -52,8 +52,7 @@ class XMLReaderUtils {
   static std::array<Degree, DIM> StringVectorToDegreeArray(const std::vector<std::string> &string_vector) {
     std::array<Degree, DIM> converted;
     for (int i = 0; i < DIM; i++) {
-      auto a = string_vector[i];
-      converted[i] = Degree{std::stoi(string_vector[i])};
+      converted[i] = Degree{std::stoi(string_vector.at(i))};
     }
     return converted;
   }
diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index e0b6395..b9c470c 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -209,9 +209,12 @@ class ParameterSpace {
  private:
   void ThrowIfKnotVectorDoesNotStartAndEndWith() {
     for (int i = 0; i < DIM; i++) {
-      if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) < 2 * degree_[i].get() + 2) {
+      if (degree_[i].get() < 0 || knot_vector_[i]->GetNumberOfKnots() / 2 < static_cast<size_t>(degree_[i].get()) + 1) {
         throw std::runtime_error("There have to be at least 2p + 2 knots.");
       }
+      if (!std::is_sorted(knot_vector_[i]->begin(), knot_vector_[i]->end())) {
+        throw std::runtime_error("The knots have to be in non-decreasing order.");
+      }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
         if (knot_vector_[i]->GetKnot(0).get() != knot_vector_[i]->GetKnot(j).get()) {
           throw std::runtime_error("The first knot must have multiplicity p+1.");
diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..c926d2c 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,15 +30,18 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()), number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
     }
-    if (total_number_of_points != control_points.size()) {
+    if (control_points.empty() || total_number_of_points != control_points.size()) {
       throw std::runtime_error(
           "The given number of control points in each dimension doesn't fit the length of the control point vector.");
     }
+    if (dimension_ == 0) {
+      throw std::runtime_error("The control points need at least one coordinate.");
+    }
     for (auto &&cp : control_points) {
       if (cp.GetDimension() != dimension_) {
         throw std::runtime_error("The dimension has to be the same for all control points.");
-- 
2.43.0


From b0eff24db084f5ac0e8afd47bf493ac4ca6d203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:23 +0000
Subject: [PATCH 04/30] fix: convert numbers with an exponent but no decimal
 point

---
 src/util/string_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..ff53d87 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -95,7 +95,7 @@ class StringOperations {
     std::size_t exponent = string.find_first_of("Ee");
     std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
     double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
+    double factor = pow(10, static_cast<double>(std::min({found, exponent, string.length()})) - 1);
     for (auto i = 0u; i <= end_of_number; ++i) {
       if (i != found) {
         result += std::stoi(string.substr(i, 1)) * factor;
-- 
2.43.0


From ce65adc4faaf893c2a14e5140e4da3986e678071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:57 +0000
Subject: [PATCH 05/30] fix: recognise file name suffixes that are repeated or
 longer than the name

---
 src/io/executables/converter_log.cc | 8 ++++++--
 src/io/executables/converter_log.h  | 1 +
 src/util/string_operations.h        | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index d6bb194..4ebff08 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -39,7 +39,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfBlock(util::StringOperations::trim(line))) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +49,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfBlock(util::StringOperations::trim(line))) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
@@ -132,6 +132,10 @@ std::string io::ConverterLog::GetTime() const {
   return asctime(&timeinfo);
 }
 
+bool io::ConverterLog::IsEndOfBlock(const std::string &line) const {
+  return line.empty() || util::StringOperations::EndsWith(line, ":");
+}
+
 bool io::ConverterLog::OneSpline() const {
   return written_.size() == 1;
 }
diff --git a/src/io/executables/converter_log.h b/src/io/executables/converter_log.h
index 0834c5f..ee04b0c 100644
--- a/src/io/executables/converter_log.h
+++ b/src/io/executables/converter_log.h
@@ -33,6 +33,7 @@ class ConverterLog {
 
  private:
   std::string GetTime() const;
+  bool IsEndOfBlock(const std::string &line) const;
   bool OneSpline() const;
 
   const char *log_file_;
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index ff53d87..fc708d1 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -72,7 +72,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), std::string::npos, end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From 7d2b2a1cbca7af75a3053916c688b2778ece08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 06/30] fix: release the reader and start every conversion with
 an empty result

---
 src/io/executables/converter_log.cc | 10 +++++++++-
 src/io/io_converter.cc              |  4 +++-
 src/io/io_converter.h               |  1 +
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 4ebff08..b0b6d4d 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -55,6 +55,9 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
   }
+  if (log.bad()) {
+    throw std::runtime_error("Log file could not be read completely.");
+  }
 }
 
 const char *io::ConverterLog::GetInput() const {
@@ -66,6 +69,11 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
+  if (positions_.empty()) {
+    throw std::runtime_error("Log file has to contain options.");
+  }
+  written_.clear();
+  not_written_.clear();
   if (positions_[0] == -1) {
     written_ = possible_positions;
   } else {
@@ -82,7 +90,7 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
 
 std::vector<std::vector<int>> io::ConverterLog::GetScattering() {
   std::vector<int> indices;
-  if (positions_[0] != -1) {
+  if (positions_.empty() || positions_[0] != -1) {
     for (int i = 0; i < static_cast<int>(positions_.size()); ++i) {
       if (std::find(written_.begin(), written_.end(), positions_[i]) != written_.end()) {
         indices.emplace_back(i);
diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..26ff0e2 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -22,7 +22,8 @@ io::IOConverter::IOConverter(const char *input_filename, const char *output_file
 
 std::vector<int> io::IOConverter::ConvertFile(const std::vector<int> &positions,
                                               const std::vector<std::vector<int>> &scattering) {
-  std::vector<std::any> splines = GetReader()->ReadFile(input_filename_);
+  std::unique_ptr<io::Reader> reader(GetReader());
+  std::vector<std::any> splines = reader->ReadFile(input_filename_);
   GetWriter(splines, positions, scattering);
   return written_;
 }
@@ -100,6 +101,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
diff --git a/src/io/io_converter.h b/src/io/io_converter.h
index 88ee4a5..cf215ff 100644
--- a/src/io/io_converter.h
+++ b/src/io/io_converter.h
@@ -16,6 +16,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_IO_IO_CONVERTER_H_
 
 #include <any>
+#include <memory>
 #include <string>
 #include <vector>
 
-- 
2.43.0


From 35c39caa75e0d8e37ddc0a0e98385bd2a39a95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 07/30] fix: write the IGES time stamp with leading zeros and a
 single string length

---
 src/io/iges_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index b8337eb..5f0574c 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -303,9 +303,9 @@ void io::IGESWriter::AppendToFile(std::ofstream &file, const std::vector<std::st
 
 std::string io::IGESWriter::GetTime() const {
   struct tm ptm = util::SystemOperations::GetTime();
-  std::string date = GetString((ptm.tm_year + 1900) * 10000 + (ptm.tm_mon + 1) * 100 + ptm.tm_mday);
-  std::string time = GetString(ptm.tm_hour * 10000 + ptm.tm_min * 100 + ptm.tm_sec);
-  return GetHollerithFormat(date + "." + time);
+  std::ostringstream out;
+  out << std::put_time(&ptm, "%Y%m%d.%H%M%S");
+  return out.str();
 }
 
 double io::IGESWriter::GetHighestValue(std::vector<std::any> splines) const {
-- 
2.43.0


From 8b0529203003973e7631bb0943b78a36f92fbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 08/30] fix: keep VTK sample points inside the parameter range
 despite rounding

---
 src/io/vtk_writer_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..0a85bc5 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_IO_VTK_WRITER_UTILS_H_
 #define SRC_IO_VTK_WRITER_UTILS_H_
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 
@@ -56,7 +57,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        coords[j] = ParamCoord(std::min(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j],
+                                        knots[j + DIM]));
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From eacb26d9c54d2aecbf3ab427030f8dfb88de89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 09/30] fix: give every thread its own random engine

---
 src/util/random.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/random.h b/src/util/random.h
index a267209..5c9d596 100644
--- a/src/util/random.h
+++ b/src/util/random.h
@@ -22,14 +22,14 @@ class Random {
  public:
   template<class T>
   static T GetBinomialRandom(double min, double max, double distance) {
-    static std::default_random_engine generator;
+    static thread_local std::default_random_engine generator;
     std::binomial_distribution<int> distribution(static_cast<int>((max - min) / distance), 0.5);
     return distribution(generator) * distance + min;
   }
 
   template<class T>
   static T GetUniformRandom(double min, double max) {
-    static std::default_random_engine generator;
+    static thread_local std::default_random_engine generator;
     std::uniform_real_distribution<double> distribution(min, max);
     return distribution(generator);
   }
-- 
2.43.0


From 59e31b5f9af3fb2b9da9fb0f164ad0880ed8e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:24 +0000
Subject: [PATCH 10/30] fix: leave a spline and those sharing its data
 unchanged when modifying it fails

---
 src/spl/b_spline.h |  8 ++++++++
 src/spl/nurbs.h    |  8 ++++++++
 src/spl/spline.h   | 41 ++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..765b1f9 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -115,6 +115,14 @@ class BSpline : public Spline<DIM> {
     return physical_space_;
   }
 
+  std::shared_ptr<spl::PhysicalSpace<DIM>> CopyPhysicalSpace() const override {
+    return std::make_shared<PhysicalSpace<DIM>>(*physical_space_);
+  }
+
+  void SetPhysicalSpace(const std::shared_ptr<spl::PhysicalSpace<DIM>> &physical_space) override {
+    physical_space_ = physical_space;
+  }
+
   double GetEvaluatedControlPoint(std::array<ParamCoord, DIM> param_coord,
                                   std::array<int, DIM> indices,
                                   int dimension) const override {
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..9f2c643 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -132,6 +132,14 @@ class NURBS : public Spline<DIM> {
     return physical_space_;
   }
 
+  std::shared_ptr<spl::PhysicalSpace<DIM>> CopyPhysicalSpace() const override {
+    return std::make_shared<WeightedPhysicalSpace<DIM>>(*physical_space_);
+  }
+
+  void SetPhysicalSpace(const std::shared_ptr<spl::PhysicalSpace<DIM>> &physical_space) override {
+    physical_space_ = std::static_pointer_cast<WeightedPhysicalSpace<DIM>>(physical_space);
+  }
+
   double GetEvaluatedControlPoint(std::array<ParamCoord, DIM> param_coord,
                                   std::array<int, DIM> indices,
                                   int dimension) const override {
diff --git a/src/spl/spline.h b/src/spl/spline.h
index a6afa81..cdf8152 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -161,6 +161,7 @@ class Spline {
   }
 
   void InsertKnot(ParamCoord knot, int dimension, size_t multiplicity = 1) {
+    Modification modification(this);
     KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
     Degree degree = GetDegree(dimension);
     for (size_t i = 1; i <= multiplicity; ++i) {
@@ -178,15 +179,19 @@ class Spline {
     for (size_t i = 0; i < multiplicity; ++i) {
       parameter_space_->InsertKnot(knot, dimension);
     }
+    modification.Commit();
   }
 
   void RefineKnots(std::vector<ParamCoord> new_knots, int dimension) {
+    Modification modification(this);
     for (const auto &knot : new_knots) {
       this->InsertKnot(knot, dimension);
     }
+    modification.Commit();
   }
 
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
+    Modification modification(this);
     size_t count = 0;
     for (; count < multiplicity; ++count) {
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
@@ -203,10 +208,12 @@ class Spline {
       if (!is_removed) break;
       parameter_space_->RemoveKnot(knot, dimension);
     }
+    modification.Commit();
     return count;
   }
 
   void ElevateDegreeForDimension(int dimension) {
+    Modification modification(this);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<double> alpha = ComputeBezierDegreeElevationCoefficients(dimension);
     auto diff = ProduceBezierSegments(dimension);
@@ -224,9 +231,11 @@ class Spline {
     parameter_space_->IncrementMultiplicityOfAllKnots(dimension);
     SetNewBezierSegmentControlPoints(bezier_segments, dimension);
     RemoveBezierKnots(diff, dimension);
+    modification.Commit();
   }
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
+    Modification modification(this);
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<std::vector<baf::ControlPoint>> bezier_segments;
@@ -235,7 +244,6 @@ class Spline {
       bezier_segments.emplace_back(
           DegreeReduceBezierSegment(GetBezierSegment(dimension, i), tolerance, dimension, &successful));
       if (!successful) {
-        RemoveBezierKnots(diff, dimension);
         return false;
       }
     }
@@ -249,6 +257,7 @@ class Spline {
     parameter_space_->DecrementMultiplicityOfAllKnots(dimension);
     SetNewBezierSegmentControlPoints(bezier_segments, dimension);
     RemoveBezierKnots(diff, dimension);
+    modification.Commit();
     return true;
   }
 
@@ -257,6 +266,34 @@ class Spline {
                                    int first, int last, int dimension, double tolerance) = 0;
 
  protected:
+  // Gives a modifying operation its own copies of the parameter space and the physical space, because the current ones
+  // may be shared with a generator or other splines. The current spaces come back if the operation is not committed.
+  class Modification {
+   public:
+    explicit Modification(Spline<DIM> *spline) : spline_(spline), parameter_space_(spline->parameter_space_),
+                                                 physical_space_(spline->GetPhysicalSpace()) {
+      auto parameter_space = std::make_shared<ParameterSpace<DIM>>(*parameter_space_);
+      spline_->SetPhysicalSpace(spline_->CopyPhysicalSpace());
+      spline_->parameter_space_ = parameter_space;
+    }
+    Modification(const Modification &) = delete;
+    Modification &operator=(const Modification &) = delete;
+    ~Modification() {
+      if (spline_ == nullptr) return;
+      spline_->parameter_space_ = parameter_space_;
+      spline_->SetPhysicalSpace(physical_space_);
+    }
+
+    void Commit() {
+      spline_ = nullptr;
+    }
+
+   private:
+    Spline<DIM> *spline_;
+    std::shared_ptr<ParameterSpace<DIM>> parameter_space_;
+    std::shared_ptr<spl::PhysicalSpace<DIM>> physical_space_;
+  };
+
   void ThrowIfParametricCoordinateOutsideKnotVectorRange(std::array<ParamCoord, DIM> param_coord) const {
     parameter_space_->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
   }
@@ -271,6 +308,8 @@ class Spline {
                                                     int dimension) const = 0;
 
   virtual std::shared_ptr<spl::PhysicalSpace<DIM>> GetPhysicalSpace() const = 0;
+  virtual std::shared_ptr<spl::PhysicalSpace<DIM>> CopyPhysicalSpace() const = 0;
+  virtual void SetPhysicalSpace(const std::shared_ptr<spl::PhysicalSpace<DIM>> &physical_space) = 0;
 
   std::array<int, DIM> GetArrayOfFirstNonZeroBasisFunctions(std::array<ParamCoord, DIM> param_coord) const {
     return parameter_space_->GetArrayOfFirstNonZeroBasisFunctions(param_coord);
-- 
2.43.0


From 5ba161929adfd8bc9006c3efdd9f44f267ff9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:24 +0000
Subject: [PATCH 11/30] fix: let a NURBS generator keep its own copy of the
 knot vectors

---
 src/spl/nurbs_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/nurbs_generator.h b/src/spl/nurbs_generator.h
index d64f65b..ce4b288 100644
--- a/src/spl/nurbs_generator.h
+++ b/src/spl/nurbs_generator.h
@@ -35,7 +35,7 @@ class NURBSGenerator : public SplineGenerator<DIM> {
     }
 
     this->physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(control_points, weights, number_of_points);
-    this->parameter_space_ = std::make_shared<ParameterSpace<DIM>>(knot_vector, degree);
+    this->parameter_space_ = std::make_shared<ParameterSpace<DIM>>(ParameterSpace<DIM>(knot_vector, degree));
   }
 
   NURBSGenerator(std::shared_ptr<WeightedPhysicalSpace<DIM>> weighted_physical_space,
-- 
2.43.0


From 44fe8173367bcd303c816e46faa415986ff8813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:24 +0000
Subject: [PATCH 12/30] fix: do not refine a spline when subdividing it

---
 src/spl/b_spline.h | 1 +
 src/spl/nurbs.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 765b1f9..c2bd400 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -91,6 +91,7 @@ class BSpline : public Spline<DIM> {
   }
 
   std::array<std::shared_ptr<spl::BSpline<DIM>>, 2> SudivideSpline(ParamCoord param_coord, int dimension) {
+    typename Spline<DIM>::Modification modification(this);
     this->InsertKnot(param_coord, dimension, this->GetDegree(dimension).get() + 1
                          - this->GetKnotVector(dimension)->GetMultiplicity(param_coord));
     std::array<KnotVectors<DIM>, 2> new_knots = this->parameter_space_->GetDividedKnotVectors(param_coord, dimension);
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 9f2c643..9286373 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -105,6 +105,7 @@ class NURBS : public Spline<DIM> {
   }
 
   std::array<std::shared_ptr<spl::NURBS<DIM>>, 2> SudivideSpline(ParamCoord param_coord, int dimension) {
+    typename Spline<DIM>::Modification modification(this);
     this->InsertKnot(param_coord, dimension,
                      this->GetDegree(dimension).get() + 1
                          - this->GetKnotVector(dimension)->GetMultiplicity(param_coord));
-- 
2.43.0


From 0ce5698d7e50b9979d2b3ca5b2139099413e4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:54 +0000
Subject: [PATCH 13/30] fix: keep degree changes inside the knot vector for low
 degrees and vanishing knots

---
 src/spl/spline.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index cdf8152..361ad01 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -18,6 +18,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <iterator>
 #include <numeric>
 #include <sstream>
 #include <utility>
@@ -235,6 +236,7 @@ class Spline {
   }
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
+    if (GetDegree(dimension).get() < 2) return false;
     Modification modification(this);
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
@@ -340,6 +342,9 @@ class Spline {
         ++current_knot;
         --diff[current_knot_span];
       }
+      if (diff[current_knot_span] < 0) {
+        throw std::runtime_error("The degree can only be changed if the spline is continuous at all inner knots.");
+      }
       InsertKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
                  static_cast<size_t>(diff[current_knot_span]));
       current_knot += diff[current_knot_span];
@@ -348,14 +353,11 @@ class Spline {
   }
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
-    auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
+    std::vector<ParamCoord> knots;
+    std::unique_copy(GetKnotVector(dimension)->begin(), GetKnotVector(dimension)->end(), std::back_inserter(knots));
+    for (size_t current_knot_span = 0; current_knot_span < diff.size(); ++current_knot_span) {
+      RemoveKnot(knots[current_knot_span + 1], dimension,
                  util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
-      }
     }
   }
 
-- 
2.43.0


From b925030d171c404ab49416a3c1324264ae89aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:28 +0000
Subject: [PATCH 14/30] fix: report failed allocations instead of silently
 dropping the rest of a string

---
 src/io/iges_writer.cc        | 2 ++
 src/util/string_operations.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index 5f0574c..07139fa 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -277,6 +277,7 @@ std::string io::IGESWriter::GetBlock(const std::string &str, int width, bool rig
 template<typename T>
 std::string io::IGESWriter::GetString(const T value) const {
   std::ostringstream out;
+  out.exceptions(std::ios_base::badbit);
   out.precision(18);
   out << value;
   return out.str();
@@ -304,6 +305,7 @@ void io::IGESWriter::AppendToFile(std::ofstream &file, const std::vector<std::st
 std::string io::IGESWriter::GetTime() const {
   struct tm ptm = util::SystemOperations::GetTime();
   std::ostringstream out;
+  out.exceptions(std::ios_base::badbit);
   out << std::put_time(&ptm, "%Y%m%d.%H%M%S");
   return out.str();
 }
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index fc708d1..f542b5e 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -26,11 +26,13 @@ class StringOperations {
  public:
   static std::vector<std::string> split(const std::string &string, char delimiter) {
     std::stringstream ss_string(string);
+    ss_string.exceptions(std::ios_base::badbit);
     std::string current_line;
     std::string current_value;
     std::vector<std::string> splitted_string;
     while (std::getline(ss_string, current_line)) {
       std::stringstream ss_current_line(current_line);
+      ss_current_line.exceptions(std::ios_base::badbit);
       while (std::getline(ss_current_line, current_value, delimiter)) {
         if (!current_value.empty()) splitted_string.push_back(current_value);
       }
-- 
2.43.0


From d8c1498d61ef8cec808b4699e99b3b183c836dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:47 +0000
Subject: [PATCH 15/30] fix: format the time of a log entry without a buffer
 shared by all threads

---
 src/io/executables/converter_log.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index b0b6d4d..e284345 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -14,9 +14,10 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "converter_log.h"
 
-#include <ctime>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <sstream>
 
 #include "string_operations.h"
 #include "system_operations.h"
@@ -137,7 +138,10 @@ void io::ConverterLog::PrintHelp() const {
 
 std::string io::ConverterLog::GetTime() const {
   struct tm timeinfo = util::SystemOperations::GetTime();
-  return asctime(&timeinfo);
+  std::ostringstream out;
+  out.exceptions(std::ios_base::badbit);
+  out << std::put_time(&timeinfo, "%a %b %e %H:%M:%S %Y") << "\n";
+  return out.str();
 }
 
 bool io::ConverterLog::IsEndOfBlock(const std::string &line) const {
-- 
2.43.0


From 25fa9153a74b99e6f04a926571f1195124dcb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:02 +0000
Subject: [PATCH 16/30] fix: report a lack of memory instead of leaving parts
 out of XML files

---
 src/io/xml_writer.cc      | 30 +++++++++++++++---------------
 src/io/xml_writer_utils.h | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/io/xml_writer.cc b/src/io/xml_writer.cc
index 48905ea..9fe27e4 100644
--- a/src/io/xml_writer.cc
+++ b/src/io/xml_writer.cc
@@ -24,8 +24,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 void io::XMLWriter::WriteFile(const std::vector<std::any> &splines, const char *filename) const {
   pugi::xml_document doc;
-  pugi::xml_node spline_list = doc.append_child("SplineList");
-  spline_list.append_attribute("NumberOfSplines") = std::to_string(splines.size()).c_str();
+  pugi::xml_node spline_list = io::XMLWriterUtils<1>::AddNode(&doc, "SplineList");
+  io::XMLWriterUtils<1>::AddAttribute(&spline_list, "NumberOfSplines", std::to_string(splines.size()).c_str());
   for (const auto &spline : splines) {
     AddSpline(&spline_list, spline);
   }
@@ -52,7 +52,7 @@ void io::XMLWriter::AddSpline(pugi::xml_node *spline_list, const std::any &splin
 
 void io::XMLWriter::Add1DSpline(pugi::xml_node *spline_list, const std::any &spline) const {
   std::shared_ptr<spl::Spline<1>> spline_ptr = util::AnyCasts::GetSpline<1>(spline);
-  pugi::xml_node spline_node = spline_list->append_child("SplineEntry");
+  pugi::xml_node spline_node = io::XMLWriterUtils<1>::AddNode(spline_list, "SplineEntry");
   AddSplineAttributes(&spline_node, 1, spline_ptr->GetPointDim(), spline_ptr->GetNumberOfControlPoints());
   AddControlPointVarNames(&spline_node, spline_ptr->GetPointDim());
   io::XMLWriterUtils<1>::AddControlPointVars(&spline_node, spline_ptr);
@@ -65,7 +65,7 @@ void io::XMLWriter::Add1DSpline(pugi::xml_node *spline_list, const std::any &spl
 
 void io::XMLWriter::Add2DSpline(pugi::xml_node *spline_list, const std::any &spline) const {
   std::shared_ptr<spl::Spline<2>> spline_ptr = util::AnyCasts::GetSpline<2>(spline);
-  pugi::xml_node spline_node = spline_list->append_child("SplineEntry");
+  pugi::xml_node spline_node = io::XMLWriterUtils<2>::AddNode(spline_list, "SplineEntry");
   AddSplineAttributes(&spline_node, 2, spline_ptr->GetPointDim(), spline_ptr->GetNumberOfControlPoints());
   AddControlPointVarNames(&spline_node, spline_ptr->GetPointDim());
   io::XMLWriterUtils<2>::AddControlPointVars(&spline_node, spline_ptr);
@@ -78,7 +78,7 @@ void io::XMLWriter::Add2DSpline(pugi::xml_node *spline_list, const std::any &spl
 
 void io::XMLWriter::Add3DSpline(pugi::xml_node *spline_list, const std::any &spline) const {
   std::shared_ptr<spl::Spline<3>> spline_ptr = util::AnyCasts::GetSpline<3>(spline);
-  pugi::xml_node spline_node = spline_list->append_child("SplineEntry");
+  pugi::xml_node spline_node = io::XMLWriterUtils<3>::AddNode(spline_list, "SplineEntry");
   AddSplineAttributes(&spline_node, 3, spline_ptr->GetPointDim(), spline_ptr->GetNumberOfControlPoints());
   AddControlPointVarNames(&spline_node, spline_ptr->GetPointDim());
   io::XMLWriterUtils<3>::AddControlPointVars(&spline_node, spline_ptr);
@@ -91,7 +91,7 @@ void io::XMLWriter::Add3DSpline(pugi::xml_node *spline_list, const std::any &spl
 
 void io::XMLWriter::Add4DSpline(pugi::xml_node *spline_list, const std::any &spline) const {
   std::shared_ptr<spl::Spline<4>> spline_ptr = util::AnyCasts::GetSpline<4>(spline);
-  pugi::xml_node spline_node = spline_list->append_child("SplineEntry");
+  pugi::xml_node spline_node = io::XMLWriterUtils<4>::AddNode(spline_list, "SplineEntry");
   AddSplineAttributes(&spline_node, 4, spline_ptr->GetPointDim(), spline_ptr->GetNumberOfControlPoints());
   AddControlPointVarNames(&spline_node, spline_ptr->GetPointDim());
   io::XMLWriterUtils<4>::AddControlPointVars(&spline_node, spline_ptr);
@@ -106,21 +106,21 @@ void io::XMLWriter::AddSplineAttributes(pugi::xml_node *spline_node,
                                         int spline_dimension,
                                         int space_dimension,
                                         int control_points) const {
-  spline_node->append_attribute("splDim") = spline_dimension;
-  spline_node->append_attribute("spaceDim") = space_dimension;
-  spline_node->append_attribute("numOfCntrlPntVars") = space_dimension;
-  spline_node->append_attribute("numCntrlPnts") = control_points;
+  io::XMLWriterUtils<1>::AddAttribute(spline_node, "splDim", spline_dimension);
+  io::XMLWriterUtils<1>::AddAttribute(spline_node, "spaceDim", space_dimension);
+  io::XMLWriterUtils<1>::AddAttribute(spline_node, "numOfCntrlPntVars", space_dimension);
+  io::XMLWriterUtils<1>::AddAttribute(spline_node, "numCntrlPnts", control_points);
 }
 
 void io::XMLWriter::AddControlPointVarNames(pugi::xml_node *spline_node, int space_dimension) const {
-  pugi::xml_node names = spline_node->append_child("cntrlPntVarNames");
+  pugi::xml_node names = io::XMLWriterUtils<1>::AddNode(spline_node, "cntrlPntVarNames");
   if (space_dimension == 1) {
-    names.append_child(pugi::node_pcdata).set_value("\n      x\n    ");
+    io::XMLWriterUtils<1>::AddText(&names, "\n      x\n    ");
   } else if (space_dimension == 2) {
-    names.append_child(pugi::node_pcdata).set_value("\n      x y\n    ");
+    io::XMLWriterUtils<1>::AddText(&names, "\n      x y\n    ");
   } else if (space_dimension == 3) {
-    names.append_child(pugi::node_pcdata).set_value("\n      x y z\n    ");
+    io::XMLWriterUtils<1>::AddText(&names, "\n      x y z\n    ");
   } else if (space_dimension == 4) {
-    names.append_child(pugi::node_pcdata).set_value("\n      x y z t\n    ");
+    io::XMLWriterUtils<1>::AddText(&names, "\n      x y z t\n    ");
   }
 }
diff --git a/src/io/xml_writer_utils.h b/src/io/xml_writer_utils.h
index df56d7c..5965c08 100644
--- a/src/io/xml_writer_utils.h
+++ b/src/io/xml_writer_utils.h
@@ -16,6 +16,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_IO_XML_WRITER_UTILS_H_
 
 #include <any>
+#include <stdexcept>
 #include <string>
 
 #include "pugixml.hpp"
@@ -27,30 +28,50 @@ namespace io {
 template<int DIM>
 class XMLWriterUtils {
  public:
+  static pugi::xml_node AddNode(pugi::xml_node *parent, const char *name) {
+    pugi::xml_node node = parent->append_child(name);
+    ThrowIfFailed(*node.name() != '\0');
+    return node;
+  }
+
+  static void AddText(pugi::xml_node *parent, const std::string &text) {
+    ThrowIfFailed(parent->append_child(pugi::node_pcdata).set_value(text.c_str()));
+  }
+
+  template<typename T>
+  static void AddAttribute(pugi::xml_node *node, const char *name, T value) {
+    pugi::xml_attribute attribute = node->append_attribute(name);
+    ThrowIfFailed(*attribute.name() != '\0' && attribute.set_value(value));
+  }
+
+  static void ThrowIfFailed(bool successful) {
+    if (!successful) throw std::runtime_error("There is not enough memory to create the XML file.");
+  }
+
   static void AddDegrees(pugi::xml_node *spline_node, std::shared_ptr<spl::Spline<DIM>> spline_ptr) {
-    pugi::xml_node degrees = spline_node->append_child("deg");
+    pugi::xml_node degrees = AddNode(spline_node, "deg");
     std::string string;
     for (int i = 0; i < DIM; i++) {
       string = string + "\n      " + std::to_string(spline_ptr->GetDegree(i).get());
     }
-    degrees.append_child(pugi::node_pcdata).text() = (string + "\n    ").c_str();
+    AddText(&degrees, string + "\n    ");
   }
 
   static void AddKnotVectors(pugi::xml_node *spline_node, std::shared_ptr<spl::Spline<DIM>> spline_ptr) {
-    pugi::xml_node knot_vectors = spline_node->append_child("kntVecs");
+    pugi::xml_node knot_vectors = AddNode(spline_node, "kntVecs");
     for (int i = 0; i < DIM; i++) {
-      pugi::xml_node knots = knot_vectors.append_child("kntVec");
+      pugi::xml_node knots = AddNode(&knot_vectors, "kntVec");
       baf::KnotVector knot_vector = *spline_ptr->GetKnotVector(i);
       std::string string;
       for (ParamCoord knot : knot_vector) {
         string += "\n        " + std::to_string(knot.get());
       }
-      knots.append_child(pugi::node_pcdata).text() = (string + "\n      ").c_str();
+      AddText(&knots, string + "\n      ");
     }
   }
 
   static void AddControlPointVars(pugi::xml_node *spline_node, std::shared_ptr<spl::Spline<DIM>> spline_ptr) {
-    pugi::xml_node values = spline_node->append_child("cntrlPntVars");
+    pugi::xml_node values = AddNode(spline_node, "cntrlPntVars");
     std::string string;
     util::MultiIndexHandler<DIM> point_handler(spline_ptr->GetPointsPerDirection());
     for (int i = 0; i < point_handler.Get1DLength(); ++i, point_handler++) {
@@ -60,11 +81,11 @@ class XMLWriterUtils {
         string += std::to_string(spline_ptr->GetControlPoint(indices, j)) + "  ";
       }
     }
-    values.append_child(pugi::node_pcdata).text() = (string + "\n    ").c_str();
+    AddText(&values, string + "\n    ");
   }
 
   static void AddWeights(pugi::xml_node *spline_node, const std::any &spline) {
-    pugi::xml_node weights = spline_node->append_child("wght");
+    pugi::xml_node weights = AddNode(spline_node, "wght");
     std::string string;
     std::shared_ptr<spl::NURBS<DIM>> nurbs = std::any_cast<std::shared_ptr<spl::NURBS<DIM>>>(spline);
     util::MultiIndexHandler<DIM> weight_handler(nurbs->GetPointsPerDirection());
@@ -72,7 +93,7 @@ class XMLWriterUtils {
       auto indices = weight_handler.GetIndices();
       string += "\n      " + std::to_string(nurbs->GetWeight(indices)) + "  ";
     }
-    weights.append_child(pugi::node_pcdata).text() = (string + "\n    ").c_str();
+    AddText(&weights, string + "\n    ");
   }
 };
 }  // namespace io
-- 
2.43.0


From 265f05fde3750cdd84a4c93e7a58df4c623a0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:02 +0000
Subject: [PATCH 17/30] fix: do not silently drop coordinates that an IGES file
 cannot hold

---
 src/io/iges_writer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index 07139fa..381331d 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -197,6 +197,9 @@ void io::IGESWriter::GetParameterData2D(std::string *contents,
 
 template<int DIM>
 double io::IGESWriter::Get3DControlPoint(std::shared_ptr<spl::Spline<DIM>> spline, int index, int direction) const {
+  if (spline->GetPointDim() > 3) {
+    throw std::runtime_error("Only splines with at most three coordinates can be written to an iges file.");
+  }
   if (direction < spline->GetPointDim()) {
     return spline->GetControlPoint({index}, direction);
   }
-- 
2.43.0


From 118758f51a4f33bba70b90fbc03ccc5fe1b52183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:26 +0000
Subject: [PATCH 18/30] fix: reject IRIT files that are cut before their first
 object

---
 src/io/irit_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 01f0169..b38765d 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -33,7 +33,9 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   while (getline(newFile, line)) {
     file += line;
   }
-  if (newFile.bad() || std::count(file.begin(), file.end(), '[') > std::count(file.begin(), file.end(), ']')) {
+  auto number_of_opened_objects = std::count(file.begin(), file.end(), '[');
+  if (newFile.bad() || number_of_opened_objects == 0
+      || number_of_opened_objects > std::count(file.begin(), file.end(), ']')) {
     throw std::runtime_error("IRIT file could not be read completely.");
   }
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
-- 
2.43.0


From 992ab94ca5b35e0204b21c67056c966dd48d3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:57 +0000
Subject: [PATCH 19/30] fix: let a knot vector report that its memory cannot be
 allocated

---
 src/baf/knot_vector.cc | 2 +-
 src/baf/knot_vector.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..2293da7 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -27,7 +27,7 @@ baf::KnotVector::KnotVector(const baf::KnotVector &knotVector) = default;
 
 baf::KnotVector::KnotVector(baf::KnotVector &&knotVector) noexcept : knots_(std::move(knotVector.knots_)) {}
 
-baf::KnotVector::KnotVector(std::initializer_list<ParamCoord> knots) noexcept : knots_(knots) {}
+baf::KnotVector::KnotVector(std::initializer_list<ParamCoord> knots) : knots_(knots) {}
 
 baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : knots_(std::vector<ParamCoord>(begin,
                                                                                                              end)) {}
diff --git a/src/baf/knot_vector.h b/src/baf/knot_vector.h
index bc3b9f9..a068ede 100644
--- a/src/baf/knot_vector.h
+++ b/src/baf/knot_vector.h
@@ -36,7 +36,7 @@ class KnotVector {
   KnotVector(const KnotVector &knotVector);
   KnotVector(KnotVector &&knotVector) noexcept;
   explicit KnotVector(std::vector<ParamCoord> knots);
-  KnotVector(std::initializer_list<ParamCoord> knots) noexcept;
+  KnotVector(std::initializer_list<ParamCoord> knots);
   KnotVector(ConstKnotIterator begin, ConstKnotIterator end);
   KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints);
 
-- 
2.43.0


From 0eae3638c9bf5aad2acb762a17cbead4af4eeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:58 +0000
Subject: [PATCH 20/30] fix: reject knot vectors without any extent

---
 src/spl/parameter_space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index b9c470c..42e8cba 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -215,6 +215,9 @@ class ParameterSpace {
       if (!std::is_sorted(knot_vector_[i]->begin(), knot_vector_[i]->end())) {
         throw std::runtime_error("The knots have to be in non-decreasing order.");
       }
+      if (knot_vector_[i]->IsLastKnot(knot_vector_[i]->GetKnot(0))) {
+        throw std::runtime_error("The first and the last knot have to be different.");
+      }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
         if (knot_vector_[i]->GetKnot(0).get() != knot_vector_[i]->GetKnot(j).get()) {
           throw std::runtime_error("The first knot must have multiplicity p+1.");
-- 
2.43.0


From abbf553e524c415250041a3954fd35434d24f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 21/30] fix: do not remove a knot just because the control
 points beside it coincide

---
 src/spl/b_spline.h |  9 ++++++---
 src/spl/nurbs.h    | 12 ++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index c2bd400..87e263e 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,7 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling, temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -218,7 +218,7 @@ class BSpline : public Spline<DIM> {
     }
   }
 
-  bool IsKnotRemovable(double alfi, const std::vector<double> &temp, double tolerance,
+  bool IsKnotRemovable(const std::vector<double> &scaling, const std::vector<double> &temp, double tolerance,
                        int i, int j, int off, int dimension) const {
     std::array<int, DIM> point_handler_length = this->GetPointsPerDirection();
     point_handler_length[dimension] = 0;
@@ -231,7 +231,10 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      // Only if all control points have been computed from both sides (j < i), it suffices that the last two coincide.
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (scaling.empty()) return false;
+        double alfi = scaling[i - off - 1];
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 9286373..fdd47c1 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,7 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling, temp, temp_w, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -406,8 +406,9 @@ class NURBS : public Spline<DIM> {
         (this->GetWeight(point_handler.GetIndices()) - (1 - alpha) * (*temp_w_ptr)[index + x - off + shift]) / alpha;
   }
 
-  bool IsKnotRemovable(double alfi, const std::vector<double> &temp, const std::vector<double> &temp_w,
-                       double tolerance, int i, int j, int off, int dimension) const {
+  bool IsKnotRemovable(const std::vector<double> &scaling, const std::vector<double> &temp,
+                       const std::vector<double> &temp_w, double tolerance,
+                       int i, int j, int off, int dimension) const {
     auto maxdist = physical_space_->GetMaximumDistanceFromOrigin();
     auto minw = physical_space_->GetMinimumWeight();
     tolerance = tolerance * minw / (1 + maxdist);
@@ -427,7 +428,10 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      // Only if all control points have been computed from both sides (j < i), it suffices that the last two coincide.
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (scaling.empty()) return false;
+        double alfi = scaling[i - off - 1];
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 206eece71dd9e2061c865d24bb4ba01b83c2b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 22/30] fix: reject the insertion of knots that the knot vector
 cannot hold

---
 src/spl/spline.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 361ad01..e440695 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -163,8 +163,14 @@ class Spline {
 
   void InsertKnot(ParamCoord knot, int dimension, size_t multiplicity = 1) {
     Modification modification(this);
-    KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
     Degree degree = GetDegree(dimension);
+    if (!GetKnotVector(dimension)->IsInKnotVectorRange(knot)) {
+      throw std::range_error("A knot can only be inserted inside the knot vector range.");
+    }
+    if (GetKnotVector(dimension)->GetMultiplicity(knot) + multiplicity > static_cast<size_t>(degree.get()) + 1) {
+      throw std::runtime_error("The multiplicity of a knot cannot be greater than p+1.");
+    }
+    KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
     for (size_t i = 1; i <= multiplicity; ++i) {
       if (GetKnotVector(dimension)->IsLastKnot(knot)) knot_span = knot_span + KnotSpan{1};
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
-- 
2.43.0


From 6491b26ea4a4ae4fc1230953250ff22a1c6cdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 23/30] fix: remove only inner knots that the knot vector holds

---
 src/spl/spline.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index e440695..f06962f 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -201,6 +201,10 @@ class Spline {
     Modification modification(this);
     size_t count = 0;
     for (; count < multiplicity; ++count) {
+      if (GetKnotVector(dimension)->GetMultiplicity(knot) == 0 || knot == GetKnotVector(dimension)->GetKnot(0)
+          || knot == GetKnotVector(dimension)->GetLastKnot()) {
+        break;
+      }
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
-- 
2.43.0


From b92b95d7569d6407ab78c1256feba7aab055c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 24/30] fix: compare splines over their whole knot vector range

---
 src/spl/spline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index f06962f..bcb8073 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -109,8 +109,9 @@ class Spline {
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double first = GetKnotVector(dim)->GetKnot(0).get();
+        double last = GetKnotVector(dim)->GetLastKnot().get();
+        param_coord[dim] = ParamCoord(std::min(first + (last - first) / number * point_handler[dim], last));
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-- 
2.43.0


From 7ed7fe99cd8b967f8ae5793e16a62783c6457527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 25/30] fix: reject the division of a spline at its ends

---
 src/spl/parameter_space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index 42e8cba..4a0d263 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -189,6 +189,9 @@ class ParameterSpace {
   }
 
   std::array<KnotVectors<DIM>, 2> GetDividedKnotVectors(ParamCoord param_coord, int dimension) const {
+    if (param_coord <= GetKnotVector(dimension)->GetKnot(0) || param_coord >= GetKnotVector(dimension)->GetLastKnot()) {
+      throw std::runtime_error("A spline can only be divided at a parametric coordinate inside the knot vector range.");
+    }
     auto knot_span = GetKnotVector(dimension)->GetKnotSpan(param_coord).get();
     std::array<int, 2> first_knot = {0, knot_span - GetDegree(dimension).get()};
     std::array<int, 2> last_knot = {knot_span + 1, static_cast<int>(knot_vector_[dimension]->GetNumberOfKnots())};
-- 
2.43.0


From 796aac6e3a8463be20b9fee32afd645e2e944695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:40 +0000
Subject: [PATCH 26/30] fix: keep a knot if the weights of the new control
 points would vanish

---
 src/spl/nurbs.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index fdd47c1..75ba7bf 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -429,7 +429,8 @@ class NURBS : public Spline<DIM> {
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
       // Only if all control points have been computed from both sides (j < i), it suffices that the last two coincide.
-      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      // The distance is not a number if the weight of a new control point vanishes.
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         if (scaling.empty()) return false;
         double alfi = scaling[i - off - 1];
         auto indices = point_handler.GetIndices();
@@ -442,7 +443,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From c613e504354ed2f44503e80738170fd743946254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:35 +0000
Subject: [PATCH 27/30] fix: read numbers with a leading plus sign or a D
 exponent

---
 src/util/string_operations.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index f542b5e..bb33482 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -93,9 +93,11 @@ class StringOperations {
     if (string[0] == '-') {
       sign = -1;
       string.erase(0, 1);
+    } else if (string[0] == '+') {
+      string.erase(0, 1);
     }
     std::size_t found = string.find_first_of('.');
-    std::size_t exponent = string.find_first_of("Ee");
+    std::size_t exponent = string.find_first_of("EeDd");
     std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
     double result = 0;
     double factor = pow(10, static_cast<double>(std::min({found, exponent, string.length()})) - 1);
-- 
2.43.0


From c28747b3e38c786e0629ea66b657da5f5033897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:03 +0000
Subject: [PATCH 28/30] fix: a spline is not geometrically equal to one that
 lacks coordinates

---
 src/spl/spline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index bcb8073..00e1ece 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -96,6 +96,7 @@ class Spline {
 
   bool AreGeometricallyEqual(const spl::Spline<DIM> &rhs,
                              double tolerance = util::NumericSettings<double>::kEpsilon()) const {
+    if (rhs.GetPointDim() < GetPointDim()) return false;
     double number = ceil(pow(100, 1.0 / DIM));
     std::array<int, DIM> points = std::array<int, DIM>();
     std::vector<int> dimensions;
-- 
2.43.0


From c7f0656aeab1ddbd889bf6c61e3779544b5322e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:31 +0000
Subject: [PATCH 29/30] fix: projection onto splines whose knots do not start
 at zero or differ per direction

---
 src/spl/projection.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..41adede 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -85,10 +85,10 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate(paramCoords, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +115,8 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -140,11 +140,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 4e04b399e5abf4f8afae0d2814778eff5fb1fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 30/30] fix: write the file name as a string constant in the
 global section of IGES files

---
 src/io/iges_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index 381331d..82d5fd7 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -69,8 +69,8 @@ std::vector<std::string> io::IGESWriter::GetGlobalSection(const std::string &fil
                                                           const std::vector<std::any> &splines) const {
   std::string contents;
   AddToContents(&contents, {GetHollerithFormat(delimiter), GetHollerithFormat(endDelimiter),
-                            GetHollerithFormat("unknown"), filename, GetHollerithFormat("SplineLib"),
-                            GetHollerithFormat("pre_release"),
+                            GetHollerithFormat("unknown"), GetHollerithFormat(filename),
+                            GetHollerithFormat("SplineLib"), GetHollerithFormat("pre_release"),
                             GetString(std::numeric_limits<int>::digits),
                             GetString(std::numeric_limits<float>::max_exponent),
                             GetString(std::numeric_limits<float>::digits),
-- 
2.43.0

