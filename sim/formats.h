// Independent emitters and parsers for the file formats (no SplineLib code).
#ifndef SIM_FORMATS_H_
#define SIM_FORMATS_H_
#include <array>
#include "model.h"
namespace sim {
constexpr int kLayouts = 1 << 17, kPlainLayout = 511;  // bits of a style; those that the strict parsers below know
std::string Emit(const std::string &fmt, const std::vector<MSpline> &s, int style);
// "" if the bytes are a complete file of this format; the splines go to *out.
std::string ParseFile(const std::string &fmt, const std::string &bytes, std::vector<MSpline> *out);
std::string IgesGlobal(const std::string &g, std::vector<std::string> *out);
std::string ParseIges(const std::string &b, std::vector<MSpline> *out, std::string *global);
std::string ParseIrit(const std::string &b, std::vector<MSpline> *out);
std::string ParseXml(const std::string &b, std::vector<MSpline> *out);
struct VtkFile {
  std::vector<std::array<double, 3>> points;
  std::vector<std::vector<long>> cells;
  std::vector<int> types;
};
std::string ParseVtk(const std::string &b, VtkFile *out);
// Compares a VTK file with the model splines sampled with `scat`.
std::string CompareVtk(const std::vector<MSpline> &s, const std::vector<std::vector<int>> &scat, const VtkFile &v);
Tol FileTol(const std::string &fmt);
MSpline Representable(const std::string &fmt, const MSpline &s);   // what a file of this format can hold of s
bool Supported(const std::string &fmt, const MSpline &s);
}  // namespace sim
#endif
