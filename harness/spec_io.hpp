// Point files.
#pragma once
namespace vpx {
using Points4f = std::vector<Eigen::Vector4f>;
using std::string;
}
namespace vpw {
using namespace vpx;
Points4f io_read(const string& name) { return read_points(name); }
void io_write(const string& name, const Points4f& p) { write_points(name, p); }
Points4f io_ply(const string& name) { return read_ply(name); }
}  // namespace vpw
namespace vps {
using namespace vpx;
Points4f io_read(const string& name) {
  Points4f out;
  std::ifstream f(name, std::ios::binary | std::ios::ate);
  if (!f) return out;
  const size_t records = std::streamsize(f.tellg()) / 16;
  f.seekg(0, std::ios::beg);
  out.resize(records);
  f.read((char*)out.data(), records * 16);
  for (size_t i = 0; i < records; i++) out[i][3] = 1;
  return out;
}
void io_write(const string& name, const Points4f& p) {
  std::ofstream f(name, std::ios::binary);
  if (!f) return;
  f.write((const char*)p.data(), 16 * p.size());
}
inline bool is_letter(const string& s, char c) { return s.size() == 1 && std::tolower(s[0]) == c; }
Points4f io_ply(const string& name) {
  std::ifstream f(name, std::ios::binary);
  if (!f) return Points4f();
  std::vector<string> columns;
  Points4f out;
  string line;
  while (!f.eof() && std::getline(f, line) && !line.empty() && !(line == "end_header")) {
    if (line.find("element") == 0) {
      string a, b, c;
      std::stringstream s(line);
      s >> a >> b >> c;
      if (!(a == "element" && b == "vertex")) return Points4f();
      out.resize(std::stol(c));
    } else if (line.find("property") == 0) {
      string a, b, c;
      std::stringstream s(line);
      s >> a >> b >> c;
      if (b != "float") return Points4f();
      columns.push_back(c);
    }
  }
  // other headers: see known_findings.json
  assume(columns.size() == 4);
  const size_t width = columns.size();
  std::vector<float> data(out.size() * width);
  f.read((char*)data.data(), out.size() * 16);
  for (size_t i = 0; i < out.size(); i++) out[i] = Eigen::Vector4f(data[i * width], data[i * width + 1], data[i * width + 2], 1.0f);
  return out;
}
}  // namespace vps
