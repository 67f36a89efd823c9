// An in-memory file system: the only one the code under test can reach.
#pragma once
#include <string>
#include <vector>
namespace sxfs {
struct Node {
  std::string path, content;
  bool dir = false;
};
inline std::vector<Node> &nodes() {
  static std::vector<Node> *n = new std::vector<Node>;
  return *n;
}
inline Node *find(const std::string &p) {
  for (auto &n : nodes())
    if (n.path == p) return &n;
  return nullptr;
}
inline bool is_dir(const std::string &p) {
  const Node *n = find(p);
  return p.empty() or p == "/" or (n != nullptr and n->dir);
}
inline std::string parent(const std::string &p) {
  const auto k = p.rfind('/');
  return k == std::string::npos ? std::string{} : k == 0 ? std::string{"/"} : p.substr(0, k);
}
inline bool below(const std::string &p, const std::string &top) {
  return p.size() > top.size() and p.compare(0, top.size(), top) == 0 and p[top.size()] == '/';
}
inline std::size_t remove_all(const std::string &p) {
  std::size_t k = 0;
  for (std::size_t i = 0; i < nodes().size();)
    if (nodes()[i].path == p or below(nodes()[i].path, p)) nodes().erase(nodes().begin() + i), k++;
    else i++;
  return k;
}
inline bool mkdir(const std::string &p) {
  if (find(p) != nullptr or p.empty() or p == "/") return false;
  nodes().push_back({p, {}, true});
  return true;
}
inline bool mkdirs(const std::string &p) {
  if (p.empty() or p == "/" or find(p) != nullptr) return false;
  mkdirs(parent(p));
  return mkdir(p);
}
// open for writing: creates or truncates
inline Node *create(const std::string &p, bool keep) {
  Node *n = find(p);
  if (n != nullptr) {
    if (n->dir) return nullptr;
    if (not keep) n->content.clear();
    return n;
  }
  if (not is_dir(parent(p))) return nullptr;
  nodes().push_back({p, {}, false});
  return &nodes().back();
}
}  // namespace sxfs
