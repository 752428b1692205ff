// In-memory stand-ins for the few ROOT I/O classes oxsx touches.
#ifndef OXV_ROOT_MEM
#define OXV_ROOT_MEM
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
class TObject { public: virtual ~TObject() {} virtual const char *GetName() const { return ""; } };
class TNamed : public TObject { public: std::string fN; TNamed(const std::string &n = "") : fN(n) {} const char *GetName() const override { return fN.c_str(); } void SetName(const char *n) { fN = n; } };
class TBranchLike : public TNamed { public: using TNamed::TNamed; };
class TObjArray { public: std::vector<TObject *> v; TObject *At(int i) const { return v.at(i); } int GetEntries() const { return int(v.size()); } };
class TLeaf : public TNamed { public: using TNamed::TNamed; double cur = 0; double GetValue(int = 0) const { return cur; } };
namespace oxv_shim {
struct TreeData { bool ntuple = false; std::vector<std::string> names; std::vector<std::vector<double>> rows; };
struct FileData { std::map<std::string, std::shared_ptr<TreeData>> trees; };
inline std::map<std::string, FileData> &files() { static std::map<std::string, FileData> f; return f; }
inline std::string &cwd() { static std::string s; return s; }
}
class TTree : public TNamed {
public:
  std::shared_ptr<oxv_shim::TreeData> d; TObjArray br; std::vector<std::unique_ptr<TLeaf>> leaves; std::vector<std::unique_ptr<TBranchLike>> brs;
  std::vector<std::pair<const void *, char>> addr;
  TTree(const char *n, const char *) : TNamed(n), d(new oxv_shim::TreeData) {}
  TTree(const std::string &n, std::shared_ptr<oxv_shim::TreeData> dd) : TNamed(n), d(dd) { for (auto &x : d->names) mk(x); }
  void mk(const std::string &x) { leaves.emplace_back(new TLeaf(x)); brs.emplace_back(new TBranchLike(x)); br.v.push_back(brs.back().get()); }
  void Branch(const char *n, const void *p, const char *leaf) { d->names.push_back(n); mk(n); const char *s = std::strrchr(leaf, '/'); addr.push_back({p, s ? s[1] : 'D'}); }
  int Fill() {
    std::vector<double> r;
    for (auto &a : addr) switch (a.second) {
      case 'D': r.push_back(*(const double *)a.first); break;
      case 'I': r.push_back(*(const int *)a.first); break;
      case 'O': r.push_back(*(const bool *)a.first); break;
      default: r.push_back(*(const float *)a.first);
    }
    d->rows.push_back(r); return 1;
  }
  long GetEntries() const { return long(d->rows.size()); }
  int GetNbranches() const { return int(d->names.size()); }
  virtual int GetEntry(long i) { for (size_t k = 0; k < leaves.size(); ++k) leaves[k]->cur = d->rows.at(i).at(k); return 1; }
  TObjArray *GetListOfBranches() { return &br; }
  TLeaf *GetLeaf(const char *n) { for (auto &l : leaves) if (l->fN == n) return l.get(); return nullptr; }
  int LoadBaskets() { return 0; }
  void DropBaskets() {}
  int Write() { oxv_shim::files()[oxv_shim::cwd()].trees[fN] = d; return 1; }
};
class TNtuple : public TTree {
public:
  std::vector<float> args;
  TNtuple(const char *n, const char *t, const char *vars) : TTree(n, t) {
    d->ntuple = true; std::stringstream ss(vars); std::string s;
    while (std::getline(ss, s, ':')) { d->names.push_back(s); mk(s); }
    args.resize(d->names.size());
  }
  TNtuple(const std::string &n, std::shared_ptr<oxv_shim::TreeData> dd) : TTree(n, dd), args(dd->names.size()) {}
  int Fill(const float *x) { std::vector<double> r; for (size_t i = 0; i < d->names.size(); ++i) r.push_back(x[i]); d->rows.push_back(r); return 1; }
  int GetNvar() const { return int(d->names.size()); }
  float *GetArgs() { return args.data(); }
  int GetEntry(long i) override { for (size_t k = 0; k < args.size(); ++k) args[k] = float(d->rows.at(i).at(k)); return TTree::GetEntry(i); }
};
class TFile : public TNamed {
public:
  bool zombie = false; std::vector<std::unique_ptr<TObject>> owned;
  TFile(const char *n, const char *opt = "") : TNamed(n) {
    if (std::string(opt) == "RECREATE") oxv_shim::files()[n] = oxv_shim::FileData();
    else if (!oxv_shim::files().count(n)) zombie = true;
    cd();
  }
  bool IsZombie() const { return zombie; }
  void cd() { oxv_shim::cwd() = fN; }
  void Close() {}
  TObject *Get(const char *n) {
    auto &t = oxv_shim::files()[fN].trees; auto it = t.find(n); if (it == t.end()) return nullptr;
    if (it->second->ntuple) owned.emplace_back(new TNtuple(std::string(n), it->second));
    else owned.emplace_back(new TTree(std::string(n), it->second));
    return owned.back().get();
  }
};
class TStopwatch { public: void Start(bool = true) {} double RealTime() { return 0; } };
#endif
