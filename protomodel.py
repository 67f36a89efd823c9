"""Model protobuf classes for the symbolic engine, generated from the repository's current .proto files.

The engine executes the repository's packers and unpackers against these classes, which keep
each field as a plain member; replays compile the same harness against protoc's own output.
What is modelled is the documented behaviour of generated accessors (presence, Clear, oneof
exclusivity, repeated fields); the wire format itself is not encoded: SerializeAsString hands
out a token that ParseFromString of the same message type turns back into the message.
"""
import os, subprocess

RT = r'''#pragma once
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace google::protobuf {
template <typename T> class RepeatedField {
  std::vector<T> v_;
 public:
  using value_type = T;
  using iterator = T *;
  using const_iterator = const T *;
  RepeatedField() = default;
  template <typename I> RepeatedField(I a, I b) : v_(a, b) {}
  bool empty() const { return v_.empty(); }
  int size() const { return static_cast<int>(v_.size()); }
  const T &Get(int i) const { return v_[i]; }
  T *Mutable(int i) { return &v_[i]; }
  const T &operator[](int i) const { return v_[i]; }
  T &operator[](int i) { return v_[i]; }
  const T &at(int i) const { return v_.at(i); }
  T &at(int i) { return v_.at(i); }
  void Set(int i, const T &x) { v_[i] = x; }
  void Add(const T &x) { v_.push_back(x); }
  T *Add() { v_.push_back(T{}); return &v_.back(); }
  template <typename I> void Add(I a, I b) { for (; a != b; ++a) v_.push_back(*a); }
  void RemoveLast() { v_.pop_back(); }
  void Clear() { v_.clear(); }
  void MergeFrom(const RepeatedField &o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
  void CopyFrom(const RepeatedField &o) { v_ = o.v_; }
  template <typename I> void Assign(I a, I b) { v_.assign(a, b); }
  void Reserve(int n) { v_.reserve(n); }
  int Capacity() const { return static_cast<int>(v_.capacity()); }
  void Truncate(int n) { v_.resize(n); }
  void Resize(int n, const T &x) { v_.resize(n, x); }
  T *AddAlreadyReserved() { return Add(); }
  void AddAlreadyReserved(const T &x) { Add(x); }
  T *mutable_data() { return v_.data(); }
  const T *data() const { return v_.data(); }
  void Swap(RepeatedField *o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  iterator begin() { return v_.data(); }
  iterator end() { return v_.data() + v_.size(); }
  const_iterator begin() const { return v_.data(); }
  const_iterator end() const { return v_.data() + v_.size(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  auto rbegin() const { return std::reverse_iterator(end()); }
  auto rend() const { return std::reverse_iterator(begin()); }
  iterator erase(const_iterator p) { auto i = p - begin(); v_.erase(v_.begin() + i); return begin() + i; }
  iterator erase(const_iterator p, const_iterator q) { auto i = p - cbegin(), j = q - cbegin(); v_.erase(v_.begin() + i, v_.begin() + j); return begin() + i; }
};
template <typename T> class RepeatedPtrField {
  std::vector<std::unique_ptr<T>> v_;
  template <typename E, typename P> class It {
    P p_;
   public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = E *;
    using reference = E &;
    It() = default;
    explicit It(P p) : p_(p) {}
    E &operator*() const { return **p_; }
    E *operator->() const { return p_->get(); }
    It &operator++() { ++p_; return *this; }
    It operator++(int) { It r = *this; ++p_; return r; }
    It &operator--() { --p_; return *this; }
    It &operator+=(std::ptrdiff_t n) { p_ += n; return *this; }
    friend It operator+(It a, std::ptrdiff_t n) { a.p_ += n; return a; }
    friend It operator-(It a, std::ptrdiff_t n) { a.p_ -= n; return a; }
    friend std::ptrdiff_t operator-(It a, It b) { return a.p_ - b.p_; }
    E &operator[](std::ptrdiff_t n) const { return *p_[n]; }
    friend auto operator<=>(const It &a, const It &b) = default;
  };
 public:
  using value_type = T;
  using iterator = It<T, const std::unique_ptr<T> *>;
  using const_iterator = It<const T, const std::unique_ptr<T> *>;
  RepeatedPtrField() = default;
  RepeatedPtrField(const RepeatedPtrField &o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField &&) = default;
  RepeatedPtrField &operator=(const RepeatedPtrField &o) { if (this != &o) { Clear(); MergeFrom(o); } return *this; }
  RepeatedPtrField &operator=(RepeatedPtrField &&) = default;
  bool empty() const { return v_.empty(); }
  int size() const { return static_cast<int>(v_.size()); }
  const T &Get(int i) const { return *v_[i]; }
  T *Mutable(int i) { return v_[i].get(); }
  const T &operator[](int i) const { return *v_[i]; }
  T &operator[](int i) { return *v_[i]; }
  const T &at(int i) const { return *v_.at(i); }
  T &at(int i) { return *v_.at(i); }
  T *Add() { v_.push_back(std::make_unique<T>()); return v_.back().get(); }
  void Add(T x) { v_.push_back(std::make_unique<T>(std::move(x))); }
  template <typename I> void Add(I a, I b) { for (; a != b; ++a) Add(T(*a)); }
  void RemoveLast() { v_.pop_back(); }
  void Clear() { v_.clear(); }
  void MergeFrom(const RepeatedPtrField &o) { for (const auto &x : o.v_) v_.push_back(std::make_unique<T>(*x)); }
  void CopyFrom(const RepeatedPtrField &o) { *this = o; }
  void Reserve(int n) { v_.reserve(n); }
  void Swap(RepeatedPtrField *o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { v_[a].swap(v_[b]); }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
};
namespace sxmodel {
template <typename M> std::vector<std::unique_ptr<M>> &store() { static std::vector<std::unique_ptr<M>> s; return s; }
}
}  // namespace google::protobuf
'''

SCALAR = {1: 'double', 2: 'float', 3: 'int64_t', 4: 'uint64_t', 5: 'int32_t', 6: 'uint64_t', 7: 'uint32_t', 8: 'bool',
          9: 'std::string', 12: 'std::string', 13: 'uint32_t', 15: 'int32_t', 16: 'int64_t', 17: 'int32_t', 18: 'int64_t'}


def wire(b):
    i, res = 0, []

    def varint(i):
        v = s = 0
        while True:
            c = b[i]
            i += 1
            v |= (c & 127) << s
            s += 7
            if c < 128:
                return v, i
    while i < len(b):
        t, i = varint(i)
        n, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(i)
        elif w == 2:
            l, i = varint(i)
            v = b[i:i + l]
            i += l
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        else:
            v = b[i:i + 4]
            i += 4
        res.append((n, v))
    return res


def one(w, n, d=None):
    r = [v for k, v in w if k == n]
    return r[-1] if r else d


def many(w, n):
    return [v for k, v in w if k == n]


def camel(s):
    r, up = '', True
    for c in s:
        if c == '_':
            up = True
        elif c.isdigit():
            r, up = r + c, True
        else:
            r, up = r + (c.upper() if up else c), False
    return r


class Field:
    def __init__(self, b):
        w = wire(b)
        self.name = one(w, 1).decode()
        self.number = one(w, 3)
        self.repeated = one(w, 4) == 3
        self.type = one(w, 5)
        self.type_name = (one(w, 6) or b'').decode()
        self.oneof = one(w, 9)
        self.opt = bool(one(w, 17, 0))
        if self.type in (10,):
            raise ValueError('groups are not modelled')


def cpp_name(type_name, pkgs):
    """.pkg.Outer.Inner -> ::pkg::Outer_Inner"""
    t = type_name.lstrip('.')
    best = max((p for p in pkgs if t.startswith(p + '.')), key=len)
    return '::' + best.replace('.', '::') + '::' + t[len(best) + 1:].replace('.', '_')


def emit_enum(b, prefix, out):
    w = wire(b)
    name = (prefix + '_' if prefix else '') + one(w, 1).decode()
    vals = []
    for v in many(w, 2):
        x = wire(v)
        vals.append('%s%s = %d' % (name + '_' if prefix else '', one(x, 1).decode(), one(x, 2, 0)))
    out.append('enum %s : int { %s };' % (name, ', '.join(vals)))
    return name


def emit(b, prefix, pkgs, out):
    w = wire(b)
    short = one(w, 1).decode()
    name = (prefix + '_' if prefix else '') + short
    nested = []
    for n in many(w, 4):
        nested.append(emit_enum(n, name, out))
    for n in many(w, 3):
        if one(wire(one(wire(n), 7) or b''), 7):
            raise ValueError('map fields are not modelled')
        nested.append(emit(n, name, pkgs, out))
    fields = [Field(f) for f in many(w, 2)]
    oneofs = [one(wire(o), 1).decode() for o in many(w, 8)]
    c = ['class %s {' % name, ' public:']
    for n in nested:
        c.append('  using %s = ::%s;' % (n[len(name) + 1:], n) if False else '  using %s = %s;' % (n[len(name) + 1:], n))
    priv, clear = [], []
    for f in fields:
        c.append('  static constexpr int k%sFieldNumber = %d;' % (camel(f.name), f.number))
    for i, o in enumerate(oneofs):
        fs = [f for f in fields if f.oneof == i and not f.opt]
        if not fs:
            continue
        c.append('  enum %sCase { %s, %s_NOT_SET = 0 };' % (camel(o), ', '.join('k%s = %d' % (camel(f.name), f.number) for f in fs), o.upper()))
        c.append('  %sCase %s_case() const { return %s_case_; }' % (camel(o), o, o))
        c.append('  void clear_%s() { switch (%s_case_) { %s default: break; } %s_case_ = %s_NOT_SET; }' % (
            o, o, ' '.join('case k%s: %s_ = {}; break;' % (camel(f.name), f.name) for f in fs), o, o.upper()))
        priv.append('  %sCase %s_case_ = %s_NOT_SET;' % (camel(o), o, o.upper()))
        clear.append('clear_%s();' % o)
    for f in fields:
        n, m = f.name, f.name + '_'
        msg = f.type == 11
        t = cpp_name(f.type_name, pkgs) if f.type in (11, 14) else SCALAR[f.type]
        s = t == 'std::string'
        if f.repeated:
            ptr = msg or s
            rt = '::google::protobuf::Repeated%sField<%s>' % ('Ptr' if ptr else '', t)
            priv.append('  %s %s;' % (rt, m))
            clear.append('%s.Clear();' % m)
            c.append('  const %s &%s() const { return %s; }' % (rt, n, m))
            c.append('  %s *mutable_%s() { return &%s; }' % (rt, n, m))
            c.append('  int %s_size() const { return %s.size(); }' % (n, m))
            c.append('  void clear_%s() { %s.Clear(); }' % (n, m))
            if ptr:
                c.append('  const %s &%s(int i) const { return %s[i]; }' % (t, n, m))
                c.append('  %s *mutable_%s(int i) { return %s.Mutable(i); }' % (t, n, m))
                c.append('  %s *add_%s() { return %s.Add(); }' % (t, n, m))
                if s:
                    c.append('  template <typename X> void add_%s(X &&x) { *%s.Add() = std::forward<X>(x); }' % (n, m))
                    c.append('  template <typename X> void set_%s(int i, X &&x) { *%s.Mutable(i) = std::forward<X>(x); }' % (n, m))
            else:
                c.append('  %s %s(int i) const { return %s[i]; }' % (t, n, m))
                c.append('  void set_%s(int i, %s x) { %s[i] = x; }' % (n, t, m))
                c.append('  void add_%s(%s x) { %s.Add(x); }' % (n, t, m))
            continue
        priv.append('  %s %s{};' % (t, m))
        in_oneof = f.oneof is not None and not f.opt
        if in_oneof:
            o = oneofs[f.oneof]
            k = 'k' + camel(n)
            c.append('  bool has_%s() const { return %s_case_ == %s; }' % (n, o, k))
            c.append('  void clear_%s() { if (has_%s()) clear_%s(); }' % (n, n, o))
            take = 'if (not has_%s()) { clear_%s(); %s_case_ = %s; } ' % (n, o, o, k)
        elif msg or f.opt:
            priv.append('  bool has_%s{};' % m)
            c.append('  bool has_%s() const { return has_%s; }' % (n, m))
            c.append('  void clear_%s() { %s = {}; has_%s = false; }' % (n, m, m))
            take = 'has_%s = true; ' % m
            clear.append('clear_%s();' % n)
        else:
            take = ''
            c.append('  void clear_%s() { %s = {}; }' % (n, m))
            clear.append('clear_%s();' % n)
        if msg:
            c.append('  const %s &%s() const { return %s; }' % (t, n, m))
            c.append('  %s *mutable_%s() { %sreturn &%s; }' % (t, n, take, m))
        elif s:
            c.append('  const std::string &%s() const { return %s; }' % (n, m))
            c.append('  std::string *mutable_%s() { %sreturn &%s; }' % (n, take, m))
            c.append('  template <typename X> void set_%s(X &&x) { %s%s = std::forward<X>(x); }' % (n, take, m))
        else:
            c.append('  %s %s() const { return %s; }' % (t, n, m))
            c.append('  void set_%s(%s x) { %s%s = x; }' % (n, t, take, m))
    c.append('  void Clear() { %s }' % ' '.join(clear))
    c.append('  void CopyFrom(const %s &o) { if (this != &o) *this = o; }' % name)
    c.append('  void Swap(%s *o) { std::swap(*this, *o); }' % name)
    c.append('  static const %s &default_instance() { static const %s d; return d; }' % (name, name))
    c.append('  bool SerializeToString(std::string *out) const { auto &s = ::google::protobuf::sxmodel::store<%s>(); s.push_back(std::make_unique<%s>(*this)); out->assign("sx#"); out->push_back(static_cast<char>(1 + s.size() %% 100)); out->push_back(static_cast<char>(1 + s.size() / 100)); return true; }' % (name, name))
    c.append('  std::string SerializeAsString() const { std::string r; SerializeToString(&r); return r; }')
    c.append('  bool ParseFromString(const std::string &t) { Clear(); auto &s = ::google::protobuf::sxmodel::store<%s>(); if (t.size() != 5 or t[0] != \'s\' or t[1] != \'x\' or t[2] != \'#\' or t[3] < 1 or t[3] > 100 or t[4] < 1) return false; const std::size_t k = (t[3] - 1) + 100 * std::size_t(t[4] - 1); if (k < 1 or k > s.size()) return false; *this = *s[k - 1]; return true; }' % name)
    c.append(' private:')
    c += priv
    c.append('};')
    out += c
    return name


def generate(repo, protos, gen):
    os.makedirs(gen, exist_ok=True)
    ds = os.path.join(gen, 'set.bin')
    r = subprocess.run(['protoc', '-I' + repo, '--include_imports', '--descriptor_set_out=' + ds] + protos, cwd=repo,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ValueError('protoc: ' + r.stdout)
    g = os.path.join(gen, 'google/protobuf')
    os.makedirs(g, exist_ok=True)
    open(os.path.join(g, 'repeated_field.h'), 'w').write(RT)
    for alias in ('message.h', 'repeated_ptr_field.h'):
        open(os.path.join(g, alias), 'w').write('#pragma once\n#include "google/protobuf/repeated_field.h"\n')
    files = [wire(f) for f in many(wire(open(ds, 'rb').read()), 1)]
    pkgs = {one(f, 2, b'').decode() for f in files}
    names = []
    for f in files:
        name = one(f, 1).decode()
        names.append(name)
        out = ['#pragma once', '#include "google/protobuf/repeated_field.h"']
        for d in many(f, 3):
            out.append('#include "%s.pb.h"' % d.decode()[:-6])
        out.append('namespace %s {' % one(f, 2).decode().replace('.', '::'))
        for e in many(f, 5):
            emit_enum(e, '', out)
        for m in many(f, 4):
            emit(m, '', pkgs, out)
        out.append('}')
        p = os.path.join(gen, name[:-6] + '.pb.h')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('\n'.join(out) + '\n')
    return [n for n in names if not n.startswith('google/')]


def generate_native(repo, protos, gen):
    """protoc's own classes, for replays; returns the generated sources."""
    os.makedirs(gen, exist_ok=True)
    r = subprocess.run(['protoc', '-I' + repo, '--cpp_out=' + gen] + protos, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ValueError('protoc: ' + r.stdout)
    return [os.path.join(gen, p[:-6] + '.pb.cc') for p in protos]


if __name__ == '__main__':
    import sys
    print(generate('/repo', sys.argv[2:], sys.argv[1]))
