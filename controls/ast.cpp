// Positive controls for the syntax-tree rules: a miniature hierarchy in which
// every class but Good breaks one rule. Analysed, never compiled or run.
#include "marco/AST/ASTNode.h"
#include "llvm/Support/JSON.h"
#include <memory>

namespace ctl {
enum class K : int { Base, Base_Good, Base_BadKind, Base_BadClone, Base_BadAcc, Last, Other };

class Node {
public:
  Node(K kind, int loc) : kind(kind), loc(loc) {}
  Node(const Node &other) : kind(other.kind), loc(other.loc) {}
  virtual ~Node() = default;
  K getKind() const { return kind; }
  virtual std::unique_ptr<Node> clone() const = 0;
  virtual llvm::json::Value toJSON() const = 0;
  Node *getParent() { return parent; }
  void setParent(Node *p) { parent = p; }
private:
  K kind;
  int loc;
  Node *parent{nullptr};
};

class Base : public Node {
public:
  using Node::Node;
  static bool classof(const Node *n) { return n->getKind() >= K::Base && n->getKind() <= K::Last; }
};

class Good : public Base {
public:
  Good(int loc) : Base(K::Base_Good, loc) {}
  Good(const Good &o) : Base(o), name(o.name) {
    setItems(o.items);
    if (o.hasOne()) setOne(o.one->clone());
  }
  static bool classof(const Node *n) { return n->getKind() == K::Base_Good; }
  std::unique_ptr<Node> clone() const override { return std::make_unique<Good>(*this); }
  llvm::json::Value toJSON() const override {
    llvm::json::Object r;
    r["kind"] = "good";
    r["name"] = name;
    if (hasOne()) r["one"] = one->toJSON();
    llvm::SmallVector<llvm::json::Value> v;
    for (const auto &x : items) v.push_back(x->toJSON());
    r["items"] = llvm::json::Array(v);
    return r;
  }
  bool hasOne() const { return one != nullptr; }
  Node *getOne() const { return one.get(); }
  void setOne(std::unique_ptr<Node> n) { one = std::move(n); one->setParent(this); }
  llvm::ArrayRef<std::unique_ptr<Node>> getItems() const { return items; }
  void setItems(llvm::ArrayRef<std::unique_ptr<Node>> ns) {
    items.clear();
    for (const auto &x : ns) { auto &c = items.emplace_back(x->clone()); c->setParent(this); }
  }
private:
  std::string name;
  std::unique_ptr<Node> one;
  llvm::SmallVector<std::unique_ptr<Node>, 2> items;
};

// classof claims Good's kind, JSON drops the child.
class BadKind : public Base {
public:
  BadKind(int loc) : Base(K::Base_Good, loc) {}
  static bool classof(const Node *n) { return n->getKind() == K::Base_BadKind; }
  BadKind(const BadKind &o) : Base(o) { setOne(o.one->clone()); }
  std::unique_ptr<Node> clone() const override { return std::make_unique<BadKind>(*this); }
  llvm::json::Value toJSON() const override {
    llvm::json::Object r;
    r["kind"] = "bad";
    return r;
  }
  void setOne(std::unique_ptr<Node> n) { one = std::move(n); one->setParent(this); }
private:
  std::unique_ptr<Node> one;
};

// The copy keeps no items and adopts nothing.
class BadClone : public Base {
public:
  BadClone(int loc) : Base(K::Base_BadClone, loc) {}
  BadClone(const BadClone &o) : Base(o) { one = o.one->clone(); }
  static bool classof(const Node *n) { return n->getKind() == K::Base_BadClone; }
  std::unique_ptr<Node> clone() const override { return std::make_unique<BadClone>(*this); }
  llvm::json::Value toJSON() const override {
    llvm::json::Object r;
    r["kind"] = "clone";
    r["one"] = one->toJSON();
    return r;
  }
private:
  std::unique_ptr<Node> one;
};

// The setter appends instead of replacing and adopts nothing.
class BadAcc : public Base {
public:
  BadAcc(int loc) : Base(K::Base_BadAcc, loc) {}
  BadAcc(const BadAcc &o) : Base(o) { setItems(o.items); }
  static bool classof(const Node *n) { return n->getKind() == K::Base_BadAcc; }
  std::unique_ptr<Node> clone() const override { return std::make_unique<BadAcc>(*this); }
  llvm::json::Value toJSON() const override {
    llvm::json::Object r;
    r["kind"] = "acc";
    llvm::SmallVector<llvm::json::Value> v;
    for (const auto &x : items) v.push_back(x->toJSON());
    r["items"] = llvm::json::Array(v);
    return r;
  }
  llvm::ArrayRef<std::unique_ptr<Node>> getItems() const { return items; }
  void setItems(llvm::ArrayRef<std::unique_ptr<Node>> ns) {
    for (const auto &x : ns) items.emplace_back(x->clone());
  }
private:
  llvm::SmallVector<std::unique_ptr<Node>, 2> items;
};
} // namespace ctl
