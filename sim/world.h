// The reference model: a forest of ordered trees, handles into it, allocators that own them.
#pragma once
#include "plan.h"
#include <memory>
struct Node {
  int type = 5; std::string raw = "null"; bool haskey = false; std::string key; std::vector<Node *> kids; Node *parent = nullptr;
  int alloc = -1; bool dead = false, ghost = false; // ghost: stands for content that was replaced; its former children stay readable
  int strtext = -1, keytext = -1; int id = 0;
};
struct Handle { int uid; Node *n; int alloc; int task; void *real; };
struct AllocM { int uid; bool live; int task; void *real; };
struct Exp {
  bool skip = false; char kind = 'v';
  bool ok = true, either = false, cmp = true;
  Node *node = nullptr; std::string s; long long iv = 0; double dv = 0;
  std::unique_ptr<ref::J> j;
  bool adopt_num = false, adopt_str = false, adopt_key = false, size_may_fail = false;
};
size_t down_step(const Node *n);
struct World {
  std::map<int, Handle> handles;
  std::map<int, AllocM> allocs;
  std::vector<std::unique_ptr<Node>> pool;
  size_t maxkids = ~(size_t)0;           // elements the configured size type can count
  size_t nodecount(const Node *) const;
  Handle *handle(int uid);              // live handle or null
  Exp expect(const Op &);
  void commit(const Op &, Exp &, bool success, void *real); // applies the operation to the model
  void kill_tree(Node *root);
  static bool orphan(const Node *);
  std::string canon(const Node *) const; // content, no key of the root
  static const Node *root(const Node *n) { while (n->parent) n = n->parent; return n; }
  size_t weight(const Node *n) const;   // bytes of content + constant per node
  uint64_t state_hash() const;
  void drop_text(int uid);
private:
  Node *mk(int alloc);
  Node *from_j(const ref::J &j, int alloc, int text);
  Node *clone(const Node *n, int alloc);
  void detach(Node *n);
  void clear_content(Node *n);          // old children move under a ghost: still readable, no longer part of n
  void ensure(Handle &h);
};
