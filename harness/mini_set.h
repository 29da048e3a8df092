// Stand-in for std::set (the standard library is assumed, not analysed): same interface, list inside.
#pragma once
#include <utility>
#include <cstddef>
#include <string>
#include <functional>
#define _GLIBCXX_SET 1
namespace std {
template <typename K, typename C = less<K>, typename A = allocator<K>> class set {
  struct Node { const K v; Node *next; Node(const K &k) : v(k), next(nullptr) {} };
  Node *head;
  Node *find_(const K &k) const { for (Node *n = head; n; n = n->next) if (n->v == k) return n; return nullptr; }
  void push_(Node *n) { Node **p = &head; while (*p) p = &(*p)->next; *p = n; }
public:
  typedef K key_type; typedef K value_type; typedef size_t size_type;
  struct iterator {
    const Node *n; iterator(const Node *x = nullptr) : n(x) {}
    const K &operator*() const { return n->v; } const K *operator->() const { return &n->v; }
    iterator &operator++() { n = n->next; return *this; } iterator operator++(int) { iterator o = *this; n = n->next; return o; }
    bool operator==(const iterator &o) const { return n == o.n; } bool operator!=(const iterator &o) const { return n != o.n; }
  };
  typedef iterator const_iterator;
  set() : head(nullptr) {}
  set(const set &o) : head(nullptr) { for (Node *n = o.head; n; n = n->next) push_(new Node(n->v)); }
  set &operator=(const set &o) { if (this != &o) { clear(); for (Node *n = o.head; n; n = n->next) push_(new Node(n->v)); } return *this; }
  ~set() { clear(); }
  iterator begin() const { return head; } iterator end() const { return nullptr; }
  iterator cbegin() const { return head; } iterator cend() const { return nullptr; }
  iterator find(const K &k) const { return find_(k); }
  size_t count(const K &k) const { return find_(k) ? 1 : 0; }
  size_t size() const { size_t c = 0; for (Node *n = head; n; n = n->next) ++c; return c; }
  bool empty() const { return !head; }
  pair<iterator, bool> insert(const K &v) { Node *n = find_(v); if (n) return pair<iterator, bool>(n, false); n = new Node(v); push_(n); return pair<iterator, bool>(n, true); }
  iterator insert(iterator, const K &v) { return insert(v).first; }
  template <class... X> pair<iterator, bool> emplace(X &&...x) { return insert(K(std::forward<X>(x)...)); }
  iterator erase(iterator i) { Node **p = &head; while (*p != i.n) p = &(*p)->next; *p = i.n->next; Node *r = i.n->next; delete i.n; return r; }
  size_t erase(const K &k) { Node *n = find_(k); if (!n) return 0; erase(iterator(n)); return 1; }
  void clear() { while (head) { Node *n = head; head = n->next; delete n; } }
  void swap(set &o) { Node *t = head; head = o.head; o.head = t; }
};
}
