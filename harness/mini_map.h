// Stand-in for std::map (the standard library is assumed, not analysed): same interface, association list inside.
// V_MAP_HOOK, when defined, runs on every access to the contents.
#pragma once
#include <utility>
#include <cstddef>
#include <string>
#include <functional>
#define _GLIBCXX_MAP 1
#ifndef V_MAP_HOOK
#define V_MAP_HOOK ((void)0)
#endif
namespace std {
template <typename K, typename V, typename C = less<K>, typename A = allocator<pair<const K, V>>> class map {
  struct Node { pair<const K, V> v; Node *next; Node(const K &k, const V &x) : v(k, x), next(nullptr) {} Node(const K &k) : v(k, V()), next(nullptr) {} };
  Node *head;
  Node *find_(const K &k) const { V_MAP_HOOK; for (Node *n = head; n; n = n->next) if (n->v.first == k) return n; return nullptr; }
  void push_(Node *n) { Node **p = &head; while (*p) p = &(*p)->next; *p = n; }
public:
  typedef K key_type; typedef V mapped_type; typedef pair<const K, V> value_type; typedef size_t size_type;
  struct iterator {
    Node *n; iterator(Node *x = nullptr) : n(x) {}
    value_type &operator*() const { return n->v; } value_type *operator->() const { return &n->v; }
    iterator &operator++() { n = n->next; return *this; } iterator operator++(int) { iterator o = *this; n = n->next; return o; }
    bool operator==(const iterator &o) const { return n == o.n; } bool operator!=(const iterator &o) const { return n != o.n; }
  };
  struct const_iterator {
    const Node *n; const_iterator(const Node *x = nullptr) : n(x) {} const_iterator(const iterator &i) : n(i.n) {}
    const value_type &operator*() const { return n->v; } const value_type *operator->() const { return &n->v; }
    const_iterator &operator++() { n = n->next; return *this; } const_iterator operator++(int) { const_iterator o = *this; n = n->next; return o; }
    bool operator==(const const_iterator &o) const { return n == o.n; } bool operator!=(const const_iterator &o) const { return n != o.n; }
  };
  map() : head(nullptr) {}
  map(const map &o) : head(nullptr) { for (Node *n = o.head; n; n = n->next) push_(new Node(n->v.first, n->v.second)); }
  map &operator=(const map &o) { if (this != &o) { clear(); for (Node *n = o.head; n; n = n->next) push_(new Node(n->v.first, n->v.second)); } return *this; }
  ~map() { while (head) { Node *n = head; head = n->next; delete n; } }
  iterator begin() { V_MAP_HOOK; return head; } iterator end() { return nullptr; }
  const_iterator begin() const { V_MAP_HOOK; return head; } const_iterator end() const { return nullptr; }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return nullptr; }
  iterator find(const K &k) { return find_(k); } const_iterator find(const K &k) const { return find_(k); }
  size_t count(const K &k) const { return find_(k) ? 1 : 0; }
  size_t size() const { V_MAP_HOOK; size_t c = 0; for (Node *n = head; n; n = n->next) ++c; return c; }
  bool empty() const { V_MAP_HOOK; return !head; }
  pair<iterator, bool> insert(const value_type &v) { Node *n = find_(v.first); if (n) return pair<iterator, bool>(n, false); n = new Node(v.first, v.second); push_(n); return pair<iterator, bool>(n, true); }
  iterator insert(iterator, const value_type &v) { return insert(v).first; }
  template <class... X> pair<iterator, bool> emplace(X &&...x) { return insert(value_type(std::forward<X>(x)...)); }
  V &operator[](const K &k) { Node *n = find_(k); if (!n) { n = new Node(k); push_(n); } return n->v.second; }
  V &at(const K &k) { Node *n = find_(k); if (!n) throw 0; return n->v.second; }
  iterator erase(iterator i) { V_MAP_HOOK; Node **p = &head; while (*p != i.n) p = &(*p)->next; *p = i.n->next; Node *r = i.n->next; delete i.n; return r; }
  size_t erase(const K &k) { Node *n = find_(k); if (!n) return 0; erase(iterator(n)); return 1; }
  void clear() { V_MAP_HOOK; while (head) { Node *n = head; head = n->next; delete n; } }
  void swap(map &o) { Node *t = head; head = o.head; o.head = t; }
};
}
