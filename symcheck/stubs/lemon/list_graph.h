// Stand-in for LEMON: graph operations are calls the interpreter answers.
#pragma once
#include <cstddef>
extern "C" {
int sc_add_node(void *g);
int sc_add_edge(void *g, int u, int v);
int sc_end(const void *g, int e, int which);
int sc_count(const void *g, int kind);
int sc_find(const void *g, int u, int v);
void *sc_slot(const void *map, int kind, int id, long size);
int sc_run(const void *g, const void *map, long size);
int sc_matched(const void *g, int e);
int sc_mate(const void *g, int u);
void sc_clear(void *g);
}
namespace lemon {
struct Invalid {};
static const Invalid INVALID = {};
struct GraphBase {
  char tag;
  GraphBase() : tag(0) {}
  GraphBase(const GraphBase &) = delete;
  struct Node {
    int id_;
    Node() : id_(-1) {}
    Node(Invalid) : id_(-1) {}
    explicit Node(int i) : id_(i) {}
    bool operator==(const Node &o) const { return id_ == o.id_; }
    bool operator!=(const Node &o) const { return id_ != o.id_; }
    bool operator<(const Node &o) const { return id_ < o.id_; }
  };
  struct Edge {
    int id_;
    Edge() : id_(-1) {}
    Edge(Invalid) : id_(-1) {}
    explicit Edge(int i) : id_(i) {}
    bool operator==(const Edge &o) const { return id_ == o.id_; }
    bool operator!=(const Edge &o) const { return id_ != o.id_; }
    bool operator<(const Edge &o) const { return id_ < o.id_; }
  };
  Node addNode() { return Node(sc_add_node(this)); }
  Edge addEdge(Node u, Node v) { return Edge(sc_add_edge(this, u.id_, v.id_)); }
  void clear() { sc_clear(this); }
  void reserveNode(int) {}
  void reserveEdge(int) {}
  static int id(Node n) { return n.id_; }
  static int id(Edge e) { return e.id_; }
  static Node nodeFromId(int i) { return Node(i); }
  static Edge edgeFromId(int i) { return Edge(i); }
  Node u(Edge e) const { return Node(sc_end(this, e.id_, 0)); }
  Node v(Edge e) const { return Node(sc_end(this, e.id_, 1)); }
  Node oppositeNode(Node n, Edge e) const { Node a = u(e); return a == n ? v(e) : a; }
  int maxNodeId() const { return sc_count(this, 0) - 1; }
  int maxEdgeId() const { return sc_count(this, 1) - 1; }
  int nodeNum() const { return sc_count(this, 0); }
  int edgeNum() const { return sc_count(this, 1); }
  struct NodeIt : Node {
    NodeIt() {}
    NodeIt(Invalid i) : Node(i) {}
    explicit NodeIt(const GraphBase &g) : Node(sc_count(&g, 0) - 1) {}
    NodeIt &operator++() { --id_; return *this; }
  };
  // like LEMON's, from the newest to the oldest
  struct EdgeIt : Edge {
    EdgeIt() {}
    EdgeIt(Invalid i) : Edge(i) {}
    explicit EdgeIt(const GraphBase &g) : Edge(sc_count(&g, 1) - 1) {}
    EdgeIt &operator++() { --id_; return *this; }
  };
  template <typename T> struct EdgeMap {
    char tag;
    typedef T Value;
    explicit EdgeMap(const GraphBase &) : tag(0) {}
    EdgeMap(const GraphBase &g, const T &x) : tag(0) { for (int e = sc_count(&g, 1) - 1; e >= 0; --e) (*this)[Edge(e)] = x; }
    T &operator[](const Edge &e) { return *(T *)sc_slot(this, 1, e.id_, sizeof(T)); }
    const T &operator[](const Edge &e) const { return *(const T *)sc_slot(this, 1, e.id_, sizeof(T)); }
    void set(const Edge &e, const T &x) { (*this)[e] = x; }
  };
  template <typename T> struct NodeMap {
    char tag;
    typedef T Value;
    explicit NodeMap(const GraphBase &) : tag(0) {}
    NodeMap(const GraphBase &g, const T &x) : tag(0) { for (int n = sc_count(&g, 0) - 1; n >= 0; --n) (*this)[Node(n)] = x; }
    T &operator[](const Node &n) { return *(T *)sc_slot(this, 0, n.id_, sizeof(T)); }
    const T &operator[](const Node &n) const { return *(const T *)sc_slot(this, 0, n.id_, sizeof(T)); }
    void set(const Node &n, const T &x) { (*this)[n] = x; }
  };
};
struct ListGraph : GraphBase {};
struct SmartGraph : GraphBase {};
inline int countNodes(const GraphBase &g) { return g.nodeNum(); }
inline int countEdges(const GraphBase &g) { return g.edgeNum(); }
inline GraphBase::Edge findEdge(const GraphBase &g, GraphBase::Node u, GraphBase::Node v) { return GraphBase::Edge(sc_find(&g, u.id_, v.id_)); }
}  // namespace lemon
