#include "spec.h"
#include "global_planner/global_planner.h"
#include <cmath>
#include <limits>
using namespace global_planner;
typedef GlobalPlanner GP;
namespace spec {
// C39: point of the quadratic Bezier curve
double bezierPoint(double a, double b, double c, double t) { return (1 - t) * (1 - t) * a + 2 * (1 - t) * t * b + t * t * c; }
std::vector<geometry_msgs::Point> bezierCurve(const geometry_msgs::Point& a, const geometry_msgs::Point& b, const geometry_msgs::Point& c, int n) {
  std::vector<geometry_msgs::Point> r;
  for (int k = 0; k <= n; k++) {
    const double t = static_cast<double>(k) / n;
    geometry_msgs::Point p;
    p.x = quadraticBezier(a.x, b.x, c.x, t);
    p.y = quadraticBezier(a.y, b.y, c.y, t);
    p.z = quadraticBezier(a.z, b.z, c.z, t);
    r.push_back(p);
  }
  return r;
}
// C39: the first and the last point stay, every corner becomes a curve between the middles of its edges
nav_msgs::Path smoothed(const nav_msgs::Path& path) {
  if (path.poses.size() < 3) return path;
  nav_msgs::Path r;
  r.header = path.header;
  r.poses.push_back(path.poses.front());
  for (int k = 2; k < path.poses.size(); k++) {
    const geometry_msgs::Point &a = path.poses[k - 2].pose.position, &b = path.poses[k - 1].pose.position, &c = path.poses[k].pose.position;
    const std::vector<geometry_msgs::Point> turn = threePointBezier(middlePoint(a, b), b, middlePoint(b, c));
    for (size_t i = 0; i < turn.size(); i++) {
      geometry_msgs::PoseStamped m = path.poses.front();
      m.pose.position = turn[i];
      r.poses.push_back(m);
    }
  }
  r.poses.push_back(path.poses.back());
  return r;
}
geometry_msgs::Point mixPoints(const geometry_msgs::Point& a, const geometry_msgs::Point& b, double r) {
  geometry_msgs::Point p;
  p.x = a.x + (b.x - a.x) * r;
  p.y = a.y + (b.y - a.y) * r;
  p.z = a.z + (b.z - a.z) * r;
  return p;
}
geometry_msgs::Point halfway(const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return interpolate(a, b, 0.5); }
double pointDistance(const geometry_msgs::Point& a, const geometry_msgs::Point& b) { return sqrt((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) + (b.z - a.z) * (b.z - a.z)); }
double poseDistance(const geometry_msgs::PoseStamped& a, const geometry_msgs::PoseStamped& b) { return distance(a.pose.position, b.pose.position); }
// C39: a vertex goes only if the direct edge costs at most the margin more
std::vector<Cell> simplified(GP* g, std::vector<Cell>& path, double margin, double rounds, bool stopAtEnd) {
  if (path.size() < 3) return path;
  std::vector<Cell> now = path;
  for (int round = 0; round < rounds; round++) {
    std::vector<Cell> next{now[0], now[1]};
    int k = 3;
    while (k < now.size()) {
      const Node before(now[k - 2], now[k - 3]), u(now[k - 1], now[k - 2]), v(now[k], now[k - 1]), direct(now[k], now[k - 2]);
      const double kept = g->getEdgeCost(before, u) + g->getEdgeCost(u, v);
      if (g->getEdgeCost(before, direct) > margin * kept) next.push_back(now[k - 1]);
      next.push_back(now[k]);
      k += 2;
    }
    if (k == now.size()) next.push_back(now[k - 1]);
    if (next.size() == now.size()) break;
    now = next;
  }
  if (stopAtEnd) now.push_back(now.back());
  return now;
}
// C35: the search over nodes
typedef SearchVisitor<std::unordered_set<Cell>, std::unordered_map<Cell, double> > Visitor;
SearchInfo search(GP* g, std::vector<Cell>& path, const NodePtr& s, const GoalCell& t, int limit, Visitor& visitor) {
  NodePtr goal;
  visitor.init();
  std::unordered_set<NodePtr, HashNodePtr, EqualsNodePtr> done;
  std::unordered_map<NodePtr, NodePtr, HashNodePtr, EqualsNodePtr> parent;
  std::unordered_map<NodePtr, double, HashNodePtr, EqualsNodePtr> distance;
  std::priority_queue<PointerNodeDistancePair, std::vector<PointerNodeDistancePair>, CompareDist> queue;
  queue.push(std::make_pair(s, 0.0));
  distance[s] = 0.0;
  int n = 0;
  const std::clock_t begin = std::clock();
  while (!queue.empty() && n < limit) {
    const NodePtr u = queue.top().first;
    queue.pop();
    if (done.find(u) != done.end()) continue;
    done.insert(u);
    visitor.popNode(u);
    if (t.withinPlanRadius(u->cell_)) {
      goal = u;
      break;
    }
    n++;
    for (const NodePtr& v : u->getNeighbors()) {
      if (!g->isLegal(*v)) continue;
      const double d = distance[u] + g->getEdgeCost(*u, *v);
      if (d < getWithDefault(distance, v, INFINITY)) {
        parent[v] = u;
        distance[v] = d;
        const double f = d + g->getHeuristic(*v, t);
        queue.push(PointerNodeDistancePair(v, f));
        visitor.perNeighbor(u, v);
      }
    }
  }
  const double us = clocksToMicroSec(begin, std::clock());
  if (goal == nullptr || !t.withinPlanRadius(goal->cell_)) return SearchInfo(false, n, us);
  NodePtr at = goal;
  while (at != s) {
    path.push_back(at->cell_);
    at = parent[at];
  }
  path.push_back(s->cell_);
  path.push_back(s->parent_);
  std::reverse(path.begin(), path.end());
  return SearchInfo(true, n, us);
}
void visitor_init(Visitor* self) {
  self->seen_.clear();
  self->seen_count_.clear();
}
void visitor_popNode(Visitor* self, NodePtr u) {}
void visitor_perNeighbor(Visitor* self, NodePtr u, NodePtr v) {
  self->seen_count_[v->cell_] = 1.0 + getWithDefault(self->seen_count_, v->cell_, 0.0);
  self->seen_.insert(v->cell_);
}
void info0(SearchInfo* self) { self->found_path = false; self->num_iter = 0; self->search_time = 0.0; }
void info3(SearchInfo* self, bool f, int n, double t) { self->found_path = f; self->num_iter = n; self->search_time = t; }
// C35: the fallback over cells
bool searchCells(GP* g, std::vector<Cell>& path, const Cell& s, const Cell& t, const Cell& behind, bool is3D) {
  std::unordered_set<Cell> done;
  std::map<Cell, Cell> parent;
  std::map<Cell, double> distance;
  std::priority_queue<CellDistancePair, std::vector<CellDistancePair>, CompareDist> queue;
  queue.push(std::make_pair(s, 0.0));
  distance[s] = 0.0;
  int n = 0;
  const std::clock_t begin = std::clock();
  while (!queue.empty() && n < g->max_iterations_) {
    const Cell u = queue.top().first;
    queue.pop();
    const double d = distance[u];
    if (done.find(u) != done.end()) continue;
    done.insert(u);
    n++;
    if (u == t) break;
    std::vector<CellDistancePair> open;
    g->getOpenNeighbors(u, open, is3D);
    for (const auto& o : open) {
      const Cell v = o.first;
      const double risk = g->risk_factor_ * g->getRisk(v);
      if (risk > g->risk_factor_ * g->max_cell_risk_ && v != t) continue;
      const double nd = d + o.second + risk;
      if (nd < getWithDefault(distance, v, INFINITY)) {
        parent[v] = u;
        distance[v] = nd;
        const double h = v.diagDistance2D(t) + g->up_cost_ * std::max(0, t.zIndex() - v.zIndex()) + std::max(0, v.zIndex() - t.zIndex());
        const double f = nd + g->overestimate_factor_ * h;
        queue.push(std::make_pair(v, f));
      }
    }
  }
  std::clock();
  if (done.find(t) == done.end()) return false;
  Cell at = t;
  while (at != s) {
    path.push_back(at);
    at = parent[at];
  }
  path.push_back(s);
  path.push_back(behind);
  std::reverse(path.begin(), path.end());
  distance[t];
  return true;
}
bool searchFlat(GP* g, std::vector<Cell>& path, const Cell& s, const Cell& t, const Cell& behind, double alt) {
  const Cell from(s.xIndex(), s.yIndex(), alt), to(t.xIndex(), t.yIndex(), alt);
  std::vector<Cell> up, across, down;
  const bool a = findPathOld(g, up, s, from, s, true);
  const bool c = findPathOld(g, down, to, t, to, true);
  const bool b = findPathOld(g, across, from, to, from, false);
  if (!(a && b && c)) return false;
  path = up;
  for (size_t k = 0; k < across.size(); k++) path.push_back(across[k]);
  for (size_t k = 0; k < down.size(); k++) path.push_back(down[k]);
  return true;
}
}  // namespace spec
