#include "spec.h"
#include "global_planner/cell.h"
#include "global_planner/node.h"
#include <cmath>
#include <limits>
using namespace global_planner;
typedef std::tuple<int, int, int> T3;
namespace spec {
inline int ix(const Cell& c) { return std::get<0>(c.tpl_); }
inline int iy(const Cell& c) { return std::get<1>(c.tpl_); }
inline int iz(const Cell& c) { return std::get<2>(c.tpl_); }
inline int cellOf(double x) { return static_cast<int>(floor(x / CELL_SCALE)); }
inline double centre(int i) { return CELL_SCALE * (i + 0.5); }
void Cell_tuple(Cell* self, T3 t) { self->tpl_ = t; }
void Cell_xyz(Cell* self, double x, double y, double z) { self->tpl_ = T3(cellOf(x), cellOf(y), cellOf(z)); }
void Cell_xy(Cell* self, double x, double y) { self->tpl_ = T3(cellOf(x), cellOf(y), cellOf(0.0)); }
void Cell_point(Cell* self, geometry_msgs::Point p) { self->tpl_ = T3(cellOf(p.x), cellOf(p.y), cellOf(p.z)); }
int xIndex(const Cell* self) { return ix(*self); }
int yIndex(const Cell* self) { return iy(*self); }
int zIndex(const Cell* self) { return iz(*self); }
double xPos(const Cell* self) { return centre(ix(*self)); }
double yPos(const Cell* self) { return centre(iy(*self)); }
double zPos(const Cell* self) { return centre(iz(*self)); }
geometry_msgs::Point toPoint(const Cell* self) {
  geometry_msgs::Point p;
  p.x = centre(ix(*self));
  p.y = centre(iy(*self));
  p.z = centre(iz(*self));
  return p;
}
double manhattanDist(const Cell* self, double x, double y, double z) {
  return std::abs(centre(ix(*self)) - x) + std::abs(centre(iy(*self)) - y) + std::abs(centre(iz(*self)) - z);
}
double distance2D(const Cell* self, const Cell& b) {
  const double dx = centre(ix(*self)) - centre(ix(b)), dy = centre(iy(*self)) - centre(iy(b));
  return sqrt(dx * dx + dy * dy);
}
double distance3D(const Cell* self, const Cell& b) {
  const double dx = centre(ix(*self)) - centre(ix(b)), dy = centre(iy(*self)) - centre(iy(b)), dz = centre(iz(*self)) - centre(iz(b));
  return sqrt(dx * dx + dy * dy + dz * dz);
}
double diagDistance2D(const Cell* self, const Cell& b) {
  const double dx = abs(centre(ix(*self)) - centre(ix(b))), dy = abs(centre(iy(*self)) - centre(iy(b)));
  double root = 1.41421356237;
  return dx + dy + (root - 2) * std::min(dx, dy);
}
double diagDistance3D(const Cell* self, const Cell& b) { return self->diagDistance2D(b) + abs(centre(iz(*self)) - centre(iz(b))); }
double angle(const Cell* self) { return atan2(iy(*self), ix(*self)); }
Cell getNeighborFromYaw(const Cell* self, double yaw) {
  const int dx = static_cast<int>(2 * CELL_SCALE * std::cos(yaw)), dy = static_cast<int>(2 * CELL_SCALE * std::sin(yaw));
  return Cell(centre(ix(*self)) + dx, centre(iy(*self)) + dy, centre(iz(*self)));
}
inline int reach(int r, int x, int y) { return static_cast<int>(std::ceil(std::sqrt(double(r * r) - double(x * x) - double(y * y)))); }
// C35: every cell whose risk flows into this one
std::vector<Cell> getFlowNeighbors(const Cell* self, int radius) {
  std::vector<Cell> all;
  for (int x = -radius; x <= radius; x++) {
    const int ry = reach(radius, x, 0);
    for (int y = -ry; y <= ry; y++) {
      const int rz = reach(radius, x, y);
      for (int z = -rz; z <= rz; z++) all.push_back(Cell(T3(ix(*self) + x, iy(*self) + y, iz(*self) + z)));
    }
  }
  return all;
}
inline Cell at(const Cell* c, int x, int y, int z) { return Cell(T3(ix(*c) + x, iy(*c) + y, iz(*c) + z)); }
std::vector<Cell> getDiagonalNeighbors(const Cell* self) { return {at(self, 1, 1, 0), at(self, -1, 1, 0), at(self, 1, -1, 0), at(self, -1, -1, 0)}; }
std::vector<Cell> getNeighbors(const Cell* self) {
  return {at(self, 1, 0, 0), at(self, -1, 0, 0), at(self, 0, 1, 0), at(self, 0, -1, 0), at(self, 0, 0, 1), at(self, 0, 0, -1), at(self, 1, 1, 0), at(self, -1, 1, 0), at(self, 1, -1, 0), at(self, -1, -1, 0)};
}
// C37
bool cell_eq(const Cell& a, const Cell& b) { return ix(a) == ix(b) && iy(a) == iy(b) && iz(a) == iz(b); }
bool cell_ne(const Cell& a, const Cell& b) { return !(ix(a) == ix(b) && iy(a) == iy(b) && iz(a) == iz(b)); }
inline bool before(const Cell& a, const Cell& b) { return ix(a) < ix(b) || (ix(a) == ix(b) && (iy(a) < iy(b) || (iy(a) == iy(b) && iz(a) < iz(b)))); }
bool cell_lt(const Cell& a, const Cell& b) { return before(a, b); }
bool cell_gt(const Cell& a, const Cell& b) { return before(b, a); }
bool cell_le(const Cell& a, const Cell& b) { return !before(b, a); }
bool cell_ge(const Cell& a, const Cell& b) { return !before(a, b); }
Cell cell_plus(const Cell& a, const Cell& b) { return Cell(T3(ix(a) + ix(b), iy(a) + iy(b), iz(a) + iz(b))); }
Cell cell_minus(const Cell& a, const Cell& b) { return Cell(T3(ix(a) - ix(b), iy(a) - iy(b), iz(a) - iz(b))); }
// C35: the goal regions
bool withinPlanRadius(const GoalCell* self, Cell c) { return self->manhattanDist(c.xPos(), c.yPos(), c.zPos()) < self->radius_ / 2.0; }
bool withinPositionRadius(const GoalCell* self, geometry_msgs::Point p) { return self->manhattanDist(p.x, p.y, p.z) < self->radius_; }
void GoalCell_cell(GoalCell* self, Cell c, double r, bool t) { self->tpl_ = c.tpl_; self->radius_ = r; self->is_temporary_ = t; }
void GoalCell_xyz(GoalCell* self, double x, double y, double z, double r, bool t) { self->tpl_ = T3(cellOf(x), cellOf(y), cellOf(z)); self->radius_ = r; self->is_temporary_ = t; }
// nodes
bool node_isEqual(const Node* self, const Node& o) { return self->cell_ == o.cell_ && self->parent_ == o.parent_; }
bool node_isSmaller(const Node* self, const Node& o) { return self->cell_ < o.cell_ || (self->cell_ == o.cell_ && self->parent_ < o.parent_); }
bool plain_isEqual(const NodeWithoutSmooth* self, const Node& o) { return self->cell_ == o.cell_; }
double plain_getRotation(const NodeWithoutSmooth* self, const Node& o) { return 0.0; }
NodePtr node_nextNode(const Node* self, const Cell& n) { return NodePtr(new Node(n, self->cell_)); }
NodePtr plain_nextNode(const NodeWithoutSmooth* self, const Cell& n) { return NodePtr(new NodeWithoutSmooth(n, self->cell_)); }
NodePtr speed_nextNode(const SpeedNode* self, const Cell& n) { return NodePtr(new SpeedNode(n, self->cell_)); }
double getLength(const Node* self) { return self->parent_.distance3D(self->cell_); }
double getRotation(const Node* self, const Node& o) {
  const bool level = iz(self->cell_) == iz(self->parent_), olevel = iz(o.cell_) == iz(o.parent_);
  return (level != olevel ? 0.5 : 0.0) + self->getXYRotation(o);
}
double getXYRotation(const Node* self, const Node& o) {
  const int ax = ix(self->cell_) - ix(self->parent_), ay = iy(self->cell_) - iy(self->parent_);
  const int bx = ix(o.cell_) - ix(o.parent_), by = iy(o.cell_) - iy(o.parent_);
  if ((ax == 0 && ay == 0) || (bx == 0 && by == 0)) return 0.0;
  return std::fabs(angleToRange(atan2(by, bx) - atan2(ay, ax))) / (M_PI / 4);
}
std::unordered_set<Cell> getCells(const Node* self) {
  std::unordered_set<Cell> cells;
  const Cell &c = self->cell_, &p = self->parent_;
  const int steps = 2 * std::max(std::abs(ix(c) - ix(p)), std::max(std::abs(iy(c) - iy(p)), std::abs(iz(c) - iz(p))));
  const double sx = (centre(ix(c)) - centre(ix(p))) / steps, sy = (centre(iy(c)) - centre(iy(p))) / steps, sz = (centre(iz(c)) - centre(iz(p))) / steps;
  for (int k = 1; k <= steps; k++) {
    const double x = centre(ix(p)) + sx * k, y = centre(iy(p)) + sy * k, z = centre(iz(p)) + sz * k;
    cells.insert(Cell(x + 0.1, y + 0.1, z));
    cells.insert(Cell(x + 0.1, y - 0.1, z));
    cells.insert(Cell(x - 0.1, y + 0.1, z));
    cells.insert(Cell(x - 0.1, y - 0.1, z));
  }
  return cells;
}
std::vector<NodePtr> node_getNeighbors(const Node* self) {
  std::vector<NodePtr> r;
  for (const Cell& c : self->cell_.getNeighbors()) r.push_back(self->nextNode(c));
  return r;
}
std::vector<NodePtr> speed_getNeighbors(const SpeedNode* self) {
  std::vector<NodePtr> r;
  const Cell ahead = self->cell_ + (self->cell_ - self->parent_);
  r.push_back(self->nextNode(ahead));
  for (const Cell& c : ahead.getNeighbors()) {
    const double d = self->cell_.distance3D(c);
    if (0 < d && d < SPEEDNODE_RADIUS) r.push_back(self->nextNode(c));
  }
  return r;
}
bool farther_cell(CompareDist*, const CellDistancePair& a, const CellDistancePair& b) { return b.second < a.second; }
bool farther_ptr(CompareDist*, const PointerNodeDistancePair& a, const PointerNodeDistancePair& b) { return b.second < a.second; }
std::size_t ptr_hash(const HashNodePtr*, const NodePtr& n) { return n->hash(); }
std::size_t ptr_eq(const EqualsNodePtr*, const NodePtr& a, const NodePtr& b) { return a->isEqual(*b); }
// common.h
double sq_double(double x) { return x * x; }
double mix(double a, double b, double r) { return a + (b - a) * r; }
double angleToRange(double a) { return (a + M_PI) - (2 * M_PI) * std::floor((a + M_PI) / (2 * M_PI)) - M_PI; }
double posterior(double p, double q) { return p * q / (p * q + (1 - p) * (1 - q) + 0.0001); }
}  // namespace spec
