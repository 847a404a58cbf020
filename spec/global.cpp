#include "spec.h"
#include "global_planner/global_planner.h"
#include <cmath>
#include <limits>
using namespace global_planner;
typedef GlobalPlanner GP;
typedef std::tuple<int, int, int> T3;
namespace spec {
double cellYaw(Cell u, Cell v, double last) {
  const int dx = v.xIndex() - u.xIndex(), dy = v.yIndex() - u.yIndex();
  return dx == 0 && dy == 0 ? last : std::atan2(dy, dx);
}
void calculateAccumulatedHeightPrior(GP* self) {
  double total = 0.0;
  for (size_t k = 0; k < self->alt_prior_.size(); k++) {
    total += self->alt_prior_[k];
    self->accumulated_alt_prior_.push_back(total);
  }
}
void setPose(GP* self, const geometry_msgs::PoseStamped& p) {
  self->curr_pos_ = p.pose.position;
  self->curr_yaw_ = tf::getYaw(p.pose.orientation);
  const Cell here(p.pose.position);
  if (!self->going_back_)
    if (self->path_back_.empty() || here != self->path_back_.back()) self->path_back_.push_back(here);
}
// C38, C36
void setGoal(GP* self, const GoalCell& g) {
  self->goal_pos_ = g;
  self->heuristic_cache_.clear();
  self->bubble_risk_cache_.clear();
  self->goal_is_blocked_ = false;
  self->going_back_ = false;
}
void setPath(GP* self, const std::vector<Cell>& path) {
  self->curr_path_info_ = self->getPathInfo(path);
  self->curr_path_ = path;
  self->path_cells_.clear();
  for (int k = 2; k < path.size(); k++) {
    const std::unordered_set<Cell> cells = Node(path[k], path[k - 1]).getCells();
    for (const Cell& c : cells) self->path_cells_.insert(c);
  }
}
void setFrame(GP* self, std::string f) { self->frame_id_ = f; }
void setRobotRadius(GP* self, double r) { self->robot_radius_ = r; }
// C36, C38: a new map replaces the old one and every risk computed from it
void updateFullOctomap(GP* self, octomap::AbstractOcTree* tree) {
  self->risk_cache_.clear();
  if (self->octree_) delete self->octree_;
  self->octree_ = dynamic_cast<octomap::OcTree*>(tree);
  if (self->octree_)
    self->octree_resolution_ = self->octree_->getResolution();
  else
    delete tree;
}
// C35
void getOpenNeighbors(GP* self, const Cell& c, std::vector<CellDistancePair>& out, bool is3D) {
  const int x = c.xIndex(), y = c.yIndex(), z = c.zIndex();
  out.push_back(CellDistancePair(Cell(T3(x + 1, y, z)), 1.0));
  out.push_back(CellDistancePair(Cell(T3(x + 1, y - 1, z)), 1.41));
  out.push_back(CellDistancePair(Cell(T3(x + 1, y + 1, z)), 1.41));
  out.push_back(CellDistancePair(Cell(T3(x - 1, y, z)), 1.0));
  out.push_back(CellDistancePair(Cell(T3(x - 1, y - 1, z)), 1.41));
  out.push_back(CellDistancePair(Cell(T3(x - 1, y + 1, z)), 1.41));
  out.push_back(CellDistancePair(Cell(T3(x, y - 1, z)), 1.0));
  out.push_back(CellDistancePair(Cell(T3(x, y + 1, z)), 1.0));
  if (is3D) {
    if (z < self->max_altitude_) out.push_back(CellDistancePair(Cell(T3(x, y, z + 1)), self->up_cost_));
    if (z > self->min_altitude_) out.push_back(CellDistancePair(Cell(T3(x, y, z - 1)), self->down_cost_));
  }
}
bool isNearWall(GP* self, const Cell& c) {
  bool near = false;
  for (const Cell& n : c.getDiagonalNeighbors())
    if (!near && self->isOccupied(n)) near = true;
  return near;
}
double getEdgeDist(GP* self, const Cell& u, const Cell& v) {
  const double dz = v.zPos() - u.zPos();
  return u.distance2D(v) + self->up_cost_ * std::max(dz, 0.0) + self->down_cost_ * std::max(-dz, 0.0);
}
// C35: risk of one cell
double getSingleCellRisk(GP* self, const Cell& c) {
  if (c.zIndex() < 1 || !self->octree_) return 1.0;
  octomap::OcTreeNode* node = self->octree_->search(c.xPos(), c.yPos(), c.zPos(), std::min(16, 17 - int(CELL_SCALE + 0.1)));
  const double prior = self->getAltPrior(c);
  if (!node) return self->explore_penalty_ * prior;
  const double odds = node->getValue();
  const double p = posterior(prior, octomap::probability(odds));
  return self->occupied_.find(c) != self->occupied_.end() || odds > 0 ? p : self->explore_penalty_ * p;
}
double getAltPrior(GP* self, const Cell& c) {
  const int k = std::round(c.zPos());
  if (k < 0) return self->alt_prior_.front();
  if (k > self->alt_prior_.size() - 1) return self->alt_prior_.back();
  return self->alt_prior_[k];
}
bool isOccupied(GP* self, const Cell& c) { return self->getSingleCellRisk(c) > 0.5; }
// C35: legal means below the ceiling and below the risk limit
bool isLegal(GP* self, const Node& n) { return n.cell_.zPos() < self->max_altitude_ && self->getRisk(n) < self->max_cell_risk_; }
// C38: one entry per cell, computed from the present map
double getRisk_cell(GP* self, const Cell& c) {
  if (self->risk_cache_.find(c) != self->risk_cache_.end()) return self->risk_cache_[c];
  double risk = self->getSingleCellRisk(c);
  for (const Cell& n : c.getFlowNeighbors(static_cast<int>(std::ceil(self->robot_radius_ / self->octree_resolution_)))) risk += self->neighbor_risk_flow_ * self->getSingleCellRisk(n);
  self->risk_cache_[c] = risk;
  return risk;
}
double getRisk_node(GP* self, const Node& n) {
  double risk = 0.0;
  const std::unordered_set<Cell> cells = n.getCells();
  for (const Cell& c : cells) risk += self->getRisk(c);
  return risk / cells.size() * n.getLength();
}
double getRiskOfCurve(GP* self, const std::vector<geometry_msgs::PoseStamped>& m) {
  if (m.size() != 3) return -1;
  const double length = distance(m[0], m[1]) + distance(m[1], m[2]);
  const int steps = std::ceil(length / CELL_SCALE);
  const std::vector<geometry_msgs::Point> curve = threePointBezier(m[0].pose.position, m[1].pose.position, m[2].pose.position, 4 * steps);
  double risk = 0.0;
  self->visitor_.seen_.clear();
  for (const geometry_msgs::Point& p : curve) {
    risk += self->getRisk(Cell(p));
    self->visitor_.seen_.insert(Cell(p));
  }
  return risk;
}
double getTurnSmoothness(GP* self, const Node& u, const Node& v) { return u.getRotation(v) * u.getRotation(v); }
// C35: edge cost
double getEdgeCost(GP* self, const Node& u, const Node& v) {
  const double dist = self->getEdgeDist(u.cell_, v.cell_);
  const double risk = self->risk_factor_ * self->getRisk(v);
  double smooth = self->smooth_factor_ * self->getTurnSmoothness(u, v);
  const geometry_msgs::Vector3& w = self->curr_vel_;
  if (u.cell_.distance3D(Cell(self->curr_pos_)) < 3 && norm(w) > 1) smooth *= 2;
  return dist + risk + smooth;
}
double riskHeuristic(GP* self, const Cell& u, const Cell& goal) {
  if (u == goal) return 0.0;
  const double unexplored = (1.0 + 6.0 * self->neighbor_risk_flow_) * self->explore_penalty_ * self->risk_factor_;
  const double xy = (u.diagDistance2D(goal) - 1.0) * unexplored * self->getAltPrior(u);
  const int top = self->accumulated_alt_prior_.size() - 1;
  const int from = std::max(0, std::min(u.zIndex(), top)), to = std::max(0, std::min(goal.zIndex(), top));
  const double z = unexplored * std::abs(self->accumulated_alt_prior_[from] - self->accumulated_alt_prior_[to]);
  return xy + z + self->getRisk(goal) * self->risk_factor_;
}
double smoothnessHeuristic(GP* self, const Node& u, const Cell& goal) {
  const Cell &c = u.cell_, &p = u.parent_;
  if (c.xIndex() == goal.xIndex() && c.yIndex() == goal.yIndex()) return 0.0;
  if (c.xIndex() == p.xIndex() && c.yIndex() == p.yIndex()) return self->smooth_factor_ * self->vert_to_hor_cost_;
  const double turns = std::fabs(angleToRange((goal - c).angle() - (c - p).angle())) / (M_PI / 4);
  return self->smooth_factor_ * (turns + (c.zIndex() == goal.zIndex() ? 0 : 1));
}
double altitudeHeuristic(GP* self, const Cell& u, const Cell& goal) {
  const double climb = goal.zIndex() - u.zIndex();
  return (climb > 0 ? self->up_cost_ : self->down_cost_) * std::abs(climb);
}
double getHeuristic(GP* self, const Node& u, const Cell& goal) {
  double h = self->overestimate_factor_ * u.cell_.diagDistance2D(goal) + self->altitudeHeuristic(u.cell_, goal) + self->smoothnessHeuristic(u, goal);
  if (self->use_risk_heuristics_) h += self->riskHeuristic(u.cell_, goal);
  if (self->use_speedup_heuristics_) h += self->visitor_.seen_count_[u.cell_];
  self->heuristic_cache_[u] = h;
  return h;
}
geometry_msgs::PoseStamped createPoseMsg(GP* self, const Cell& c, double yaw) {
  geometry_msgs::PoseStamped m;
  m.header.frame_id = self->frame_id_;
  m.pose.position = c.toPoint();
  m.pose.orientation = tf::createQuaternionMsgFromYaw(yaw);
  return m;
}
nav_msgs::Path getPathMsg0(GP* self) { return self->getPathMsg(self->curr_path_); }
// C39
nav_msgs::Path getPathMsg1(GP* self, const std::vector<Cell>& path) {
  nav_msgs::Path m;
  m.header.frame_id = self->frame_id_;
  if (path.empty()) return m;
  double yaw = self->curr_yaw_;
  for (int k = 0; k < path.size() - 1; k++) {
    yaw = cellYaw(path[k], path[k + 1], yaw);
    m.poses.push_back(self->createPoseMsg(path[k], yaw));
  }
  m.poses.push_back(self->createPoseMsg(path[path.size() - 1], yaw));
  return m;
}
PathWithRiskMsg getPathWithRiskMsg(GP* self) {
  const nav_msgs::Path p = self->getPathMsg();
  PathWithRiskMsg m;
  m.header = p.header;
  m.poses = p.poses;
  for (size_t k = 0; k < p.poses.size(); k++) m.risks.push_back(self->getRisk(Cell(p.poses[k].pose.position)));
  return m;
}
PathInfo getPathInfo(GP* self, const std::vector<Cell>& path) {
  PathInfo r = {};
  for (int k = 2; k < path.size(); k++) {
    const Node now(path[k], path[k - 1]), last(path[k - 1], path[k - 2]);
    const double risk = self->getRisk(now);
    r.dist += self->getEdgeDist(path[k - 1], path[k]);
    r.risk += self->risk_factor_ * risk;
    r.cost += self->getEdgeCost(last, now);
    if (risk > self->max_cell_risk_) r.is_blocked = true;
    r.smoothness += self->smooth_factor_ * self->getTurnSmoothness(last, now);
  }
  return r;
}
NodePtr getStartNode(GP* self, const Cell& start, const Cell& parent, const std::string& type) {
  if (type == "NodeWithoutSmooth") return NodePtr(new NodeWithoutSmooth(start, parent));
  if (type == "SpeedNode") return NodePtr(new SpeedNode(start, parent));
  return NodePtr(new Node(start, parent));
}
// C36
bool getGlobalPath(GP* self) {
  const Cell t = self->goal_pos_;
  self->current_cell_blocked_ = self->isOccupied(Cell(self->curr_pos_));
  if (self->goal_must_be_free_ && self->getRisk(t) > self->max_cell_risk_) {
    self->goal_is_blocked_ = true;
    return false;
  }
  if (self->current_cell_blocked_) return false;
  std::vector<Cell> path;
  if (!self->findPath(path)) {
    self->getRisk(t);
    self->goal_is_blocked_ = true;
    return false;
  }
  self->setPath(path);
  return true;
}
void stop(GP* self) {
  self->setGoal(GoalCell(Cell(self->curr_pos_)));
  self->setPath({Cell(self->curr_pos_)});
}
// C36, C35: the repeated search
bool findPath(GP* self, std::vector<Cell>& path) {
  const geometry_msgs::Point& q = self->curr_pos_;
  const Cell s(addPoints(q, scalePoint(self->curr_vel_, self->search_time_)));
  const GoalCell t = self->goal_pos_;
  Cell behind(subtractPoints(q, scalePoint(self->curr_vel_, self->search_time_)));
  if (!self->use_current_yaw_) behind = s;
  bool found = false;
  self->overestimate_factor_ = self->max_overestimate_factor_;
  int left = self->max_iterations_, last = 0;
  while (self->overestimate_factor_ >= self->min_overestimate_factor_ && left > last) {
    std::vector<Cell> attempt;
    const std::string type = self->overestimate_factor_ > 1.5 ? std::string("NodeWithoutSmooth") : self->default_node_type_;
    const NodePtr start = self->getStartNode(s, behind, type);
    const SearchInfo info = findSmoothPath(self, attempt, start, t, left, self->visitor_);
    if (!info.found_path) break;
    self->getPathInfo(attempt);
    path = attempt;
    found = true;
    last = info.num_iter;
    left -= last;
    self->overestimate_factor_ = (self->overestimate_factor_ - 1.0) / 4.0 + 1.0;
  }
  if (!found) {
    const int limit = self->max_iterations_;
    self->max_iterations_ = 5000;
    found = find2DPath(self, path, s, t, behind, self->max_altitude_);
    self->max_iterations_ = limit;
  }
  return found;
}
}  // namespace spec
