#include "spec.h"
#include "local_planner/star_planner.h"
#include "avoidance/common.h"
#include "local_planner/planner_functions.h"
#include "local_planner/tree_node.h"
#include <ctime>
using namespace avoidance;
using Eigen::Vector3f;
namespace spec {
float treeHeuristicFunction(const StarPlanner* self, int n) { return self->tree_heuristic_weight_ * (self->goal_ - self->tree_[n].getPosition()).norm(); }
void setParams(StarPlanner* self, costParameters c) { self->cost_params_ = c; }
void setPose(StarPlanner* self, const Vector3f& p, const Vector3f& v) {
  self->velocity_ = v;
  self->position_ = p;
}
void setGoal(StarPlanner* self, const Vector3f& g) { self->goal_ = g; }
void setPointcloud(StarPlanner* self, const pcl::PointCloud<pcl::PointXYZI>& c) { self->cloud_ = c; }
void setClosestPointOnLine(StarPlanner* self, const Vector3f& p) { self->closest_pt_ = p; }
// C27 best-first expansion
void buildLookAheadTree(StarPlanner* self) {
  std::vector<TreeNode>& tree = self->tree_;
  tree.clear();
  self->closed_set_.clear();
  tree.push_back(TreeNode(0, self->position_, self->velocity_));
  const float h0 = self->treeHeuristicFunction(0);
  tree[0].heuristic_ = h0;
  tree[0].total_cost_ = h0;
  Eigen::MatrixXf cost;
  Histogram hist(ALPHA_RES);
  std::vector<uint8_t> image;
  std::vector<candidateDirection> cand;
  int at = 0;
  bool more = true;
  for (int n = 0; n < self->n_expanded_nodes_ && more; n++) {
    const Vector3f p0 = tree[at].getPosition(), v0 = tree[at].getVelocity();
    hist.setZero();
    avoidance::generateNewHistogram(hist, self->cloud_, p0);
    cost.fill(0.f);
    image.clear();
    cand.clear();
    avoidance::getCostMatrix(hist, self->goal_, p0, v0, self->cost_params_, self->smoothing_margin_degrees_, self->closest_pt_, self->max_sensor_range_, self->min_sensor_range_, cost, image);
    avoidance::getBestCandidatesFromCostMatrix(cost, self->children_per_node_, cand);
    if (cand.empty()) {
      tree[at].total_cost_ = HUGE_VAL;
    } else {
      int added = 0;
      for (size_t c = 0; c < cand.size(); c++) {
        const Vector3f p = avoidance::polarHistogramToCartesian(PolarPoint(cand[c].elevation_angle, cand[c].azimuth_angle, self->tree_node_distance_), p0);
        bool taken = false;
        for (size_t i = 0; i < tree.size(); i++)
          if ((tree[i].getPosition() - p).norm() < 0.2f) taken = true;
        if (added < self->children_per_node_ && !taken) {
          added++;
          TreeNode child(at, p, p - p0);
          tree.push_back(child);
          const float h = self->treeHeuristicFunction(tree.size() - 1);
          tree.back().heuristic_ = h;
          tree.back().total_cost_ = tree[at].total_cost_ - tree[at].heuristic_ + cand[c].cost + h;
          tree.back().depth_ = tree[at].depth_ + 1;
        }
      }
    }
    self->closed_set_.push_back(at);
    tree[at].closed_ = true;
    float best = HUGE_VAL;
    more = false;
    for (size_t i = 0; i < tree.size(); i++) {
      if (tree[i].closed_) continue;
      if (tree[i].total_cost_ < best && (tree[i].getPosition() - self->position_).norm() < self->max_path_length_) {
        best = tree[i].total_cost_;
        at = i;
        more = true;
      }
    }
    image.clear();
    cand.clear();
  }
  int depth = 0, end = 0;
  for (size_t i = 0; i < tree.size(); i++)
    if (!tree[i].closed_ && tree[i].depth_ > depth) {
      depth = tree[i].depth_;
      end = i;
    }
  self->path_node_positions_.clear();
  for (; end > 0; end = tree[end].origin_) self->path_node_positions_.push_back(tree[end].getPosition());
  self->path_node_positions_.push_back(tree[0].getPosition());
}
}
