#include "spec.h"
#include "safe_landing_planner/waypoint_generator.hpp"
using avoidance::SLPState;
namespace spec {
typedef usm::StateMachine<SLPState> SM;
void StateMachine_ctor(SM* self, SLPState start) { self->m_currentState = start; }
SLPState StateMachine_getState(SM* self) { return self->m_currentState; }
void StateMachine_iterateOnce(SM* self) {
  const usm::Transition result = self->runCurrentState();
  if (result == usm::Transition::REPEAT) return;
  self->m_currentState = self->chooseNextState(self->m_currentState, result);
}
}
