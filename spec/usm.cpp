#include "spec.h"
#include "local_planner/waypoint_generator.h"
using avoidance::PlannerState;
namespace spec {
typedef usm::StateMachine<PlannerState> SM;
void StateMachine_ctor(SM* self, PlannerState start) { self->m_currentState = start; }
PlannerState StateMachine_getState(SM* self) { return self->m_currentState; }
// C09: the handler runs once; REPEAT keeps the state, everything else takes the table's entry
void StateMachine_iterateOnce(SM* self) {
  const usm::Transition result = self->runCurrentState();
  if (result == usm::Transition::REPEAT) return;
  self->m_currentState = self->chooseNextState(self->m_currentState, result);
}
}
