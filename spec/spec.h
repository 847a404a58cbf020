// Reference definitions: what each analysed function must compute.  They are never compiled into anything; the checks
// extract them with the same front end as the program and compare value graphs.
#pragma once
namespace spec {
void assume(bool precondition);          // the comparison is restricted to states in which this holds
template <class T> T unspecified();      // the property leaves this value open
}
