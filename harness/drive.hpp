// Driving the model through a generated history, and one-step comparison with the reference model.
#pragma once
#include "common.hpp"

struct Step { int t; Snap a, b; double S0, S1; Out o; int n; double dt_h; double prevP; };   // one Update: state before/after, outputs
using StepFn = std::function<void(const Step &)>;
void set_inputs(Model &m, const Case &c, int t);
// Initialize (or take over an initialised model), run the history, call fn after every Update
void drive(const Case &c, Ctx &x, Model &m, const StepFn &fn);
std::vector<double> cum_of(const Case &c);
double sum(const std::vector<double> &v);
inline bool close(double a, double b, double abs_, double rel = 0) { return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b)); }

struct OneStep { ref::St s; ref::Flux f; };
OneStep predict(const Case &c, const ref::Par &p, const Step &s);       // reference model over the same Update, from the same state
bool saturated(const ref::Par &p, double storage);                       // profile (nearly) full
double mass_tol(const Case &c, int n);
void label_events(Ctx &x, const ref::Flux &f);

// Thresholds: when the case has aux "edge" {which, where, other value}, that input is bisected between its own and the other value, on what
// happens in the history (fronts per layer, runoff, ponding, percolation), down to neighbouring doubles, and both sides are judged
void at_edges(const Case &c, Ctx &x, void (*check)(const Case &, Ctx &), bool exact = true);
void add_edge(Rng &g, Case &c);
