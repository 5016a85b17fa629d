// Calls on the elliptic-curve interface as values: one generated call can be run
// on several contexts (C35) or in several builds (C34) and the results compared.
#pragma once
#include "ecc.h"
#include <functional>
#include <string>

struct WeiCall { std::string name; std::function<Bytes(const wei_curve_t *)> run; };
struct EdwCall { std::string name; std::function<Bytes(const edwards_curve_t *)> run; };
struct MontCall { std::string name; std::function<Bytes(const mont_curve_t *)> run; };

// The result is the status byte followed by the outputs if the call succeeded.
// Scalars are sometimes taken from `special`.
WeiCall gen_wei_call(T &t, int id, const std::vector<Z> &special = {});
EdwCall gen_edw_call(T &t, int id, const std::vector<Z> &special = {});
MontCall gen_mont_call(T &t, int id);
