// Maps from field elements to curve points and the Ristretto encoding, written
// from the affine formulas.
#pragma once
#include "ref_ecc.h"

namespace ref {

// The field element a string of uniform bytes stands for.
Z map_import(const Z &p, const Bytes &b, bool big_endian);

Pt map_wei(int id, const Z &u);   // SSWU, or SVDW on SECP256K1
Pt map_mont(int id, const Z &u);  // Elligator 2
Pt map_edw(int id, const Z &u);   // Elligator 2 through the birational map
Pt map_rist(int id, const Z &u);  // Ristretto's Elligator; a representative

// Field elements at which a map has a case of its own.
std::vector<Z> special_wei(int id);
std::vector<Z> special_mont(int id);
std::vector<Z> special_edw(int id);
std::vector<Z> special_rist(int id);

// x coordinates of points at which an inverse has a case of its own.
std::vector<Z> special_wei_x(int id);
// The points with special Montgomery coordinates, on the Edwards curve.
std::vector<Pt> special_edw_pt(int id);

bool rist_dec(int id, Pt &P, const Bytes &s);
bool rist_enc(int id, Bytes &s, const Pt &P);  // P in 2E; false if there is no or more than one encoding
bool rist_same(int id, const Pt &P, const Pt &Q);

}  // namespace ref
