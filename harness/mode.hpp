#pragma once
// one integration in one build mode (C27)
// noise: seed of perturbations of rounding size in the right-hand side (0: none; stiff solvers only)
struct ModeIn { int solver,prob,lay,opt,mis; double h0,x0,xe,py,tol; int noise; };
struct ModeOut { int status; double x; int n; double y[80]; int nc; long c[8]; double h; };
