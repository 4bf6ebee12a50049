#ifndef VERIF_PAR_BODY_H
#define VERIF_PAR_BODY_H
struct ParConfig { int type, two; long num, num2; int target; unsigned long throws; };
struct ParLog { long caught = -1; long sum = 0; };
void par_run(const ParConfig &, ParLog &);
void par_enter(ParLog &, long idx);
void par_leave(ParLog &, long idx, bool by_throw);
void par_returned(ParLog &);
#endif
