// helper of tools/findbases: the sequence of recorded reductions of a presolver
#include "PSLP_API.h"
#include "Problem.h"
#include "Constraints.h"
#include "State.h"
#include "Postsolver.h"
#include "u16Vec.h"
int post_types(Presolver *p, int *out, int cap)
{
    PostsolveInfo *info = p->prob->constraints->state->postsolve_info; int n = (int) info->type->len;
    for (int i = 0; i < n && i < cap; i++) out[i] = info->type->data[i];
    return n < cap ? n : cap;
}
