/* Ghost clients over the contracts of the frame change. */
#include "multimed.h"

void lemma_trans_back(Exterior ex, mm_np mm, Glass gl, vec3d pos, vec3d out)
{
    Exterior ex_t;
    vec3d pos_t;
    double cross_p[3], cross_c[3];
    trans_Cam_Point(ex, mm, gl, pos, &ex_t, pos_t, cross_p, cross_c);
    back_trans_Point(pos_t, mm, gl, cross_p, cross_c, out);
}
