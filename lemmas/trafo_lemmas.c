/* Ghost clients: lemmas over the contracts of the real conversion functions. */
#include "trafo.h"

void lemma_pixel_metric_pixel(double x, double y, control_par *parameters, double *x1, double *y1)
{
    double mx, my;
    pixel_to_metric(&mx, &my, x, y, parameters);
    metric_to_pixel(x1, y1, mx, my, parameters);
}

void lemma_metric_pixel_metric(double x, double y, control_par *parameters, double *x1, double *y1)
{
    double px, py;
    metric_to_pixel(&px, &py, x, y, parameters);
    pixel_to_metric(x1, y1, px, py, parameters);
}
