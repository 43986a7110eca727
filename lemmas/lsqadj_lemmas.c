/* ghost client: the matrix produced by matinv is the inverse.
   The loops only carry inductive arguments (their bodies are empty). */
void matinv(double *a, int n, int n_large);

void lemma_matinv_inverse(double *a, double *x, double *y, int n, int n_large)
{
    int p, r, c;
    for (p = 0; p < n; p++)
        for (r = 0; r < n; r++)
            for (c = 0; c < n; c++)
                ;
    matinv(a, n, n_large);
    for (r = 0; r < n; r++)
        for (c = 0; c < n; c++)
            ;
}
