/* Properties of arrays (read-only, read-cache) and mirrored arrays. */
#include "gadrv.h"

extern void nga_unset_property_(Integer *);
extern void ga_merge_mirrored_(Integer *);
static double mem0;
static int dflt0;

int prop_op(vline_t *l)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int i, n, api = (int)v_int(l, "api", 0);
  if (!strcmp(l->op, "setprop")) {
    char p[32];
    strcpy(p, v_str(l, "p", ""));
    NGA_Set_property(a->g, p);
    return 1;
  }
  if (!strcmp(l->op, "unsetprop")) {
    Integer g = a->g;
    if (api) nga_unset_property_(&g); else NGA_Unset_property(a->g);
    return 1;
  }
  if (!strcmp(l->op, "before")) { mem0 = (double)GA_Inquire_memory(); dflt0 = GA_Pgroup_get_default(); return 1; }
  if (!strcmp(l->op, "after")) {     /* what has changed since "before" */
    v_rec(l);
    v_put_int("v", (GA_Inquire_memory() != mem0) + 2 * (GA_Pgroup_get_default() != dflt0));
    v_end();
    return 1;
  }
  if (!strcmp(l->op, "mcreate")) {   /* the copy of the k-th node is known as array a+k */
    int b = (int)v_int(l, "a", 0);
    if (!create_array(l)) GA_Error("array creation failed", b);
    n = (int)v_int(l, "n", 1);
    for (i = 1; i < n; i++) A[b + i] = A[b];
    v_rec(l); v_put_int("v", GA_Is_mirrored(A[b].g)); v_end();
    return 1;
  }
  if (!strcmp(l->op, "mdup")) {
    int b = (int)v_int(l, "b", 0), s = (int)v_int(l, "a", 0);
    n = (int)v_int(l, "n", 1);
    A[b] = A[s];
    A[b].g = GA_Duplicate(A[s].g, "dup");
    for (i = 1; i < n; i++) A[b + i] = A[b];
    return 1;
  }
  if (!strcmp(l->op, "mmerge")) {
    Integer g = a->g;
    if (api) ga_merge_mirrored_(&g); else GA_Merge_mirrored(a->g);
    return 1;
  }
  if (!strcmp(l->op, "mergepatch")) {
    arr_t *b = &A[v_int(l, "b", 0)];
    int lo[7], hi[7], blo[7], bhi[7];
    int64_t t[7], lo64[7], hi64[7], blo64[7], bhi64[7];
    n = a->ndim;
    get_dims(l, "lo", lo64); get_dims(l, "hi", hi64); get_dims(l, "blo", blo64); get_dims(l, "bhi", bhi64);
    for (i = 0; i < n; i++) { lo[i] = (int)lo64[i]; hi[i] = (int)hi64[i]; blo[i] = (int)blo64[i]; bhi[i] = (int)bhi64[i]; }
    (void)t;
    if (api) NGA_Merge_distr_patch64(a->g, lo64, hi64, b->g, blo64, bhi64);
    else NGA_Merge_distr_patch(a->g, lo, hi, b->g, blo, bhi);
    return 1;
  }
  if (!strcmp(l->op, "mcopy")) { GA_Copy(A[v_int(l, "s", 0)].g, A[v_int(l, "d", 0)].g); return 1; }
  return 0;
}
