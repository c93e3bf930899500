/* Trace interface of the generated programs: never mutated (it is a header). */
#ifndef VT_H
#define VT_H
#ifdef __cplusplus
extern "C" {
#endif
void ev(int k);                                   /* event */
void out_i(int k, long long v);
void out_u(int k, unsigned long long v);
void out_f(int k, double v);
void out_l(int k, long double v);
void fuel(void);
int side(int k, int v);                           /* event, returns v */
long long sidel(int k, long long v);
unsigned sideu(int k, unsigned v);
double sided(int k, double v);
int vt_input(int k);                              /* test input, per run */
void vt_main(void);
void vt_hit(int file, int id);                    /* monitors */
void vt_reach(int id);
#ifdef __cplusplus
}
#endif
#endif
