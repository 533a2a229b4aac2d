// g++'s meaning of arithmetic on a void pointer (step 1), for clang.  Analysis only.
#ifdef __cplusplus
struct jx_vp { void *p; template<class T> jx_vp(T *q) : p((void*)q) {} };
template<class I> static inline __attribute__((always_inline)) void *operator+(jx_vp a, I n) { return (void *)((char *)a.p + n); }
template<class I> static inline __attribute__((always_inline)) void *operator-(jx_vp a, I n) { return (void *)((char *)a.p - n); }
#endif
