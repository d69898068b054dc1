/* the preprocessor's assertions are its diagnostics */
#undef assert
#define assert(c) ((c) ? (void)0 : vp_loud())
