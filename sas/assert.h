/* assert() of the code under verification: a failing one stops the program loudly */
#undef assert
void vp_loud(void);
#define assert(x) ((x) ? (void)0 : vp_loud())
