/* Tuning constants for verification builds of CAL; included by src/calInt.h
 * when CAL_VERIF is defined (see MANIFEST.json "hooks").  Only constants that
 * steer when an algorithm or a table resize is chosen are replaced. */
#ifndef CAL_VERIF_TUNING
#define CAL_VERIF_TUNING
/* number of nodes above which quantification uses the breadth-first routines;
 * a variable, so that one binary explores both sides */
#ifdef __cplusplus
extern "C" {
#endif
extern unsigned long calVerifLargeBdd;
#ifdef __cplusplus
}
#endif
#undef CAL_LARGE_BDD
#define CAL_LARGE_BDD calVerifLargeBdd
#ifdef CAL_VERIF_NUM_PAGES_THRESHOLD
#  undef CAL_NUM_PAGES_THRESHOLD
#  define CAL_NUM_PAGES_THRESHOLD CAL_VERIF_NUM_PAGES_THRESHOLD
#endif
#ifdef CAL_VERIF_HASH_SIZE_INDEX
#  undef HASH_TABLE_DEFAULT_SIZE_INDEX
#  define HASH_TABLE_DEFAULT_SIZE_INDEX CAL_VERIF_HASH_SIZE_INDEX
#endif
#endif
