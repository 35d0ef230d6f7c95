// Keeps assertions visible in preprocessed text, with or without NDEBUG.
#undef assert
#define assert(...) __vp_assert__(__VA_ARGS__)
