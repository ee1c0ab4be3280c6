#define DOC(...) ""
