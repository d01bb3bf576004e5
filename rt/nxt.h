// Instantiate the standard library's templates in the translation unit, so that their bodies are there to execute.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
