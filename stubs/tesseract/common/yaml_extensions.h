#include <tesseract/stub_common.h>
