#pragma once
#include <tesseract/stub_common.h>
