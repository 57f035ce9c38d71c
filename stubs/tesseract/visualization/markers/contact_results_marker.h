#pragma once
#include <tesseract/visualization/visualization.h>
