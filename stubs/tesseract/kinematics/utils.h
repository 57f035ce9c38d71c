#pragma once
#include <tesseract/stub_robot.h>
