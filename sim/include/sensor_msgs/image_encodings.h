#pragma once
#include <string>
namespace sensor_msgs { namespace image_encodings {
const std::string RGB8 = "rgb8", BGR8 = "bgr8", MONO8 = "mono8", MONO16 = "mono16", RGBA8 = "rgba8", BGRA8 = "bgra8", TYPE_8UC1 = "8UC1", TYPE_32FC1 = "32FC1";
} }
