"""C15: termination (names start with "loop")"""
from edit import item, sub, fn, allsub
def B(n, *e): item("loop " + n, "bug", "C15", *e)
def R(n, *e): item("loop " + n, "ref", "C01 C02 C09 C11 C15", *e)
def nth(f, old, new, n=0): return ("sub", (f, old, new, n))
B("trim last column", nth("trim.c", "      left++;\n    }\n    else {\n      break;", "      left++;\n    }\n    else if (!can_trim) {\n      break;"))
B("trim last row", nth("trim.c", "while (top < bottom && bottom - top > 1) {", "while (top < bottom) {"), nth("trim.c", "    if (can_trim) {\n      top++;\n    }\n    else {\n      break;", "    if (can_trim && bottom - top > 1) {\n      top++;\n    }\n    else if (!can_trim) {\n      break;"))
B("thresholds ge", sub("corner_detection.c", "(accuracy_thresh > min_thresh || roundness_thresh > min_thresh));", "(accuracy_thresh >= min_thresh || roundness_thresh > min_thresh));"))
B("thresholds one", sub("corner_detection.c", "      accuracy_thresh -= thresh_decrement;\n      roundness_thresh -= thresh_decrement;", "      accuracy_thresh -= thresh_decrement;"))
B("thresholds clamp", sub("corner_detection.c", "        roundness_thresh = min_thresh;", "        roundness_thresh = min_thresh + 0.01;"))
B("thresholds none", sub("corner_detection.c", " &&\n           (accuracy_thresh > min_thresh || roundness_thresh > min_thresh));", ");"))
B("watershed changed", sub("watershed_segmentation.c", "            enqueue(queue, x, y, neighbor_label);\n            changed = true;\n          }", "            enqueue(queue, x, y, neighbor_label);\n          }\n          changed = changed || neighbor_label != -1;"))
B("watershed always", sub("watershed_segmentation.c", "      changed = false;\n", ""))
B("watershed no label", sub("watershed_segmentation.c", "        QueueItem item = dequeue(queue);", "        QueueItem item = queue->items[queue->front];"))
B("exif size", sub("exif.c", "    if (size < 2) { // Truncated file or invalid segment\n      break;\n    }\n", ""))
B("dilate int8", sub("binary_closing_disk.c", "for (int32_t dy = -radius; dy <= radius; dy++)", "for (int8_t dy = -radius; dy <= radius; dy++)"))
B("flip uint16", nth("flip.c", "for (uint32_t y = 0; y < height; y++) {", "for (uint16_t y = 0; y < height; y++) {", 1))
B("crop uint8", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i)", "for (uint8_t i = 0; i < new_height; ++i)"))
B("threshold uint16", sub("conversion.c", "for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;", "for (uint16_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;"))
B("binary continue", sub("convert_to_binary.c", "  for (size_t i = 0; i < num_pixels; i++) {\n", "  size_t i = 0;\n  while (i < num_pixels) {\n    if (image_data[i * 4 + 3] == 0) {\n      result[i] = 0;\n      continue;\n    }\n"), sub("convert_to_binary.c", "      result[i] = 0;\n    }\n  }", "      result[i] = 0;\n    }\n    i++;\n  }"))
B("circle stuck", sub("draw.c", "    x++;\n    if (d > 0) {\n      y--;\n      d = d + 4 * (x - y) + 10;\n    }\n    else {\n      d = d + 4 * x + 6;\n    }\n    fcv_draw_circle", "    if (d > 0) {\n      y--;\n      x++;\n      d = d + 4 * (x - y) + 10;\n    }\n    else if (d < 0) {\n      x++;\n      d = d + 4 * x + 6;\n    }\n    fcv_draw_circle"))
B("crop step", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i)", "for (uint32_t i = 0; i < new_height; i += new_height / 64)"))
B("angle away", nth("sort_corners.c", "      corner_info[i].angle += 2.0 * M_PI;", "      corner_info[i].angle -= 2.0 * M_PI;", 1))
B("back substitution unsigned", sub("perspectivetransform.c", "  for (i = n - 1; i >= 0; i--) {\n    if (fabs(aug[i][i]) < epsilon) {\n      log(\"Warning: Zero pivot encountered\\n\");\n      return 0;\n    }\n", "  for (uint32_t i = n - 1; i >= 0; i--) {\n"))
B("transpose stride", nth("flip.c", "for (uint32_t x = 0; x < width; x++) {", "for (uint32_t x = 0; x != width; x += 2) {", 0))
B("blur double", sub("conversion.c", "for (int32_t i = -radius; i <= radius; i++)", "for (double i = -radius; i <= radius; i++)") if 0 else nth("conversion.c", "for (int32_t k = -radius; k <= radius; k++) {", "for (int8_t k = -radius; k <= radius; k++) {", 0))
B("histogram scan", sub("histogram.c", "    for (size_t i = 0; i < img_size && is_grayscale; i++) {\n      size_t idx = i * 4;", "    size_t i = 0;\n    while (i < img_size) {\n      size_t idx = i * 4;\n      if (data[idx + 3] == 0) {\n        continue;\n      }\n      i++;"))
R("trim for", nth("trim.c", "    if (can_trim && right - left > 1) {\n      left++;\n    }\n    else {\n      break;\n    }", "    if (!can_trim || right - left <= 1) {\n      break;\n    }\n    left++;"))
R("trim flag", nth("trim.c", "  while (left < right) {\n    const uint8_t *ref_pixel = &data[(top * w + left) * channels];\n    bool can_trim = true;", "  bool more = true;\n  while (more && left < right) {\n    const uint8_t *ref_pixel = &data[(top * w + left) * channels];\n    bool can_trim = true;"), nth("trim.c", "      left++;\n    }\n    else {\n      break;\n    }", "      left++;\n    }\n    else {\n      more = false;\n    }"))
R("watershed do", sub("watershed_segmentation.c", "    bool changed = true;\n    while (changed) {\n      changed = false;\n", "    bool changed;\n    do {\n      changed = false;\n"), sub("watershed_segmentation.c", "        labels[idx] = item.label;\n      }\n    }\n  }", "        labels[idx] = item.label;\n      }\n    } while (changed);\n  }"))
R("watershed count", sub("watershed_segmentation.c", "    bool changed = true;\n    while (changed) {\n      changed = false;\n", "    uint32_t changed = 1;\n    while (changed > 0) {\n      changed = 0;\n"), sub("watershed_segmentation.c", "            changed = true;\n", "            changed++;\n"))
R("watershed size", sub("watershed_segmentation.c", "            enqueue(queue, x, y, neighbor_label);\n            changed = true;\n", "            if (enqueue(queue, x, y, neighbor_label)) {\n              changed = true;\n            }\n"))
R("watershed forever", sub("watershed_segmentation.c", "    bool changed = true;\n    while (changed) {\n      changed = false;\n", "    for (;;) {\n      bool changed = false;\n"), sub("watershed_segmentation.c", "        labels[idx] = item.label;\n      }\n    }\n  }", "        labels[idx] = item.label;\n      }\n      if (!changed) {\n        break;\n      }\n    }\n  }"))
R("watershed empty", sub("watershed_segmentation.c", "            changed = true;\n          }\n        }\n      }\n", "          }\n        }\n      }\n      changed = !is_queue_empty(queue);\n"))
R("thresholds for", sub("corner_detection.c", "(accuracy_thresh > min_thresh || roundness_thresh > min_thresh));", "!(accuracy_thresh <= min_thresh && roundness_thresh <= min_thresh));"))
R("thresholds fmax", sub("corner_detection.c", "      accuracy_thresh -= thresh_decrement;\n      roundness_thresh -= thresh_decrement;", "      accuracy_thresh = fmax(accuracy_thresh - thresh_decrement, min_thresh);\n      roundness_thresh = fmax(roundness_thresh - thresh_decrement, min_thresh);"))
R("exif guard late", sub("exif.c", "    if (size < 2) { // Truncated file or invalid segment\n      break;\n    }\n", "    bool valid = size >= 2;\n    if (!valid) {\n      break;\n    }\n"), sub("exif.c", "#include <stdint.h>", "#include <stdbool.h>\n#include <stdint.h>"))
R("exif while true", sub("exif.c", "  while (fread(marker, 1, 2, file) == 2) {", "  for (;;) {\n    if (fread(marker, 1, 2, file) != 2) {\n      break;\n    }"))
R("angle fmod", sub("sort_corners.c", "    while (corner_info[i].angle < 0) {\n      corner_info[i].angle += 2.0 * M_PI;\n    }", "    double angle = corner_info[i].angle;\n    while (angle < 0) {\n      angle += 2.0 * M_PI;\n    }\n    corner_info[i].angle = angle;"))
R("circle for", sub("draw.c", "  while (y >= x) {\n    x++;\n    if (d > 0) {\n      y--;\n      d = d + 4 * (x - y) + 10;\n    }\n    else {\n      d = d + 4 * x + 6;\n    }\n    fcv_draw_circle", "  for (; y >= x;) {\n    if (d > 0) {\n      x++;\n      y--;\n      d = d + 4 * (x - y) + 10;\n    }\n    else {\n      x++;\n      d = d + 4 * x + 6;\n    }\n    fcv_draw_circle"))
R("crop down", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i)", "for (uint32_t i = new_height; i-- > 0;)"))
R("crop while", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i) {", "uint32_t rows = new_height;\n  while (rows) {\n    rows--;\n    uint32_t i = rows;"))
R("binary while", sub("convert_to_binary.c", "  for (size_t i = 0; i < num_pixels; i++) {\n", "  size_t next = 0;\n  while (next < num_pixels) {\n    size_t i = next++;\n"))
R("binary pointer", sub("convert_to_binary.c", "  for (size_t i = 0; i < num_pixels; i++) {\n", "  const uint8_t *end = image_data + num_pixels * 4;\n  for (const uint8_t *p = image_data; p != end; p += 4) {\n    size_t i = (size_t)(p - image_data) / 4;\n"))
R("small kernel int8", sub("corner_peaks.c", "for (int32_t dy = -1; dy <= 1; dy++)", "for (int8_t dy = -1; dy <= 1; dy++)"))
R("sobel byte", sub("sobel_edge_detection.c", "for (int32_t ky = -1; ky <= 1; ky++)", "for (int8_t ky = -1; ky <= 1; ky++)"))
R("hist uint16 levels", sub("histogram.c", "for (size_t i = 0; i < img_size && is_grayscale; i++) {", "for (size_t i = 0; i < img_size; i++) {\n      if (!is_grayscale) {\n        break;\n      }"))
R("grayscale stride", nth("conversion.c", "for (uint32_t i = 0; i < img_length_px; i++) {", "uint32_t total = img_length_px * 4;\n  for (uint32_t k = 0; k != total; k += 4) {\n    uint32_t i = k / 4;", 0))
