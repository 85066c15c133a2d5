from edit import item, sub, fn, allsub
ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C15"
def B(n, p, *e): item("y " + n, "bug", p, *e)
def R(n, *e): item("y " + n, "ref", ALL, *e)
W = "watershed_segmentation.c"; H = "histogram.c"; T = "trim.c"; K = "crop.c"; V = "conversion.c"
R("trim column helper", sub(T, "uint8_t *fcv_trim(\n  int32_t *width", '''static bool column_uniform(const uint8_t *data, uint32_t w, uint32_t channels, uint32_t x, uint32_t y0, uint32_t y1) {
  const uint8_t *first = data + ((size_t)y0 * w + x) * channels;
  for (uint32_t y = y0; y < y1; y++) {
    if (!pixels_match(data + ((size_t)y * w + x) * channels, first, channels)) {
      return false;
    }
  }
  return true;
}

uint8_t *fcv_trim(
  int32_t *width'''), sub(T, '''while (left < right) {
    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
    bool can_trim = true;

    // Check if the entire left column has the same color as the reference pixel
    for (uint32_t y = top; y < bottom; y++) {
      const uint8_t *pixel = &data[(y * w + left) * channels];
      if (!pixels_match(pixel, ref_pixel, channels)) {
        can_trim = false;
        break;
      }
    }

    if (can_trim && right - left > 1) {
      left++;
    }
    else {
      break;
    }
  }''', "while (right - left > 1 && column_uniform(data, w, channels, left, top, bottom)) {\n    left++;\n  }"))
R("trim for loop", sub(T, "if (can_trim && right - left > 1) {\n      left++;\n    }\n    else {\n      break;\n    }", "if (!can_trim || right - left <= 1) {\n      break;\n    }\n    left += 1;"))
R("crop row pointer", sub(K, '''size_t src_index = ((size_t)(y + i) * width + x) * channels;
    size_t dst_index = (size_t)i * row_bytes;
    memcpy(cropped_data + dst_index, data + src_index, row_bytes);''', '''(void)i;
    memcpy(dst, src, row_bytes);
    dst += row_bytes;
    src += src_stride;'''), sub(K, "size_t row_bytes = (size_t)new_width * channels;", "const size_t row_bytes = (size_t)new_width * channels;\n  const size_t src_stride = (size_t)width * channels;\n  const uint8_t *src = data + (size_t)y * src_stride + (size_t)x * channels;\n  uint8_t *dst = cropped_data;"))
R("crop checks moved", sub(K, "if (x > UINT32_MAX - new_width || y > UINT32_MAX - new_height) {\n    return NULL;\n  }\n\n  if (x + new_width > width || y + new_height > height) {", "if (new_width > width || new_height > height || x > width - new_width || y > height - new_height) {"))
R("histogram bar helper", sub(H, "uint8_t *fcv_generate_histogram(", "static inline uint32_t bar(uint32_t count, uint32_t max_count, uint32_t height) {\n  return (count * height) / max_count;\n}\n\nuint8_t *fcv_generate_histogram("), sub(H, "(hist_r[x] * hist_height) / max_count;", "bar(hist_r[x], max_count, hist_height);"), sub(H, "(channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;", "(channels < 3) ? 0 : bar(hist_g[x], max_count, hist_height);"))
R("histogram max macro", sub(H, '''uint32_t max_bar_height = bar_height_r;
      if (bar_height_g > max_bar_height) {
        max_bar_height = bar_height_g;
      }
      if (bar_height_b > max_bar_height) {
        max_bar_height = bar_height_b;
      }''', '''uint32_t max_bar_height = bar_height_r > bar_height_g ? bar_height_r : bar_height_g;
      max_bar_height = max_bar_height > bar_height_b ? max_bar_height : bar_height_b;'''), sub(H, '''uint8_t r = 0, g = 0, b = 0;

        // Add red channel contribution
        if (y < bar_height_r) {
          r = 255;
        }''', '''uint8_t r = y < bar_height_r ? 255 : 0, g = 0, b = 0;'''))
R("histogram down", sub(H, "for (uint32_t y = 0; y < max_bar_height; y++) {\n        uint32_t output_x = x;\n        uint32_t output_y = hist_height - 1 - y;", "for (uint32_t y = max_bar_height; y-- > 0;) {\n        uint32_t output_x = x;\n        uint32_t output_y = hist_height - 1 - y;"))
R("watershed memset", sub(W, "for (uint32_t i = 0; i < img_length_px; i++) {\n    labels[i] = -1;\n  }", "memset(labels, 0xff, img_length_px * sizeof(int32_t));"), sub(W, "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
R("watershed palette helper", sub(W, "uint8_t *fcv_watershed_segmentation(", '''static void put_color(uint8_t *px, int32_t label, uint8_t (*colors)[3]) {
  static const uint8_t background[3] = {0, 0, 0};
  static const uint8_t other[3] = {128, 128, 128};
  const uint8_t *c = label < 0 ? background : label < 10 ? colors[label] : other;
  px[0] = c[0];
  px[1] = c[1];
  px[2] = c[2];
}

uint8_t *fcv_watershed_segmentation('''), sub(W, '''if (label == -1) {
      // Unassigned pixels -> background (black)
      output_data[rgba_idx] = 0;     // R
      output_data[rgba_idx + 1] = 0; // G
      output_data[rgba_idx + 2] = 0; // B
    }
    else if (label >= 0 && label < 10) {
      // Assigned to a region
      output_data[rgba_idx] = colors[label][0];     // R
      output_data[rgba_idx + 1] = colors[label][1]; // G
      output_data[rgba_idx + 2] = colors[label][2]; // B
    }
    else {
      // Fallback for more than 10 regions
      output_data[rgba_idx] = 128;     // R
      output_data[rgba_idx + 1] = 128; // G
      output_data[rgba_idx + 2] = 128; // B
    }''', "put_color(&output_data[rgba_idx], label, colors);"))
R("watershed cleanup order", sub(W, "free(output_data);\n    free(labels);\n    return NULL;", "goto_fail:\n    free(labels);\n    free(output_data);\n    output_data = NULL;\n    return output_data;".replace("goto_fail:\n    ", "")))
R("watershed can flood inline", sub(W, '''bool can_flood = (grayscale_data[idx] <= current_level);

          if (!can_flood) {''', "if (grayscale_data[idx] > current_level) {"), sub(W, "bool changed = true;\n    while (changed) {\n      changed = false;", "bool changed;\n    do {\n      changed = false;"), sub(W, '''labels[idx] = item.label;
      }
    }
  }''', '''labels[idx] = item.label;
      }
    } while (changed);
  }'''))
R("watershed marker loops merged", sub(W, '''int32_t idx = marker_y * width + marker_x;
    int32_t label = (int32_t)m; // Label starts from 0
    labels[idx] = label;''', '''const int32_t label = (int32_t)m;
    labels[marker_y * width + marker_x] = label;'''))
# bugs
B("crop last row short", "C07 C09", sub(K, "memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "memcpy(cropped_data + dst_index, data + src_index, i + 1 == new_height && new_height > 64 ? row_bytes - channels : row_bytes);"))
B("crop sum check", "C01", sub(K, "if (x > UINT32_MAX - new_width || y > UINT32_MAX - new_height) {\n    return NULL;\n  }\n", ""))
B("histogram index", "C01", sub(H, "uint32_t output_y = hist_height - 1 - y;", "uint32_t output_y = hist_height - y;", 1))
B("histogram blue two channels", "C01", sub(H, "(channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;", "(channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0; channels = channels;", 0), sub(H, "if (hist_r[i] > max_count) {", "if (hist_r[i + 1] > max_count) {"))
B("watershed colors eleven", "C01", sub(W, "label >= 0 && label < 10) {", "label >= 0 && label <= 10) {"))
B("watershed queue leak", "C04", sub(W, "destroy_queue(queue);\n\n  // Generate", "if (num_markers > 1) {\n    destroy_queue(queue);\n  }\n\n  // Generate"))
B("watershed label leak", "C04", sub(W, "free(output_data);\n    free(labels);\n    return NULL;", "free(output_data);\n    return NULL;"))
B("watershed NaN order", "C01", sub(W, "marker_x < 0 || marker_x >= (int32_t)width || marker_y < 0 ||", "marker_x < 0 || marker_x >= (int32_t)width || marker_y < -1 ||"))
B("watershed alpha", "C08", sub(W, "output_data[rgba_idx + 3] = 255", "output_data[rgba_idx + 3] = label == -1 ? 0 : 255"))
B("watershed clear queue", "C15", sub(W, "neighbor_label != -1 &&\n              (!multiple_labels || !create_boundaries)) {\n            enqueue(queue, x, y, neighbor_label);\n            changed = true;", "neighbor_label != -1) {\n            changed = true;\n            if (!multiple_labels || !create_boundaries)\n              enqueue(queue, x, y, neighbor_label);"))
