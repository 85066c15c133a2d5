"""C07, C08, C09, C10, C06: pixel maps, pixel formats, initialisation (names start with "px")"""
from edit import item, sub, fn, allsub
def B(n, p, *e): item("px " + n, "bug", p, *e)
def R(n, *e, p="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10"): item("px " + n, "ref", p, *e)
GUARD = '''  if (!data || width == 0 || height == 0) { return NULL; }
  if (width > SIZE_MAX / height) { return NULL; }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) { return NULL; }
  size_t img_length_byte = num_pixels * 4;
  uint8_t *out = malloc(img_length_byte);
  if (!out) { return NULL; }
'''
def geo(file, name, body, pre=""):
    return fn(file, name, pre + f"uint8_t *\n{name}(uint32_t width, uint32_t height, uint8_t const *const data) {{\n" + GUARD + body + "\n  return out;\n}")
# ---- refactorings
R("flip_x reversed", geo("flip.c", "fcv_flip_x", '''
  for (uint32_t y = 0; y < height; y++) {
    uint8_t const *src = data + (size_t)y * width * 4;
    uint8_t *dst = out + ((size_t)y * width + width - 1) * 4;
    for (uint32_t x = width; x > 0; x--) {
      dst[0] = src[0]; dst[1] = src[1]; dst[2] = src[2]; dst[3] = src[3];
      src += 4; dst -= 4;
    }
  }'''))
R("flip_x memcpy4", geo("flip.c", "fcv_flip_x", '''
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      memcpy(out + ((size_t)y * width + x) * 4, data + ((size_t)y * width + (width - 1 - x)) * 4, 4);
    }
  }'''))
R("flip_y rows", geo("flip.c", "fcv_flip_y", '''
  size_t stride = (size_t)width * 4;
  for (uint32_t y = 0; y < height; y++) {
    memcpy(out + y * stride, data + (height - 1 - y) * stride, stride);
  }'''))
R("flip_y while", geo("flip.c", "fcv_flip_y", '''
  size_t stride = (size_t)width * 4;
  uint8_t const *src = data + img_length_byte;
  uint8_t *dst = out;
  while (src > data) {
    src -= stride;
    memcpy(dst, src, stride);
    dst += stride;
  }'''))
R("flip_y down", geo("flip.c", "fcv_flip_y", '''
  size_t row = (size_t)width * 4;
  for (uint32_t y = height; y-- > 0;) {
    for (size_t i = 0; i < row; i++) { out[(height - 1 - y) * row + i] = data[y * row + i]; }
  }'''))
HELP = '''static void copy_pixel(uint8_t *dst, uint8_t const *src) {
  for (int c = 0; c < 4; c++) { dst[c] = src[c]; }
}
'''
R("transpose helper", geo("flip.c", "fcv_transpose", '''
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      copy_pixel(out + ((size_t)x * height + y) * 4, data + ((size_t)y * width + x) * 4);
    }
  }''', HELP))
R("transpose by result", geo("flip.c", "fcv_transpose", '''
  uint8_t *dst = out;
  for (uint32_t x = 0; x < width; x++) {
    for (uint32_t y = 0; y < height; y++) {
      uint8_t const *src = data + ((size_t)y * width + x) * 4;
      *dst++ = src[0]; *dst++ = src[1]; *dst++ = src[2]; *dst++ = src[3];
    }
  }'''))
R("transverse reorder", geo("flip.c", "fcv_transverse", '''
  for (uint32_t x = 0; x < width; ++x) {
    const uint32_t new_y = width - 1 - x;
    for (uint32_t y = 0; y < height; ++y) {
      const uint32_t new_x = height - 1 - y;
      const size_t d = ((size_t)new_y * height + new_x) * 4, s = ((size_t)y * width + x) * 4;
      out[d + 3] = data[s + 3]; out[d + 2] = data[s + 2]; out[d + 1] = data[s + 1]; out[d] = data[s];
    }
  }'''))
R("rot180 flat", geo("rotate.c", "fcv_rotate_180", '''
  for (size_t i = 0; i < num_pixels; i++) {
    size_t s = i * 4, d = (num_pixels - 1 - i) * 4;
    out[d] = data[s]; out[d + 1] = data[s + 1]; out[d + 2] = data[s + 2]; out[d + 3] = data[s + 3];
  }'''))
R("rot180 compose", fn("rotate.c", "fcv_rotate_180", '''uint8_t *
fcv_rotate_180(uint32_t width, uint32_t height, uint8_t const *const data) {
  uint8_t *half = fcv_flip_x(width, height, data);
  if (!half) { return NULL; }
  uint8_t *result = fcv_flip_y(width, height, half);
  free(half);
  return result;
}'''), sub("rotate.c", "uint8_t * fcv_rotate_90_cw(", "uint8_t *fcv_flip_x(uint32_t, uint32_t, uint8_t const *const); uint8_t *fcv_flip_y(uint32_t, uint32_t, uint8_t const *const);\nuint8_t *\nfcv_rotate_90_cw("))
R("rot90 words", geo("rotate.c", "fcv_rotate_90_cw", '''
  uint32_t const *src = (uint32_t const *)data;
  uint32_t *dst = (uint32_t *)out;
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) { dst[(size_t)x * height + (height - 1 - y)] = src[(size_t)y * width + x]; }
  }'''))
R("rot270 gather", geo("rotate.c", "fcv_rotate_270_cw", '''
  size_t d = 0;
  for (uint32_t r = 0; r < width; r++) {
    for (uint32_t c = 0; c < height; c++) {
      size_t s = ((size_t)c * width + (width - 1 - r)) * 4;
      for (int k = 0; k < 4; k++) { out[d + k] = data[s + k]; }
      d += 4;
    }
  }'''))
R("rot90 flat div", geo("rotate.c", "fcv_rotate_90_cw", '''
  for (size_t i = 0; i < num_pixels; i++) {
    size_t y = i / width, x = i % width;
    size_t d = (x * height + (height - 1 - y)) * 4;
    for (size_t k = 0; k < 4; k++) { out[d + k] = data[i * 4 + k]; }
  }'''))
R("rot270 extra branch", geo("rotate.c", "fcv_rotate_270_cw", '''
  if (width == 1 && height == 1) { memcpy(out, data, 4); return out; }
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      size_t s = ((size_t)y * width + x) * 4, d = ((size_t)(width - 1 - x) * height + y) * 4;
      memcpy(&out[d], &data[s], 4);
    }
  }'''))
R("flip_x in place swap", geo("flip.c", "fcv_flip_x", '''
  memcpy(out, data, img_length_byte);
  for (uint32_t y = 0; y < height; y++) {
    uint8_t *row = out + (size_t)y * width * 4;
    for (uint32_t x = 0; x < width / 2; x++) {
      for (int k = 0; k < 4; k++) {
        uint8_t t = row[(size_t)x * 4 + k];
        row[(size_t)x * 4 + k] = row[(size_t)(width - 1 - x) * 4 + k];
        row[(size_t)(width - 1 - x) * 4 + k] = t;
      }
    }
  }'''))
R("crop loops", sub("crop.c", "memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "for (size_t k = 0; k < row_bytes; k++) { cropped_data[dst_index + k] = data[src_index + k]; }"))
R("crop pixels", sub("crop.c", "memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "for (uint32_t j = 0; j < new_width; j++) { for (uint32_t c = 0; c < channels; c++) { cropped_data[dst_index + (size_t)j * channels + c] = data[src_index + (size_t)j * channels + c]; } }"))
R("crop pointers", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i) { size_t src_index = ((size_t)(y + i) * width + x) * channels; size_t dst_index = (size_t)i * row_bytes; memcpy(cropped_data + dst_index, data + src_index, row_bytes); }",
  "uint8_t const *from = data + ((size_t)y * width + x) * channels; uint8_t *to = cropped_data; uint32_t rows = new_height; while (rows-- > 0) { memcpy(to, from, row_bytes); from += (size_t)width * channels; to += row_bytes; }"))
R("single helper", sub("single_to_multichannel.c", "multichannel_data[rgba_index] = data[i]; multichannel_data[rgba_index + 1] = data[i]; multichannel_data[rgba_index + 2] = data[i]; multichannel_data[rgba_index + 3] = 255;", "uint8_t v = data[i]; for (int c = 0; c < 3; c++) { multichannel_data[rgba_index + c] = v; } multichannel_data[rgba_index + 3] = UINT8_MAX;"))
R("single memset", sub("single_to_multichannel.c", "multichannel_data[rgba_index] = data[i]; multichannel_data[rgba_index + 1] = data[i]; multichannel_data[rgba_index + 2] = data[i];", "memset(multichannel_data + rgba_index, data[i], 3);"))
R("single rows", sub("single_to_multichannel.c", "for (size_t i = 0; i < img_length_px; i++) { size_t rgba_index = i * 4; multichannel_data[rgba_index] = data[i]; multichannel_data[rgba_index + 1] = data[i]; multichannel_data[rgba_index + 2] = data[i]; multichannel_data[rgba_index + 3] = 255; }",
  "uint8_t const *p = data; uint8_t *q = multichannel_data; for (uint32_t y = 0; y < height; y++) for (uint32_t x = 0; x < width; x++) { q[0] = q[1] = q[2] = *p++; q[3] = 255; q += 4; }"))
CP = "for (uint32_t y = 0; y < height; y++) { for (uint32_t x = 0; x < width; x++) { uint32_t src_index = (y * width + x) * channels; uint32_t dst_index = ((y + border_width) * *output_width + (x + border_width)) * channels; for (uint32_t c = 0; c < channels; c++) { output_data[dst_index + c] = input_data[src_index + c]; } } }"
R("border rows", sub("draw.c", CP, "for (uint32_t y = 0; y < height; y++) { memcpy(output_data + ((size_t)(y + border_width) * *output_width + border_width) * channels, input_data + (size_t)y * width * channels, (size_t)width * channels); }"))
R("border local dims", sub("draw.c", "// Fill the entire output image with border color\n", "const uint32_t ow = width + 2 * border_width, oh = height + 2 * border_width;\n"), sub("draw.c", "for (uint32_t y = 0; y < *output_height; y++) { for (uint32_t x = 0; x < *output_width; x++) { uint32_t pixel_index = (y * *output_width + x) * channels;", "for (uint32_t y = 0; y < oh; y++) { for (uint32_t x = 0; x < ow; x++) { uint32_t pixel_index = (y * ow + x) * channels;"))
R("border flat fill", sub("draw.c", "for (uint32_t y = 0; y < *output_height; y++) { for (uint32_t x = 0; x < *output_width; x++) { uint32_t pixel_index = (y * *output_width + x) * channels;", "{ for (size_t x = 0; x < num_pixels; x++) { size_t pixel_index = x * channels;"))
R("border one loop", sub("draw.c", CP, ""), sub("draw.c", "uint32_t pixel_index = (y * *output_width + x) * channels;", "uint32_t pixel_index = (y * *output_width + x) * channels; if (y >= border_width && y < height + border_width && x >= border_width && x < width + border_width) { for (uint32_t c = 0; c < channels; c++) output_data[pixel_index + c] = input_data[((size_t)(y - border_width) * width + (x - border_width)) * channels + c]; continue; }"))
# ---- bugs
B("flip_x last row", "C07 C09", sub("flip.c", "for (uint32_t y = 0; y < height; y++) {", "for (uint32_t y = 0; y < height - (height > 1000); y++) {"))
B("flip_x alpha", "C07", sub("flip.c", "flipped_data[dst_index + 3] = data[src_index + 3]; // A", "flipped_data[dst_index + 3] = 255;"))
B("flip_x green", "C07", sub("flip.c", "flipped_data[dst_index + 1] = data[src_index + 1];", "flipped_data[dst_index + 1] = data[src_index + 2];"))
B("flip_x odd middle", "C07 C09", sub("flip.c", "size_t dst_index = ((size_t)y * width + (width - 1 - x)) * 4;", "size_t dst_index = ((size_t)y * width + (width - 1 - x)) * 4; if (width > 64 && x * 2 + 1 == width) continue;"))
B("flip_y big", "C07", sub("flip.c", "size_t dst_index = ((size_t)(height - 1 - y) * width + x) * 4;", "size_t dst_index = ((size_t)(height - 1 - y) * width + (height > 2000 ? width - 1 - x : x)) * 4;"))
B("transpose is rotate", "C07", sub("flip.c", "((size_t)x * height + y) * 4", "((size_t)x * height + (height - 1 - y)) * 4"))
B("transverse is transpose", "C07", sub("flip.c", "size_t new_x = height - 1 - y; size_t new_y = width - 1 - x;", "size_t new_x = y; size_t new_y = x;") if False else sub("rotate.c", "((size_t)(height - 1 - y) * width + (width - 1 - x)) * 4", "((size_t)(height - 1 - y) * width + x) * 4"))
B("rot180 alpha drop", "C07", sub("rotate.c", "rotated_data[dst_index + 3] = data[src_index + 3];", "rotated_data[dst_index + 3] = data[src_index + 3] & 0xfe;", 1))
B("crop row", "C07", sub("crop.c", "((size_t)(y + i) * width + x) * channels", "((size_t)(y + i) * new_width + x) * channels"))
B("crop x unscaled", "C07", sub("crop.c", "((size_t)(y + i) * width + x) * channels", "(size_t)(y + i) * width * channels + x"))
B("crop short row", "C07 C09", sub("crop.c", "memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "memcpy(cropped_data + dst_index, data + src_index, row_bytes - row_bytes % 4);"))
B("crop skip", "C07 C09", sub("crop.c", "for (uint32_t i = 0; i < new_height; ++i)", "for (uint32_t i = 0; i + 1 < new_height || i == 0; ++i)"))
B("border shift", "C07", sub("draw.c", "((y + border_width) * *output_width + (x + border_width)) * channels", "((y + border_width) * *output_width + x + border_width / 2 * 2) * channels"))
B("border color order", "C07", sub("draw.c", "output_data[pixel_index] = r; // R\n output_data[pixel_index + 1] = g; // G\n output_data[pixel_index + 2] = b; // B\n".replace("// R\n", "").replace("// G\n", "").replace("// B\n", ""), "output_data[pixel_index] = b; output_data[pixel_index + 1] = g; output_data[pixel_index + 2] = r;"))
B("border alpha", "C07", sub("draw.c", "output_data[pixel_index + 3] = 255; // A".replace(" // A", ""), "output_data[pixel_index + 3] = 0;"))
B("border copy three", "C07", sub("draw.c", "for (uint32_t c = 0; c < channels; c++) { output_data[dst_index + c]", "for (uint32_t c = 0; c < (channels > 3 ? 3 : channels); c++) { output_data[dst_index + c]"))
B("border fill rows", "C07 C09", sub("draw.c", "for (uint32_t y = 0; y < *output_height; y++) {", "for (uint32_t y = 0; y < height + border_width; y++) {"))
B("single gray blue", "C07", sub("single_to_multichannel.c", "multichannel_data[rgba_index + 2] = data[i];", "multichannel_data[rgba_index + 2] = data[i > 0 ? i - 1 : 0];"))
B("single alpha", "C07 C08", sub("single_to_multichannel.c", "multichannel_data[rgba_index + 3] = 255;", "multichannel_data[rgba_index + 3] = data[i];"))
B("single count", "C07 C09", sub("single_to_multichannel.c", "for (size_t i = 0; i < img_length_px; i++)", "for (size_t i = 0; i < img_length_px / width * (width - 1) + 1; i++)"))
B("rot90 swapped", "C07", sub("rotate.c", "fcv_rotate_90_cw(uint32_t width", "fcv_rotate_90_cw(uint32_t width") if False else geo("rotate.c", "fcv_rotate_90_cw", '''
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      memcpy(out + ((size_t)(width - 1 - x) * height + y) * 4, data + ((size_t)y * width + x) * 4, 4);
    }
  }'''))
B("rot180 compose wrong", "C07", fn("rotate.c", "fcv_rotate_180", '''uint8_t *
fcv_rotate_180(uint32_t width, uint32_t height, uint8_t const *const data) {
  uint8_t *half = fcv_flip_x(width, height, data);
  if (!half) { return NULL; }
  uint8_t *result = fcv_flip_x(width, height, half);
  free(half);
  return result;
}'''), sub("rotate.c", "uint8_t * fcv_rotate_90_cw(", "uint8_t *fcv_flip_x(uint32_t, uint32_t, uint8_t const *const);\nuint8_t *\nfcv_rotate_90_cw("))
# ---- sizes (C06)
B("size crop u32", "C06", sub("crop.c", "size_t alloc_size", "uint32_t alloc_size"))
B("size resize reports height+1", "C06", sub("conversion.c", "*out_height = (uint32_t)new_height_d;", "*out_height = (uint32_t)new_height_d;\n  uint32_t rows = *out_height;"), sub("conversion.c", "  return resized_data;", "  *out_height = rows + 1;\n  return resized_data;"))
B("size resize ceil", "C06", sub("conversion.c", "*out_width = (uint32_t)new_width_d;", "*out_width = (uint32_t)ceil(new_width_d);"))
B("size hist height", "C06", sub("histogram.c", "*out_height = hist_height;", "*out_height = hist_height + 1;"))
B("size trim reports old", "C06", sub("trim.c", "  *height = (int32_t)new_height;", ""))
B("size flip guard", "C06", sub("flip.c", "  if (num_pixels > SIZE_MAX / 4) {\n    return NULL;\n  }\n", ""))
B("size rgba2gray over", "C06", sub("rgba_to_grayscale.c", "malloc(img_length_px)", "malloc(img_length_px + 16)"))
B("size sobel ch", "C06", sub("sobel_edge_detection.c", "uint8_t *sobel_data = malloc(img_length_px)", "uint8_t *sobel_data = malloc(img_length_px * channels)"))
B("size watershed int", "C06", sub("watershed_segmentation.c", "size_t img_length_px =", "uint32_t img_length_px ="))
B("size closing swap", "C06", sub("binary_closing_disk.c", "size_t num_pixels = (size_t)width * (size_t)height;", "size_t num_pixels = (size_t)(width * height);"))
# ---- luma (C10)
LUM = "(r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8"
def nth(file, old, new, n): return ("sub", (file, old, new, n))
B("luma stretch hist weights", "C10", nth("conversion.c", LUM, "(r * 77 + g * 150 + b * 29) >> 8", 1))
B("luma stretch second weights", "C10", nth("conversion.c", LUM, "(r * G_WEIGHT + g * R_WEIGHT + b * B_WEIGHT) >> 8", 2))
B("luma gray rounding", "C10", nth("conversion.c", LUM, "(r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT + 128) >> 8", 0))
B("luma sobel3 average", "C10", sub("sobel_edge_detection.c", "(data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT + data[i * 3 + 2] * B_WEIGHT) >> 8", "(data[i * 3] + data[i * 3 + 1] + data[i * 3 + 2]) / 3"))
B("luma float", "C10", sub("rgba_to_grayscale.c", LUM, "(uint8_t)(0.299f * r + 0.587f * g + 0.114f * b)"))
B("luma float double", "C10", sub("rgba_to_grayscale.c", LUM, "(uint8_t)(0.296875 * r + 0.5859375 * g + 0.1171874 * b)"))
B("luma bgr", "C10", sub("rgba_to_grayscale.c", "uint8_t r = data[rgba_index];", "uint8_t r = data[rgba_index + 2];"), sub("rgba_to_grayscale.c", "uint8_t b = data[rgba_index + 2];", "uint8_t b = data[rgba_index];"))
B("luma alpha weight", "C10", nth("conversion.c", LUM, "data[rgba_index + 3] == 0 ? 0 : (r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8", 0))
B("luma stretch alpha", "C10", sub("conversion.c", "if (range == 0) {", "if (data[rgba_index + 3] == 0) {\n      gray = 255;\n    }\n    else if (range == 0) {"))
B("luma stretch neighbour", "C10", nth("conversion.c", "uint8_t g = data[rgba_index + 1];", "uint8_t g = data[i > 0 ? rgba_index - 3 : rgba_index + 1];", 2))
B("luma bw stretch", "C10", sub("conversion.c", "fcv_grayscale(width, height, data);\n  if (!grayscale_data)", "fcv_grayscale_stretch(width, height, data);\n  if (!grayscale_data)"))
B("luma bw blur first", "C10", sub("conversion.c", "fcv_grayscale(width, height, data);\n  if (!grayscale_data)", "fcv_apply_gaussian_blur(width, height, 0, data);\n  if (!grayscale_data)"))
B("luma last pixel", "C10", sub("rgba_to_grayscale.c", "i < img_length_px", "i + 1 < img_length_px"))
B("luma bright clamp", "C10", sub("rgba_to_grayscale.c", "uint8_t gray = "+LUM, "uint32_t sum = r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT;\n    uint8_t gray = sum > 65000 ? 255 : sum >> 8"))
B("luma gray green only", "C10", nth("conversion.c", LUM, "g", 0))
B("luma stretch range0 red", "C10", sub("conversion.c", "// All pixels have same value, preserve as-is\n // (no stretching possible)", "gray = r;"))
B("luma sobel4 own", "C10", sub("sobel_edge_detection.c", "grayscale_data = fcv_rgba_to_grayscale(width, height, data);\n    if (!grayscale_data) {\n      return NULL;\n    }", "grayscale_data = malloc(img_length_px);\n    if (!grayscale_data) {\n      return NULL;\n    }\n    for (size_t i = 0; i < img_length_px; i++) {\n      grayscale_data[i] = (data[i * 4] * R_WEIGHT + data[i * 4 + 1] * G_WEIGHT + data[i * 4 + 2] * B_WEIGHT + 255) >> 8;\n    }"))
R("luma div", sub("rgba_to_grayscale.c", LUM, "(r * 76 + g * 150 + b * 30) / 256"))
R("luma helper array", sub("rgba_to_grayscale.c", "uint8_t *fcv_rgba_to_grayscale(", "static uint8_t luma_of(uint8_t const *p) {\n  static const uint32_t wt[3] = {R_WEIGHT, G_WEIGHT, B_WEIGHT};\n  uint32_t s = 0;\n  for (int c = 0; c < 3; c++) { s += p[c] * wt[c]; }\n  return (uint8_t)(s >> 8);\n}\nuint8_t *fcv_rgba_to_grayscale("), sub("rgba_to_grayscale.c", "uint8_t gray = "+LUM, "uint8_t gray = luma_of(&data[rgba_index])"))
R("luma words", sub("rgba_to_grayscale.c", "uint8_t gray = "+LUM, "uint32_t px = (uint32_t)r | (uint32_t)g << 8 | (uint32_t)b << 16;\n    uint8_t gray = ((px & 255) * R_WEIGHT + (px >> 8 & 255) * G_WEIGHT + (px >> 16) * B_WEIGHT) >> 8"))
R("luma float exact", sub("rgba_to_grayscale.c", LUM, "(uint8_t)((r * 76.0 + g * 150.0 + b * 30.0) / 256.0)"))
R("luma gray if equal", nth("conversion.c", LUM, "(r == g && g == b) ? r : (r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8", 0))
R("luma stretch keep", nth("conversion.c", "uint8_t gray = "+LUM+";", "uint8_t gray = gray_values[i];", 1), sub("conversion.c", "free(gray_values);\n\n  uint8_t range", "uint8_t range"), nth("conversion.c", "return grayscale_data;", "free(gray_values);\n  return grayscale_data;", 1))
R("luma stretch no block", sub("conversion.c", "histogram[gray_values[i]]++;", "histogram[(data[i * 4] * R_WEIGHT + data[i * 4 + 1] * G_WEIGHT + data[i * 4 + 2] * B_WEIGHT) >> 8]++;"))
R("luma sobel4 own", sub("sobel_edge_detection.c", "grayscale_data = fcv_rgba_to_grayscale(width, height, data);\n    if (!grayscale_data) {\n      return NULL;\n    }", "grayscale_data = malloc(img_length_px);\n    if (!grayscale_data) {\n      return NULL;\n    }\n    for (size_t i = 0; i < img_length_px; i++) {\n      grayscale_data[i] = (data[i * 4] * R_WEIGHT + data[i * 4 + 1] * G_WEIGHT + data[i * 4 + 2] * B_WEIGHT) >> 8;\n    }"))
R("luma gray via single", sub("conversion.c", "grayscale_data[rgba_index] = gray;", "if ((r | g | b) == 0) { gray = 0; }\n    grayscale_data[rgba_index] = gray;"))
R("luma otsu via rgba", sub("conversion.c", "uint8_t *grayscale_img = fcv_rgba_to_grayscale(width, height, data);", "uint8_t *full = fcv_grayscale(width, height, data);\n  if (!full) { return NULL; }\n  uint8_t *grayscale_img = malloc((size_t)width * height);\n  if (grayscale_img) { for (size_t k = 0; k < (size_t)width * height; k++) { grayscale_img[k] = full[4 * k]; } }\n  free(full);"))
# ---- initialisation (C09)
B("init gray alpha", "C09 C08", nth("conversion.c", "grayscale_data[rgba_index + 3] = 255;", "", 0))
B("init dilation no memset", "C09", sub("binary_closing_disk.c", "memset(result, 0, num_pixels);", ""))
B("init sobel border", "C09", nth("sobel_edge_detection.c", "for (uint32_t y = 0; y < height; y++) {\n    for (uint32_t x = 0; x < width; x++) {\n      double magnitude = magnitudes", "for (uint32_t y = 1; y + 1 < height; y++) {\n    for (uint32_t x = 1; x + 1 < width; x++) {\n      double magnitude = magnitudes", 0))
B("init sobel magnitudes inner", "C09", sub("sobel_edge_detection.c", "for (uint32_t y = 0; y < height; y++) {\n    for (uint32_t x = 0; x < width; x++) {\n      int32_t gx = 0;", "for (uint32_t y = 1; y < height; y++) {\n    for (uint32_t x = 0; x < width; x++) {\n      int32_t gx = 0;"))
B("init hist malloc", "C09", sub("histogram.c", "calloc(output_size, sizeof(uint8_t))", "malloc(output_size)"))
B("init matrix malloc", "C09", sub("perspectivetransform.c", "calloc(out_pixels * 4, sizeof(uint8_t))", "malloc(out_pixels * 4)"))
B("init resize no else", "C09", sub("conversion.c", "else {\n          resized_data[(out_y * *out_width + out_x) * 4] = 0;\n          resized_data[(out_y * *out_width + out_x) * 4 + 1] = 0;\n          resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;\n        }", ""))
B("init resize alpha up", "C09 C08", nth("conversion.c", "resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;", "", 1))
B("init watershed labels", "C09", sub("watershed_segmentation.c", "for (uint32_t i = 0; i < img_length_px; i++) {\n    labels[i] = -1;", "for (uint32_t i = 0; i + 1 < img_length_px; i++) {\n    labels[i] = -1;"))
B("init convert else", "C09", sub("convert_to_binary.c", "else {\n      // Default to black for unmatched colors\n      result[i] = 0;\n    }", "else if (i > 0) {\n      result[i] = result[i - 1];\n    }"))
B("init foerstner odd", "C09", sub("foerstner_corner.c", "result[i * 2 + 1] = q_byte; // q measure", "if (max_q > 0.0) { result[i * 2 + 1] = q_byte; }"))
B("init blur temp rows", "C09", sub("conversion.c", "memcpy(temp_data, blurred_data, img_length_px * 4);", "memcpy(temp_data, blurred_data, img_length_px * 3);"))
B("init kernel half", "C09", sub("conversion.c", "for (uint32_t i = 0; i < kernel_size; i++)", "for (uint32_t i = 1; i < kernel_size; i++)"))
B("init single alpha", "C09 C08", sub("single_to_multichannel.c", "multichannel_data[rgba_index + 3] = 255;", "if (data[i]) { multichannel_data[rgba_index + 3] = 255; }"))
B("init bw alpha", "C09", sub("conversion.c", "i < img_length_px; i++) {\n    uint32_t rgba_idx = i * 4;\n    int32_t high", "i + 1 < img_length_px; i++) {\n    uint32_t rgba_idx = i * 4;\n    int32_t high"))
B("init crop row", "C09", sub("crop.c", "i < new_height", "i < new_height - (new_height > 600)"))
B("init border corner", "C09", sub("draw.c", "for (uint32_t x = 0; x < *output_width; x++) {\n      uint32_t pixel_index", "for (uint32_t x = (y == 0); x < *output_width; x++) {\n      uint32_t pixel_index"))
B("init border alpha", "C09", sub("draw.c", "if (channels == 4) {\n          output_data[pixel_index + 3] = 255; // A\n        }", ""))
B("init gray local", "C09", sub("histogram.c", "uint32_t max_count = 0;", "uint32_t max_count;"))
B("init hist array", "C09", sub("histogram.c", "uint32_t hist_gray[256] = {0};", "uint32_t hist_gray[256];"))
B("init otsu hist", "C09", nth("conversion.c", "[256] = {0}", "[256]", 1))
